/* A library with the interface of geodiff that does nothing and returns the code in STUB_RC. */
#include <stdlib.h>
static int rc( void ) { const char *e = getenv( "STUB_RC" ); return e ? atoi( e ) : 0; }
void GEODIFF_init( void ) {}
const char *GEODIFF_version( void ) { const char *e = getenv( "STUB_VERSION" ); return e ? e : ""; }
void GEODIFF_setLoggerCallback( void *f ) {}
void GEODIFF_setMaximumLoggerLevel( int l ) {}
#define S(n) int GEODIFF_##n( const char *a ) { return rc(); }
S( createChangeset ) S( invertChangeset ) S( rebase ) S( createRebasedChangeset ) S( applyChangeset ) S( listChanges ) S( listChangesSummary ) S( hasChanges ) S( changesCount )
