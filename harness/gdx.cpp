// Runner: executes calls of the public C API of geodiff on behalf of the checks.
//
// Protocol (stdin -> response descriptor), one request per line, fields separated by TAB, every field
// percent-encoded, the field "\N" is a NULL pointer:
//   call <function> <args...>   -> ret <rc> / exc <what>, followed by the log lines received, then "."
//   level <n> | callback on|off|default
//   fault <mode> <n>            -> arms the VFS shim (see below); fault off <0> answers with the counters
//   fsize <n>                   -> RLIMIT_FSIZE (n < 0: unlimited)
//   locale <name>               -> setlocale and std::locale::global; 1 if it exists
//   fds                         -> open descriptors
// Fault modes (operations of SQLite's file system layer, counted from 1 since arming):
//   count        only count
//   read n / write n / lock n / sync n / open n  the n-th such operation fails
//   file n       the n-th opening of a file that is not a database fails; full n: the n-th one opened for writing is on a full device;
//   data n       the n-th reading of such a file fails (these three only in the flavour with GDX_FILES)
//   kill n       SIGKILL to self before the n-th mutating operation (write, truncate, delete, sync)
//   pause n      answer "paused" before the n-th operation of any kind, and wait for a line "go"
//   pausew n     the same, counting only the mutating operations
//   pauseall     the same, before every operation from the n-th on
// A failing operation keeps failing when the mode has the suffix "+" (e.g. write+).
#include "geodiff.h"
#include <sqlite3.h>
#include <clocale>
#include <locale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/resource.h>

static FILE *gOut = nullptr;
static std::vector<std::pair<int, std::string>> gLog;
static bool gLogOn = true;

static std::string enc( const std::string &s ) {
  static const char *h = "0123456789ABCDEF"; std::string r;
  for ( unsigned char c : s ) { if ( c < 33 || c == '%' || c > 126 ) { r += '%'; r += h[c >> 4]; r += h[c & 15]; } else r += ( char )c; }
  return r;
}
static std::string dec( const std::string &s ) {
  std::string r;
  for ( size_t i = 0; i < s.size(); i++ ) {
    if ( s[i] == '%' && i + 2 < s.size() ) { r += ( char )strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; }
    else r += s[i];
  }
  return r;
}
static void onLog( GEODIFF_LoggerLevel level, const char *msg ) { gLog.emplace_back( ( int )level, msg ? msg : "(null)" ); }

// ---------------------------------------------------------------- VFS shim
static std::string gMode = "off"; static bool gSticky = false; static long gAt = 0;
static long gCnt[11]; // read write lock sync open delete/truncate | mutating | all | other files: opened, removed | opened to be written | read
static bool waitLine();

static int hit( const char *kind, int idx, bool mut ) {
  ++gCnt[idx]; ++gCnt[7]; if ( mut ) ++gCnt[6];
  if ( gMode == "off" || gMode == "count" ) return 0;
  if ( gMode == "kill" ) { if ( mut && gCnt[6] == gAt ) { kill( getpid(), SIGKILL ); } return 0; }
  if ( gMode == "pause" || gMode == "pausew" ) {
    bool w = gMode == "pausew";
    if ( ( !w || mut ) && gCnt[w ? 6 : 7] == gAt ) { fprintf( gOut, "paused\t%s\n", kind ); fflush( gOut ); waitLine(); }
    return 0;
  }
  if ( gMode == "pauseall" ) { if ( gCnt[7] >= gAt ) { fprintf( gOut, "paused\t%s\n", kind ); fflush( gOut ); waitLine(); } return 0; }
  if ( gMode == kind ) return gSticky ? gCnt[idx] >= gAt : gCnt[idx] == gAt;
  return 0;
}

// files that are not databases (SQLite itself uses neither of these functions)
#ifdef GDX_FILES
#include <dlfcn.h>
static bool gReady = false;
#include <errno.h>
static bool hitData( const char *kind, int idx ) { ++gCnt[idx]; return gMode == kind && ( gSticky ? gCnt[idx] >= gAt : gCnt[idx] == gAt ); }
// mode "full": the n-th file opened for writing is on a device without space
static FILE *opened( FILE *f, const char *m ) {
  if ( gReady && f && m && m[0] != 'r' && hitData( "full", 9 ) ) { int d = open( "/dev/full", O_WRONLY ); dup2( d, fileno( f ) ); close( d ); }
  return f;
}
extern "C" FILE *fopen( const char *p, const char *m ) {
  static auto real = ( FILE * ( * )( const char *, const char * ) )dlsym( RTLD_NEXT, "fopen" );
  if ( gReady && hit( "file", 8, m && m[0] != 'r' ) ) { errno = ENOSPC; return nullptr; }
  return opened( real( p, m ), m );
}
// mode "data": the n-th reading of such a file fails (after half of the data)
extern "C" size_t fread( void *b, size_t s, size_t n, FILE *f ) {
  static auto real = ( size_t ( * )( void *, size_t, size_t, FILE * ) )dlsym( RTLD_NEXT, "fread" );
  if ( gReady && hitData( "data", 10 ) ) { errno = EIO; return real( b, s, n / 2, f ); }
  return real( b, s, n, f );
}
extern "C" ssize_t read( int fd, void *b, size_t n ) {
  static auto real = ( ssize_t ( * )( int, void *, size_t ) )dlsym( RTLD_NEXT, "read" );
  if ( gReady && fd > 2 && hitData( "data", 10 ) ) { errno = EIO; return -1; }
  return real( fd, b, n );
}
extern "C" FILE *fopen64( const char *p, const char *m ) {
  static auto real = ( FILE * ( * )( const char *, const char * ) )dlsym( RTLD_NEXT, "fopen64" );
  if ( gReady && hit( "file", 8, m && m[0] != 'r' ) ) { errno = ENOSPC; return nullptr; }
  return opened( real( p, m ), m );
}
extern "C" int remove( const char *p ) {
  static auto real = ( int ( * )( const char * ) )dlsym( RTLD_NEXT, "remove" );
  if ( gReady && gMode != "file" ) hit( "remove", 8, true );
  return real( p );
}
#endif

struct ShimFile { sqlite3_file base; sqlite3_file *real; };
static sqlite3_vfs *gReal;
#define R(f) (((ShimFile*)(f))->real)
static int sClose( sqlite3_file *f ) { int rc = R( f )->pMethods ? R( f )->pMethods->xClose( R( f ) ) : SQLITE_OK; free( R( f ) ); return rc; }
static int sRead( sqlite3_file *f, void *b, int n, sqlite3_int64 o ) { if ( hit( "read", 0, false ) ) return SQLITE_IOERR_READ; return R( f )->pMethods->xRead( R( f ), b, n, o ); }
static int sWrite( sqlite3_file *f, const void *b, int n, sqlite3_int64 o ) { if ( hit( "write", 1, true ) ) return gSticky ? SQLITE_FULL : SQLITE_IOERR_WRITE; return R( f )->pMethods->xWrite( R( f ), b, n, o ); }
static int sTrunc( sqlite3_file *f, sqlite3_int64 n ) { if ( hit( "truncate", 5, true ) ) return SQLITE_IOERR_TRUNCATE; return R( f )->pMethods->xTruncate( R( f ), n ); }
static int sSync( sqlite3_file *f, int fl ) { ( void )f; ( void )fl; if ( hit( "sync", 3, true ) ) return SQLITE_IOERR_FSYNC; return SQLITE_OK; }
static int sSize( sqlite3_file *f, sqlite3_int64 *p ) { return R( f )->pMethods->xFileSize( R( f ), p ); }
static int sLock( sqlite3_file *f, int l ) { if ( hit( "lock", 2, false ) ) return SQLITE_BUSY; return R( f )->pMethods->xLock( R( f ), l ); }
static int sUnlock( sqlite3_file *f, int l ) { return R( f )->pMethods->xUnlock( R( f ), l ); }
static int sReserved( sqlite3_file *f, int *p ) { return R( f )->pMethods->xCheckReservedLock( R( f ), p ); }
static int sControl( sqlite3_file *f, int op, void *a ) { return R( f )->pMethods->xFileControl( R( f ), op, a ); }
static int sSector( sqlite3_file *f ) { return R( f )->pMethods->xSectorSize( R( f ) ); }
static int sChar( sqlite3_file *f ) { return R( f )->pMethods->xDeviceCharacteristics( R( f ) ); }
static int sShmMap( sqlite3_file *f, int a, int b, int c, void volatile **d ) { return R( f )->pMethods->xShmMap( R( f ), a, b, c, d ); }
static int sShmLock( sqlite3_file *f, int a, int b, int c ) { return R( f )->pMethods->xShmLock( R( f ), a, b, c ); }
static void sShmBarrier( sqlite3_file *f ) { R( f )->pMethods->xShmBarrier( R( f ) ); }
static int sShmUnmap( sqlite3_file *f, int d ) { return R( f )->pMethods->xShmUnmap( R( f ), d ); }
static const sqlite3_io_methods gMethods = { 2, sClose, sRead, sWrite, sTrunc, sSync, sSize, sLock, sUnlock, sReserved, sControl, sSector, sChar, sShmMap, sShmLock, sShmBarrier, sShmUnmap, 0, 0 };

static int vOpen( sqlite3_vfs *, sqlite3_filename z, sqlite3_file *f, int fl, int *o ) {
  f->pMethods = nullptr;
  if ( hit( "open", 4, false ) ) return SQLITE_CANTOPEN;
  sqlite3_file *real = ( sqlite3_file * )calloc( 1, gReal->szOsFile );
  int rc = gReal->xOpen( gReal, z, real, fl, o );
  if ( rc != SQLITE_OK ) { free( real ); return rc; }
  ( ( ShimFile * )f )->real = real; f->pMethods = &gMethods;
  return rc;
}
static int vDelete( sqlite3_vfs *, const char *z, int d ) { if ( hit( "delete", 5, true ) ) return SQLITE_IOERR_DELETE; return gReal->xDelete( gReal, z, 0 * d ); }
static int vAccess( sqlite3_vfs *, const char *z, int f, int *r ) { return gReal->xAccess( gReal, z, f, r ); }
static int vFull( sqlite3_vfs *, const char *z, int n, char *o ) { return gReal->xFullPathname( gReal, z, n, o ); }

static void installVfs() {
  gReal = sqlite3_vfs_find( nullptr );
  static sqlite3_vfs v; v = *gReal;
  v.szOsFile = sizeof( ShimFile ); v.zName = "shim"; v.pNext = nullptr;
  v.xOpen = vOpen; v.xDelete = vDelete; v.xAccess = vAccess; v.xFullPathname = vFull;
  sqlite3_vfs_register( &v, 1 );
}

// ---------------------------------------------------------------- requests
static std::string gLine;
static bool readLine() {
  gLine.clear();
  for ( ;; ) { char c; ssize_t n = read( 0, &c, 1 ); if ( n <= 0 ) return false; if ( c == '\n' ) return true; gLine += c; }
}
static bool waitLine() { std::string keep = gLine; bool ok = readLine(); gLine = keep; return ok; }

struct Args {
  std::vector<std::string> s; std::vector<bool> null;
  const char *operator[]( size_t i ) const { return i >= s.size() || null[i] ? nullptr : s[i].c_str(); }
};

// ---------------------------------------------------------------- SQLite's session extension
static bool slurp( const char *path, std::string &out ) {
  FILE *f = fopen( path, "rb" ); if ( !f ) return false;
  char buf[65536]; size_t n; while ( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 ) out.append( buf, n );
  fclose( f ); return true;
}
static bool spill( const char *path, const void *p, size_t n ) { FILE *f = fopen( path, "wb" ); if ( !f ) return false; bool ok = fwrite( p, 1, n, f ) == n; return fclose( f ) == 0 && ok; }
static std::string hexs( const void *p, size_t n ) { static const char *h = "0123456789abcdef"; std::string r; for ( size_t i = 0; i < n; i++ ) { unsigned char c = ( ( const unsigned char * )p )[i]; r += h[c >> 4]; r += h[c & 15]; } return r; }
static std::string valueText( sqlite3_value *v ) {
  if ( !v ) return "u";
  switch ( sqlite3_value_type( v ) ) {
    case SQLITE_INTEGER: return "i" + std::to_string( sqlite3_value_int64( v ) );
    case SQLITE_FLOAT: { double d = sqlite3_value_double( v ); uint64_t x; memcpy( &x, &d, 8 ); unsigned char b[8]; for ( int i = 0; i < 8; i++ ) b[i] = ( unsigned char )( x >> ( 56 - 8 * i ) ); return "r" + hexs( b, 8 ); }
    case SQLITE_TEXT: { const void *p = sqlite3_value_text( v ); return "t" + hexs( p, sqlite3_value_bytes( v ) ); }
    case SQLITE_BLOB: { const void *p = sqlite3_value_blob( v ); return "b" + hexs( p, sqlite3_value_bytes( v ) ); }
    default: return "n";
  }
}
// lists a changeset as SQLite reads it: "T name flags", then per entry "op indirect" and its values
static int sqIterate( const char *cs, const char *out ) {
  std::string b, r; if ( !slurp( cs, b ) ) return 1;
  sqlite3_changeset_iter *it = nullptr;
  if ( sqlite3changeset_start( &it, ( int )b.size(), ( void * )b.data() ) != SQLITE_OK ) return 1;
  int rc;
  while ( ( rc = sqlite3changeset_next( it ) ) == SQLITE_ROW ) {
    const char *tab; int n, op, ind; unsigned char *pk;
    sqlite3changeset_op( it, &tab, &n, &op, &ind ); sqlite3changeset_pk( it, &pk, nullptr );
    r += hexs( tab, strlen( tab ) ) + "\t" + hexs( pk, n ) + "\t" + std::to_string( op ) + "\t" + std::to_string( ind );
    for ( int side = 0; side < 2; side++ ) {
      if ( ( side == 0 && op == SQLITE_INSERT ) || ( side == 1 && op == SQLITE_DELETE ) ) continue;
      for ( int i = 0; i < n; i++ ) { sqlite3_value *v = nullptr; if ( side == 0 ) sqlite3changeset_old( it, i, &v ); else sqlite3changeset_new( it, i, &v ); r += "\t" + valueText( v ); }
    }
    r += "\n";
  }
  if ( sqlite3changeset_finalize( it ) != SQLITE_OK || rc != SQLITE_DONE ) return 1;
  return spill( out, r.data(), r.size() ) ? 0 : 1;
}
static int onConflict( void *, int, sqlite3_changeset_iter * ) { return SQLITE_CHANGESET_ABORT; }
static int sqApply( const char *db, const char *cs ) {
  std::string b; if ( !slurp( cs, b ) ) return 1;
  sqlite3 *d = nullptr; int rc = sqlite3_open( db, &d );
  if ( rc == SQLITE_OK && !b.empty() ) rc = sqlite3changeset_apply( d, ( int )b.size(), ( void * )b.data(), nullptr, onConflict, nullptr );
  sqlite3_close( d ); return rc != SQLITE_OK;
}
// runs SQL on a database and writes the changeset that SQLite records meanwhile
static int sqRecord( const char *db, const char *sqlfile, const char *out ) {
  std::string q; if ( !slurp( sqlfile, q ) ) return 1;
  sqlite3 *d = nullptr; sqlite3_session *s = nullptr; int n = 0; void *p = nullptr;
  int rc = sqlite3_open( db, &d );
  if ( rc == SQLITE_OK ) rc = sqlite3session_create( d, "main", &s );
  if ( rc == SQLITE_OK ) rc = sqlite3session_attach( s, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3_exec( d, q.c_str(), nullptr, nullptr, nullptr );
  if ( rc == SQLITE_OK ) rc = sqlite3session_changeset( s, &n, &p );
  if ( rc == SQLITE_OK && !spill( out, p, n ) ) rc = SQLITE_IOERR;
  sqlite3_free( p ); if ( s ) sqlite3session_delete( s ); sqlite3_close( d );
  return rc != SQLITE_OK;
}
static int sqInvert( const char *cs, const char *out ) {
  std::string b; if ( !slurp( cs, b ) ) return 1;
  int n = 0; void *p = nullptr; int rc = sqlite3changeset_invert( ( int )b.size(), b.data(), &n, &p );
  if ( rc == SQLITE_OK && !spill( out, p, n ) ) rc = SQLITE_IOERR;
  sqlite3_free( p ); return rc != SQLITE_OK;
}
static int sqConcat( const char *x, const char *y, const char *out ) {
  std::string a, b; if ( !slurp( x, a ) || !slurp( y, b ) ) return 1;
  int n = 0; void *p = nullptr; int rc = sqlite3changeset_concat( ( int )a.size(), ( void * )a.data(), ( int )b.size(), ( void * )b.data(), &n, &p );
  if ( rc == SQLITE_OK && !spill( out, p, n ) ) rc = SQLITE_IOERR;
  sqlite3_free( p ); return rc != SQLITE_OK;
}

static int callApi( const std::string &f, const Args &a, bool &known ) {
  known = true;
  if ( f == "createChangeset" ) return GEODIFF_createChangeset( a[0], a[1], a[2] );
  if ( f == "createChangesetEx" ) return GEODIFF_createChangesetEx( a[0], a[1], a[2], a[3], a[4] );
  if ( f == "applyChangeset" ) return GEODIFF_applyChangeset( a[0], a[1] );
  if ( f == "applyChangesetEx" ) return GEODIFF_applyChangesetEx( a[0], a[1], a[2], a[3] );
  if ( f == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( a[0], a[1], a[2], a[3], a[4] );
  if ( f == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( a[0], a[1], a[2], a[3], a[4], a[5], a[6] );
  if ( f == "hasChanges" ) return GEODIFF_hasChanges( a[0] );
  if ( f == "changesCount" ) return GEODIFF_changesCount( a[0] );
  if ( f == "listChanges" ) return GEODIFF_listChanges( a[0], a[1] );
  if ( f == "listChangesSummary" ) return GEODIFF_listChangesSummary( a[0], a[1] );
  if ( f == "invertChangeset" ) return GEODIFF_invertChangeset( a[0], a[1] );
  if ( f == "rebase" ) return GEODIFF_rebase( a[0], a[1], a[2], a[3] );
  if ( f == "rebaseEx" ) return GEODIFF_rebaseEx( a[0], a[1], a[2], a[3], a[4], a[5] );
  if ( f == "makeCopy" ) return GEODIFF_makeCopy( a[0], a[1], a[2], a[3], a[4], a[5] );
  if ( f == "dumpData" ) return GEODIFF_dumpData( a[0], a[1], a[2], a[3] );
  if ( f == "sqIterate" ) return sqIterate( a[0], a[1] );
  if ( f == "sqApply" ) return sqApply( a[0], a[1] );
  if ( f == "sqRecord" ) return sqRecord( a[0], a[1], a[2] );
  if ( f == "sqInvert" ) return sqInvert( a[0], a[1] );
  if ( f == "sqConcat" ) return sqConcat( a[0], a[1], a[2] );
  if ( f == "version" ) { gLog.emplace_back( 0, GEODIFF_version() ); return 0; }
  known = false; return -99;
}

int main() {
  // responses go to the original stdout; what the library prints goes to GDX_STDOUT (or nowhere)
  gOut = fdopen( dup( 1 ), "w" );
  const char *so = getenv( "GDX_STDOUT" );
  int fd = open( so ? so : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600 );
  dup2( fd, 1 );
  if ( so ) dup2( fd, 2 );
  close( fd );
  signal( SIGXFSZ, SIG_IGN );
  GEODIFF_init();
  installVfs();
#ifdef GDX_FILES
  gReady = true;
#endif
  if ( !getenv( "GDX_DEFAULT_LOGGER" ) ) {
    GEODIFF_setLoggerCallback( onLog );
    GEODIFF_setMaximumLoggerLevel( LevelWarning );
  }
  while ( readLine() ) {
    std::vector<std::string> f; size_t p = 0;
    for ( ;; ) { size_t q = gLine.find( '\t', p ); f.push_back( gLine.substr( p, q == std::string::npos ? q : q - p ) ); if ( q == std::string::npos ) break; p = q + 1; }
    if ( f[0] == "call" && f.size() > 1 ) {
      Args a;
      for ( size_t i = 2; i < f.size(); i++ ) { a.null.push_back( f[i] == "\\N" ); a.s.push_back( dec( f[i] ) ); }
      gLog.clear();
      bool known = true; int rc = 0; std::string exc; bool threw = false;
      try { rc = callApi( f[1], a, known ); }
      catch ( const std::exception &e ) { threw = true; exc = e.what(); }
      catch ( ... ) { threw = true; exc = "unknown"; }
      gMode = gMode.compare( 0, 5, "pause" ) == 0 || gMode == "kill" ? "count" : gMode;
      fflush( stdout );
      if ( !known ) { fprintf( gOut, "err\tunknown call\n.\n" ); fflush( gOut ); continue; }
      if ( threw ) fprintf( gOut, "exc\t%s\n", enc( exc ).c_str() ); else fprintf( gOut, "ret\t%d\n", rc );
      for ( auto &l : gLog ) fprintf( gOut, "log\t%d\t%s\n", l.first, enc( l.second ).c_str() );
    }
    else if ( f[0] == "level" ) { GEODIFF_setMaximumLoggerLevel( static_cast<GEODIFF_LoggerLevel>( atoi( f[1].c_str() ) ) ); }
    else if ( f[0] == "callback" ) { GEODIFF_setLoggerCallback( f[1] == "on" ? onLog : nullptr ); }
    else if ( f[0] == "fault" ) {
      fprintf( gOut, "cnt" ); for ( int i = 0; i < 11; i++ ) fprintf( gOut, "\t%ld", gCnt[i] ); fprintf( gOut, "\n" );
      memset( gCnt, 0, sizeof( gCnt ) );
      gMode = f[1]; gSticky = !gMode.empty() && gMode.back() == '+'; if ( gSticky ) gMode.pop_back();
      gAt = atol( f[2].c_str() );
    }
    else if ( f[0] == "fsize" ) { struct rlimit rl; getrlimit( RLIMIT_FSIZE, &rl ); long n = atol( f[1].c_str() ); rl.rlim_cur = n < 0 ? rl.rlim_max : ( rlim_t )n; setrlimit( RLIMIT_FSIZE, &rl ); }
    else if ( f[0] == "locale" ) {      // of the process, as programs with a user interface set it
      bool ok = setlocale( LC_ALL, dec( f[1] ).c_str() ) != nullptr;
      try { std::locale::global( std::locale( dec( f[1] ) ) ); } catch ( const std::exception & ) { ok = false; }
      fprintf( gOut, "locale\t%d\n", ok ? 1 : 0 );
    }
    else if ( f[0] == "fds" ) {
      DIR *d = opendir( "/proc/self/fd" ); int self = dirfd( d );
      while ( struct dirent *e = readdir( d ) ) {
        int n = atoi( e->d_name ); if ( e->d_name[0] == '.' || n == self ) continue;
        char buf[4096]; std::string p = "/proc/self/fd/" + std::string( e->d_name ); ssize_t k = readlink( p.c_str(), buf, sizeof buf );
        fprintf( gOut, "fd\t%d\t%s\n", n, enc( std::string( buf, k > 0 ? k : 0 ) ).c_str() );
      }
      closedir( d );
    }
    fprintf( gOut, ".\n" ); fflush( gOut );
  }
  return 0;
}
