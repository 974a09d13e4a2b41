// Stand-in for libgpkg: registers the SQL functions which the triggers of a
// GeoPackage use (ST_IsEmpty, ST_Min/Max X/Y) and InitSpatialMetadata().
#include "gpkg.h"
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>

namespace {
struct Box { bool ok = false, empty = true; double v[4] = { 0, 0, 0, 0 }; };

struct Wkb {
  const unsigned char *p, *e; bool bad = false;
  bool le = true;
  bool need( size_t n ) { if ( ( size_t )( e - p ) < n ) { bad = true; return false; } return true; }
  uint32_t u32() { if ( !need( 4 ) ) return 0; uint32_t r = 0; for ( int i = 0; i < 4; i++ ) r |= ( uint32_t )p[le ? i : 3 - i] << ( 8 * i ); p += 4; return r; }
  double dbl() { if ( !need( 8 ) ) return 0; uint64_t r = 0; for ( int i = 0; i < 8; i++ ) r |= ( uint64_t )p[le ? i : 7 - i] << ( 8 * i ); p += 8; double d; memcpy( &d, &r, 8 ); return d; }
  void pt( int dims, Box &b ) {
    double c[4]; for ( int i = 0; i < dims; i++ ) c[i] = dbl();
    if ( bad || std::isnan( c[0] ) || std::isnan( c[1] ) ) return;
    if ( b.empty ) { b.v[0] = b.v[1] = c[0]; b.v[2] = b.v[3] = c[1]; b.empty = false; }
    else { if ( c[0] < b.v[0] ) b.v[0] = c[0]; if ( c[0] > b.v[1] ) b.v[1] = c[0]; if ( c[1] < b.v[2] ) b.v[2] = c[1]; if ( c[1] > b.v[3] ) b.v[3] = c[1]; }
  }
  void geom( Box &b, int depth = 0 ) {
    if ( bad || depth > 16 || !need( 1 ) ) { bad = true; return; }
    le = *p++ == 1;
    uint32_t t = u32(); int dims = 2;
    if ( t & 0x80000000u ) dims++;
    if ( t & 0x40000000u ) dims++;
    t &= 0x0fffffffu;
    if ( t >= 3000 ) dims = 4; else if ( t >= 1000 ) dims = 3;
    t %= 1000;
    if ( t == 1 ) pt( dims, b );
    else if ( t == 2 ) { uint32_t n = u32(); for ( uint32_t i = 0; i < n && !bad; i++ ) pt( dims, b ); }
    else if ( t == 3 ) { uint32_t r = u32(); for ( uint32_t k = 0; k < r && !bad; k++ ) { uint32_t n = u32(); for ( uint32_t i = 0; i < n && !bad; i++ ) pt( dims, b ); } }
    else if ( t >= 4 && t <= 7 ) { uint32_t n = u32(); for ( uint32_t i = 0; i < n && !bad; i++ ) geom( b, depth + 1 ); }
    else bad = true;
  }
};

Box parse( sqlite3_value *v ) {
  Box b;
  if ( sqlite3_value_type( v ) != SQLITE_BLOB ) return b;
  const unsigned char *p = ( const unsigned char * )sqlite3_value_blob( v );
  int n = sqlite3_value_bytes( v );
  if ( n < 8 || p[0] != 'G' || p[1] != 'P' ) return b;
  static const int envSize[8] = { 0, 32, 48, 48, 64, -1, -1, -1 };
  int env = envSize[( p[3] >> 1 ) & 7];
  if ( env < 0 || n < 8 + env ) return b;
  Wkb w; w.p = p + 8 + env; w.e = p + n;
  w.geom( b );
  b.ok = !w.bad;
  return b;
}

void fnIsEmpty( sqlite3_context *c, int, sqlite3_value **a ) { Box b = parse( a[0] ); if ( !b.ok ) sqlite3_result_null( c ); else sqlite3_result_int( c, b.empty ); }
void fnBox( sqlite3_context *c, int, sqlite3_value **a ) {
  Box b = parse( a[0] ); long i = ( long )( intptr_t )sqlite3_user_data( c );
  if ( !b.ok || b.empty ) sqlite3_result_null( c ); else sqlite3_result_double( c, b.v[i] );
}

const char *initSql =
"CREATE TABLE IF NOT EXISTS gpkg_spatial_ref_sys (srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
"INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('Undefined Cartesian', -1, 'NONE', -1, 'undefined', '');"
"INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('Undefined Geographic', 0, 'NONE', 0, 'undefined', '');"
"INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('WGS 84 geodetic', 4326, 'EPSG', 4326, 'GEOGCS[\"WGS 84\"]', '');"
"CREATE TABLE IF NOT EXISTS gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')), min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
"CREATE TABLE IF NOT EXISTS gpkg_geometry_columns (table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));";

void fnInit( sqlite3_context *c, int, sqlite3_value ** ) {
  sqlite3 *db = sqlite3_context_db_handle( c );
  if ( sqlite3_exec( db, initSql, 0, 0, 0 ) != SQLITE_OK ) sqlite3_result_error( c, sqlite3_errmsg( db ), -1 );
  else sqlite3_result_int( c, 1 );
}
}

extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, const char **, const void * ) {
  int f = SQLITE_UTF8 | SQLITE_DETERMINISTIC;
  int rc = sqlite3_create_function( db, "ST_IsEmpty", 1, f, 0, fnIsEmpty, 0, 0 );
  const char *names[] = { "ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY" };
  for ( long i = 0; i < 4 && rc == SQLITE_OK; i++ ) rc = sqlite3_create_function( db, names[i], 1, f, ( void * )( intptr_t )i, fnBox, 0, 0 );
  for ( int n = 0; n <= 1 && rc == SQLITE_OK; n++ ) rc = sqlite3_create_function( db, "InitSpatialMetadata", n, SQLITE_UTF8, 0, fnInit, 0, 0 );
  return rc;
}
