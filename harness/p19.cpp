// P19: an object that has been used before behaves like a fresh one, and everything acquired is released.
// (1) after a random history on one object, a probe session on it is compared (answers, file bytes) with
//     the same session on a fresh object; (2) open file handles are counted around every session and every
//     path; (3) heap in use, as counted by the sanitizer's allocator, must not grow when the same session is
//     repeated on one object or on fresh objects; (4) LeakSanitizer reports what is lost at the end.
#include "trans.hpp"
#include "codec.hpp"
#include "duptext.hpp"
#include <sys/stat.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
const char *MON_RULE = "probe sessions on used and fresh objects agree; handles and heap in use return to their level";

static Str path( const char *n ) { return scratchFile( n ); }
static void badFile( const Str &p, Rng &r )
{
   Str good;
   {
      Gdx g;
      Log l;
      Rng q( r.next() );
      WOpts o;
      o.compr = (int) r.in( 0, 1 );
      writeSession( g, q, p, l, o );
      good = readFileBytes( p );
   }
   switch( r.in( 0, 4 ) )
   {
      case 0: good = good.substr( 0, (size_t) r.in( 0, (int64_t) good.size() - 1 ) ); break;
      case 1: for( int i = 0; i < 20; i++ ) good[(size_t) r.in( 0, (int64_t) good.size() - 1 )] = (char) r.in( 0, 255 ); break;
      case 2: good = "just some text, not a gdx file\n"; break;
      case 3: good.clear(); break;
      case 4: good[(size_t) r.in( 40, (int64_t) good.size() - 1 )] ^= 1; break;
   }
   writeFileBytes( p, good );
}
// one step of history; leaves the object closed
static void history( Gdx &g, Rng &r, int what )
{
   Log l;
   int e = 0, n = 0, df = 0, k[MAXD];
   double v[5];
   Str p = path( "hist.gdx" );
   switch( what )
   {
      case 0:
      case 1:
      {
         WOpts o;
         o.compr = (int) r.in( 0, 1 );
         o.size = (int) r.in( 0, 1 );
         writeSession( g, r, p, l, o );
         if( what == 1 ) { openReadLog( g, p, l ); readSession( g, r, l, (int) r.in( 2, 12 ) ); gdxClose( g ); }
         break;
      }
      case 2:
      {// abandoned while writing, closed anyway
         WOpts o;
         o.abandon = true;
         writeSession( g, r, p, l, o );
         break;
      }
      case 3:
      {// abandoned reading in every mode
         WOpts o;
         writeSession( g, r, p, l, o );
         openReadLog( g, p, l );
         readSession( g, r, l, (int) r.in( 0, 4 ) );
         int act[MAXD];
         for( int &a: act ) a = (int) r.in( -2, 0 );
         int cnt[MAXD];
         switch( r.in( 0, 5 ) )
         {
            case 0: gdxDataReadRawStart( g, 1, &n ); gdxDataReadRaw( g, k, v, &df ); break;
            case 1: gdxDataReadMapStart( g, 1, &n ); gdxDataReadMap( g, 1, k, v, &df ); break;
            case 2: gdxDataReadFilteredStart( g, 1, act, &n ); gdxDataReadMap( g, 1, k, v, &df ); break;
            case 3: gdxDataReadSliceStart( g, 1, cnt ); break;
            case 4: gdxFilterRegisterStart( g, 5 ); break;
            case 5: gdxUELRegisterMapStart( g ); break;
         }
         gdxClose( g );
         break;
      }
      case 4: gdxOpenRead( g, path( "nowhere.gdx" ).c_str(), &e ); break;
      case 5: badFile( p, r ); if( gdxOpenRead( g, p.c_str(), &e ) ) { readSession( g, r, l, 6 ); gdxClose( g ); } break;
      case 6: gdxOpenRead( g, "", &e ); gdxOpenRead( g, g_scratch.c_str(), &e ); break;
      case 7: gdxOpenWrite( g, ( path( "no_such_dir" ) + "/x.gdx" ).c_str(), "x", &e ); gdxOpenWriteEx( g, "", "x", 1, &e ); break;
      case 8:
      {
         badFile( p, r );
         if( gdxOpenAppend( g, p.c_str(), "a", &e ) ) { gdxDataWriteRawStart( g, "zz", "", 1, 1, 0 ); k[0] = 1; v[0] = 3; gdxDataWriteRaw( g, k, v ); gdxDataWriteDone( g ); gdxClose( g ); }
         break;
      }
      case 9:
      {// append
         WOpts o;
         writeSession( g, r, p, l, o );
         if( gdxOpenAppend( g, p.c_str(), "a", &e ) )
         {
            gdxOpenRead( g, p.c_str(), &e );// refused: already open
            gdxDataWriteStrStart( g, "app_sym", "", 1, 1, 0 );
            const char *kk[1] = { "app label" };
            v[0] = 1;
            gdxDataWriteStr( g, kk, v );
            if( r.chance( 1, 2 ) ) gdxDataWriteDone( g );
            gdxClose( g );
         }
         break;
      }
      case 10:
      {// own special values, acronyms and errors
         if( gdxOpenWrite( g, p.c_str(), "x", &e ) )
         {
            double sv[10];
            gdxGetSpecialValues( g, sv );
            for( int i = 0; i < 5; i++ ) sv[i] = 100 + i;
            gdxSetSpecialValues( g, sv );
            gdxAcronymAdd( g, "hist_acr", "", 5 );
            gdxDataWriteStrStart( g, "bad name", "", 1, 1, 0 );
            gdxDataWriteStrStart( g, "good_name", "", 2, 2, 0 );
            gdxDataReadDone( g );
            gdxUELRegisterStrStart( g );
            gdxUELRegisterStr( g, "zzz", &n );
            if( r.chance( 1, 2 ) ) gdxDataWriteDone( g );
            gdxClose( g );
         }
         break;
      }
      case 11: gdxClose( g ); gdxClose( g ); break;
      case 12:
      {// damaged content, all interfaces
         badFile( p, r );
         if( gdxOpenReadEx( g, p.c_str(), (int) r.in( 0, 1 ), &e ) )
         {
            int act[MAXD] = {};
            for( int sy = 0; sy < 4; sy++ ) { if( gdxDataReadFilteredStart( g, sy, act, &n ) ) for( int q = 0; q < 100 && gdxDataReadMap( g, q, k, v, &df ); q++ ) {} gdxDataReadDone( g ); }
            gdxClose( g );
         }
         break;
      }
      case 13:
      {// equal texts under several numbers
         DupFile f = writeDupFile( p, r );
         if( gdxOpenRead( g, p.c_str(), &e ) ) { if( r.chance( 1, 2 ) ) checkDupFile( g, f, r, "hist" ); gdxClose( g ); }
         break;
      }
      case 14:
      {// a file of an older version
         WOpts o;
         writeSession( g, r, p, l, o );
         Decoded d = decodeGdx( readFileBytes( p ) );
         EncOpts eo;
         eo.version = (int) r.in( 5, 7 );
         eo.compr = eo.version > 6 && r.chance( 1, 2 );
         eo.swWord = r.chance( 1, 3 );
         eo.swInt = r.chance( 1, 3 );
         eo.swDbl = r.chance( 1, 3 );
         for( auto &s: d.c.syms ) if( s.dim > 10 && eo.version < 7 ) eo.version = 7;
         writeFileBytes( p, encodeGdx( d.c, eo, r ) );
         if( r.chance( 1, 3 ) ? gdxOpenAppend( g, p.c_str(), "older", &e ) : gdxOpenRead( g, p.c_str(), &e ) ) { readSession( g, r, l, 5 ); gdxClose( g ); count( "older_versions_read" ); }
         break;
      }
   }
   unlink( p.c_str() );
   unlink( path( "nowhere.gdx" ).c_str() );
}
// everything an object can be asked that depends on no data of the session just begun
static void answers( Gdx &g, Log &log, const char *when )
{
   int a = -7, b = -7, c = -7, rc;
   char t[512] = "", t2[512] = "";
   rc = gdxSystemInfo( g, &a, &b );
   log.f( "%s sys %d %d %d", when, rc, a, b );
   for( int sy = -1; sy <= 3; sy++ )
   {
      t[0] = 0;
      rc = gdxSymbolInfo( g, sy, t, &a, &b );
      log.f( "%s sy%d %d %s %d %d", when, sy, rc, t, a, b );
      t[0] = 0;
      rc = gdxSymbolInfoX( g, sy, &a, &b, t );
      log.f( "%s sx%d %d %d %d %s", when, sy, rc, a, b, t );
      rc = gdxSymbolGetComment( g, sy, 1, t );
      log.f( "%s co%d %d %s dim %d txt %d", when, sy, rc, t, gdxSymbolDim( g, sy ), gdxSetHasText( g, sy ) );
   }
   for( int i = 0; i <= 4; i++ )
   {
      t[0] = 0;
      rc = gdxGetUEL( g, i, t );
      log.f( "%s gu%d %d %s", when, i, rc, t );
      t[0] = 0;
      a = -7;
      rc = gdxUMUelGet( g, i, t, &a );
      log.f( "%s ug%d %d %s %d", when, i, rc, t, a );
      t[0] = 0;
      rc = gdxGetElemText( g, i, t, &a );
      log.f( "%s tx%d %d %s %d", when, i, rc, t, a );
      rc = gdxAcronymGetInfo( g, i, t, t2, &a );
      log.f( "%s ac%d %d %s %s %d", when, i, rc, t, t2, a );
      log.f( "%s fl%d %d", when, i, gdxFilterExists( g, i ) );
   }
   for( const char *n: { "a", "x1", "hist_acr", "app_sym", "good_name" } ) { a = -7; rc = gdxFindSymbol( g, n, &a ); log.f( "%s fs %d %d", when, rc, a ); }
   for( const char *n: { "app label", "zzz", "a" } ) { a = b = -7; rc = gdxUMFindUEL( g, n, &a, &b ); log.f( "%s fu %d %d %d", when, rc, a, b ); }
   rc = gdxUMUelInfo( g, &a, &b );
   log.f( "%s um %d %d %d", when, rc, a, b );
   rc = gdxFileInfo( g, &a, &b );
   log.f( "%s fi %d %d %d", when, rc, a, b );
   log.f( "%s len %d %d mem %lld de %d acr %d", when, gdxSymbMaxLength( g ), gdxUELMaxLength( g ), (long long) gdxGetMemoryUsed( g ), gdxDataErrorCount( g ), gdxAcronymCount( g ) );
   if( !strcmp( when, "closed" ) ) return;// no promise about the last file's producer and special values before the next one is opened
   rc = gdxFileVersion( g, t, t2 );
   log.f( "%s fv %d %s %s", when, rc, t, t2 );
   double sv[10] = {};
   gdxGetSpecialValues( g, sv );
   for( int i = 0; i < 5; i++ ) log.f( "%s sv %016llx", when, (unsigned long long) bits( sv[i] ) );
   for( double d: { 100.0, 101.0, 104.0, 1e300, 3e300, 1e301 } ) { c = -7; rc = gdxMapValue( g, d, &c ); log.f( "%s mv %d %d ai %d", when, rc, c, gdxAcronymIndex( g, d ) ); }
}
static void probe( Gdx &g, u64 seed, const Str &p, Log &log, Str &bytes, int size )
{
   Rng r( seed );
   WOpts o;
   o.compr = (int) r.in( 0, 1 );
   o.size = size;
   if( seed % 2 )
   {// what a session begins with
      int e = -1;
      Str q = path( "empty.gdx" );
      gdxAutoConvert( g, 0 );
      for( int ap = 0; ap < 2; ap++ )
      {
         int rc = ap ? gdxOpenAppend( g, q.c_str(), "another", &e ) : gdxOpenWriteEx( g, q.c_str(), "one", (int) ( seed / 2 % 2 ), &e );
         log.f( "start %d %d ec %d le %d", rc, e, gdxErrorCount( g ), gdxGetLastError( g ) );
         answers( g, log, ap ? "append" : "write" );
         log.f( "end %d", gdxClose( g ) );
      }
      openReadLog( g, q, log );
      log.f( "nothing to end %d", gdxDataReadDone( g ) );
      answers( g, log, "read" );
      log.f( "end %d", gdxClose( g ) );
      unlink( q.c_str() );
      count( "session_starts", 3 );
   }
   else answers( g, log, "closed" );
   writeSession( g, r, p, log, o );
   bytes = readFileBytes( p );
   openReadLog( g, p, log );
   // what a fresh session must not know yet
   int n = -1, m = -1, hi = -1;
   gdxSystemInfo( g, &n, &m );
   log.f( "sys %d %d", n, m );
   gdxUMUelInfo( g, &n, &hi );
   log.f( "um %d %d", n, hi );
   for( int i = 1; i <= 5; i++ ) log.f( "flt %d", gdxFilterExists( g, i ) );
   double sv[10] = {};
   gdxGetSpecialValues( g, sv );
   for( int i = 0; i < 5; i++ ) log.f( "sv %016llx", (unsigned long long) bits( sv[i] ) );
   log.f( "acr %d err %d %d de %d dim %d", gdxAcronymCount( g ), gdxErrorCount( g ), gdxGetLastError( g ), gdxDataErrorCount( g ), gdxCurrentDim( g ) * 0 );
   for( int i = 0; i < 4; i++ ) { char t[512] = ""; int node = -1, rc = gdxGetElemText( g, i, t, &node ); log.f( "tx %d %s %d", rc, t, node ); }
   for( int i = 0; i < 4; i++ ) { char t[512] = ""; int rc = gdxGetUEL( g, i, t ); log.f( "gu %d %s", rc, t ); }
   readSession( g, r, log, 14 );
   log.f( "close %d", gdxClose( g ) );
   log.f( "mem %lld", (long long) gdxGetMemoryUsed( g ) );// tables are gone
   int fv = -1, cl = -1, rc = gdxFileInfo( g, &fv, &cl );
   log.f( "fi %d", rc );
   unlink( p.c_str() );
}
static size_t levelAfter( Gdx &g, u64 seed, int kind, int size )
{
   {
      Rng r( seed );
      Log l;
      Str b;
      if( kind < 0 ) probe( g, seed, path( "probe.gdx" ), l, b, size );
      else history( g, r, kind );
   }
   return __sanitizer_get_current_allocated_bytes();
}

void runCase( u64 idx, Rng &r )
{
   int fd0 = openFds();
   if( idx % 3 < 2 )
   {
      u64 seed = r.next();
      int size = r.chance( 1, 8 ) ? 1 : 0;
      Log fresh, used;
      fresh.keep = used.keep = true;
      Str b1, b2;
      { Gdx g; probe( g, seed, path( "probe.gdx" ), fresh, b1, size ); CHECK( openFds() == fd0, "handles", "%d file handles after close, %d before", openFds(), fd0 ); }
      CHECK( openFds() == fd0, "handles", "%d file handles after release, %d before", openFds(), fd0 );
      int steps = (int) r.in( 1, 5 );
      Str what;
      {
         Gdx g;
         for( int i = 0; i < steps; i++ )
         {
            int k = (int) r.in( 0, 14 );
            what += fmt( " %d", k );
            history( g, r, k );
            note( "history_steps", (u64) k );
            CHECK( openFds() == fd0, "handles", "%d file handles after closed sessions%s, %d before", openFds(), what.c_str(), fd0 );
         }
         probe( g, seed, path( "probe.gdx" ), used, b2, size );
      }
      CHECK( openFds() == fd0, "handles", "%d file handles after release, %d before", openFds(), fd0 );
      if( !( fresh == used ) ) fail( "reuse", "after sessions%s the object answers differently: %s", what.c_str(), firstDifference( fresh, used ).c_str() );
      CHECK( b1 == b2, "reuse-bytes", "after sessions%s the object writes different bytes", what.c_str() );
      count( "probes" );
      count( "answers", used.n );
      nontrivial( used.h );
      if( idx < 6 ) sample( fmt( "sessions%s then probe of %llu answers", what.c_str(), (unsigned long long) used.n ) );
   }
   else
   {// repetition: heap in use and handles
      int kind = (int) r.in( -3, 14 );
      if( kind < -1 ) kind = -1;
      u64 seed = r.next();
      int size = r.chance( 1, 10 ) ? 1 : 0;
      if( r.chance( 1, 2 ) )
      {// the same object
         Gdx g;
         size_t lv[6];
         for( size_t &x: lv ) x = levelAfter( g, seed, kind, size );
         // settled after the first rounds
         CHECK( !( lv[5] > lv[3] && lv[4] > lv[2] && lv[3] > lv[1] ), "growth", "kind %d repeated on one object: heap in use %zu %zu %zu %zu %zu %zu", kind, lv[0], lv[1], lv[2], lv[3], lv[4], lv[5] );
         CHECK( openFds() == fd0, "handles", "kind %d: %d file handles, %d before", kind, openFds(), fd0 );
         count( "heap_levels_same_object", 6 );
         note( "levels", lv[5] - lv[0] );
      }
      else
      {
         size_t lv[6];
         for( size_t &x: lv )
         {
            { Gdx g; levelAfter( g, seed, kind, size ); if( r.chance( 1, 3 ) ) { int e; Str p = path( "left.gdx" ); gdxOpenWrite( g, p.c_str(), "x", &e ); gdxDataWriteStrStart( g, "a", "", 1, 1, 0 ); } }
            x = __sanitizer_get_current_allocated_bytes();
         }
         CHECK( !( lv[5] > lv[3] && lv[4] > lv[2] && lv[3] > lv[1] ), "growth", "kind %d on fresh objects: heap in use %zu %zu %zu %zu %zu %zu", kind, lv[0], lv[1], lv[2], lv[3], lv[4], lv[5] );
         CHECK( openFds() == fd0, "handles", "kind %d: %d file handles, %d before", kind, openFds(), fd0 );
         count( "heap_levels_fresh_objects", 6 );
         unlink( path( "left.gdx" ).c_str() );
      }
      nontrivial( seed );
   }
}
void monInit() {}
void monDone() {}
