// P16: an unfinished or truncated file is never taken for a complete one
#include "trans.hpp"
#include "codec.hpp"
#include "iofault.hpp"
const char *MON_RULE = "a case produces one file (random session, write or append, compressed or not, or synthesised by the independent encoder) and presents cut versions of it: prefixes at random, boundary and (small files) all byte positions; the states left by stopping after every recorded write call of the session, torn inside the write; and files of objects freed without close.  Each is opened for reading and for appending and read completely: it has to report an error or yield exactly the complete content (for an interrupted append also exactly the old content); non-trivial = distinct (file, cut) smaller than the complete file";
struct Got { bool reported = false; Str how; Content c; };
static Got tryRead( gdxHandle_t h, const Str &path )
{
   Got g;
   int e = 0;
   int rc = gdxOpenRead( h, path.c_str(), &e );
   if( !rc || e )
   {
      CHECK( e != 0, "open", "opening is refused (%d) without an error number", rc );
      char msg[256] = { 0 };
      gdxErrorStr( h, e, msg );
      CHECK( msg[0], "open", "no explanation for error %d", e );
      if( rc ) gdxClose( h );
      g.reported = true;
      g.how = fmt( "open %d", e );
      return g;
   }
   Str bad;
   try { g.c = readContent( h ); }
   catch( const Fail &f ) { bad = f.msg; }
   int le = gdxGetLastError( h );
   rc = gdxClose( h );
   if( le || rc ) { g.reported = true; g.how = fmt( "read %d close %d", le, rc ); }
   else CHECK( bad.empty(), "silent", "opened without error but inconsistent: %s", bad.c_str() );
   return g;
}
static u64 g_refused, g_exact;
static void judge( gdxHandle_t h, const Str &path, const std::vector<const Content *> &ok, bool complete, const Str &what )
{
   Got g = tryRead( h, path );
   if( g.reported )
   {
      CHECK( !complete, "complete", "%s: a complete file is refused: %s", what.c_str(), g.how.c_str() );
      count( "refused" );
      note( "refusal", hashStr( g.how ) );
      return;
   }
   Str d;
   for( auto *c: ok ) { d = diffContent( *c, g.c ); if( d.empty() ) break; }
   CHECK( d.empty(), "silent", "%s: read without any error although: %s", what.c_str(), d.c_str() );
   count( complete ? "complete_read" : "read_exactly" );
}
static void judgeAppend( gdxHandle_t h, const Str &path, const std::vector<const Content *> &ok, const Str &what )
{
   int e = 0;
   int rc = gdxOpenAppend( h, path.c_str(), "again", &e );
   if( !rc || e ) { if( rc ) gdxClose( h ); count( "append_refused" ); return; }
   gdxAutoConvert( h, 0 );
   rc = gdxClose( h );
   if( rc ) { count( "append_refused" ); return; }
   Content c;
   try { c = readFile( path ); } catch( const Fail &f ) { fail( "append", "%s: appending and closing were accepted, but: %s", what.c_str(), f.msg.c_str() ); }
   Str d;
   for( auto *x: ok ) { d = diffContent( *x, c ); if( d.empty() ) break; }
   CHECK( d.empty(), "append", "%s: appending was accepted although: %s", what.c_str(), d.c_str() );
   count( "append_exact" );
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "f.gdx" ), cut = scratchFile( "cut.gdx" );
   Gdx g;
   int kind = (int) r.in( 0, 5 );
   WOpts o;
   o.size = idx % 23 == 5 ? 2 : idx % 3 == 1 ? 1 : 0;
   o.compr = (int) r.in( 0, 1 );
   Content want, old;
   Str full;
   u64 id = r.next();
   if( kind <= 1 )
   {// prefixes
      bool synth = false;
      if( kind == 0 || r.chance( 1, 2 ) )
      {
         Rng s( r.next() );
         Log l;
         writeSession( g, s, path, l, o );
         full = readFileBytes( path );
      }
      else
      {
         synth = true;
         genFile( r, path, o.compr, o.size == 2 ? 1 : 0 );
         Content c = readFile( path );
         EncOpts eo;
         eo.compr = o.compr;
         eo.swInt = r.chance( 1, 3 ); eo.swWord = r.chance( 1, 3 ); eo.swDbl = r.chance( 1, 3 );
         full = encodeGdx( c, eo, r );
         writeFileBytes( path, full );
      }
      want = readFile( path );
      std::vector<size_t> cuts;
      if( full.size() < 500 && r.chance( 1, 3 ) ) for( size_t i = 0; i <= full.size(); i++ ) cuts.push_back( i );
      else
      {
         Decoded d;
         if( !synth ) try { d = decodeGdx( full ); } catch( const BadFile &b ) { fail( "layout", "%s", b.msg.c_str() ); }
         for( int64_t p: { d.symbPos, d.uelPos, d.textPos, d.acroPos, d.domPos, d.indexPos } ) for( int k = -1; k <= 1; k++ ) if( p + k > 0 && p + k < (int64_t) full.size() ) cuts.push_back( (size_t) ( p + k ) );
         for( size_t i = 1; i <= 24 && i < full.size(); i++ ) cuts.push_back( full.size() - i );
         for( int i = 0; i < 30; i++ ) cuts.push_back( (size_t) r.in( 0, (int64_t) full.size() - 1 ) );
         for( size_t k = 32768; k < full.size(); k += 32768 ) cuts.push_back( k );
         cuts.push_back( full.size() );
      }
      for( size_t k: cuts )
      {
         writeFileBytes( cut, full.substr( 0, k ) );
         Str what = fmt( "first %zu of %zu bytes", k, full.size() );
         judge( g, cut, { &want }, k == full.size(), what );
         if( r.chance( 1, 6 ) ) judgeAppend( g, cut, { &want }, what );
         count( "prefixes" );
         if( k < full.size() ) nontrivial( id ^ k );
      }
      // bytes missing from the middle
      return;
   }
   if( kind == 5 )
   {// object freed without close
      u64 seed = r.next();
      {
         Gdx x;
         Rng s( seed );
         Log l;
         WOpts q = o;
         q.close = false;
         q.abandon = r.chance( 1, 2 );
         writeSession( x, s, path, l, q );
         int rc = gdxClose( x );
         CHECK( rc == 0, "close", "closing failed: %d", rc );
         want = readFile( path );
         remove( path.c_str() );
         Rng s2( seed );
         Gdx y;
         writeSession( y, s2, path, l, q );
      }
      judge( g, path, { &want }, false, "object freed without closing the file" );
      judgeAppend( g, path, { &want }, "object freed without closing the file" );
      count( "freed_without_close" );
      nontrivial( id );
      return;
   }
   // crash points
   bool app = kind == 4;
   u64 seed = r.next(), seed2 = r.next();
   Str base;
   if( app )
   {
      Rng s( seed2 );
      Log l;
      WOpts q = o;
      remove( path.c_str() );
      writeSession( g, s, path, l, q );
      base = readFileBytes( path );
      old = readFile( path );
   }
   else if( r.chance( 1, 2 ) )
   {// an older file is being replaced
      Rng s( seed2 );
      Log l;
      remove( path.c_str() );
      WOpts q = o;
      q.size = 0;
      writeSession( g, s, path, l, q );
      base = readFileBytes( path );
      old = readFile( path );
   }
   else remove( path.c_str() );
   IoPlan rec;
   rec.target = path;
   rec.record = true;
   g_io = &rec;
   {
      Gdx x;
      if( !app )
      {
         Rng s( seed );
         Log l;
         writeSession( x, s, path, l, o );
      }
      else
      {
         int e = 0;
         CHECK( gdxOpenAppend( x, path.c_str(), "app", &e ) && !e, "append", "append refused %d", e );
         gdxAutoConvert( x, 0 );
         Rng s( seed );
         int n = (int) s.in( 0, 3 );
         for( int i = 0; i < n; i++ )
         {
            Str nm = fmt( "appended_%d_%llx", i, (unsigned long long) ( s.next() & 0xffff ) );
            int dim = (int) s.in( 0, 2 );
            gdxDataWriteStrStart( x, nm.c_str(), "t", dim, T_PAR, 0 );
            int m = dim ? (int) s.in( 0, o.size == 2 ? 30000 : 2500 ) : 1;
            for( int k = 0; k < m; k++ )
            {
               Str k1 = fmt( "lab%d", k ), k2 = fmt( "o%d", k % 13 );
               const char *kp[2] = { k1.c_str(), k2.c_str() };
               double v[5] = { (double) k * 1.37 };
               gdxDataWriteStr( x, kp, v );
            }
            gdxDataWriteDone( x );
         }
         CHECK( gdxClose( x ) == 0, "close", "close failed" );
      }
   }
   g_io = nullptr;
   full = readFileBytes( path );
   want = readFile( path );
   CHECK( !rec.log.empty(), "observe", "no write observed" );
   std::vector<const Content *> ok { &want };
   if( !base.empty() ) ok.push_back( &old );
   // replay prefixes of the writes
   std::vector<std::pair<size_t, bool>> points;
   for( size_t i = 0; i < rec.log.size(); i++ ) { points.push_back( { i, false } ); points.push_back( { i, true } ); }
   size_t maxp = o.size == 2 ? 24 : 80;
   if( points.size() > maxp )
   {
      std::vector<std::pair<size_t, bool>> q( points.end() - 8, points.end() );
      for( size_t i = 0; i < maxp; i++ ) q.push_back( r.pick( points ) );
      points = q;
   }
   std::sort( points.begin(), points.end() );
   points.erase( std::unique( points.begin(), points.end() ), points.end() );
   Str state = base;
   size_t done = 0;
   auto apply = [&]( Str &st, const IoPlan::W &op, size_t n ) {
      if( op.trunc ) { st.clear(); return; }
      if( st.size() < (size_t) op.off + n ) st.resize( (size_t) op.off + n, 0 );
      st.replace( (size_t) op.off, n, op.data, 0, n );
   };
   for( auto &pt: points )
   {
      for( ; done < pt.first; done++ ) apply( state, rec.log[done], rec.log[done].data.size() );
      int torn = pt.second ? 3 : 1;
      for( int t = 0; t < torn; t++ )
      {
         Str st = state;
         const IoPlan::W &op = rec.log[pt.first];
         size_t n = 0;
         if( pt.second )
         {
            if( op.data.size() < 2 || pt.first + 1 == rec.log.size() ) continue;// the index (52 bytes) is taken to be written at once
            n = (size_t) r.in( 1, (int64_t) op.data.size() - 1 );
            apply( st, op, n );
         }
         writeFileBytes( cut, st );
         Str what = fmt( "%s stopped after %zu of %zu writes%s", app ? "append" : "write", pt.first, rec.log.size(), pt.second ? fmt( " and %zu of %zu bytes of the next", n, op.data.size() ).c_str() : "" );
         judge( g, cut, ok, false, what );
         if( r.chance( 1, 8 ) ) judgeAppend( g, cut, ok, what );
         count( app ? "append_crash_points" : "write_crash_points" );
         note( "crash_points", id ^ ( pt.first * 77777 + n ) );
         nontrivial( id ^ ( pt.first * 77777 + n ) );
      }
   }
   for( ; done < rec.log.size(); done++ ) apply( state, rec.log[done], rec.log[done].data.size() );
   CHECK( state == full, "observe", "the recorded writes do not reproduce the file" );
   if( idx < 8 ) sample( fmt( "case %llu: %s, %zu recorded writes, %zu bytes", (unsigned long long) idx, app ? "append" : "write", rec.log.size(), full.size() ) );
}
