// P12: compression and configuration never change content
#include "trans.hpp"
#include <sys/stat.h>
#include <unistd.h>
const char *MON_RULE = "a case performs one random writing session (valid and refused calls, up to several compression blocks, compressible or random values) once uncompressed and once or twice with another selection (compression levels by call, GDXCOMPRESS settings by environment), compares all answers of the writing calls, the complete content and all answers of a random reading session between the variants; some cases also check automatic conversion with a recording stand-in for the external converter; non-trivial = distinct session with data whose compressed file differs from the plain one";
static Str g_path;
void monInit()
{
   // stand-in for the external converter: records its arguments, exit code is told by a file
   Str d = scratchFile( "bin" );
   mkdir( d.c_str(), 0755 );
   writeFileBytes( d + "/gdxcopy", "#!/bin/sh\necho \"$@\" >> '" + g_scratch + "/calls'\nexit `cat '" + g_scratch + "/rc'`\n" );
   chmod( ( d + "/gdxcopy" ).c_str(), 0755 );
   g_path = d + ":" + ( getenv( "PATH" ) ? getenv( "PATH" ) : "" );
   setenv( "PATH", g_path.c_str(), 1 );
   unsetenv( "GDXCOMPRESS" );
   unsetenv( "GDXCONVERT" );
}
static void env( const char *n, const char *v ) { if( v ) setenv( n, v, 1 ); else unsetenv( n ); }
static void autoConvert( u64 idx, Rng &r )
{
   Str path = scratchFile( r.chance( 1, 3 ) ? "con vert.gdx" : "convert.gdx" );
   remove( path.c_str() );
   remove( scratchFile( "calls" ).c_str() );
   int rc = r.pick( { 0, 0, 1, 3 } );
   writeFileBytes( scratchFile( "rc" ), fmt( "%d", rc ) );
   const char *ec = r.pick( { (const char *) nullptr, "0", "1", "n", "Y" } ), *ev = r.pick( { (const char *) nullptr, (const char *) nullptr, "V7", "v7", " v7", "V6", "V5" } );
   int compr = (int) r.in( 0, 1 ), ac = r.chance( 3, 4 );
   bool envC = ec && *ec != '0' && *ec != 'n';
   Str want = ev ? trimR( lower( ev ) ) : Str( "v7" );
   if( want[0] == ' ' ) want.erase( 0, 1 );
   for( auto &c: want ) c = (char) toupper( c );
   bool needs = want == "V5" || want != "V7" || envC != ( compr != 0 );
   env( "GDXCOMPRESS", ec );
   env( "GDXCONVERT", ev );
   Gdx g;
   gdxAutoConvert( g, ac );
   int e = -1, res;
   CHECK( gdxOpenWriteEx( g, path.c_str(), "conv", compr, &e ), "open", "open failed %d", e );
   double v[5] = { 1.5 };
   CHECK( gdxDataWriteStrStart( g, "p", "", 0, T_PAR, 0 ) && gdxDataWriteStr( g, nullptr, v ) && gdxDataWriteDone( g ), "write", "write refused" );
   res = gdxClose( g );
   env( "GDXCOMPRESS", nullptr );
   env( "GDXCONVERT", nullptr );
   Str calls = readFileBytes( scratchFile( "calls" ) );
   if( !ac || !needs )
   {
      CHECK( calls.empty(), "convert", "converter called without need (auto %d, env %s %s, compr %d): %s", ac, ec ? ec : "-", ev ? ev : "-", compr, calls.c_str() );
      CHECK( res == 0, "convert", "close returned %d", res );
   }
   else
   {
      Str arg = "-" + want + ( want == "V5" ? "" : envC ? "C" : "U" ) + " -Replace " + path + "\n";
      CHECK( calls == arg, "convert", "converter called with '%s', expected '%s'", calls.c_str(), arg.c_str() );
      CHECK( ( res == 0 ) == ( rc == 0 ), "convert", "converter returned %d, close returned %d", rc, res );
      count( "conversions" );
   }
   Content c = readFile( path );
   CHECK( c.syms.size() == 1 && c.compr == ( compr != 0 ), "convert", "content after converting" );
   remove( path.c_str() );
   nontrivial( hashStr( fmt( "conv %d %d %s %s %d", ac, compr, ec ? ec : "-", ev ? ev : "-", rc ) ) );
   (void) idx;
}
void runCase( u64 idx, Rng &r )
{
   if( idx % 17 == 5 ) { autoConvert( idx, r ); return; }
   u64 seed = r.next(), rseed = r.next();
   WOpts o;
   o.size = idx % 37 == 3 ? 2 : idx % 4 == 1 ? 1 : 0;
   struct Var { int compr; const char *env; bool byEnv; bool on; };
   static const std::vector<Var> vars = { { 1, nullptr, false, true }, { 2, nullptr, false, true }, { -1, nullptr, false, true }, { 9, nullptr, false, true }, { 0, "1", false, false }, { 1, "0", false, true },
                                          { 0, "1", true, true }, { 0, "Y", true, true }, { 0, "yes", true, true }, { 0, "0", true, false }, { 0, "n", true, false }, { 0, "No", true, false }, { 0, nullptr, true, false }, { 0, "", true, false } };
   bool keep = false;
   Log w0, r0;
   Content c0;
   Str b0;
   auto one = [&]( const Var &v, const Str &path, Log &w, Log &rd, Content &c ) {
      remove( path.c_str() );
      env( "GDXCOMPRESS", v.env );
      Gdx g;
      if( v.byEnv ) gdxAutoConvert( g, 0 );
      WOpts q = o;
      q.compr = v.compr; q.byEnv = v.byEnv;
      std::vector<int> levels;
      q.levels = &levels;
      Rng a( seed ), b( rseed );
      w.keep = rd.keep = keep;
      writeSession( g, a, path, w, q );
      env( "GDXCOMPRESS", nullptr );
      c = readFile( path );
      for( int l: levels ) CHECK( ( l != 0 ) == v.on, "level", "selection compr=%d env=%s (%s) reported as compression %d while writing", v.compr, v.env ? v.env : "-", v.byEnv ? "by environment" : "by call", l );
      count( "levels_reported_while_writing", levels.size() );
      CHECK( c.compr == v.on, "level", "selection compr=%d env=%s (%s) reported as compression %d", v.compr, v.env ? v.env : "-", v.byEnv ? "by environment" : "by call", c.compr );
      Log lo;
      openReadLog( g, path, lo );
      readSession( g, b, rd, o.size == 2 ? 6 : 25 );
      int rc = gdxClose( g );
      CHECK( rc == 0, "close", "close after reading returned %d", rc );
   };
   Var plain { 0, nullptr, false, false };
   one( plain, scratchFile( "u.gdx" ), w0, r0, c0 );
   int n = r.chance( 1, 3 ) ? 2 : 1;
   for( int i = 0; i < n; i++ )
   {
      const Var &v = r.pick( vars );
      Log w1, r1;
      Content c1;
      one( v, scratchFile( "v.gdx" ), w1, r1, c1 );
      Str df = diffContent( c0, c1, true );
      CHECK( df.empty(), "content", "plain vs compr=%d env=%s: %s", v.compr, v.env ? v.env : "-", df.c_str() );
      if( !( w0 == w1 ) || !( r0 == r1 ) )
      {
         bool wr = !( w0 == w1 );
         keep = true;
         Log a, b, cA, cB;
         Content x;
         one( plain, scratchFile( "u.gdx" ), a, b, x );
         one( v, scratchFile( "v.gdx" ), cA, cB, x );
         fail( wr ? "writing" : "reading", "answers differ between plain and compr=%d env=%s: %s", v.compr, v.env ? v.env : "-", ( wr ? firstDifference( a, cA ) : firstDifference( b, cB ) ).c_str() );
      }
      Str bu = readFileBytes( scratchFile( "u.gdx" ) ), bv = readFileBytes( scratchFile( "v.gdx" ) );
      if( v.on )
      {
         CHECK( bu != bv, "same", "compressed file equals the plain one" );
         nontrivial( w0.h ^ r0.h );
         count( "blocks_estimate", bu.size() / 32700 + 1 );
         if( bu.size() > 33000 ) count( "files_beyond_one_block" );
      }
      else
         CHECK( bu == bv, "bytes", "uncompressed file depends on how it was selected (env %s)", v.env ? v.env : "-" );
      count( "variants" );
      count( "answers_compared", w0.n + r0.n );
      note( "selection", (u64) ( &v - vars.data() ) );
   }
   if( idx < 3 ) sample( fmt( "case %llu: %llu write answers, %llu read answers, %zu symbols", (unsigned long long) idx, (unsigned long long) w0.n, (unsigned long long) r0.n, c0.syms.size() ) );
}
