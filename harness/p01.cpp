// P01: exact round trip
#include "core.hpp"
const char *MON_RULE = "a case writes one random file (labels, 1-60 symbols of any type and dimension, each through a random write interface, compressed or not) and reads it back completely; non-trivial = at least one record stored, distinct by content hash";
static u64 sig( const Content &c )
{
   u64 h = 14695981039346656037ull;
   for( auto &s: c.syms )
   {
      h = hashStr( s.name, h );
      for( auto &x: s.recs ) { h = hashBytes( x.k, sizeof( int ) * (size_t) s.dim, h ); h = hashBytes( x.v, 8 * (size_t) nvals( s.type ), h ); }
   }
   return h;
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "rt.gdx" );
   Content c;
   int compr = (int) r.in( 0, 1 );
   int size = idx % 97 == 5 ? 2 : idx % 5 == 1 ? 1 : 0;
   if( idx % 7 == 3 )
   {// raw numbers beyond the label table: any positive integers
      Gdx g;
      Writer w( g, r );
      w.open( path, compr );
      int ns = (int) r.in( 1, 4 );
      for( int i = 0; i < ns; i++ )
      {
         Sym s;
         do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
         s.text = genText( r );
         s.dim = (int) ( i == 0 && idx % 14 == 3 ? r.in( 1, 2 ) : r.in( 1, 20 ) );
         s.type = (int) r.in( 0, 3 );
         s.user = 3;
         int n = genCount( r, s.dim, true );
         if( idx % 70 == 3 ) n = (int) r.in( 12000, 30000 );
         std::vector<Rec> recs = recsFor( r, w, s, n, r.pick( { 70000, 2000000000, 1000, 260 } ) );
         w.writeSymbol( s, recs, r.pick( { 'R', 'B' } ) );
      }
      w.close();
      c = w.c;
      count( "raw_number_files" );
   }
   else c = genFile( r, path, compr, size );
   Content d = readFile( path );
   Str df = diffContent( c, d, true );
   CHECK( df.empty(), "roundtrip", "%s (compressed=%d)", df.c_str(), compr );
   CHECK( d.compr == c.compr, "comprflag", "compression flag reported %d, written %d", d.compr, c.compr );
   size_t nr = 0;
   for( auto &s: c.syms )
   {
      nr += s.recs.size();
      note( "dims_types", (u64) s.dim * 8 + (u64) s.type );
   }
   if( nr ) nontrivial( sig( c ) );
   if( idx < 4 ) sample( fmt( "case %llu: %zu symbols, %zu labels, %zu records, compressed=%d", (unsigned long long) idx, c.syms.size(), c.uels.size(), nr, compr ) );
   count( "files_compared" );
}
