// Files that hold the same element text under several numbers (older writers produced them).  Written through the
// API and then altered in place: texts of equal length are overwritten by one another.
#pragma once
#include "core.hpp"
struct DupFile {
   std::vector<Str> stored;// number -> text in the file
   std::vector<int> elems;// element i of set "dup_set" carries the text with this number
};
inline Str dupText( int i ) { return fmt( "~t%04d~", i ); }
inline DupFile writeDupFile( const Str &path, Rng &r )
{
   DupFile f;
   int nt = (int) r.in( 2, 12 ), ne = (int) r.in( 1, 40 );
   f.stored.push_back( "" );
   {
      Gdx g;
      int err = 0, nr, n;
      CHECK( gdxOpenWriteEx( g, path.c_str(), "dup", 0, &err ), "dupwrite", "open" );
      gdxAutoConvert( g, 0 );
      for( int i = 1; i <= nt; i++ ) { CHECK( gdxAddSetText( g, dupText( i ).c_str(), &nr ) && nr == i, "dupwrite", "text %d is number %d", i, nr ); f.stored.push_back( dupText( i ) ); }
      gdxUELRegisterStrStart( g );
      for( int i = 1; i <= ne; i++ ) gdxUELRegisterStr( g, fmt( "e%d", i ).c_str(), &n );
      gdxUELRegisterDone( g );
      CHECK( gdxDataWriteRawStart( g, "dup_set", "", 1, T_SET, 0 ), "dupwrite", "start" );
      for( int i = 1; i <= ne; i++ )
      {
         int k[20] = { i };
         double v[5] = { i <= nt ? (double) i : (double) r.in( 0, nt ) };
         CHECK( gdxDataWriteRaw( g, k, v ), "dupwrite", "record" );
         f.elems.push_back( (int) v[0] );
      }
      gdxDataWriteDone( g );
      CHECK( gdxClose( g ) == 0, "dupwrite", "close" );
   }
   Str b = readFileBytes( path );
   std::vector<size_t> at( f.stored.size() );
   for( int i = 1; i <= nt; i++ )
   {
      at[(size_t) i] = b.find( dupText( i ) );
      CHECK( at[(size_t) i] != Str::npos && b.find( dupText( i ), at[(size_t) i] + 1 ) == Str::npos, "dupwrite", "text %d not found once", i );
   }
   int ch = (int) r.in( 1, nt );
   for( int q = 0; q < ch; q++ )
   {
      int i = r.chance( 1, 3 ) ? nt : (int) r.in( 2, nt ), j = (int) r.in( 1, i - 1 );
      if( f.stored[(size_t) i] != dupText( i ) ) continue;
      b.replace( at[(size_t) i], dupText( i ).size(), f.stored[(size_t) j] );
      f.stored[(size_t) i] = f.stored[(size_t) j];
   }
   writeFileBytes( path, b );
   return f;
}
// the texts of the elements, read through one of the interfaces
inline void checkDupFile( gdxHandle_t g, const DupFile &f, Rng &r, const char *key )
{
   int n = 0, sy = 0, df, how = (int) r.in( 0, 2 );
   CHECK( gdxFindSymbol( g, "dup_set", &sy ), key, "set not found" );
   if( how == 2 ) { int nr; gdxUELRegisterStrStart( g ); for( size_t i = 1; i <= f.elems.size(); i++ ) gdxUELRegisterStr( g, fmt( "e%zu", i ).c_str(), &nr ); gdxUELRegisterDone( g ); }
   CHECK( how == 0 ? gdxDataReadRawStart( g, sy, &n ) : how == 1 ? gdxDataReadStrStart( g, sy, &n ) : gdxDataReadMapStart( g, sy, &n ), key, "cannot read" );
   std::array<std::array<char, 256>, MAXD> kb;
   char *kp[MAXD];
   for( int d = 0; d < MAXD; d++ ) kp[d] = kb[(size_t) d].data();
   int k[20] {};
   double v[5] {};
   size_t i = 0;
   while( how == 0 ? gdxDataReadRaw( g, k, v, &df ) : how == 1 ? gdxDataReadStr( g, kp, v, &df ) : gdxDataReadMap( g, (int) i + 1, k, v, &df ) )
   {
      CHECK( i < f.elems.size(), key, "too many elements" );
      char b[512] = "";
      int node = -1;
      const Str &want = f.stored[(size_t) f.elems[i]];
      CHECK( v[0] == std::floor( v[0] ) && ( v[0] != 0 || want.empty() ) && gdxGetElemText( g, (int) v[0], b, &node ) && want == b, key, "element %zu, stored with text number %d '%s', is read with number %g text '%s'", i + 1, f.elems[i], want.c_str(), v[0], b );
      i++;
   }
   CHECK( i == f.elems.size(), key, "%zu of %zu elements", i, f.elems.size() );
   gdxDataReadDone( g );
   count( "shared_text_elements", i );
}
