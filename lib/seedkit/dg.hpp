// small helpers for the demonstrations: the GDX object itself, straight from /repo
#include "gdx.hpp"
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <thread>
#include <vector>
#define EXPECT(c) do { if(!(c)) { std::fprintf(stderr, "demo: %s:%d: %s\n", __FILE__, __LINE__, #c); std::exit(1); } } while(0)
using Obj = gdx::TGXFileObj;
struct G {
   std::string msg;
   Obj o;
   G() : o( msg ) { o.gdxAutoConvert( 0 ); }
   Obj *operator->() { return &o; }
   bool create( const std::string &f, int compr = 0 ) { int e {}; return o.gdxOpenWriteEx( f.c_str(), "demo", compr, e ) && !e; }
   bool append( const std::string &f ) { int e {}; return o.gdxOpenAppend( f.c_str(), "demo", e ) && !e; }
   bool open( const std::string &f ) { int e {}; return o.gdxOpenRead( f.c_str(), e ) && !e; }
   int ws( const std::vector<std::string> &k, const std::vector<double> &v ) {
      const char *p[20]; for( size_t i {}; i < k.size(); i++ ) p[i] = k[i].c_str();
      double d[5] {}; for( size_t i {}; i < v.size(); i++ ) d[i] = v[i];
      return o.gdxDataWriteStr( p, d );
   }
   int wr( const std::vector<int> &k, const std::vector<double> &v ) {
      double d[5] {}; for( size_t i {}; i < v.size(); i++ ) d[i] = v[i];
      return o.gdxDataWriteRaw( k.data(), d );
   }
   int wm( const std::vector<int> &k, const std::vector<double> &v ) {
      double d[5] {}; for( size_t i {}; i < v.size(); i++ ) d[i] = v[i];
      return o.gdxDataWriteMap( k.data(), d );
   }
   int reg( const std::string &l ) { int n {}; o.gdxUELRegisterStr( l.c_str(), n ); return n; }
   int find( const std::string &s ) { int n {}; return o.gdxFindSymbol( s.c_str(), n ) ? n : -1; }
};
struct R { std::vector<std::string> k; std::vector<int> n; std::array<double, 5> v {}; int fd {}; };
inline std::vector<R> rs( G &g, int sy ) {
   int n {}; std::vector<R> out;
   if( !g->gdxDataReadStrStart( sy, n ) ) { std::fprintf( stderr, "demo: cannot read\n" ); std::exit( 1 ); }
   int dim = g->gdxCurrentDim(); char buf[20][256]; char *p[20]; for( int i {}; i < 20; i++ ) p[i] = buf[i];
   R r; double v[5] {};
   while( g->gdxDataReadStr( p, v, r.fd ) ) { r.k.clear(); for( int i {}; i < dim; i++ ) r.k.push_back( buf[i] ); for( int i {}; i < 5; i++ ) r.v[i] = v[i]; out.push_back( r ); }
   g->gdxDataReadDone(); return out;
}
inline std::vector<R> rr( G &g, int sy ) {
   int n {}; std::vector<R> out;
   if( !g->gdxDataReadRawStart( sy, n ) ) { std::fprintf( stderr, "demo: cannot read\n" ); std::exit( 1 ); }
   int dim = g->gdxCurrentDim(); R r; double v[5] {}; int k[20];
   while( g->gdxDataReadRaw( k, v, r.fd ) ) { r.n.assign( k, k + dim ); for( int i {}; i < 5; i++ ) r.v[i] = v[i]; out.push_back( r ); }
   g->gdxDataReadDone(); return out;
}
inline std::string slurp( const std::string &f ) { std::ifstream i( f, std::ios::binary ); return { std::istreambuf_iterator<char>( i ), {} }; }
inline void spill( const std::string &f, const std::string &s ) { std::ofstream o( f, std::ios::binary ); o << s; }
