// P27: the call interfaces of the library agree
#include "core.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <stdexcept>
#include <iostream>
#define gdx gdxw// own name space: the library exports a class of the same name
#include "gdxcppwrap.hpp"
#undef gdx
const char *MON_RULE = "a case performs one random history of calls (three quarters valid in the present state, the rest of any kind, with hostile arguments) in lockstep on three objects: through the C functions, through the entry points with length-prefixed strings, native string arrays and Fortran call-backs, and through the C++ class; after each call the results, all outputs, the record of call-backs and (often) the last error are compared, after each close the files byte for byte; other cases check the signature table, the version check, creation and the loader with message buffers of every size; non-trivial = distinct history in which at least one file was written and one was read";

static void *s_lib;
static void *sym( const char *n )
{
   static std::map<Str, void *> cache;
   auto &p = cache[n];
   if( !p )
   {
      p = dlsym( s_lib, n );
      if( !p ) fail( "missing", "the library does not export %s", n );
   }
   return p;
}
template<class... A> static int dcall( const char *n, A... a ) { return ( (int ( * )( A... )) sym( n ) )( a... ); }
static void __attribute__( ( noinline ) ) dirtyStack()
{
   volatile char buf[48000];
   for( size_t i = 0; i < sizeof buf; i++ ) buf[i] = (char) ( 'a' + i % 23 );
}
// length-prefixed string handed in: exactly as many bytes as it has
struct PIn {
   std::unique_ptr<char[]> p;
   explicit PIn( const Str &s ) : p( new char[s.size() + 1] ) { p[0] = (char) s.size(); memcpy( p.get() + 1, s.data(), s.size() ); }
   operator const char *() const { return p.get(); }
};
static const Str MARK = "~?~";
struct POut {
   std::unique_ptr<char[]> p;
   int n;
   explicit POut( int k = 1 ) : p( new char[256 * k] ), n( k )
   {
      for( int i = 0; i < k; i++ ) { char *q = p.get() + 256 * i; memset( q, 'z', 256 ); q[0] = (char) MARK.size(); memcpy( q + 1, MARK.data(), MARK.size() ); }
   }
   operator char *() { return p.get(); }
   Str at( int i = 0 ) const { return Str( p.get() + 256 * i + 1, (unsigned char) p[256 * i] ); }
};
struct COut {
   std::unique_ptr<char[]> p;
   COut() : p( new char[256] ) { memset( p.get(), 'z', 256 ); memcpy( p.get(), MARK.c_str(), MARK.size() + 1 ); }
   operator char *() { return p.get(); }
   Str at() const { return Str( p.get(), strnlen( p.get(), 256 ) ); }
};
struct PArr {// array of length-prefixed strings
   std::unique_ptr<char[]> p;
   explicit PArr( const std::vector<Str> &v ) : p( new char[256 * 20] )
   {
      memset( p.get(), 'y', 256 * 20 );
      for( int i = 0; i < 20; i++ ) { p[256 * i] = (char) v[i].size(); memcpy( p.get() + 256 * i + 1, v[i].data(), v[i].size() ); }
   }
   operator const char *() const { return p.get(); }
};
struct CArr {
   const char *q[20];
   explicit CArr( const std::vector<Str> &v ) { for( int i = 0; i < 20; i++ ) q[i] = v[i].c_str(); }
   operator const char **() { return q; }
};
struct COutArr {
   COut b[20];
   char *q[20];
   COutArr() { for( int i = 0; i < 20; i++ ) q[i] = b[i].p.get(); }
   operator char **() { return q; }
};
// what a call showed
struct Tr {
   Str t;
   std::vector<Str> outs;
   void i( int64_t x ) { t += fmt( " %lld", (long long) x ); }
   void d( double x ) { t += fmt( " %016llx", (unsigned long long) bits( x ) ); }
   void s( const Str &x ) { outs.push_back( x ); }
};
static Tr *s_cb;
static int s_cbDim, s_cbStop, s_cbSeen, s_cbVals = 1, s_sliceSy;
static int valsOf( gdxHandle_t h, int n )
{
   char s[300];
   int d, t = 0;
   return gdxSymbolInfo( h, n, s, &d, &t ) ? nvals( t ) : 1;
}
static void cbRec( const int *k, const double *v )
{
   if( !s_cb ) return;
   s_cbSeen++;
   s_cb->t += " (";
   for( int d = 0; d < s_cbDim; d++ ) s_cb->i( k[d] );
   for( int d = 0; d < s_cbVals; d++ ) s_cb->d( v[d] );
   s_cb->t += ")";
}
static void cb1( const int *k, const double *v ) { cbRec( k, v ); }
static int cbEx( const int *k, const double *v, int fd, void *u )
{
   cbRec( k, v );
   s_cb->t += fmt( " f%d u%d", fd, u == (void *) &s_cbDim );
   return s_cbSeen < s_cbStop;
}
static int cbFilt( const int *k, const double *v, void * ) { cbRec( k, v ); return s_cbSeen < s_cbStop; }
static void cbDom( int raw, int mapped, void *u ) { s_cb->t += fmt( " (%d %d u%d)", raw, mapped, u == (void *) &s_cbDim ); }
// the same for Fortran; numbers may come by value or by reference (the published types are not of one mind)
static int64_t deref32( intptr_t x ) { return x > 0x100000000ll ? *(int *) x : (int) x; }
static bool isU( intptr_t u ) { return u == (intptr_t) &s_cbDim || ( u > 0x100000 && *(intptr_t *) u == (intptr_t) &s_cbDim ); }
static int cbExF( const int *k, const double *v, intptr_t fd, intptr_t u )
{
   cbRec( k, v );
   s_cb->t += fmt( " f%d u%d", (int) deref32( fd ), isU( u ) );
   return s_cbSeen < s_cbStop;
}
static int cbFiltF( const int *k, const double *v, intptr_t ) { cbRec( k, v ); return s_cbSeen < s_cbStop; }
static void cbDomF( intptr_t raw, intptr_t mapped, intptr_t u ) { s_cb->t += fmt( " (%d %d u%d)", (int) deref32( raw ), (int) deref32( mapped ), isU( u ) ); }

enum { C, D, W };
struct Side {
   int kind = C;
   gdxHandle_t h = nullptr;
   gdxw::TGXFileObj *w = nullptr;
   Str dir;
};
struct Args {
   int n = 0, m = 0, u = 0, dim = 1, typ = 0, recs = 0, alt = 0, file = 0;
   Str a, b;
   std::vector<Str> keys;
   int k[20] {}, k2[20] {};
   double v[5] {};
   double sv[7] {};
   double x = 0;
};
typedef std::function<void( Side &, const Args &, Tr & )> Fn;
struct Op { const char *name; Fn f; };
static std::vector<Op> OPS;
static std::map<Str, int> OPI;
static Str path( const Side &s, const Args &a ) { return s.dir + fmt( "/f%d.gdx", a.file ); }

#define OP( NAME, ... ) OPS.push_back( { NAME, []( Side & s, const Args &a, Tr &t ) __VA_ARGS__ } );
// no strings: C (also for the second object) or class
#define PLAIN( fn, cargs, wargs ) OP( #fn, { (void) a; t.i( s.kind == W ? s.w->fn wargs : fn cargs ); } )
static void makeOps()
{
#define H s.h
   PLAIN( gdxClose, ( H ), () )
   PLAIN( gdxAcronymCount, ( H ), () )
   PLAIN( gdxAcronymNextNr, ( H, a.n ), ( a.n ) )
   PLAIN( gdxAcronymIndex, ( H, a.x ), ( a.x ) )
   OP( "gdxAcronymValue", { t.d( s.kind == W ? s.w->gdxAcronymValue( a.n ) : gdxAcronymValue( H, a.n ) ); } )
   OP( "gdxAcronymGetMapping", { int x = -9, y = -9, z = -9; t.i( s.kind == W ? s.w->gdxAcronymGetMapping( a.n, x, y, z ) : gdxAcronymGetMapping( H, a.n, &x, &y, &z ) ); t.i( x ); t.i( y ); t.i( z ); } )
   PLAIN( gdxAutoConvert, ( H, 0 ), ( 0 ) )
   PLAIN( gdxDataErrorCount, ( H ), () )
   OP( "gdxDataErrorRecord", { int k[20] {}; double v[5] {}; t.i( s.kind == W ? s.w->gdxDataErrorRecord( a.n, k, v ) : gdxDataErrorRecord( H, a.n, k, v ) ); for( int x: k ) t.i( x ); for( double x: v ) t.d( x ); } )
   OP( "gdxDataErrorRecordX", { int k[20] {}; double v[5] {}; t.i( s.kind == W ? s.w->gdxDataErrorRecordX( a.n, k, v ) : gdxDataErrorRecordX( H, a.n, k, v ) ); for( int x: k ) t.i( x ); for( double x: v ) t.d( x ); } )
   PLAIN( gdxDataReadDone, ( H ), () )
   PLAIN( gdxDataWriteDone, ( H ), () )
   OP( "gdxDataReadFilteredStart", { int n = -9; t.i( s.kind == W ? s.w->gdxDataReadFilteredStart( a.n, a.k2, n ) : gdxDataReadFilteredStart( H, a.n, a.k2, &n ) ); t.i( n ); } )
   OP( "gdxDataReadMapStart", { int n = -9; t.i( s.kind == W ? s.w->gdxDataReadMapStart( a.n, n ) : gdxDataReadMapStart( H, a.n, &n ) ); t.i( n ); } )
   OP( "gdxDataReadRawStart", { int n = -9; t.i( s.kind == W ? s.w->gdxDataReadRawStart( a.n, n ) : gdxDataReadRawStart( H, a.n, &n ) ); t.i( n ); } )
   OP( "gdxDataReadStrStart", { int n = -9; t.i( s.kind == W ? s.w->gdxDataReadStrStart( a.n, n ) : gdxDataReadStrStart( H, a.n, &n ) ); t.i( n ); } )
   OP( "gdxDataReadSliceStart", { int e[20] {}; t.i( s.kind == W ? s.w->gdxDataReadSliceStart( a.n, e ) : gdxDataReadSliceStart( H, a.n, e ) ); for( int x: e ) t.i( x ); } )
   OP( "gdxDataReadMap", { int k[20] {}; double v[5] {}; int f = -9; t.i( s.kind == W ? s.w->gdxDataReadMap( a.m, k, v, f ) : gdxDataReadMap( H, a.m, k, v, &f ) ); for( int x: k ) t.i( x ); for( double x: v ) t.d( x ); t.i( f ); } )
   OP( "gdxDataReadRaw", { int k[20] {}; double v[5] {}; int f = -9; t.i( s.kind == W ? s.w->gdxDataReadRaw( k, v, f ) : gdxDataReadRaw( H, k, v, &f ) ); for( int x: k ) t.i( x ); for( double x: v ) t.d( x ); t.i( f ); } )
   PLAIN( gdxDataWriteMap, ( H, a.k, a.v ), ( a.k, a.v ) )
   PLAIN( gdxDataWriteRaw, ( H, a.k, a.v ), ( a.k, a.v ) )
   PLAIN( gdxErrorCount, ( H ), () )
   PLAIN( gdxGetLastError, ( H ), () )
   OP( "gdxFileInfo", { int x = -9, y = -9; t.i( s.kind == W ? s.w->gdxFileInfo( x, y ) : gdxFileInfo( H, &x, &y ) ); t.i( x ); t.i( y ); } )
   PLAIN( gdxFilterExists, ( H, a.n ), ( a.n ) )
   PLAIN( gdxFilterRegister, ( H, a.m ), ( a.m ) )
   PLAIN( gdxFilterRegisterDone, ( H ), () )
   PLAIN( gdxFilterRegisterStart, ( H, a.n ), ( a.n ) )
   PLAIN( gdxGetMemoryUsed, ( H ), () )
   OP( "gdxGetSpecialValues", { double v[7] {}; t.i( s.kind == W ? s.w->gdxGetSpecialValues( v ) : gdxGetSpecialValues( H, v ) ); for( double x: v ) t.d( x ); } )
   PLAIN( gdxSetSpecialValues, ( H, a.sv ), ( a.sv ) )
   PLAIN( gdxSetReadSpecialValues, ( H, a.sv ), ( a.sv ) )
   PLAIN( gdxResetSpecialValues, ( H ), () )
   OP( "gdxMapValue", { int x = -9; t.i( s.kind == W ? s.w->gdxMapValue( a.x, x ) : gdxMapValue( H, a.x, &x ) ); t.i( x ); } )
   PLAIN( gdxSetHasText, ( H, a.n ), ( a.n ) )
   PLAIN( gdxSetTextNodeNr, ( H, a.n, a.m ), ( a.n, a.m ) )
   OP( "gdxSymbIndxMaxLength", { int e[20] {}; t.i( s.kind == W ? s.w->gdxSymbIndxMaxLength( a.n, e ) : gdxSymbIndxMaxLength( H, a.n, e ) ); for( int x: e ) t.i( x ); } )
   PLAIN( gdxSymbMaxLength, ( H ), () )
   PLAIN( gdxUELMaxLength, ( H ), () )
   PLAIN( gdxCurrentDim, ( H ), () )
   PLAIN( gdxSymbolDim, ( H, a.n ), ( a.n ) )
   OP( "gdxSymbolGetDomain", { int e[20] {}; t.i( s.kind == W ? s.w->gdxSymbolGetDomain( a.n, e ) : gdxSymbolGetDomain( H, a.n, e ) ); for( int x: e ) t.i( x ); } )
   OP( "gdxSystemInfo", { int x = -9, y = -9; t.i( s.kind == W ? s.w->gdxSystemInfo( x, y ) : gdxSystemInfo( H, &x, &y ) ); t.i( x ); t.i( y ); } )
   OP( "gdxUMUelInfo", { int x = -9, y = -9; t.i( s.kind == W ? s.w->gdxUMUelInfo( x, y ) : gdxUMUelInfo( H, &x, &y ) ); t.i( x ); t.i( y ); } )
   PLAIN( gdxUELRegisterDone, ( H ), () )
   PLAIN( gdxUELRegisterMapStart, ( H ), () )
   PLAIN( gdxUELRegisterRawStart, ( H ), () )
   PLAIN( gdxUELRegisterStrStart, ( H ), () )
   PLAIN( gdxStoreDomainSets, ( H ), () )
   PLAIN( gdxAllowBogusDomains, ( H ), () )
   PLAIN( gdxMapAcronymsToNaN, ( H ), () )
   OP( "gdxStoreDomainSetsSet", { t.i( 0 ); if( s.kind == W ) s.w->gdxStoreDomainSetsSet( a.alt & 1 ); else gdxStoreDomainSetsSet( H, a.alt & 1 ); } )
   OP( "gdxAllowBogusDomainsSet", { t.i( 0 ); if( s.kind == W ) s.w->gdxAllowBogusDomainsSet( a.alt & 1 ); else gdxAllowBogusDomainsSet( H, a.alt & 1 ); } )
   OP( "gdxMapAcronymsToNaNSet", { t.i( 0 ); if( s.kind == W ) s.w->gdxMapAcronymsToNaNSet( a.alt & 1 ); else gdxMapAcronymsToNaNSet( H, a.alt & 1 ); } )
// one or two strings in
#define IN1( fn, low, pre, post ) OP( #fn, { t.i( s.kind == W ? s.w->fn( pre a.a.c_str() post ) : s.kind == C ? fn( H, pre a.a.c_str() post ) : dcall( low, H, pre (const char *) PIn( a.a ) post ) ); } )
#define CM ,
   IN1( gdxSymbolAddComment, "d__gdxsymboladdcomment", a.n CM, )
   IN1( gdxUELRegisterMap, "d__gdxuelregistermap", a.m CM, )
   IN1( gdxUELRegisterRaw, "d__gdxuelregisterraw", , )
   OP( "gdxSetTraceLevel", { t.i( s.kind == W ? s.w->gdxSetTraceLevel( 0, a.a.c_str() ) : s.kind == C ? gdxSetTraceLevel( H, 0, a.a.c_str() ) : dcall( "d__gdxsettracelevel", H, 0, (const char *) PIn( a.a ) ) ); } )
#define IN1OUT( fn, low ) OP( #fn, { int x = -9; t.i( s.kind == W ? s.w->fn( a.a.c_str(), x ) : s.kind == C ? fn( H, a.a.c_str(), &x ) : dcall( low, H, (const char *) PIn( a.a ), &x ) ); t.i( x ); } )
   IN1OUT( gdxAddSetText, "d__gdxaddsettext" )
   IN1OUT( gdxFindSymbol, "d__gdxfindsymbol" )
   IN1OUT( gdxUELRegisterStr, "d__gdxuelregisterstr" )
   OP( "gdxUMFindUEL", { int x = -9, y = -9; t.i( s.kind == W ? s.w->gdxUMFindUEL( a.a.c_str(), x, y ) : s.kind == C ? gdxUMFindUEL( H, a.a.c_str(), &x, &y ) : dcall( "d__gdxumfinduel", H, (const char *) PIn( a.a ), &x, &y ) ); t.i( x ); t.i( y ); } )
#define IN2( fn, low, pre, post ) OP( #fn, { t.i( s.kind == W ? s.w->fn( pre a.a.c_str(), a.b.c_str() post ) : s.kind == C ? fn( H, pre a.a.c_str(), a.b.c_str() post ) : dcall( low, H, pre (const char *) PIn( a.a ), (const char *) PIn( a.b ) post ) ); } )
   IN2( gdxAcronymAdd, "d__gdxacronymadd", , CM a.n )
   IN2( gdxAcronymSetInfo, "d__gdxacronymsetinfo", a.m CM, CM a.n )
   IN2( gdxAddAlias, "d__gdxaddalias", , )
   IN2( gdxRenameUEL, "d__gdxrenameuel", , )
   IN2( gdxDataWriteMapStart, "d__gdxdatawritemapstart", , CM a.dim CM a.typ CM a.u )
   IN2( gdxDataWriteRawStart, "d__gdxdatawriterawstart", , CM a.dim CM a.typ CM a.u )
   IN2( gdxDataWriteStrStart, "d__gdxdatawritestrstart", , CM a.dim CM a.typ CM a.u )
   OP( "gdxDataWriteRawStartKeyBounds", { t.i( s.kind == W ? s.w->gdxDataWriteRawStartKeyBounds( a.a.c_str(), a.b.c_str(), a.dim, a.typ, a.u, a.k, a.k2 ) : s.kind == C ? gdxDataWriteRawStartKeyBounds( H, a.a.c_str(), a.b.c_str(), a.dim, a.typ, a.u, a.k, a.k2 ) : dcall( "d__gdxdatawriterawstartkeybounds", H, (const char *) PIn( a.a ), (const char *) PIn( a.b ), a.dim, a.typ, a.u, (const int *) a.k, (const int *) a.k2 ) ); } )
// files
   OP( "gdxOpenRead", { int e = -9; Str p = path( s, a ); t.i( s.kind == W ? s.w->gdxOpenRead( p.c_str(), e ) : s.kind == C ? gdxOpenRead( H, p.c_str(), &e ) : dcall( "d__gdxopenread", H, (const char *) PIn( p ), &e ) ); t.i( e ); } )
   OP( "gdxOpenReadEx", { int e = -9; Str p = path( s, a ); t.i( s.kind == W ? s.w->gdxOpenReadEx( p.c_str(), a.m, e ) : s.kind == C ? gdxOpenReadEx( H, p.c_str(), a.m, &e ) : dcall( "d__gdxopenreadex", H, (const char *) PIn( p ), a.m, &e ) ); t.i( e ); } )
   OP( "gdxOpenWrite", { int e = -9; Str p = path( s, a ); t.i( s.kind == W ? s.w->gdxOpenWrite( p.c_str(), a.a.c_str(), e ) : s.kind == C ? gdxOpenWrite( H, p.c_str(), a.a.c_str(), &e ) : dcall( "d__gdxopenwrite", H, (const char *) PIn( p ), (const char *) PIn( a.a ), &e ) ); t.i( e ); } )
   OP( "gdxOpenWriteEx", { int e = -9; Str p = path( s, a ); t.i( s.kind == W ? s.w->gdxOpenWriteEx( p.c_str(), a.a.c_str(), a.alt & 1, e ) : s.kind == C ? gdxOpenWriteEx( H, p.c_str(), a.a.c_str(), a.alt & 1, &e ) : dcall( "d__gdxopenwriteex", H, (const char *) PIn( p ), (const char *) PIn( a.a ), a.alt & 1, &e ) ); t.i( e ); } )
   OP( "gdxOpenAppend", { int e = -9; Str p = path( s, a ); t.i( s.kind == W ? s.w->gdxOpenAppend( p.c_str(), a.a.c_str(), e ) : s.kind == C ? gdxOpenAppend( H, p.c_str(), a.a.c_str(), &e ) : dcall( "d__gdxopenappend", H, (const char *) PIn( p ), (const char *) PIn( a.a ), &e ) ); t.i( e ); } )
// strings out
#define OUT1( fn, low, pre, wx, cx, N ) OP( #fn, { int x = -9; int y = -9; (void) x; (void) y; \
   if( s.kind == D ) { POut o; dirtyStack(); t.i( dcall( low, H, pre (char *) o cx ) ); t.s( o.at() ); } \
   else { COut o; t.i( s.kind == W ? s.w->fn( pre (char *) o wx ) : fn( H, pre (char *) o cx ) ); t.s( o.at() ); } \
   if( N > 0 ) t.i( x ); if( N > 1 ) t.i( y ); } )
   OUT1( gdxAcronymName, "d__gdxacronymname", a.x CM, , , 0 )
   OUT1( gdxGetDLLVersion, "d__gdxgetdllversion", , , , 0 )
   OP( "gdxErrorStr", { if( s.kind == D ) { POut o; dirtyStack(); t.i( dcall( "d__gdxerrorstr", H, a.u, (char *) o ) ); t.s( o.at() ); } else { COut o; t.i( s.kind == W ? s.w->gdxErrorStr( a.u, o ) : gdxErrorStr( H, a.u, o ) ); t.s( o.at() ); } } )
   OUT1( gdxGetElemText, "d__gdxgetelemtext", a.n CM, CM x, CM & x, 1 )
   OUT1( gdxGetUEL, "d__gdxgetuel", a.n CM, , , 0 )
   OUT1( gdxSymbolGetComment, "d__gdxsymbolgetcomment", a.n CM a.m CM, , , 0 )
   OUT1( gdxSymbolInfo, "d__gdxsymbolinfo", a.n CM, CM x CM y, CM & x CM & y, 2 )
   OUT1( gdxUMUelGet, "d__gdxumuelget", a.n CM, CM x, CM & x, 1 )
   OP( "gdxSymbolInfoX", { int x = -9, y = -9; if( s.kind == D ) { POut o; dirtyStack(); t.i( dcall( "d__gdxsymbolinfox", H, a.n, &x, &y, (char *) o ) ); t.s( o.at() ); } else { COut o; t.i( s.kind == W ? s.w->gdxSymbolInfoX( a.n, x, y, o ) : gdxSymbolInfoX( H, a.n, &x, &y, o ) ); t.s( o.at() ); } t.i( x ); t.i( y ); } )
   OP( "gdxFileVersion", { if( s.kind == D ) { POut o, p; dirtyStack(); t.i( dcall( "d__gdxfileversion", H, (char *) o, (char *) p ) ); t.s( o.at() ); t.s( p.at() ); } else { COut o, p; t.i( s.kind == W ? s.w->gdxFileVersion( o, p ) : gdxFileVersion( H, o, p ) ); t.s( o.at() ); t.s( p.at() ); } } )
   OP( "gdxAcronymGetInfo", { int x = -9; if( s.kind == D ) { POut o, p; dirtyStack(); t.i( dcall( "d__gdxacronymgetinfo", H, a.n, (char *) o, (char *) p, &x ) ); t.s( o.at() ); t.s( p.at() ); } else { COut o, p; t.i( s.kind == W ? s.w->gdxAcronymGetInfo( a.n, o, p, x ) : gdxAcronymGetInfo( H, a.n, o, p, &x ) ); t.s( o.at() ); t.s( p.at() ); } t.i( x ); } )
// string arrays
#define OUTN( fn, low, nat, pre, wx, cx, dimx, N ) OP( #fn, { int x = -9; (void) x; double v[5] {}; int dim = std::max( 0, dimx ); (void) v; \
   if( s.kind == D && a.alt % 3 ) { POut o( 20 ); dirtyStack(); t.i( dcall( low, H, pre (char *) o cx ) ); for( int i = 0; i < dim; i++ ) t.s( o.at( i ) ); } \
   else if( s.kind == D ) { std::unique_ptr<char[]> o( new char[20 * 256] ); for( int i = 0; i < 20; i++ ) memcpy( o.get() + 256 * i, MARK.c_str(), 4 ); t.i( dcall( nat, H, pre o.get() cx ) ); for( int i = 0; i < dim; i++ ) t.s( Str( o.get() + 256 * i, strnlen( o.get() + 256 * i, 256 ) ) ); } \
   else { COutArr o; t.i( s.kind == W ? s.w->fn( pre (char **) o wx ) : fn( H, pre (char **) o cx ) ); for( int i = 0; i < dim; i++ ) t.s( o.b[i].at() ); } \
   if( N ) { t.i( x ); for( double z: v ) t.d( z ); } } )
   OUTN( gdxDataReadStr, "d__gdxdatareadstr", "n__gdxdatareadstr", , CM v CM x, CM (double *) v CM & x, gdxCurrentDim( H ), 1 )
   OUTN( gdxDataSliceUELS, "d__gdxdatasliceuels", "n__gdxdatasliceuels", (const int *) a.k2 CM, , , gdxCurrentDim( H ), 0 )
   OUTN( gdxSymbolGetDomainX, "d__gdxsymbolgetdomainx", "n__gdxsymbolgetdomainx", a.n CM, , , gdxSymbolDim( H, a.n ), 0 )
#define INN( fn, low, pre, post, dpost ) OP( #fn, { CArr c( a.keys ); t.i( s.kind == W ? s.w->fn( pre (const char **) c post ) : s.kind == C ? fn( H, pre (const char **) c post ) : dcall( low, H, pre (const char *) PArr( a.keys ) dpost ) ); } )
   INN( gdxDataWriteStr, "d__gdxdatawritestr", , CM a.v, CM (const double *) a.v )
   INN( gdxSymbolSetDomain, "d__gdxsymbolsetdomain", , , )
   INN( gdxSymbolSetDomainX, "d__gdxsymbolsetdomainx", a.n CM, , )
// call-backs
   OP( "gdxDataReadRawFast", { int n = -9; s_cb = &t; s_cbDim = std::max( 0, gdxSymbolDim( H, a.n ) ); s_cbVals = valsOf( H, a.n ); t.i( s.kind == W ? s.w->gdxDataReadRawFast( a.n, cb1, n ) : s.kind == C ? gdxDataReadRawFast( H, a.n, cb1, &n ) : dcall( "f__gdxdatareadrawfast", H, a.n, cb1, &n ) ); t.i( n ); } )
   OP( "gdxDataReadRawFastEx", { int n = -9; s_cb = &t; s_cbSeen = 0; s_cbStop = a.alt > 6 ? a.alt : 1 << 30; s_cbDim = std::max( 0, gdxSymbolDim( H, a.n ) ); s_cbVals = valsOf( H, a.n ); t.i( s.kind == W ? s.w->gdxDataReadRawFastEx( a.n, cbEx, n, &s_cbDim ) : s.kind == C ? gdxDataReadRawFastEx( H, a.n, cbEx, &n, &s_cbDim ) : dcall( "f__gdxdatareadrawfastex", H, a.n, cbExF, &n, (void *) &s_cbDim ) ); t.i( n ); } )
   OP( "gdxDataReadRawFastFilt", { CArr c( a.keys ); s_cb = &t; s_cbSeen = 0; s_cbStop = a.alt > 6 ? a.alt : 1 << 30; s_cbDim = std::max( 0, gdxSymbolDim( H, a.n ) ); s_cbVals = valsOf( H, a.n ); t.i( s.kind == W ? s.w->gdxDataReadRawFastFilt( a.n, c, cbFilt ) : s.kind == C ? gdxDataReadRawFastFilt( H, a.n, c, cbFilt ) : a.alt & 1 ? dcall( "f__gdxdatareadrawfastfilt", H, a.n, (const char **) c, cbFiltF ) : dcall( "d__gdxdatareadrawfastfilt", H, a.n, (const char *) PArr( a.keys ), cbFilt ) ); } )
   OP( "gdxDataReadSlice", { CArr c( a.keys ); int dm = 0; s_cb = &t; int cd = std::max( 0, gdxCurrentDim( H ) ); s_cbDim = 0; s_cbVals = valsOf( H, s_sliceSy ); for( int i = 0; i < cd; i++ ) s_cbDim += a.keys[i].empty(); t.i( s.kind == W ? s.w->gdxDataReadSlice( c, dm, cb1 ) : s.kind == C ? gdxDataReadSlice( H, c, &dm, cb1 ) : a.alt & 1 ? dcall( "f__gdxdatareadslice", H, (const char **) c, &dm, cb1 ) : dcall( "d__gdxdatareadslice", H, (const char *) PArr( a.keys ), &dm, cb1 ) ); t.i( dm ); } )
   OP( "gdxGetDomainElements", { int n = -9; s_cb = &t; int dp = a.m; t.i( s.kind == W ? s.w->gdxGetDomainElements( a.n, dp, a.u, cbDom, n, &s_cbDim ) : s.kind == C ? gdxGetDomainElements( H, a.n, dp, a.u, cbDom, &n, &s_cbDim ) : dcall( "f__gdxgetdomainelements", H, a.n, dp, a.u, cbDomF, &n, (void *) &s_cbDim ) ); t.i( n ); } )
   for( size_t i = 0; i < OPS.size(); i++ ) OPI[OPS[i].name] = (int) i;
}

// ---- histories -----------------------------------------------------------------------------------
enum St { CLOSED, WIDLE, WREG, WDATA, RIDLE, RREG, RFILT, RRAW, RMAP, RSTR, RSLICE };
static char s_sub;// kind of registration or writing
static const std::vector<const char *> ANY = { "gdxSystemInfo", "gdxFindSymbol", "gdxSymbolInfo", "gdxSymbolInfoX", "gdxSymbolDim", "gdxSymbolGetDomain", "gdxSymbolGetDomainX", "gdxSymbolGetComment", "gdxGetElemText", "gdxGetUEL", "gdxUMUelGet", "gdxUMFindUEL", "gdxUMUelInfo", "gdxErrorStr", "gdxErrorCount", "gdxGetDLLVersion", "gdxFileVersion", "gdxFileInfo", "gdxAcronymCount", "gdxAcronymGetInfo", "gdxAcronymName", "gdxAcronymIndex", "gdxAcronymValue", "gdxAcronymGetMapping", "gdxAcronymNextNr", "gdxSetHasText", "gdxSymbMaxLength", "gdxSymbIndxMaxLength", "gdxUELMaxLength", "gdxCurrentDim", "gdxGetMemoryUsed", "gdxMapValue", "gdxGetSpecialValues", "gdxSetTraceLevel", "gdxStoreDomainSets", "gdxAllowBogusDomains", "gdxMapAcronymsToNaN", "gdxAcronymAdd", "gdxAcronymSetInfo", "gdxRenameUEL", "gdxDataErrorCount", "gdxDataErrorRecord", "gdxDataErrorRecordX", "gdxFilterExists", "gdxGetDomainElements", "gdxSetSpecialValues", "gdxResetSpecialValues", "gdxSetReadSpecialValues", "gdxSymbolAddComment", "gdxSymbolSetDomainX", "gdxAddSetText", "gdxAddAlias", "gdxSetTextNodeNr", "gdxStoreDomainSetsSet", "gdxAllowBogusDomainsSet", "gdxMapAcronymsToNaNSet", "gdxAutoConvert" };
struct Trio {
   Side s[3];
   Trio()
   {
      char m[512];
      for( int i = 0; i < 3; i++ )
      {
         s[i].kind = i;
         s[i].dir = g_scratch + fmt( "/%c", "abc"[i] );
         (void) !system( fmt( "mkdir -p '%s'", s[i].dir.c_str() ).c_str() );
         if( i < 2 ) { if( !gdxCreateD( &s[i].h, g_libdir.c_str(), m, sizeof m ) ) fail( "create", "no object: %s", m ); gdxAutoConvert( s[i].h, 0 ); }
         else
         {
            Str e;
            s[i].w = new gdxw::TGXFileObj( e );
            memcpy( &s[i].h, (void *) s[i].w, sizeof( void * ) );// for dimension queries
            s[i].w->gdxAutoConvert( 0 );
         }
      }
   }
   ~Trio()
   {
      for( int i = 0; i < 2; i++ ) gdxFree( &s[i].h );
      delete s[2].w;
      for( auto &x: s ) for( int f = 0; f < 4; f++ ) unlink( ( x.dir + fmt( "/f%d.gdx", f ) ).c_str() );
   }
};
static Str shortTr( const Tr &t )
{
   Str x = t.t.substr( 0, 400 );
   for( auto &o: t.outs ) x += " '" + o.substr( 0, 60 ) + "'";
   return x;
}
static bool rcOf( const Tr &t ) { return atoll( t.t.c_str() ) != 0; }
static void history( Rng &r )
{
   Trio tr;
   St st = CLOSED;
   std::vector<Str> labels = genLabels( r, (int) r.in( 3, 40 ) ), idents;
   int ni = (int) r.in( 2, 9 );
   for( int i = 0; i < ni; i++ ) idents.push_back( genIdent( r ) );
   ValGen vg( r );
   double acro = 0;
   std::vector<double> seenVals;
   int nops = (int) r.in( 60, g_thorough ? 900 : 400 ), dim = 1, typ = 0, wrote = 0, readc = 0;
   Str hist;
   u64 hh = 7;
   int nsy = 0, nuel = 0, fileOpen = 0, redo = 0, opPrev = 0;
   std::set<int> files;
   // usually start from complete files
   for( int f = 0; f < 3; f++ )
      if( r.chance( 3, 5 ) )
      {
         Args a;
         a.file = f;
         Content c = genFile( r, path( tr.s[0], a ), (int) r.in( 0, 1 ), (int) r.in( 0, 1 ) );
         Str b = readFileBytes( path( tr.s[0], a ) );
         for( int i = 1; i < 3; i++ ) writeFileBytes( path( tr.s[i], a ), b );
         files.insert( f );
         for( auto &u: c.uels ) if( labels.size() < 60 || r.chance( 1, 8 ) ) labels.push_back( u );
         for( auto &s: c.syms ) idents.push_back( s.name );
      }
   auto label = [&] { return r.chance( 1, 12 ) ? genText( r ).substr( 0, 255 ) : r.chance( 1, 8 ) ? flipCase( r, r.pick( labels ) ) : r.chance( 1, 9 ) ? r.pick( labels ) + "  " : r.pick( labels ); };
   auto ident = [&] { return r.chance( 1, 14 ) ? genText( r ).substr( 0, 255 ) : r.chance( 1, 4 ) ? genIdent( r ) : r.chance( 1, 4 ) ? flipCase( r, r.pick( idents ) ) : r.pick( idents ); };
   auto text = [&] { Str x = genText( r ); return r.chance( 1, 12 ) ? Str( (size_t) r.in( 250, 255 ), 't' ) : x.substr( 0, 255 ); };
   for( int k = 0; k < nops; k++ )
   {
      Str name;
      if( st == CLOSED || r.chance( 3, 4 ) )
      {
         int q = (int) r.in( 0, 99 );
         switch( st )
         {
            case CLOSED: name = q < 15 ? r.pick( ANY ) : files.empty() || q < 45 ? r.pick( { "gdxOpenWrite", "gdxOpenWriteEx" } ) : q < 60 ? "gdxOpenAppend" : r.pick( { "gdxOpenRead", "gdxOpenReadEx" } ); break;
            case WIDLE: name = q < 30 ? r.pick( { "gdxUELRegisterRawStart", "gdxUELRegisterStrStart", "gdxUELRegisterMapStart" } ) : q < 72 ? r.pick( { "gdxDataWriteRawStart", "gdxDataWriteRawStartKeyBounds", "gdxDataWriteMapStart", "gdxDataWriteStrStart", "gdxDataWriteStrStart" } ) : q < 78 ? r.pick( { "gdxAddSetText", "gdxAddAlias", "gdxSymbolAddComment", "gdxSymbolSetDomainX", "gdxAcronymAdd" } ) : q < 82 ? "gdxClose" : r.pick( ANY ); break;
            case WREG: name = q < 70 ? ( s_sub == 'R' ? "gdxUELRegisterRaw" : s_sub == 'S' ? "gdxUELRegisterStr" : "gdxUELRegisterMap" ) : q < 90 ? "gdxUELRegisterDone" : r.pick( ANY ); break;
            case WDATA: name = q < 8 ? "gdxSymbolSetDomain" : q < 72 ? ( s_sub == 'R' ? "gdxDataWriteRaw" : s_sub == 'S' ? "gdxDataWriteStr" : "gdxDataWriteMap" ) : q < 90 ? "gdxDataWriteDone" : r.pick( ANY ); break;
            case RIDLE: name = q < 40 ? r.pick( { "gdxDataReadRawStart", "gdxDataReadMapStart", "gdxDataReadStrStart", "gdxDataReadStrStart", "gdxDataReadFilteredStart", "gdxDataReadSliceStart", "gdxDataReadSliceStart" } ) : q < 60 ? r.pick( { "gdxDataReadRawFast", "gdxDataReadRawFastEx", "gdxDataReadRawFastFilt", "gdxGetDomainElements" } ) : q < 68 ? r.pick( { "gdxUELRegisterMapStart", "gdxFilterRegisterStart" } ) : q < 73 ? "gdxClose" : r.pick( ANY ); break;
            case RREG: name = q < 70 ? "gdxUELRegisterMap" : q < 90 ? "gdxUELRegisterDone" : r.pick( ANY ); break;
            case RFILT: name = q < 70 ? "gdxFilterRegister" : q < 90 ? "gdxFilterRegisterDone" : r.pick( ANY ); break;
            case RRAW: name = q < 80 ? "gdxDataReadRaw" : q < 90 ? "gdxDataReadDone" : r.pick( ANY ); break;
            case RMAP: name = q < 80 ? "gdxDataReadMap" : q < 90 ? "gdxDataReadDone" : r.pick( ANY ); break;
            case RSTR: name = q < 80 ? "gdxDataReadStr" : q < 90 ? "gdxDataReadDone" : r.pick( ANY ); break;
            case RSLICE: name = q < 45 ? "gdxDataReadSlice" : q < 80 ? "gdxDataSliceUELS" : q < 92 ? "gdxDataReadDone" : r.pick( ANY ); break;
         }
      }
      else { name = OPS[r.next() % OPS.size()].name; if( name == "gdxClose" && r.chance( 2, 3 ) ) name = "gdxGetLastError"; }
      if( k == nops - 1 ) name = "gdxClose";
      Args a;
      a.file = (int) r.in( 0, 2 );
      if( name.compare( 0, 9, "gdxOpenRe" ) == 0 || name == "gdxOpenAppend" ) if( !files.empty() && r.chance( 9, 10 ) ) a.file = *std::next( files.begin(), r.in( 0, (int) files.size() - 1 ) );
      a.alt = (int) r.in( 0, 9 );
      a.dim = r.chance( 1, 20 ) ? (int) r.in( -2, 25 ) : (int) r.pick( { 0, 1, 1, 2, 2, 3, 5, 20 } );
      a.typ = r.chance( 1, 20 ) ? (int) r.in( -1, 6 ) : (int) r.in( 0, 4 );
      a.u = r.chance( 1, 2 ) ? (int) r.in( -3, 12 ) : r.chance( 1, 2 ) ? (int) r.in( -100080, -99998 ) : (int) r.next();
      a.n = r.chance( 1, 12 ) ? (int) r.next() : (int) r.in( r.chance( 1, 6 ) ? -2 : 1, std::max( 3, r.chance( 1, 2 ) ? nsy : nuel ) + ( r.chance( 1, 8 ) ? 2 : 0 ) );
      if( name.find( "Start" ) != Str::npos && name.find( "Filter" ) == Str::npos ) a.n = (int) r.in( r.chance( 1, 10 ) ? -1 : 1, std::max( 1, nsy ) + r.chance( 1, 10 ) );
      if( name == "gdxDataReadFilteredStart" || name == "gdxGetDomainElements" || name.find( "Fast" ) != Str::npos || name.find( "gdxSymbol" ) == 0 ) a.n = (int) r.in( r.chance( 1, 10 ) ? -1 : 0, std::max( 1, nsy ) + r.chance( 1, 10 ) );
      if( name == "gdxFilterRegisterStart" || name == "gdxFilterExists" ) a.n = (int) r.in( r.chance( 1, 8 ) ? -1 : 1, 4 );
      a.m = r.chance( 1, 12 ) ? (int) r.next() : (int) r.in( r.chance( 1, 8 ) ? -2 : 1, name == "gdxGetDomainElements" || name == "gdxSymbolGetComment" ? 4 : 60 );
      if( ( name == "gdxUELRegisterMap" || name == "gdxFilterRegister" ) && a.m > 20000 ) a.m %= 20000;// tables grow with the number
      if( name == "gdxOpenReadEx" ) a.m = (int) r.in( 0, 1 );
      if( name == "gdxGetDomainElements" ) a.u = r.chance( 1, 8 ) ? (int) r.in( -4, 9 ) : (int) r.pick( { -1, -1, 0, 1, 2, 3 } );
      if( name == "gdxAcronymAdd" || name == "gdxAcronymSetInfo" ) { a.n = (int) r.in( 0, 9 ); a.m = (int) r.in( 0, 5 ); }
      if( name == "gdxSymbolAddComment" ) a.n = (int) r.in( -1, nsy + 1 );
      a.a = name.find( "UEL" ) != Str::npos ? label() : name == "gdxAddSetText" || name == "gdxSymbolAddComment" || name.find( "gdxOpen" ) == 0 ? text() : ident();
      a.b = name == "gdxRenameUEL" ? label() : name == "gdxAddAlias" ? ident() : text();
      a.keys.resize( 20 );
      bool blanks = name == "gdxDataReadSlice" || name == "gdxDataReadRawFastFilt", dom = name.find( "SetDomain" ) != Str::npos;
      for( auto &x: a.keys ) x = dom ? ( r.chance( 1, 2 ) ? Str( "*" ) : ident() ) : blanks && r.chance( 2, 3 ) ? Str() : label();
      for( int d = 0; d < 20; d++ )
      {
         a.k[d] = r.chance( 1, 30 ) ? (int) r.in( -1, 80 ) : (int) r.in( 1, std::max( 1, nuel ) );
         a.k2[d] = (int) r.in( r.chance( 1, 10 ) ? -2 : 1, std::max( 1, nuel ) );
         if( name == "gdxDataReadFilteredStart" ) a.k2[d] = (int) r.pick( { -1, -1, 0, 1, 2, 3 } );
         else if( name == "gdxDataWriteRawStartKeyBounds" ) { a.k[d] = 1; a.k2[d] = std::max( 1, nuel + (int) r.in( 0, 3 ) ); }
         else if( name == "gdxDataSliceUELS" ) a.k2[d] = (int) r.in( r.chance( 1, 10 ) ? -1 : 0, 8 );
      }
      for( auto &v: a.v ) v = vg.make( r );
      if( typ == T_SET && st == WDATA ) a.v[0] = (double) r.in( 0, 4 );
      a.x = r.chance( 1, 2 ) ? vg.make( r ) : acro ? acro : 1e301;
      for( int i = 0; i < 7; i++ ) a.sv[i] = vg.make( r ) + i;
      if( redo && name == OPS[opPrev].name && r.chance( 1, 2 ) ) a.alt = 0;
      int oi = OPI.at( name );
      const Op &op = OPS[oi];
      Tr t[3];
      // the order of the objects must not matter
      int ord[3] = { 0, 1, 2 };
      if( r.chance( 1, 2 ) ) std::swap( ord[0], ord[r.in( 1, 2 )] );
      for( int i: ord ) { s_cb = nullptr; op.f( tr.s[i], a, t[i] ); s_cb = nullptr; }
      static const char *NM[] = { "C", "length-prefixed/Fortran", "class" };
      for( int i = 1; i < 3; i++ )
      {
         CHECK( t[0].t == t[i].t, ( "result/" + name ).c_str(), "call %d %s in state %d: C gives%s, %s gives%s; after%s", k, op.name, st, shortTr( t[0] ).c_str(), NM[i], shortTr( t[i] ).c_str(), hist.substr( hist.size() > 300 ? hist.size() - 300 : 0 ).c_str() );
         for( size_t j = 0; j < t[0].outs.size(); j++ )
         {
            auto norm = [&]( Str z, int q ) { size_t at = z.find( tr.s[q].dir ); return at == Str::npos ? z : z.replace( at, tr.s[q].dir.size(), "DIR" ); };
            Str x = norm( t[0].outs[j], 0 ), y = norm( t[i].outs[j], i );
            // where the C call leaves the caller's text alone, the other may hand back an empty one
            bool ok = x == y || ( x == MARK && y.empty() ) || ( i == 1 && x == MARK && !rcOf( t[0] ) && y.empty() );
            CHECK( ok, ( "text/" + name ).c_str(), "call %d %s in state %d (result%s): text %zu is '%s' for C, '%s' for %s", k, op.name, st, t[0].t.substr( 0, 40 ).c_str(), j, x.c_str(), y.c_str(), NM[i] );
         }
      }
      count( "lockstep calls" );
      note( "different functions", oi );
      note( "function and outcome and state", (u64) oi * 64 + st * 2 + rcOf( t[0] ) );
      for( char z: t[0].t ) if( z == '(' ) count( "call-backs compared" );
      bool ok = rcOf( t[0] );
      hist += " " + name.substr( 3 ) + ( ok ? "" : "!" );
      hh = hashBytes( t[0].t.data(), t[0].t.size(), hh );
      opPrev = oi; redo = 1;
      // follow the state
      if( name == "gdxClose" )
      {
         if( st != CLOSED )
         {
            Args f; f.file = fileOpen;
            Str b0 = readFileBytes( path( tr.s[0], f ) );
            for( int i = 1; i < 3; i++ ) CHECK( b0 == readFileBytes( path( tr.s[i], f ) ), "file", "after the close the file written by %s differs from the one written by C; history%s", NM[i], hist.substr( hist.size() > 500 ? hist.size() - 500 : 0 ).c_str() );
            count( "closed files compared" );
            if( st >= WIDLE && st <= WDATA ) { wrote++; count( "bytes of written files compared", b0.size() ); } else readc++;
            if( !b0.empty() ) files.insert( fileOpen );
         }
         st = CLOSED;
      }
      else if( ok )
      {
         if( name.compare( 0, 9, "gdxOpenWr" ) == 0 || name == "gdxOpenAppend" ) { if( st == CLOSED ) { st = WIDLE; fileOpen = a.file; } }
         else if( name.compare( 0, 9, "gdxOpenRe" ) == 0 ) { if( st == CLOSED ) { st = RIDLE; fileOpen = a.file; } }
         else if( name == "gdxUELRegisterRawStart" ) { st = WREG; s_sub = 'R'; }
         else if( name == "gdxUELRegisterStrStart" ) { st = WREG; s_sub = 'S'; }
         else if( name == "gdxUELRegisterMapStart" ) { if( st == WIDLE ) { st = WREG; s_sub = 'M'; } else st = RREG; }
         else if( name == "gdxUELRegisterDone" ) st = st == RREG ? RIDLE : WIDLE;
         else if( name == "gdxDataWriteRawStart" || name == "gdxDataWriteRawStartKeyBounds" ) { st = WDATA; s_sub = 'R'; dim = a.dim; typ = a.typ; }
         else if( name == "gdxDataWriteMapStart" ) { st = WDATA; s_sub = 'M'; dim = a.dim; typ = a.typ; }
         else if( name == "gdxDataWriteStrStart" ) { st = WDATA; s_sub = 'S'; dim = a.dim; typ = a.typ; }
         else if( name == "gdxDataWriteDone" ) st = WIDLE;
         else if( name == "gdxFilterRegisterStart" ) st = RFILT;
         else if( name == "gdxFilterRegisterDone" ) st = RIDLE;
         else if( name == "gdxDataReadRawStart" ) st = RRAW;
         else if( name == "gdxDataReadMapStart" || name == "gdxDataReadFilteredStart" ) st = RMAP;
         else if( name == "gdxDataReadStrStart" ) st = RSTR;
         else if( name == "gdxDataReadSliceStart" ) { st = RSLICE; s_sliceSy = a.n; }
         else if( name == "gdxDataReadDone" ) st = RIDLE;
         else if( name == "gdxAcronymAdd" ) acro = gdxAcronymValue( tr.s[0].h, a.n );
      }
      (void) dim;
      int x = 0, y = 0;
      gdxSystemInfo( tr.s[0].h, &x, &y );
      nsy = x; nuel = y;
      if( r.chance( 1, 2 ) )
      {
         int e[3];
         for( int i = 0; i < 3; i++ ) e[i] = tr.s[i].w ? tr.s[i].w->gdxGetLastError() : gdxGetLastError( tr.s[i].h );
         CHECK( e[0] == e[1] && e[0] == e[2], ( "error/" + name ).c_str(), "after %s the last error is %d, %d, %d", op.name, e[0], e[1], e[2] );
         note( "different error codes", (u64) (uint32_t) e[0] );
      }
   }
   if( wrote && readc ) nontrivial( hh );
   count( "histories" );
   if( g_case % 97 == 0 ) sample( hist );
}

// ---- signatures, versions ------------------------------------------------------------------------
struct Sig { const char *name; int n; int s[8]; };
static const Sig SIGS[] = {
#include "p27_sigs.hpp"
};
static int xcheck( bool delphi, const Str &fn, int n, std::vector<int> sig, Str &msg )
{
   std::unique_ptr<int[]> e( new int[sig.size()] );// exactly what was announced
   std::copy( sig.begin(), sig.end(), e.get() );
   int rc;
   if( delphi )
   {
      POut o;
      dirtyStack();
      rc = dcall( fn.size() % 2 ? "d__xcheck" : "d__gdxxcheck", (const char *) PIn( fn ), n, e.get(), (char *) o );
      msg = o.at();
   }
   else
   {
      COut o;
      rc = dcall( "c__xcheck", fn.c_str(), n, e.get(), (char *) o );
      msg = o.at();
   }
   return rc;
}
static void signatures( Rng &r )
{
   const Sig &g = SIGS[r.next() % ( sizeof SIGS / sizeof SIGS[0] )];
   std::vector<int> v( g.s, g.s + g.n + 1 );
   Str m, m2;
   CHECK( xcheck( false, g.name, g.n, v, m ) && m.empty(), "xcheck", "%s with its own signature is refused: '%s'", g.name, m.c_str() );
   CHECK( xcheck( true, g.name, g.n, v, m ) && m.empty(), "xcheck", "%s with its own signature is refused (length-prefixed): '%s'", g.name, m.c_str() );
   for( int i = 0; i <= g.n; i++ )
   {
      auto w = v;
      w[i] = r.chance( 1, 2 ) ? w[i] + 1 : (int) r.in( 60, 99 );
      CHECK( !xcheck( false, g.name, g.n, w, m ) && m.find( g.name ) != Str::npos, "xcheck", "%s with another type in position %d: '%s'", g.name, i, m.c_str() );
      CHECK( !xcheck( true, g.name, g.n, w, m2 ) && m == m2, "xcheck", "%s with another type in position %d: '%s' and '%s'", g.name, i, m.c_str(), m2.c_str() );
   }
   for( int d: { -1, 1, 5 } )
   {
      auto w = v;
      if( g.n + d < 0 ) continue;
      w.resize( (size_t) ( g.n + d + 1 ), 3 );
      CHECK( !xcheck( false, g.name, g.n + d, w, m ), "xcheck", "%s with %d arguments is accepted", g.name, g.n + d );
      CHECK( !xcheck( true, g.name, g.n + d, w, m2 ) && m == m2, "xcheck", "%s with %d arguments: '%s' and '%s'", g.name, g.n + d, m.c_str(), m2.c_str() );
   }
   Str unknown = r.chance( 1, 2 ) ? Str( g.name ) + "Z" : Str( (size_t) r.in( 1, 255 ), 'q' );
   CHECK( !xcheck( false, unknown, g.n, v, m ) && !m.empty(), "xcheck", "unknown function accepted" );
   CHECK( !xcheck( true, unknown, g.n, v, m2 ) && m2 == m, "xcheck", "unknown function: '%s' and '%s'", m.c_str(), m2.c_str() );
   sym( lower( Str( "c__" ) + g.name ).c_str() );
   count( "signatures checked" );
   note( "functions whose signature was checked", &g - SIGS );
   for( int api: { 11, 12, 10, 7, 6, 1, 0, -5, (int) r.in( -100, 100 ), (int) r.next() } )
   {
      int c1 = -9, c2 = -9;
      COut o;
      POut p;
      int r1 = dcall( "c__xapiversion", api, (char *) o, &c1 );
      dirtyStack();
      int r2 = dcall( "d__xapiversion", api, (char *) p, &c2 );
      int want = api == 11 ? 1 : api > 11 ? 3 : api >= 7 ? 2 : 0;
      CHECK( r1 == r2 && c1 == c2 && o.at() == p.at() && !o.at().empty(), "apiversion", "version %d: %d/%d '%s' and %d/%d '%s'", api, r1, c1, o.at().c_str(), r2, c2, p.at().c_str() );
      CHECK( c1 == want && !!r1 == !!want, "apiversion", "version %d: compatibility %d, result %d", api, c1, r1 );
   }
   // where the library was loaded from
   Str q = r.chance( 1, 3 ) ? Str( (size_t) r.in( 0, 255 ), 'p' ) : genText( r ).substr( 0, 255 );
   Str keep;
   { COut o; memset( o.p.get(), 0, 256 ); ( (void ( * )( char * )) sym( "c__gdxgetloadpath" ) )( o ); keep = o.at(); }
   ( (void ( * )( const char * )) sym( "c__gdxsetloadpath" ) )( q.c_str() );
   COut o;
   ( (void ( * )( char * )) sym( "c__gdxgetloadpath" ) )( o );
   CHECK( o.at() == q, "loadpath", "load path set to '%s' is given as '%s'", q.c_str(), o.at().c_str() );
   ( (void ( * )( const char * )) sym( "c__gdxsetloadpath" ) )( keep.c_str() );
   // creation through the exported functions
   gdxHandle_t h = nullptr;
   int len = (int) r.in( 1, 40 );
   std::unique_ptr<char[]> mb( new char[len] );
   memset( mb.get(), 'z', len );
   int how = (int) r.in( 0, 6 ), rc = 1;
   switch( how )
   {
      case 0: rc = dcall( "gdxcreate", &h, mb.get(), len ); break;
      case 1: rc = dcall( "gdxcreated", &h, keep.c_str(), mb.get(), len ); break;
      case 2: rc = dcall( "d__gdxcreated", &h, (const char *) PIn( keep.substr( 0, 255 ) ), mb.get(), len ); break;
      case 3: ( (void ( * )( gdxHandle_t * )) sym( "gdxxcreate" ) )( &h ); mb[0] = 0; break;
      case 4: ( (void ( * )( gdxHandle_t *, const char * )) sym( "gdxxcreated" ) )( &h, keep.c_str() ); mb[0] = 0; break;
      case 5: ( (void ( * )( gdxHandle_t *, const char * )) sym( "d__gdxxcreated" ) )( &h, PIn( keep.substr( 0, 255 ) ) ); mb[0] = 0; break;
      default: ( (void ( * )( gdxHandle_t *, const char * )) sym( "d__xcreated" ) )( &h, PIn( keep.substr( 0, 255 ) ) ); mb[0] = 0; break;
   }
   CHECK( rc && h && !mb[0], "create", "creation %d: result %d, object %p, message '%.*s'", how, rc, h, len, mb.get() );
   CHECK( dcall( "c__gdxerrorcount", h ) == 0 && dcall( "c__gdxgetlasterror", h ) == 0, "create", "a new object already has errors" );
   if( r.chance( 1, 2 ) ) { CHECK( dcall( "gdxfree", &h ) && !h, "create", "freeing leaves the handle" ); }
   else { ( (void ( * )( gdxHandle_t * )) sym( r.chance( 1, 2 ) ? "gdxxfree" : "xfree" ) )( &h ); CHECK( !h, "create", "freeing leaves the handle" ); }
   count( "objects created through exported functions" );
}

// ---- loader --------------------------------------------------------------------------------------
static int s_cbCount;
static Str s_cbMsg;
static int errCb( int n, const char *m ) { s_cbCount = n; s_cbMsg = m; return 0; }
static Str otherLib()
{
   Dl_info d;
   return dladdr( (void *) &dlopen, &d ) && d.dli_fname ? Str( d.dli_fname ) : Str( "libm.so.6" );
}
static void loader( Rng &r )
{
   CHECK( gdxLibraryUnload(), "unload", "the library cannot be unloaded though no object exists" );
   CHECK( !gdxLibraryLoaded(), "unload", "still loaded after unloading" );
   { char m[300] = ""; CHECK( !gdxCorrectLibraryVersion( m, sizeof m ) && m[0], "version", "version check passes without a library" ); }
   // refused loads
   for( int i = 0; i < 3; i++ )
   {
      Str dir = r.chance( 1, 3 ) ? "/" + Str( (size_t) r.in( 1, 3000 ), 'd' ) : r.chance( 1, 3 ) ? "/" + Str( (size_t) r.in( 495, 520 ), 'e' ) : g_scratch + "/no such place";
      int how = (int) r.in( 0, 6 );
      gdxHandle_t h = nullptr;
      auto go = [&]( char *b, int n ) {
         switch( how )
         {
            case 0: return gdxGetReadyD( dir.c_str(), b, n );
            case 1: return gdxGetReadyL( ( dir + "/libx.so" ).c_str(), b, n );
            case 2: return gdxCreateD( &h, dir.c_str(), b, n );
            case 3: return gdxCreateDD( &h, dir.c_str(), b, n );
            case 4: return gdxGetReadyL( otherLib().c_str(), b, n );// loadable, but not this library
            default: return gdxCreateL( &h, ( dir + "/liby.so" ).c_str(), b, n );
         }
      };
      std::unique_ptr<char[]> big( new char[8000] );
      CHECK( !go( big.get(), 8000 ), "load", "loading from '%.80s' succeeds", dir.c_str() );
      Str full( big.get() );
      CHECK( !full.empty(), "load", "a refused load gives no reason" );
      int n = r.chance( 1, 3 ) ? (int) full.size() + (int) r.in( -2, 2 ) : (int) r.in( 1, (int) full.size() + 5 );
      n = std::max( n, 1 );
      std::unique_ptr<char[]> b( new char[n] );
      memset( b.get(), 'z', n );
      CHECK( !go( b.get(), n ), "load", "loading from '%.80s' succeeds", dir.c_str() );
      CHECK( memchr( b.get(), 0, n ) && full.compare( 0, n - 1, b.get() ) == 0, "loadmsg", "message of a refused load in a buffer of %d is '%.*s', in a large one '%s'", n, n, b.get(), full.c_str() );
      CHECK( !gdxLibraryLoaded(), "load", "a refused load counts as loaded" );
      if( r.chance( 1, 4 ) ) CHECK( !go( nullptr, 0 ), "load", "loading succeeds without buffer" );
      count( "refused loads" );
   }
   // accepted ones
   gdxHandle_t h = nullptr;
   int n = r.chance( 1, 2 ) ? (int) r.in( 1, 60 ) : (int) r.in( 61, 300 );
   std::unique_ptr<char[]> b( new char[n] );
   memset( b.get(), 'z', n );
   Str file = g_libdir + "/libgdxcclib64.so", dir = g_libdir + Str( r.in( 0, 2 ), '/' );
   int how = (int) r.in( 0, 6 ), rc = 0;
   char *bp = how < 3 && r.chance( 1, 4 ) ? nullptr : b.get();
   switch( how )
   {
      case 0: rc = gdxGetReadyD( dir.c_str(), bp, n ); break;
      case 1: rc = gdxGetReadyL( file.c_str(), bp, n ); break;
      case 2: rc = gdxCreateD( &h, dir.c_str(), bp, n ); break;
      case 3: rc = gdxCreateD( &h, dir.c_str(), bp, n ); break;
      case 4: rc = gdxCreateDD( &h, dir.c_str(), bp, n ); break;
      default: rc = gdxCreateL( &h, file.c_str(), bp, n ); break;
   }
   CHECK( rc && gdxLibraryLoaded(), "load", "loading in way %d fails: '%.*s'", how, n, b.get() );
   if( bp ) CHECK( memchr( b.get(), 0, n ), "loadmsg", "no message end in the buffer of %d", n );
   count( "accepted loads" );
   if( how >= 2 ) CHECK( h, "load", "no object" );
   {
      std::unique_ptr<char[]> v( new char[n] );
      memset( v.get(), 'z', n );
      CHECK( gdxCorrectLibraryVersion( v.get(), n ) == 1, "version", "the library of this tree has not the version of its loader: '%.*s'", n, v.get() );
      CHECK( memchr( v.get(), 0, n ), "loadmsg", "message of the version check has no end in the buffer of %d", n );
   }
   int extra = (int) r.in( 0, 3 );
   std::vector<gdxHandle_t> hs( (size_t) extra );
   for( auto &x: hs ) { char m[300]; CHECK( gdxCreate( &x, m, sizeof m ), "load", "no object: %s", m ); }
   if( h ) hs.push_back( h );
   while( !hs.empty() )
   {
      CHECK( !gdxLibraryUnload() && gdxLibraryLoaded(), "unload", "the library is unloaded while %zu objects exist", hs.size() );
      size_t i = (size_t) r.in( 0, (int) hs.size() - 1 );
      CHECK( gdxErrorCount( hs[i] ) == 0, "load", "object unusable" );
      CHECK( gdxFree( &hs[i] ) && !hs[i], "unload", "freeing leaves the handle" );
      hs.erase( hs.begin() + (long) i );
   }
   CHECK( gdxLibraryUnload() && !gdxLibraryLoaded(), "unload", "cannot unload after the last object is gone" );
   // reporting of errors of the interface itself
   int si = gdxGetScreenIndicator(), xi = gdxGetExitIndicator(), ei = gdxGetExceptionIndicator(), c0 = gdxGetAPIErrorCount();
   auto cb0 = gdxGetErrorCallback();
   gdxSetScreenIndicator( 0 ); gdxSetExitIndicator( 0 ); gdxSetExceptionIndicator( 0 );
   CHECK( !gdxGetScreenIndicator() && !gdxGetExitIndicator() && !gdxGetExceptionIndicator(), "indicator", "indicators cannot be switched off" );
   gdxSetErrorCallback( errCb );
   CHECK( gdxGetErrorCallback() == errCb, "indicator", "call-back not kept" );
   int c = (int) r.in( 0, 1000 );
   gdxSetAPIErrorCount( c );
   s_cbCount = -1;
   Str msg = genText( r );
   gdxErrorHandling( msg.c_str() );
   CHECK( s_cbCount == c + 1 && s_cbMsg == msg && gdxGetAPIErrorCount() == c + 1, "indicator", "error %d reported as %d '%s'", c + 1, s_cbCount, s_cbMsg.c_str() );
   gdxSetErrorCallback( cb0 ); gdxSetAPIErrorCount( c0 );
   gdxSetScreenIndicator( 7 ); CHECK( gdxGetScreenIndicator() == 1, "indicator", "screen indicator" );
   gdxSetScreenIndicator( si ); gdxSetExitIndicator( xi ); gdxSetExceptionIndicator( ei );
   char m[300];
   CHECK( gdxGetReadyD( g_libdir.c_str(), m, sizeof m ), "load", "cannot load again: %s", m );
}
void monInit()
{
   s_lib = dlopen( ( g_libdir + "/libgdxcclib64.so" ).c_str(), RTLD_NOW );
   if( !s_lib ) { fprintf( stderr, "HARNESS cannot load library: %s\n", dlerror() ); _exit( 99 ); }
   char m[300];
   gdxGetReadyD( g_libdir.c_str(), m, sizeof m );
   makeOps();
}
void monDone() {}
void runCase( u64 idx, Rng &r )
{
   if( idx % 8 == 3 ) { signatures( r ); nontrivial( r.next() ); }
   else if( idx % 8 == 7 ) { loader( r ); nontrivial( r.next() ); }
   else history( r );
}
