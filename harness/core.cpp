#include "core.hpp"
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>

Str g_scratch, g_libdir;
bool g_thorough;
u64 g_case;
static std::map<Str, u64> s_counts;
static std::map<Str, std::set<u64>> s_notes;
static std::vector<Str> s_samples;
static std::set<u64> s_nontriv;
struct V { u64 idx; Str key, msg; };
static std::vector<V> s_viol;
static std::map<Str, Str> s_known;
static u64 s_cases;

u64 hashBytes( const void *p, size_t n, u64 h )
{
   const unsigned char *c = (const unsigned char *) p;
   for( size_t i = 0; i < n; i++ ) { h ^= c[i]; h *= 1099511628211ull; }
   return h;
}
static Str vfmt( const char *f, va_list ap )
{
   va_list a2;
   va_copy( a2, ap );
   int n = vsnprintf( nullptr, 0, f, a2 );
   va_end( a2 );
   Str s( (size_t) n + 1, 0 );
   vsnprintf( &s[0], (size_t) n + 1, f, ap );
   s.resize( (size_t) n );
   return s;
}
Str fmt( const char *f, ... ) { va_list ap; va_start( ap, f ); Str s = vfmt( f, ap ); va_end( ap ); return s; }
void fail( const char *key, const char *f, ... )
{
   va_list ap; va_start( ap, f ); Str s = vfmt( f, ap ); va_end( ap );
   throw Fail { key, s };
}
void count( const char *name, u64 n ) { s_counts[name] += n; }
void note( const char *name, u64 v ) { s_notes[name].insert( v ); }
void sample( const Str &s ) { if( s_samples.size() < 4 ) s_samples.push_back( s.substr( 0, 400 ) ); }
void nontrivial( u64 h ) { s_nontriv.insert( h ); }
void known( const Str &id, const Str &msg ) { s_known[id] = msg; }
Str scratchFile( const Str &name ) { return g_scratch + "/" + name; }
Str readFileBytes( const Str &path )
{
   FILE *f = fopen( path.c_str(), "rb" );
   if( !f ) return Str();
   Str s; char buf[65536]; size_t n;
   while( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 ) s.append( buf, n );
   fclose( f );
   return s;
}
void writeFileBytes( const Str &path, const Str &d )
{
   FILE *f = fopen( path.c_str(), "wb" );
   if( !f ) { fprintf( stderr, "HARNESS cannot write %s\n", path.c_str() ); _exit( 99 ); }
   if( !d.empty() && fwrite( d.data(), 1, d.size(), f ) != d.size() ) { fprintf( stderr, "HARNESS short write\n" ); _exit( 99 ); }
   fclose( f );
}
int openFds()
{
   int n = 0;
   DIR *d = opendir( "/proc/self/fd" );
   while( readdir( d ) ) n++;
   closedir( d );
   return n;
}

Gdx::Gdx()
{
   char msg[512] = "";
   if( !gdxCreateD( &h, g_libdir.c_str(), msg, sizeof msg ) ) { fprintf( stderr, "HARNESS cannot create object: %s\n", msg ); _exit( 99 ); }
}
Gdx::~Gdx() { if( h ) gdxFree( &h ); }

int cmpKey( const Rec &a, const Rec &b, int dim )
{
   for( int d = 0; d < dim; d++ ) if( a.k[d] != b.k[d] ) return a.k[d] < b.k[d] ? -1 : 1;
   return 0;
}
Str lower( const Str &s ) { Str t = s; for( auto &c: t ) if( c >= 'A' && c <= 'Z' ) c += 32; return t; }
Str trimR( const Str &s ) { size_t n = s.size(); while( n && (unsigned char) s[n - 1] <= 32 ) n--; return s.substr( 0, n ); }
static bool alpha( char c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); }
bool goodIdent( const Str &s )
{
   if( s.empty() || s.size() > 63 || !alpha( s[0] ) ) return false;
   for( char c: s ) if( !alpha( c ) && !( c >= '0' && c <= '9' ) && c != '_' ) return false;
   return true;
}
bool goodUel( const Str &s )
{
   if( s.size() > 63 ) return false;
   bool sq = false, dq = false;
   for( unsigned char c: s ) { if( c < 32 ) return false; if( c == '\'' ) sq = true; if( c == '"' ) dq = true; }
   return !( sq && dq );
}
Str normText( const Str &in, bool symText )
{
   Str s = in;
   if( symText && s.size() > 255 ) s = "String overflow: " + s.substr( 0, 235 ) + "...";
   if( s.size() > 255 ) s.resize( 255 );
   char q = 0;
   for( auto &c: s )
      if( c == '\'' || c == '"' ) { if( !q ) q = c; c = q; }
      else if( (unsigned char) c < 32 ) c = '?';
   return s;
}
Str normComment( const Str &s ) { return s.substr( 0, 255 ); }
double normVal( double x )
{
   if( std::isnan( x ) ) return GMS_SV_NA;
   if( std::isinf( x ) ) return x > 0 ? GMS_SV_PINF : GMS_SV_MINF;
   if( x == 0 ) return 0.0;
   return x;
}
Str showRec( const Rec &r, int dim, int type )
{
   Str s = "(";
   for( int d = 0; d < dim; d++ ) s += fmt( d ? ",%d" : "%d", r.k[d] );
   s += ")=";
   for( int i = 0; i < nvals( type ); i++ ) s += fmt( i ? ",%.17g" : "%.17g", r.v[i] );
   return s;
}

// ---------------------------------------------------------------------------------------------
Content readContent( gdxHandle_t h, const ReadOpts &o )
{
   Content c;
   char a[512], b[512];
   int n, m, x, y, ver;
   CHECK( gdxFileVersion( h, a, b ), "fileversion", "gdxFileVersion failed" );
   c.producer = b;
   CHECK( gdxFileInfo( h, &ver, &c.compr ), "fileinfo", "gdxFileInfo failed" );
   CHECK( gdxSystemInfo( h, &n, &m ), "systeminfo", "gdxSystemInfo failed" );
   int nu, hm;
   CHECK( gdxUMUelInfo( h, &nu, &hm ), "umuelinfo", "gdxUMUelInfo failed" );
   CHECK( nu == m, "uelcount", "label counts differ: %d (mapping info) vs %d (system info)", nu, m );
   int maxl = 0;
   for( int i = 1; i <= m; i++ )
   {
      CHECK( gdxUMUelGet( h, i, a, &x ), "umuelget", "label %d of %d cannot be read", i, m );
      c.uels.push_back( a );
      maxl = std::max( maxl, (int) strlen( a ) );
      if( o.find )
      {
         int nr = -7, mp = -7;
         CHECK( gdxUMFindUEL( h, a, &nr, &mp ), "umfinduel", "label %d '%s' not found by name", i, a );
         CHECK( nr == i, "umfinduel", "label %d '%s' found as number %d", i, a, nr );
         CHECK( mp == x, "umfinduel", "label %d '%s' mapping %d vs %d", i, a, mp, x );
      }
   }
   CHECK( gdxUELMaxLength( h ) == maxl, "uelmaxlen", "longest label reported %d, is %d", gdxUELMaxLength( h ), maxl );
   int maxs = 0;
   for( int i = 1; i <= n; i++ )
   {
      Sym s;
      CHECK( gdxSymbolInfo( h, i, a, &s.dim, &s.type ), "symbolinfo", "gdxSymbolInfo(%d of %d) failed", i, n );
      s.name = a;
      maxs = std::max( maxs, (int) s.name.size() );
      CHECK( gdxSymbolDim( h, i ) == s.dim, "symboldim", "symbol %d dimension %d vs %d", i, gdxSymbolDim( h, i ), s.dim );
      int rc;
      CHECK( gdxSymbolInfoX( h, i, &rc, &s.user, a ), "symbolinfox", "gdxSymbolInfoX(%d) failed", i );
      s.text = a;
      CHECK( gdxFindSymbol( h, s.name.c_str(), &x ) && x == i, "findsymbol", "symbol '%s' (%d) found as %d", s.name.c_str(), i, x );
      for( y = 1; gdxSymbolGetComment( h, i, y, a ); y++ ) s.comments.push_back( a );
      CHECK( !a[0], "comment", "comment query past the end returned text '%s'", a );
      s.domNrs.assign( s.dim, -9 );
      std::vector<std::array<char, 256>> buf( MAXD );
      char *ptr[MAXD];
      for( int d = 0; d < MAXD; d++ ) { buf[d][0] = 0; ptr[d] = buf[d].data(); }
      if( s.dim > 0 ) CHECK( gdxSymbolGetDomain( h, i, s.domNrs.data() ), "getdomain", "gdxSymbolGetDomain(%d) failed", i );
      s.domKind = gdxSymbolGetDomainX( h, i, ptr );
      for( int d = 0; d < s.dim; d++ ) s.domIds.push_back( ptr[d] );
      s.hasText = gdxSetHasText( h, i ) != 0;
      if( o.records )
      {
         CHECK( gdxDataReadRawStart( h, i, &x ), "readrawstart", "cannot start reading symbol %d '%s': error %d", i, s.name.c_str(), gdxGetLastError( h ) );
         CHECK( gdxCurrentDim( h ) == s.dim, "currentdim", "current dimension %d vs %d", gdxCurrentDim( h ), s.dim );
         Rec rec {}, prev {};
         int df;
         auto spoil = [&]() { for( int d = 0; d < s.dim; d++ ) rec.k[d] = -987654; for( int j = 0; j < nvals( s.type ); j++ ) rec.v[j] = -7.25e77; };
         for( spoil(); gdxDataReadRaw( h, rec.k, rec.v, &df ); spoil() )
         {
            int ex = 1;
            if( !s.recs.empty() )
            {
               ex = s.dim;
               for( int d = 0; d < s.dim; d++ ) if( rec.k[d] != prev.k[d] ) { ex = d + 1; break; }
            }
            if( !s.dim ) ex = ver < 7 && df == 1 ? 1 : 0;// old files: no meaning for scalars
            CHECK( df == ex, "dimfirst", "symbol '%s' record %zu: first changed position %d, expected %d", s.name.c_str(), s.recs.size() + 1, df, ex );
            if( !s.recs.empty() && s.dim ) CHECK( cmpKey( prev, rec, s.dim ) < 0, "order", "symbol '%s' record %zu not in ascending order", s.name.c_str(), s.recs.size() + 1 );
            s.recs.push_back( rec );
            prev = rec;
         }
         CHECK( (int) s.recs.size() == x, "reccount", "symbol '%s': %zu records read, %d announced", s.name.c_str(), s.recs.size(), x );
         if( s.type != T_ALIAS )
            CHECK( rc == (int) s.recs.size(), "reccount", "symbol '%s': %zu records read, catalogue says %d", s.name.c_str(), s.recs.size(), rc );
         count( "records_read", s.recs.size() );
      }
      c.syms.push_back( s );
   }
   CHECK( gdxSymbMaxLength( h ) == maxs, "symbmaxlen", "longest symbol name reported %d, is %d", gdxSymbMaxLength( h ), maxs );
   for( int i = 1; i <= gdxAcronymCount( h ); i++ )
   {
      Acro ac;
      CHECK( gdxAcronymGetInfo( h, i, a, b, &ac.idx ), "acronyminfo", "gdxAcronymGetInfo(%d) failed", i );
      ac.name = a; ac.text = b;
      c.acros.push_back( ac );
   }
   if( o.texts )
   {
      c.texts.clear();
      for( int i = 0; gdxGetElemText( h, i, a, &x ); i++ )
      {
         c.texts.push_back( a );
         if( i > 5000000 ) fail( "texts", "text table does not end" );
      }
   }
   count( "symbols_read", n );
   count( "labels_read", m );
   return c;
}
Content readFile( const Str &path, const ReadOpts &o )
{
   Gdx g;
   int err = 0;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "openread", "cannot open '%s' for reading: error %d", path.c_str(), err );
   Content c = readContent( g, o );
   CHECK( gdxErrorCount( g ) == 0, "errcount", "%d errors counted while reading a good file", gdxErrorCount( g ) );
   int rc = gdxClose( g );
   CHECK( rc == 0, "closeread", "closing a file that was read returned %d", rc );
   return c;
}
Str diffContent( const Content &e, const Content &g, bool producer )
{
   if( producer && e.producer != g.producer ) return fmt( "producer '%s' vs '%s'", e.producer.c_str(), g.producer.c_str() );
   if( e.uels.size() != g.uels.size() ) return fmt( "label count: expected %zu, got %zu", e.uels.size(), g.uels.size() );
   for( size_t i = 0; i < e.uels.size(); i++ )
      if( e.uels[i] != g.uels[i] ) return fmt( "label %zu: expected '%s', got '%s'", i + 1, e.uels[i].c_str(), g.uels[i].c_str() );
   if( e.syms.size() != g.syms.size() ) return fmt( "symbol count: expected %zu, got %zu", e.syms.size(), g.syms.size() );
   for( size_t i = 0; i < e.syms.size(); i++ )
   {
      const Sym &a = e.syms[i], &b = g.syms[i];
      Str w = fmt( "symbol %zu '%s': ", i + 1, a.name.c_str() );
      if( a.name != b.name ) return w + "name is '" + b.name + "'";
      if( a.dim != b.dim ) return w + fmt( "dimension expected %d, got %d", a.dim, b.dim );
      if( a.type != b.type ) return w + fmt( "type expected %d, got %d", a.type, b.type );
      if( a.user != b.user ) return w + fmt( "user info expected %d, got %d", a.user, b.user );
      if( a.text != b.text ) return w + "text expected '" + a.text + "', got '" + b.text + "'";
      if( a.comments != b.comments ) return w + fmt( "comments differ (%zu expected, %zu got)", a.comments.size(), b.comments.size() );
      if( a.domKind != b.domKind ) return w + fmt( "domain kind expected %d, got %d", a.domKind, b.domKind );
      if( a.domNrs != b.domNrs ) return w + "domain symbol numbers differ";
      for( int d = 0; d < a.dim; d++ )
         if( a.domIds[d] != b.domIds[d] ) return w + fmt( "domain name %d expected '%s', got '%s'", d + 1, a.domIds[d].c_str(), b.domIds[d].c_str() );
      if( a.hasText != b.hasText ) return w + fmt( "has-text expected %d, got %d", a.hasText, b.hasText );
      if( !a.checkRecs ) continue;
      size_t n = std::min( a.recs.size(), b.recs.size() );
      for( size_t j = 0; j < n; j++ )
      {
         bool same = cmpKey( a.recs[j], b.recs[j], a.dim ) == 0;
         for( int v = 0; v < nvals( a.type ); v++ ) same = same && bits( a.recs[j].v[v] ) == bits( b.recs[j].v[v] );
         if( !same ) return w + fmt( "record %zu of %zu: expected %s, got %s", j + 1, a.recs.size(), showRec( a.recs[j], a.dim, a.type ).c_str(), showRec( b.recs[j], a.dim, a.type ).c_str() );
      }
      if( a.recs.size() != b.recs.size() ) return w + fmt( "record count expected %zu, got %zu", a.recs.size(), b.recs.size() );
   }
   if( e.texts != g.texts )
   {
      if( e.texts.size() != g.texts.size() ) return fmt( "text count: expected %zu, got %zu", e.texts.size(), g.texts.size() );
      for( size_t i = 0; i < e.texts.size(); i++ )
         if( e.texts[i] != g.texts[i] ) return fmt( "text %zu: expected '%s', got '%s'", i, e.texts[i].c_str(), g.texts[i].c_str() );
   }
   if( e.acros.size() != g.acros.size() ) return fmt( "acronym count: expected %zu, got %zu", e.acros.size(), g.acros.size() );
   for( size_t i = 0; i < e.acros.size(); i++ )
      if( e.acros[i].name != g.acros[i].name || e.acros[i].text != g.acros[i].text || e.acros[i].idx != g.acros[i].idx )
         return fmt( "acronym %zu: expected %s '%s' %d, got %s '%s' %d", i + 1, e.acros[i].name.c_str(), e.acros[i].text.c_str(), e.acros[i].idx, g.acros[i].name.c_str(), g.acros[i].text.c_str(), g.acros[i].idx );
   return "";
}

// ---------------------------------------------------------------------------------------------
LabelGen::LabelGen( Rng &r ) : style( (int) r.in( 0, 8 ) ) {}
Str LabelGen::make( Rng &r, int i )
{
   auto rnd = [&]( int len, auto gen ) { Str s; for( int k = 0; k < len; k++ ) s += (char) gen(); return s; };
   switch( style )
   {
      case 0: return fmt( "i%d", i + 1 );
      case 1: return fmt( "%d", i + 1 );
      case 2: return rnd( (int) r.in( 1, 12 ), [&] { return "abcdefghijABCDEFGHIJ_0123"[r.in( 0, 24 )]; } );
      case 3: return trimR( rnd( (int) r.in( 1, 20 ), [&] { char c; do c = (char) r.in( 32, 126 ); while( c == '\'' ); return c; } ) );
      case 4: return trimR( rnd( (int) r.in( 1, 30 ), [&] { unsigned char c; do c = (unsigned char) r.in( 33, 255 ); while( c == '"' ); return c; } ) );
      case 5: return rnd( (int) r.in( 55, 63 ), [&] { return (char) r.in( 'a', 'z' ); } );
      case 8: return Str( 52, 'k' ) + fmt( "%d", i );// long common beginning
      case 6: return trimR( Str( (size_t) r.in( 0, 3 ), ' ' ) + fmt( "New York's %d", i ) );
      default: return rnd( (int) r.in( 0, 3 ), [&] { return (char) r.in( 'a', 'c' ); } ) + fmt( "%x", (unsigned) i * 2654435761u );
   }
}
std::vector<Str> genLabels( Rng &r, int n )
{
   std::vector<Str> v;
   std::set<Str> seen;
   LabelGen g( r );
   int tries = 0;
   for( int i = 0; (int) v.size() < n; i++ )
   {
      if( r.chance( 1, 50 ) ) { g = LabelGen( r ); }
      Str s = tries > 20 ? fmt( "u%d", i ) : g.make( r, i );
      if( !goodUel( s ) || s != trimR( s ) ) { tries++; continue; }
      if( seen.insert( lower( s ) ).second ) { v.push_back( s ); tries = 0; }
      else tries++;
   }
   return v;
}
Str genIdent( Rng &r )
{
   int len = r.chance( 1, 10 ) ? (int) r.in( 60, 63 ) : (int) r.in( 1, 9 );
   Str s;
   static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
   s += cs[r.in( 0, 51 )];
   while( (int) s.size() < len ) s += cs[r.in( 0, 62 )];
   return s;
}
Str genText( Rng &r )
{
   int len = (int) ( r.chance( 1, 8 ) ? r.in( 250, 300 ) : r.chance( 1, 5 ) ? 0 : r.in( 1, 60 ) );
   int st = (int) r.in( 0, 3 );
   Str s;
   for( int i = 0; i < len; i++ )
      s += (char) ( st == 0 ? r.in( 'a', 'z' ) : st == 1 ? r.in( 32, 126 ) : st == 2 ? r.in( 1, 255 ) : r.pick( { 'a', '\'', '"', 'B', '\t', ' ' } ) );
   if( st == 0 && len >= 3 && s[0] < 'n' )
   {// an ordinary word with one character in it that needs care
      size_t at = s[1] < 'e' ? 0 : s[1] < 'i' ? s.size() - 1 : (size_t) s[1] % s.size();
      char c = "'\",;/$=*.( &"[( s[0] - 'a' ) % 12];
      s[at] = c;
      if( c == '.' ) s[at ? at - 1 : 1] = c;
   }
   return s;
}
double ValGen::make( Rng &r )
{
   static const std::vector<double> sp { 0, 1, -1, 0.5, 2, GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
   int st = style;
   if( r.chance( 1, 20 ) ) st = (int) r.in( 0, 7 );
   switch( st )
   {
      case 0: return r.pick( sp );
      case 1: return (double) r.in( -1000, 1000 );
      case 2: return (double) r.in( -1000000, 1000000 ) / 1000.0;
      case 3:
         for( ;; )
         {
            double d = fromBits( r.next() );
            if( std::isnan( d ) || std::isinf( d ) ) { if( !allowNaN ) continue; return d; }
            if( d >= 1e300 ) continue;// special value / acronym range
            return d;
         }
      case 4: return r.pick( { 4.9e-324, -4.9e-324, 2.2250738585072014e-308, 1e-300, -0.0, 0.1, 1.0 / 3.0, 3.0, -2.0, -0.5, 0.25, 1e10, 9.999999e299, -1e300, -5e300, -1.7976931348623157e308, 1.0000000000000002, 0.9999999999999999 } );
      case 5: return std::ldexp( (double) r.in( 1, 1 << 30 ), (int) r.in( -100, 100 ) ) * ( r.chance( 1, 2 ) ? 1 : -1 );
      case 6: return 1.0;
      default: return allowNaN && r.chance( 1, 10 ) ? r.pick( { std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity() } ) : (double) r.in( 0, 3 );
   }
}
int genDim( Rng &r )
{
   if( r.chance( 1, 6 ) ) return (int) r.in( 9, 20 );
   if( r.chance( 1, 8 ) ) return 20;
   return (int) r.in( 0, 5 );
}
int genCount( Rng &r, int dim, bool big )
{
   if( dim == 0 ) return (int) r.in( 0, 1 );
   if( big && r.chance( 1, 6 ) ) return (int) r.in( 3000, 9000 );
   if( r.chance( 1, 8 ) ) return 0;
   if( r.chance( 1, 8 ) ) return 1;
   if( r.chance( 1, 3 ) ) return (int) r.in( 20, 600 );
   return (int) r.in( 1, 20 );
}
KeyShape genShape( Rng &r, int dim, int maxKey )
{
   KeyShape s {};
   for( int d = 0; d < dim; d++ )
   {
      int64_t span;
      switch( r.in( 0, 7 ) )
      {
         case 0: span = r.in( 1, 3 ); break;
         case 1: span = r.in( 252, 259 ); break;
         case 2: span = r.in( 65530, 65541 ); break;
         case 3: span = maxKey; break;
         case 4: span = r.in( 230, 256 ); break;
         default: span = r.in( 1, 100 );
      }
      span = std::max<int64_t>( 1, std::min<int64_t>( span, maxKey ) );
      int64_t lo = r.chance( 1, 3 ) ? 1 : r.in( 1, (int64_t) maxKey - span + 1 );
      s.lo[d] = (int) lo;
      s.hi[d] = (int) ( lo + span - 1 );
   }
   return s;
}
std::vector<Rec> genKeys( Rng &r, int dim, int n, const KeyShape &s, int style )
{
   std::vector<Rec> v;
   if( n <= 0 ) return v;
   if( dim == 0 ) { v.resize( 1 ); return v; }
   Rec cur {};
   for( int d = 0; d < dim; d++ ) cur.k[d] = style == 0 ? s.lo[d] : (int) r.in( s.lo[d], s.hi[d] );
   if( style == 1 )// random keys, extremes included
   {
      for( int i = 0; i < n; i++ )
      {
         Rec x {};
         for( int d = 0; d < dim; d++ ) x.k[d] = r.chance( 1, 6 ) ? ( r.chance( 1, 2 ) ? s.lo[d] : s.hi[d] ) : (int) r.in( s.lo[d], s.hi[d] );
         v.push_back( x );
      }
   }
   else// walk: controlled distances in the last position
   {
      v.push_back( cur );
      int lim = 255 - dim - 1;
      for( int i = 1; i < n; i++ )
      {
         int d = dim - 1;
         if( !r.chance( 3, 4 ) ) d = (int) r.in( 0, dim - 1 );
         int64_t step = 1;
         switch( r.in( 0, 5 ) )
         {
            case 0: step = r.in( lim - 2, lim + 3 ); break;
            case 1: step = r.in( 250, 260 ); break;
            case 2: step = r.in( 1, (int64_t) s.hi[d] - s.lo[d] + 1 ); break;
            case 3: step = r.in( 2, 5 ); break;
            default: step = 1;
         }
         while( d >= 0 && cur.k[d] + step > s.hi[d] ) { cur.k[d] = s.lo[d]; d--; step = 1; }
         if( d < 0 ) break;
         cur.k[d] += (int) step;
         for( int e = d + 1; e < dim; e++ )
            if( r.chance( 1, 2 ) ) cur.k[e] = (int) r.in( s.lo[e], s.hi[e] );
         v.push_back( cur );
      }
   }
   std::sort( v.begin(), v.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
   v.erase( std::unique( v.begin(), v.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) == 0; } ), v.end() );
   return v;
}
Str flipCase( Rng &r, const Str &s )
{
   Str t = s;
   for( auto &c: t ) if( alpha( c ) && r.chance( 1, 2 ) ) c ^= 32;
   return t;
}

// ---------------------------------------------------------------------------------------------
Writer::Writer( Gdx &gg, Rng &rr ) : g( gg ), r( rr ) { textIdx[""] = 0; }
void Writer::reindex()
{
   uelIdx.clear(); symIdx.clear(); textIdx.clear();
   for( size_t i = 0; i < c.uels.size(); i++ ) uelIdx[lower( c.uels[i] )] = (int) i + 1;
   for( size_t i = 0; i < c.syms.size(); i++ ) symIdx[lower( c.syms[i].name )] = (int) i + 1;
   for( size_t i = 0; i < c.texts.size(); i++ ) textIdx[c.texts[i]] = (int) i;
   for( auto &s: c.syms ) if( s.domKind == 2 ) for( auto &d: s.domIds ) if( d != "*" ) domStr.emplace( lower( d ), d );
}
void Writer::open( const Str &path, int compr, const Str &prod )
{
   int err = -1;
   Str producer = prod;
   if( producer == "monitor" && r.chance( 1, 12 ) ) producer = r.chance( 1, 3 ) ? Str( (size_t) r.in( 254, 300 ), 'P' ) : genText( r );
   CHECK( gdxOpenWriteEx( g, path.c_str(), producer.c_str(), compr, &err ) && err == 0, "openwrite", "cannot create '%s': error %d", path.c_str(), err );
   gdxAutoConvert( g, 0 );
   c.compr = compr ? 1 : 0;
   c.producer = producer.substr( 0, 255 );
}
int Writer::resolve( int nr ) const
{
   while( nr > 0 && c.syms[(size_t) nr - 1].type == T_ALIAS ) nr = c.syms[(size_t) nr - 1].user;
   return nr;
}
void Writer::addAlias( const Str &name, int target )
{
   Str t = target ? c.syms[(size_t) target - 1].name : Str( "*" );
   Str tt = r.chance( 1, 3 ) ? flipCase( r, t ) : t;
   bool swap = r.chance( 1, 2 );
   CHECK( swap ? gdxAddAlias( g, tt.c_str(), name.c_str() ) : gdxAddAlias( g, name.c_str(), tt.c_str() ), "alias", "alias '%s' of '%s' refused, error %d", name.c_str(), t.c_str(), gdxGetLastError( g ) );
   Sym s;
   s.name = name;
   s.type = T_ALIAS;
   s.user = target;
   s.dim = target ? c.syms[(size_t) target - 1].dim : 1;
   s.text = "Aliased with " + t;
   s.domNrs.assign( (size_t) s.dim, 0 );
   s.domIds.assign( (size_t) s.dim, "*" );
   c.syms.push_back( s );
   symIdx[lower( name )] = (int) c.syms.size();
   count( "aliases_written" );
}
void Writer::addComment( int nr, const Str &t, bool current )
{
   CHECK( gdxSymbolAddComment( g, current ? (int) r.in( -1, 0 ) : nr, t.c_str() ), "addcomment", "comment for symbol %d refused", nr );
   c.syms[(size_t) nr - 1].comments.push_back( normComment( t ) );
}
void Writer::setDomainX( int nr, const std::vector<Str> &ids )
{
   const char *p[MAXD];
   Sym &s = c.syms[(size_t) nr - 1];
   for( int d = 0; d < s.dim; d++ ) p[d] = ids[(size_t) d].c_str();
   CHECK( gdxSymbolSetDomainX( g, nr, p ), "setdomainx", "relaxed domain for symbol %d refused", nr );
   if( !s.dim ) return;
   s.domKind = 2;
   for( int d = 0; d < s.dim; d++ )
   {
      Str id = ids[(size_t) d];
      if( !goodIdent( id ) ) { s.domIds[(size_t) d] = "*"; continue; }
      auto it = domStr.emplace( lower( id ), id ).first;
      s.domIds[(size_t) d] = it->second;
   }
}
void Writer::append( const Str &path, const Str &producer )
{
   int err = -1;
   CHECK( gdxOpenAppend( g, path.c_str(), producer.c_str(), &err ) && err == 0, "openappend", "cannot append to '%s': error %d", path.c_str(), err );
   gdxAutoConvert( g, 0 );
   uel2usr.clear(); usr2uel.clear(); highUsr = 0;
}
void Writer::close()
{
   for( auto &s: c.syms )
      if( s.type == T_ALIAS )
      {
         int t = resolve( s.user );
         s.recs.clear();
         if( t ) s.recs = c.syms[(size_t) t - 1].recs;
         else
            for( size_t i = 0; i < c.uels.size(); i++ ) { Rec x {}; x.k[0] = (int) i + 1; s.recs.push_back( x ); }
      }
   int rc = gdxClose( g );
   CHECK( rc == 0, "closewrite", "closing the written file returned %d", rc );
}
int Writer::addUel( const Str &label )
{
   auto it = uelIdx.find( lower( label ) );
   if( it != uelIdx.end() ) return it->second;
   c.uels.push_back( label );
   int n = (int) c.uels.size();
   uelIdx[lower( label )] = n;
   return n;
}
void Writer::registerLabels( const std::vector<Str> &labels, char mode )
{
   if( mode == 'R' ) CHECK( gdxUELRegisterRawStart( g ), "uelregstart", "gdxUELRegisterRawStart refused" );
   if( mode == 'S' ) CHECK( gdxUELRegisterStrStart( g ), "uelregstart", "gdxUELRegisterStrStart refused" );
   if( mode == 'M' ) CHECK( gdxUELRegisterMapStart( g ), "uelregstart", "gdxUELRegisterMapStart refused" );
   int next = highUsr;
   std::vector<int> nrs;
   if( mode == 'M' )
   {
      int step = (int) r.in( 1, 3 );
      for( size_t i = 0; i < labels.size(); i++ ) nrs.push_back( next += (int) r.in( 1, step ) );
      if( r.chance( 1, 2 ) ) r.shuffle( nrs );
   }
   for( size_t i = 0; i < labels.size(); i++ )
   {
      Str l = labels[i];
      if( r.chance( 1, 10 ) ) l += Str( (size_t) r.in( 1, 3 ), ' ' );
      bool isNew = !uelIdx.count( lower( trimR( l ) ) );
      int n = addUel( trimR( l ) );
      if( mode == 'R' ) CHECK( gdxUELRegisterRaw( g, l.c_str() ), "uelreg", "raw registration of '%s' refused", l.c_str() );
      else if( mode == 'S' )
      {
         int nr = -1;
         CHECK( gdxUELRegisterStr( g, l.c_str(), &nr ), "uelreg", "registration of '%s' refused", l.c_str() );
         int ex;
         if( uel2usr.count( n ) ) ex = uel2usr[n];
         else { ex = ++highUsr; uel2usr[n] = ex; usr2uel[ex] = n; }
         CHECK( nr == ex, "uelreg", "registration of '%s' gave user number %d, expected %d", l.c_str(), nr, ex );
      }
      else
      {
         if( uel2usr.count( n ) ) nrs[i] = uel2usr[n];
         CHECK( gdxUELRegisterMap( g, nrs[i], l.c_str() ), "uelreg", "mapping '%s' to %d refused (%s)", l.c_str(), nrs[i], isNew ? "new" : "known" );
         uel2usr[n] = nrs[i];
         usr2uel[nrs[i]] = n;
         highUsr = std::max( highUsr, nrs[i] );
      }
   }
   CHECK( gdxUELRegisterDone( g ), "uelregdone", "gdxUELRegisterDone refused" );
   count( "labels_registered", labels.size() );
}
int Writer::addText( const Str &t )
{
   int nr = -1;
   CHECK( gdxAddSetText( g, t.c_str(), &nr ), "addtext", "gdxAddSetText refused" );
   Str n = normText( t, false );
   auto it = textIdx.find( n );
   int ex;
   if( it != textIdx.end() ) ex = it->second;
   else { ex = (int) c.texts.size(); c.texts.push_back( n ); textIdx[n] = ex; }
   CHECK( nr == ex, "addtext", "text '%s' got number %d, expected %d", n.c_str(), nr, ex );
   return nr;
}
Rec Writer::store( const Rec &x, const Sym &s )
{
   Rec y = x;
   for( int i = 0; i < 5; i++ ) y.v[i] = i < nvals( s.type ) ? normVal( x.v[i] ) : 0.0;
   return y;
}
Rec defaultRec( int type, int user )
{
   Rec d {};
   const double P = GMS_SV_PINF, M = GMS_SV_MINF;
   const double var[10][2] = { { 0, 0 }, { 0, 1 }, { 0, P }, { 0, P }, { M, 0 }, { M, P }, { 0, P }, { 0, P }, { 1, P }, { 1, P } };
   const double equ[7][2] = { { 0, 0 }, { 0, P }, { M, 0 }, { M, P }, { 0, 0 }, { 0, P }, { 0, 0 } };
   if( type == T_VAR ) { int u = user >= 0 && user <= 9 ? user : 0; d.v[2] = var[u][0]; d.v[3] = var[u][1]; d.v[4] = 1; }
   if( type == T_EQU ) { int u = user >= 53 && user < 60 ? user - 53 : 0; d.v[2] = equ[u][0]; d.v[3] = equ[u][1]; d.v[4] = 1; }
   return d;
}
int Writer::writeSymbol( Sym s, const std::vector<Rec> &in, char mode )
{
   int ok = 0;
   const char *nm = s.name.c_str(), *tx = s.text.c_str();
   if( mode == 'S' ) ok = gdxDataWriteStrStart( g, nm, tx, s.dim, s.type, s.user );
   else if( mode == 'M' ) ok = gdxDataWriteMapStart( g, nm, tx, s.dim, s.type, s.user );
   else if( mode == 'R' ) ok = gdxDataWriteRawStart( g, nm, tx, s.dim, s.type, s.user );
   else
   {
      int lo[MAXD], hi[MAXD];
      for( int d = 0; d < s.dim; d++ )
      {
         lo[d] = std::numeric_limits<int>::max(); hi[d] = 0;
         for( auto &x: in ) { lo[d] = std::min( lo[d], x.k[d] ); hi[d] = std::max( hi[d], x.k[d] ); }
         if( in.empty() ) { lo[d] = 1; hi[d] = 5; }
         if( r.chance( 1, 4 ) ) lo[d] = std::max( 0, lo[d] - (int) r.in( 0, 3 ) );
         if( r.chance( 1, 4 ) && hi[d] < 2000000000 ) hi[d] += (int) r.in( 0, 3 );
      }
      ok = gdxDataWriteRawStartKeyBounds( g, nm, tx, s.dim, s.type, s.user, lo, hi );
   }
   CHECK( ok, "writestart", "start of symbol '%s' (dim %d, type %d, mode %c) refused, error %d", nm, s.dim, s.type, mode, gdxGetLastError( g ) );
   int nr = (int) c.syms.size() + 1;
   if( s.domKind == 3 )
   {
      const char *p[MAXD];
      s.domIds.clear();
      for( int d = 0; d < s.dim; d++ ) s.domIds.push_back( s.domNrs[(size_t) d] ? c.syms[(size_t) s.domNrs[(size_t) d] - 1].name : Str( "*" ) );
      for( int d = 0; d < s.dim; d++ ) p[d] = s.domIds[(size_t) d].c_str();
      CHECK( gdxSymbolSetDomain( g, p ), "setdomain", "domain of symbol '%s' refused, error %d", nm, gdxGetLastError( g ) );
      count( "regular_domains" );
   }
   std::vector<Rec> stored;
   std::map<int, int> lab;// record key -> file label number (identity unless labels appear during writing)
   for( auto &x: in )
   {
      if( mode == 'R' || mode == 'B' )
      {
         CHECK( gdxDataWriteRaw( g, x.k, x.v ), "writeraw", "raw record %s refused, error %d", showRec( x, s.dim, s.type ).c_str(), gdxGetLastError( g ) );
      }
      else if( mode == 'M' )
      {
         int k[MAXD];
         for( int d = 0; d < s.dim; d++ ) k[d] = uel2usr.at( x.k[d] );
         CHECK( gdxDataWriteMap( g, k, x.v ), "writemap", "mapped record %s refused, error %d", showRec( x, s.dim, s.type ).c_str(), gdxGetLastError( g ) );
      }
      else
      {
         std::vector<Str> ks;
         const char *kp[MAXD];
         ks.reserve( MAXD );
         for( int d = 0; d < s.dim; d++ )
         {
            Str l = c.uels.at( (size_t) x.k[d] - 1 );
            if( r.chance( 1, 8 ) ) l = flipCase( r, l );
            if( r.chance( 1, 16 ) ) l += "  ";
            ks.push_back( l );
            kp[d] = ks[(size_t) d].c_str();
         }
         CHECK( gdxDataWriteStr( g, kp, x.v ), "writestr", "record %s refused, error %d", showRec( x, s.dim, s.type ).c_str(), gdxGetLastError( g ) );
      }
      stored.push_back( store( x, s ) );
      if( s.type == T_SET && x.v[0] != 0.0 ) s.hasText = true;
   }
   CHECK( gdxDataWriteDone( g ), "writedone", "gdxDataWriteDone refused" );
   int dim = s.dim;
   std::sort( stored.begin(), stored.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
   if( dim == 0 && stored.empty() )
   {// documented: reading an empty scalar yields the default record
      Rec d = defaultRec( s.type, s.user );
      stored.push_back( d );
   }
   s.recs = stored;
   s.text = normText( s.text, true );
   if( s.domKind != 3 ) { s.domNrs.assign( (size_t) dim, 0 ); s.domIds.assign( (size_t) dim, "*" ); }
   symIdx[lower( s.name )] = nr;
   c.syms.push_back( s );
   count( "symbols_written" );
   count( "records_written", in.size() );
   return nr;
}
std::vector<Rec> recsFor( Rng &r, Writer &w, Sym &s, int n, int maxKey )
{
   KeyShape sh = genShape( r, s.dim, maxKey );
   std::vector<Rec> v = genKeys( r, s.dim, n, sh, (int) r.in( 0, 2 ) );
   ValGen vg( r );
   for( auto &x: v )
      for( int i = 0; i < nvals( s.type ); i++ )
         x.v[i] = s.type == T_SET ? ( r.chance( 1, 2 ) ? 0 : (double) r.in( 0, (int64_t) w.c.texts.size() - 1 ) ) : !w.c.acros.empty() && r.chance( 1, 12 ) ? 1e301 * r.pick( w.c.acros ).idx : vg.make( r );
   return v;
}
void genInto( Rng &r, Writer &w, int size )
{
   int nl = size == 0 ? (int) r.in( 1, 30 ) : size == 1 ? (int) r.pick( { 200, 254, 255, 256, 257, 300, 600 } ) : (int) r.pick( { 3000, 20000, 65534, 65535, 65536, 65600 } );
   std::vector<Str> labels = genLabels( r, nl );
   bool mapped = r.chance( 1, 2 );
   if( mapped ) w.registerLabels( labels, r.chance( 1, 2 ) ? 'M' : 'S' );
   else w.registerLabels( labels, 'R' );
   int nt = (int) ( r.chance( 1, 3 ) ? 0 : r.in( 1, size ? 100 : 8 ) );
   for( int i = 0; i < nt; i++ ) w.addText( genText( r ) );
   int ns = (int) ( r.chance( 1, 12 ) ? r.in( 20, 60 ) : r.in( 1, 5 ) );
   if( r.chance( 1, 4 ) )
   {
      int na = (int) r.in( 1, 4 );
      for( int i = 0; i < na; i++ )
      {
         Str an = genIdent( r ), at = genText( r );
         int ix = (int) r.in( 1, 200 );
         bool clash = w.symIdx.count( lower( an ) ) != 0;
         for( auto &a: w.c.acros ) if( lower( a.name ) == lower( an ) || a.idx == ix ) clash = true;
         if( clash ) continue;
         CHECK( gdxAcronymAdd( w.g, an.c_str(), at.c_str(), ix ) == (int) w.c.acros.size() + 1, "acronymadd", "acronym '%s' refused", an.c_str() );
         w.c.acros.push_back( { an, normText( at, false ), ix } );
         w.symIdx[lower( an )] = -1;
      }
   }
   int firstSym = (int) w.c.syms.size() + 1;
   for( int i = 0; i < ns; i++ )
   {
      Sym s;
      do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
      s.text = genText( r );
      s.dim = genDim( r );
      s.type = (int) r.in( 0, 3 );
      s.user = s.type == T_EQU ? (int) r.in( 51, 61 ) : (int) r.in( -2, 12 );
      if( r.chance( 1, 20 ) ) s.user = (int) r.pick( { std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 1000 } );
      char mode = mapped ? r.pick( { 'S', 'M', 'R', 'B' } ) : r.pick( { 'S', 'R', 'B' } );
      int n = genCount( r, s.dim, ns < 20 );
      std::vector<Rec> recs = recsFor( r, w, s, n, (int) w.c.uels.size() );
      if( s.dim && r.chance( 1, 3 ) )
      {// regular domains over one-dimensional sets (and aliases of them); records outside are dropped beforehand
         std::vector<int> cand;
         for( size_t q = 0; q < w.c.syms.size(); q++ )
         {
            int t = w.resolve( (int) q + 1 );
            if( t == 0 || ( w.c.syms[(size_t) t - 1].type == T_SET && w.c.syms[(size_t) t - 1].dim == 1 ) ) { if( w.c.syms[q].type == T_SET || w.c.syms[q].type == T_ALIAS ) cand.push_back( (int) q + 1 ); }
         }
         if( !cand.empty() )
         {
            s.domKind = 3;
            for( int d = 0; d < s.dim; d++ )
            {
               s.domNrs.push_back( r.chance( 2, 3 ) ? r.pick( cand ) : 0 );
               int t = s.domNrs.back() ? w.resolve( s.domNrs.back() ) : 0;
               if( !t || t < firstSym ) continue;
               std::set<int> mem;
               for( auto &x: w.c.syms[(size_t) t - 1].recs ) mem.insert( x.k[0] );
               recs.erase( std::remove_if( recs.begin(), recs.end(), [&]( const Rec &x ) { return !mem.count( x.k[d] ); } ), recs.end() );
            }
         }
      }
      if( mode == 'S' || mode == 'M' ) { if( r.chance( 2, 3 ) ) r.shuffle( recs ); else if( r.chance( 1, 2 ) ) std::reverse( recs.begin(), recs.end() ); }
      if( mode == 'M' ) for( auto &x: recs ) for( int d = 0; d < s.dim; d++ ) if( !w.uel2usr.count( x.k[d] ) ) { mode = 'S'; break; }
      int nr = w.writeSymbol( s, recs, mode );
      while( r.chance( 1, 6 ) ) w.addComment( nr, genText( r ) );
      if( r.chance( 1, 6 ) )
      {
         std::vector<Str> ids;
         for( int d = 0; d < s.dim; d++ ) ids.push_back( r.chance( 1, 4 ) ? Str( "*" ) : r.chance( 1, 6 ) ? Str( "9bad" ) : genIdent( r ) );
         w.setDomainX( nr, ids );
      }
      if( r.chance( 1, 6 ) )
      {
         Str an;
         do an = genIdent( r ); while( w.symIdx.count( lower( an ) ) );
         int t = (int) r.in( 0, (int64_t) w.c.syms.size() );
         if( t == 0 || w.c.syms[(size_t) t - 1].type == T_SET || w.c.syms[(size_t) t - 1].type == T_ALIAS ) w.addAlias( an, t );
      }
   }
}
Content genFile( Rng &r, const Str &path, int compr, int size, Gdx *obj )
{
   std::unique_ptr<Gdx> own;
   if( !obj ) { own.reset( new Gdx ); obj = own.get(); }
   Writer w( *obj, r );
   w.open( path, compr );
   genInto( r, w, size );
   w.close();
   return w.c;
}

// ---------------------------------------------------------------------------------------------
static Str jesc( const Str &s )
{
   Str o;
   for( unsigned char c: s )
   {
      if( c == '"' || c == '\\' ) { o += '\\'; o += (char) c; }
      else if( c < 32 || c > 126 ) o += fmt( "\\u%04x", c );
      else o += (char) c;
   }
   return o;
}
static int s_progFd = -1;
static void onAlarm( int )
{
   static const char m[] = "HANG: case exceeded its time limit\n";
   (void) !write( 2, m, sizeof m - 1 );
   _exit( 77 );
}
__attribute__( ( weak ) ) void monInit() {}
__attribute__( ( weak ) ) void monDone() {}
static volatile sig_atomic_t s_stop;// told to finish: what was explored so far is the result
int main( int argc, char **argv )
{
   u64 seed = 1, from = 0, to = 1, stride = 1;
   Str out = "", prog = "";
   int cpu = 60;
   for( int i = 1; i + 1 < argc; i += 2 )
   {
      Str a = argv[i], v = argv[i + 1];
      if( a == "--seed" ) seed = strtoull( v.c_str(), nullptr, 10 );
      else if( a == "--from" ) from = strtoull( v.c_str(), nullptr, 10 );
      else if( a == "--to" ) to = strtoull( v.c_str(), nullptr, 10 );
      else if( a == "--stride" ) stride = strtoull( v.c_str(), nullptr, 10 );
      else if( a == "--out" ) out = v;
      else if( a == "--progress" ) prog = v;
      else if( a == "--scratch" ) g_scratch = v;
      else if( a == "--libdir" ) g_libdir = v;
      else if( a == "--cpu" ) cpu = atoi( v.c_str() );
      else if( a == "--tier" ) g_thorough = v == "thorough";
   }
   if( !prog.empty() ) s_progFd = open( prog.c_str(), O_RDWR | O_CREAT, 0644 );
   signal( SIGVTALRM, onAlarm );
   signal( SIGTERM, []( int ) { s_stop = 1; } );
   monInit();
   for( u64 i = from; i < to && !s_stop; i += stride )
   {
      g_case = i;
      if( s_progFd >= 0 ) { char b[32]; int n = snprintf( b, sizeof b, "%020llu\n", (unsigned long long) i ); (void) !pwrite( s_progFd, b, (size_t) n, 0 ); }
      struct itimerval tv {};
      tv.it_value.tv_sec = cpu;
      setitimer( ITIMER_VIRTUAL, &tv, nullptr );
      Rng r( seed * 1000003ull + i * 7919ull + 17 );
      s_cases++;
      try { runCase( i, r ); }
      catch( const Fail &f )
      {
         fprintf( stderr, "FAIL case=%llu key=%s %s\n", (unsigned long long) i, f.key.c_str(), f.msg.c_str() );
         if( s_viol.size() < 200 ) s_viol.push_back( { i, f.key, f.msg } );
         else break;
      }
   }
   struct itimerval tv {};
   setitimer( ITIMER_VIRTUAL, &tv, nullptr );
   g_case = ~0ull;
   monDone();
   FILE *f = out.empty() ? stderr : fopen( out.c_str(), "w" );
   fprintf( f, "{\"cases\":%llu,\"rule\":\"%s\",\"counts\":{", (unsigned long long) s_cases, jesc( MON_RULE ).c_str() );
   bool first = true;
   for( auto &x: s_counts ) { fprintf( f, "%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long) x.second ); first = false; }
   fprintf( f, "},\"notes\":{" );
   first = true;
   for( auto &x: s_notes )
   {
      fprintf( f, "%s\"%s\":[", first ? "" : ",", x.first.c_str() );
      bool f2 = true;
      for( u64 y: x.second ) { fprintf( f, "%s\"%llx\"", f2 ? "" : ",", (unsigned long long) y ); f2 = false; }
      fprintf( f, "]" );
      first = false;
   }
   fprintf( f, "},\"nontrivial\":[" );
   first = true;
   for( u64 x: s_nontriv ) { fprintf( f, "%s\"%llx\"", first ? "" : ",", (unsigned long long) x ); first = false; }
   fprintf( f, "],\"samples\":[" );
   first = true;
   for( auto &x: s_samples ) { fprintf( f, "%s\"%s\"", first ? "" : ",", jesc( x ).c_str() ); first = false; }
   fprintf( f, "],\"known\":{" );
   first = true;
   for( auto &x: s_known ) { fprintf( f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc( x.first ).c_str(), jesc( x.second ).c_str() ); first = false; }
   fprintf( f, "},\"violations\":[" );
   first = true;
   for( auto &x: s_viol ) { fprintf( f, "%s{\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", (unsigned long long) x.idx, jesc( x.key ).c_str(), jesc( x.msg ).c_str() ); first = false; }
   fprintf( f, "]}\n" );
   if( f != stderr ) fclose( f );
   return 0;
}
