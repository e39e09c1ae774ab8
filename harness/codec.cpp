#include "codec.hpp"
#include <zlib.h>
namespace {
constexpr int BOI = 19510624;
constexpr size_t BLOCK = 32768;
struct Cursor {
   const Str *b;
   size_t p = 0;
   bool compressed = false;
   bool swW, swI, swD;
   Str blk;
   size_t bp = 0;
   size_t blocks = 0, stored = 0;
   void need( size_t n ) { if( n > b->size() || p > b->size() - n ) throw BadFile { fmt( "reads past the end at %zu", p ) }; }
   void go( int64_t pos, bool c ) { if( pos < 0 || (size_t) pos > b->size() ) throw BadFile { fmt( "position %lld outside the file", (long long) pos ) }; p = (size_t) pos; compressed = c; blk.clear(); bp = 0; }
   void fill()
   {
      need( 3 );
      unsigned char t = (unsigned char) ( *b )[p], hi = (unsigned char) ( *b )[p + 1], lo = (unsigned char) ( *b )[p + 2];
      p += 3;
      size_t len = ( (size_t) hi << 8 ) + lo;
      need( len );
      if( t == 0 ) { blk = b->substr( p, len ); stored++; }
      else if( t == 1 )
      {
         blk.assign( BLOCK, 0 );
         uLongf n = BLOCK;
         if( uncompress( (Bytef *) &blk[0], &n, (const Bytef *) b->data() + p, len ) != Z_OK ) throw BadFile { "bad compressed block" };
         blk.resize( n );
      }
      else throw BadFile { fmt( "block type %d", t ) };
      if( blk.empty() || blk.size() > BLOCK ) throw BadFile { "empty or oversized block" };
      p += len;
      bp = 0;
      blocks++;
   }
   void get( void *d, size_t n )
   {
      if( !compressed ) { need( n ); memcpy( d, b->data() + p, n ); p += n; return; }
      char *c = (char *) d;
      while( n )
      {
         if( bp >= blk.size() ) fill();
         size_t k = std::min( n, blk.size() - bp );
         memcpy( c, blk.data() + bp, k );
         c += k; bp += k; n -= k;
      }
   }
   template<class T> T num( bool sw )
   {
      unsigned char x[8];
      get( x, sizeof( T ) );
      if( sw ) std::reverse( x, x + sizeof( T ) );
      T v;
      memcpy( &v, x, sizeof( T ) );
      return v;
   }
   int u8() { return num<uint8_t>( false ); }
   int u16() { return num<uint16_t>( swW ); }
   int i32() { return num<int32_t>( swI ); }
   int64_t i64() { return num<int64_t>( swI ); }
   double dbl() { return num<double>( swD ); }
   Str str() { int n = u8(); Str s( (size_t) n, 0 ); if( n ) get( &s[0], (size_t) n ); return s; }
   void mark( const char *m ) { Str s = str(); if( s != m ) throw BadFile { Str( "marker " ) + m + " expected, found '" + s + "'" }; }
};
const double SPECIAL[10] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS, 0.0, 1.0, -1.0, 0.5, 2.0 };
int width( int64_t lo, int64_t hi ) { int64_t n = hi - lo + 1; return n <= 0 ? 4 : n <= 255 ? 1 : n <= 65535 ? 2 : 4; }
struct Order { int w = 0, i = 0, d = 0; };
}// namespace

Decoded decodeGdx( const Str &bytes )
{
   Decoded o;
   Cursor f;
   f.b = &bytes;
   f.swW = f.swI = f.swD = false;
   if( f.u8() != 2 ) throw BadFile { "word size" };
   int w = f.u16();
   if( w == 0x3412 ) f.swW = true; else if( w != 0x1234 ) throw BadFile { "word pattern" };
   if( f.u8() != 4 ) throw BadFile { "integer size" };
   int i = f.i32();
   if( i == 0x78563412 ) f.swI = true; else if( i != 0x12345678 ) throw BadFile { "integer pattern" };
   if( f.u8() != 8 ) throw BadFile { "double size" };
   double d = f.dbl();
   if( bits( d ) == __builtin_bswap64( bits( 3.14159265358979323846 ) ) ) f.swD = true; else if( d != 3.14159265358979323846 ) throw BadFile { "double pattern" };
   if( f.u8() != 123 ) throw BadFile { "header number" };
   if( f.str() != "GAMSGDX" ) throw BadFile { "header text" };
   o.version = f.i32();
   if( o.version != 7 ) throw BadFile { fmt( "version %d", o.version ) };
   int compr = f.i32();
   if( compr != 0 && compr != 1 ) throw BadFile { fmt( "compression level %d", compr ) };
   o.c.compr = compr;
   Str sys = f.str();
   if( sys.empty() ) throw BadFile { "no system text" };
   o.c.producer = f.str();
   o.indexPos = (int64_t) f.p;
   f.need( 80 );
   if( f.i32() != BOI ) throw BadFile { "index marker" };
   o.symbPos = f.i64(); o.uelPos = f.i64(); o.textPos = f.i64(); o.acroPos = f.i64(); o.nextPos = f.i64(); o.domPos = f.i64();
   f.go( o.symbPos, compr );
   f.mark( "_SYMB_" );
   int n = f.i32();
   if( n < 0 ) throw BadFile { "symbol count" };
   std::vector<bool> sc;
   std::vector<int> cnt;
   for( int q = 0; q < n; q++ )
   {
      Sym s;
      s.name = f.str();
      int64_t pos = f.i64();
      o.symPos.push_back( pos );
      s.dim = f.i32();
      s.type = f.u8();
      if( s.dim < 0 || s.dim > 20 || s.type > 4 ) throw BadFile { "symbol dimension or type" };
      s.user = f.i32();
      cnt.push_back( f.i32() );
      int errs = f.i32();
      if( errs < 0 ) throw BadFile { "error count" };
      int ht = f.u8();
      if( ht > 1 ) throw BadFile { "text flag" };
      s.hasText = ht;
      s.text = f.str();
      int ic = f.u8();
      if( ic > 1 || ( ic && !compr ) ) throw BadFile { "compression flag" };
      sc.push_back( ic );
      int hd = f.u8();
      if( hd > 1 ) throw BadFile { "domain flag" };
      s.domNrs.assign( (size_t) s.dim, 0 );
      s.domIds.assign( (size_t) s.dim, "*" );
      if( hd )
      {
         s.domKind = 3;
         for( int k = 0; k < s.dim; k++ ) s.domNrs[(size_t) k] = f.i32();
      }
      int nc = f.i32();
      if( nc < 0 ) throw BadFile { "comment count" };
      for( int k = 0; k < nc; k++ ) s.comments.push_back( f.str() );
      o.c.syms.push_back( s );
   }
   f.mark( "_SYMB_" );
   f.go( o.textPos, compr );
   f.mark( "_SETT_" );
   n = f.i32();
   o.c.texts.clear();
   for( int q = 0; q < n; q++ ) o.c.texts.push_back( f.str() );
   f.mark( "_SETT_" );
   f.go( o.uelPos, compr );
   f.mark( "_UEL_" );
   n = f.i32();
   for( int q = 0; q < n; q++ ) o.c.uels.push_back( f.str() );
   f.mark( "_UEL_" );
   f.go( o.acroPos, compr );
   f.mark( "_ACRO_" );
   n = f.i32();
   for( int q = 0; q < n; q++ ) { Acro a; a.name = f.str(); a.text = f.str(); a.idx = f.i32(); o.c.acros.push_back( a ); }
   f.mark( "_ACRO_" );
   f.go( o.domPos, compr );
   f.mark( "_DOMS_" );
   n = f.i32();
   std::vector<Str> doms;
   for( int q = 0; q < n; q++ ) doms.push_back( f.str() );
   f.mark( "_DOMS_" );
   for( ;; )
   {
      int sy = f.i32();
      if( sy == -1 ) break;
      if( sy < 1 || sy > (int) o.c.syms.size() ) throw BadFile { "domain of unknown symbol" };
      Sym &s = o.c.syms[(size_t) sy - 1];
      s.domKind = 2;
      for( int k = 0; k < s.dim; k++ )
      {
         int x = f.i32();
         if( x < 0 || x > (int) doms.size() ) throw BadFile { "domain name number" };
         s.domIds[(size_t) k] = x ? doms[(size_t) x - 1] : Str( "*" );
      }
   }
   f.mark( "_DOMS_" );
   for( size_t q = 0; q < o.c.syms.size(); q++ )
   {
      Sym &s = o.c.syms[q];
      if( s.domKind == 3 )
         for( int k = 0; k < s.dim; k++ )
         {
            int x = s.domNrs[(size_t) k];
            if( x < 0 || x > (int) o.c.syms.size() ) throw BadFile { "domain symbol number" };
            if( x ) s.domIds[(size_t) k] = o.c.syms[(size_t) x - 1].name;
         }
      if( s.type == T_ALIAS ) continue;
      f.go( o.symPos[q], sc[q] );
      f.mark( "_DATA_" );
      if( f.u8() != s.dim ) throw BadFile { "data dimension" };
      o.declared.push_back( f.i32() );
      int lo[MAXD], hi[MAXD], wd[MAXD], last[MAXD];
      for( int k = 0; k < s.dim; k++ ) { lo[k] = f.i32(); hi[k] = f.i32(); wd[k] = width( lo[k], hi[k] ); last[k] = -256; }
      for( ;; )
      {
         int b = f.u8();
         if( b == 255 ) break;
         if( b > s.dim )
         {
            if( !s.dim && b != 1 ) throw BadFile { fmt( "record code %d in a scalar", b ) };
            if( s.dim ) last[s.dim - 1] += b - s.dim;
         }
         else
         {
            if( s.dim && b < 1 ) throw BadFile { "record code 0" };
            for( int k = b - 1; k < s.dim; k++ )
            {
               int64_t v = wd[k] == 1 ? f.u8() : wd[k] == 2 ? f.u16() : f.i32();
               o.wide[wd[k] == 1 ? 0 : wd[k] == 2 ? 1 : 2]++;
               last[k] = (int) ( v + lo[k] );
            }
         }
         Rec x {};
         for( int k = 0; k < s.dim; k++ ) x.k[k] = last[k];
         for( int v = 0; v < nvals( s.type ); v++ )
         {
            int code = f.u8();
            if( code > 10 ) throw BadFile { fmt( "value code %d", code ) };
            x.v[v] = code < 10 ? SPECIAL[code] : f.dbl();
         }
         s.recs.push_back( x );
      }
      if( (int) s.recs.size() != cnt[q] ) throw BadFile { fmt( "symbol '%s' has %zu records, the table says %d", s.name.c_str(), s.recs.size(), cnt[q] ) };
      o.dataEnd = std::max( o.dataEnd, (int64_t) f.p );
      if( !s.dim && s.recs.empty() ) s.recs.push_back( defaultRec( s.type, s.user ) );
   }
   for( auto &s: o.c.syms )
      if( s.type == T_ALIAS )
      {
         int t = s.user, guard = 0;
         while( t > 0 && t <= (int) o.c.syms.size() && o.c.syms[(size_t) t - 1].type == T_ALIAS && guard++ < 100000 ) t = o.c.syms[(size_t) t - 1].user;
         if( t < 0 || t > (int) o.c.syms.size() ) throw BadFile { "alias target" };
         if( t ) s.recs = o.c.syms[(size_t) t - 1].recs;
         else for( size_t u = 0; u < o.c.uels.size(); u++ ) { Rec x {}; x.k[0] = (int) u + 1; s.recs.push_back( x ); }
      }
   o.blocks = f.blocks;
   o.stored = f.stored;
   return o;
}

Str encodeGdx( const Content &c, const EncOpts &o, Rng &r )
{
   Str out;
   auto put = [&]( Str &d, const void *p, size_t n, bool sw ) { Str s( (const char *) p, n ); if( sw ) std::reverse( s.begin(), s.end() ); d += s; };
   auto u8 = [&]( Str &d, int v ) { d += (char) v; };
   auto u16 = [&]( Str &d, int v ) { uint16_t x = (uint16_t) v; put( d, &x, 2, o.swWord ); };
   auto i32 = [&]( Str &d, int v ) { put( d, &v, 4, o.swInt ); };
   auto i64 = [&]( Str &d, int64_t v ) { put( d, &v, 8, o.swInt ); };
   auto dbl = [&]( Str &d, double v ) { put( d, &v, 8, o.swDbl ); };
   auto str = [&]( Str &d, const Str &s ) { d += (char) s.size(); d += s; };
   auto section = [&]( Str plain, bool compr ) {// returns position
      if( o.mutate ) o.mutate( plain );
      size_t pos = out.size();
      if( !compr ) { out += plain; return (int64_t) pos; }
      size_t p = 0;
      while( p < plain.size() )
      {
         size_t n = std::min( plain.size() - p, r.chance( 1, 3 ) ? (size_t) r.in( 1, 100 ) : r.chance( 1, 2 ) ? (size_t) r.in( 100, 32768 ) : (size_t) 32768 );
         uLongf cl = compressBound( n );
         Str z( cl, 0 );
         compress2( (Bytef *) &z[0], &cl, (const Bytef *) plain.data() + p, n, (int) r.in( 0, 9 ) );
         z.resize( cl );
         if( cl > 39000 || r.chance( 1, 4 ) ) { out += (char) 0; out += (char) ( n >> 8 ); out += (char) ( n & 255 ); out += plain.substr( p, n ); }
         else { out += (char) 1; out += (char) ( cl >> 8 ); out += (char) ( cl & 255 ); out += z; }
         p += n;
      }
      return (int64_t) pos;
   };
   int v = o.version;
   u8( out, 2 ); u16( out, 0x1234 ); u8( out, 4 ); i32( out, 0x12345678 ); u8( out, 8 ); dbl( out, 3.14159265358979323846 );
   u8( out, 123 ); str( out, r.chance( 1, 8 ) ? "gamsgdx" : "GAMSGDX" );
   i32( out, v );
   if( v > 5 ) i32( out, o.compr ? 1 : 0 );
   Str sys = o.system;
   if( o.y2001 ) sys.replace( 15, 4, "2001" );
   str( out, sys );
   str( out, c.producer );
   size_t idx = out.size();
   out += Str( 80, 0 );
   std::vector<int64_t> pos( c.syms.size(), 0 );
   std::vector<bool> sc( c.syms.size(), false );
   int deltaBase0 = v <= 6 ? 10 : -1;
   std::vector<size_t> ord( c.syms.size() );
   for( size_t i = 0; i < ord.size(); i++ ) ord[i] = i;
   if( r.chance( 1, 3 ) ) r.shuffle( ord );// data need not be stored in catalogue order
   for( size_t q: ord )
   {
      const Sym &s = c.syms[q];
      if( s.type == T_ALIAS ) continue;
      sc[q] = o.compr && s.dim > 0 && !r.chance( 1, 6 );
      Str d;
      str( d, "_DATA_" );
      u8( d, s.dim );
      i32( d, r.chance( 1, 3 ) ? -1 : (int) s.recs.size() );
      int lo[MAXD], hi[MAXD], wd[MAXD], last[MAXD];
      for( int k = 0; k < s.dim; k++ )
      {
         lo[k] = std::numeric_limits<int>::max(); hi[k] = 0;
         for( auto &x: s.recs ) { lo[k] = std::min( lo[k], x.k[k] ); hi[k] = std::max( hi[k], x.k[k] ); }
         if( r.chance( 1, 3 ) && !s.recs.empty() )
         {// any bounds around the keys are allowed
            lo[k] = std::max( 0, lo[k] - (int) r.in( 0, 5 ) );
            int want = r.pick( { 254, 255, 256, 257, 65534, 65535, 65536, 70000 } );
            if( (int64_t) lo[k] + want - 1 >= hi[k] && (int64_t) lo[k] + want < 2147483647 ) hi[k] = lo[k] + want - 1;
            if( r.chance( 1, 6 ) ) { lo[k] = 0; hi[k] = std::numeric_limits<int>::max(); }
         }
         wd[k] = width( lo[k], hi[k] );
         last[k] = -256;
         i32( d, lo[k] );
         i32( d, hi[k] );
      }
      int base = deltaBase0 < 0 ? s.dim : deltaBase0;
      bool preferDelta = !r.chance( 1, 5 );
      for( auto &x: s.recs )
      {
         int fd = 0;
         while( fd < s.dim && x.k[fd] == last[fd] ) fd++;
         if( !s.dim ) u8( d, 1 );
         else if( fd == s.dim - 1 && x.k[fd] - last[fd] <= 254 - base && preferDelta ) u8( d, base + x.k[fd] - last[fd] );
         else
         {
            u8( d, fd + 1 );
            for( int k = fd; k < s.dim; k++ ) { int e = x.k[k] - lo[k]; if( wd[k] == 1 ) u8( d, e ); else if( wd[k] == 2 ) u16( d, e ); else i32( d, e ); }
         }
         for( int k = 0; k < s.dim; k++ ) last[k] = x.k[k];
         for( int i = 0; i < nvals( s.type ); i++ )
         {
            int code = 10;
            for( int z = 0; z < 10; z++ ) if( bits( SPECIAL[z] ) == bits( x.v[i] ) ) { code = z; break; }
            if( code >= 5 && code < 10 && r.chance( 1, 6 ) ) code = 10;
            u8( d, code );
            if( code == 10 ) dbl( d, x.v[i] );
         }
      }
      u8( d, 255 );
      pos[q] = section( d, sc[q] );
   }
   int64_t next = (int64_t) out.size(), symbPos, uelPos, textPos, acroPos = 0, domPos = 0;
   Str d;
   str( d, "_SYMB_" );
   i32( d, (int) c.syms.size() );
   std::vector<Str> doms;
   std::map<Str, int> domNr;
   for( size_t q = 0; q < c.syms.size(); q++ )
   {
      const Sym &s = c.syms[q];
      str( d, s.name );
      if( v <= 5 ) i32( d, (int) pos[q] ); else i64( d, pos[q] );
      i32( d, s.dim );
      u8( d, s.type );
      i32( d, s.user );
      i32( d, s.type == T_ALIAS ? 0 : (int) s.recs.size() );
      i32( d, 0 );
      u8( d, s.hasText );
      str( d, s.text );
      if( v > 5 ) u8( d, sc[q] );
      if( v < 7 ) continue;
      bool both = s.domKind == 2 && std::any_of( s.domNrs.begin(), s.domNrs.end(), []( int x ) { return x != 0; } );
      u8( d, s.domKind == 3 || both );
      if( s.domKind == 3 || both ) for( int k = 0; k < s.dim; k++ ) i32( d, s.domNrs[(size_t) k] );
      i32( d, (int) s.comments.size() );
      for( auto &x: s.comments ) str( d, x );
      if( s.domKind == 2 ) for( auto &x: s.domIds ) if( x != "*" && !domNr.count( x ) ) { doms.push_back( x ); domNr[x] = (int) doms.size(); }
   }
   str( d, "_SYMB_" );
   symbPos = section( d, o.compr );
   d.clear();
   str( d, "_SETT_" );
   i32( d, (int) c.texts.size() );
   for( auto &t: c.texts ) str( d, t );
   str( d, "_SETT_" );
   textPos = section( d, o.compr );
   d.clear();
   str( d, "_UEL_" );
   i32( d, (int) c.uels.size() + ( o.y2001 ? 1 : 0 ) );
   for( auto &t: c.uels ) str( d, t );
   str( d, "_UEL_" );
   uelPos = section( d, o.compr );
   if( v >= 7 )
   {
      d.clear();
      str( d, "_ACRO_" );
      i32( d, (int) c.acros.size() );
      for( auto &a: c.acros ) { str( d, a.name ); str( d, a.text ); i32( d, a.idx ); }
      str( d, "_ACRO_" );
      acroPos = section( d, o.compr );
      bool any = !doms.empty();
      for( auto &s: c.syms ) if( s.domKind == 2 ) any = true;
      if( any || r.chance( 3, 4 ) )
      {
         d.clear();
         str( d, "_DOMS_" );
         i32( d, (int) doms.size() );
         for( auto &x: doms ) str( d, x );
         str( d, "_DOMS_" );
         for( size_t q = 0; q < c.syms.size(); q++ )
            if( c.syms[q].domKind == 2 )
            {
               i32( d, (int) q + 1 );
               for( auto &x: c.syms[q].domIds ) i32( d, x == "*" ? 0 : domNr[x] );
            }
         i32( d, -1 );
         str( d, "_DOMS_" );
         domPos = section( d, o.compr );
      }
   }
   Str ix;
   i32( ix, BOI );
   if( v <= 5 ) { i32( ix, (int) symbPos ); i32( ix, (int) uelPos ); i32( ix, (int) textPos ); i32( ix, (int) next ); }
   else
   {
      i64( ix, symbPos ); i64( ix, uelPos ); i64( ix, textPos );
      if( v >= 7 ) { i64( ix, acroPos ); i64( ix, next ); i64( ix, domPos ); }
      else i64( ix, next );
   }
   out.replace( idx, ix.size(), ix );
   return out;
}
