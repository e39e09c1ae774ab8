// P26 conversions and text helpers: every helper is run on generated values next to an independent oracle
// (the C library, exact bit patterns, plain re-definitions); memory is watched by the sanitizers.
#include "core.hpp"
#include "gdlib/dblutil.hpp"
#include "gdlib/strutilx.hpp"
#include "gdlib/utils.hpp"
#include "rtl/dtoaLoc.h"
#include "rtl/math_p3.hpp"
#include "rtl/p3io.hpp"
#include "rtl/p3utils.hpp"
#include "rtl/sysutils_p3.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <memory>
const char *MON_RULE = "random doubles (all exponents, decimal grid, ties, subnormals), integers of all magnitudes, numerals valid and broken, byte strings, file names, paths and dates; each conversion or helper compared with the C library, the bit pattern or a plain re-definition";
void monInit() {}
void monDone() {}
namespace {
namespace sx = gdlib::strutilx;
namespace sp = rtl::sysutils_p3;
#define CK( cond, key, msg, detail ) CHECK( cond, Str( key ).c_str(), "%s: %s", msg, Str( detail ).c_str() )
#define EQS( got, want, key, in )                                                                              \
   do {                                                                                                        \
      const Str g_ = Str( got ), w_ = Str( want );                                                             \
      CHECK( g_ == w_, Str( key ).c_str(), "input %s: got %s, expected %s", Str( in ).c_str(), sane( g_ ).c_str(), sane( w_ ).c_str() ); \
   } while( 0 )
#define EQI( got, want, key, in )                                                                              \
   do {                                                                                                        \
      const long long g_ = (long long) ( got ), w_ = (long long) ( want );                                     \
      CHECK( g_ == w_, Str( key ).c_str(), "input %s: got %lld, expected %lld", Str( in ).c_str(), g_, w_ );                  \
   } while( 0 )
Str sane( const Str &s )
{
   Str o = "'";
   for( char c: s )
      if( c >= 32 && c < 127 ) o += c;
      else
      {
         char b[8];
         snprintf( b, sizeof b, "\\x%02x", (unsigned char) c );
         o += b;
      }
   return o + "'";
}
Str hexd( double v )
{
   char b[64];
   snprintf( b, sizeof b, "%a (%.17g)", v, v );
   return b;
}
u64 bits( double d )
{
   u64 u;
   memcpy( &u, &d, 8 );
   return u;
}
double fromBits( u64 u )
{
   double d;
   memcpy( &d, &u, 8 );
   return d;
}
char up( char c ) { return c >= 'a' && c <= 'z' ? (char) ( c - 32 ) : c; }
char lo( char c ) { return c >= 'A' && c <= 'Z' ? (char) ( c + 32 ) : c; }
Str upper( Str s )
{
   for( auto &c: s ) c = up( c );
   return s;
}
Str lower( Str s )
{
   for( auto &c: s ) c = lo( c );
   return s;
}
int sgn( long long v ) { return v < 0 ? -1 : v > 0; }
// finite double of any kind
double genDbl( Rng &r )
{
   for( ;; )
   {
      double d = 0;
      switch( (int) r.in( 0, 8 ) )
      {
         case 0: d = fromBits( r.next() ); break;
         case 1: d = (double) r.in( -100000, 100000 ) / 1000.0; break;
         case 2: d = (double) r.in( -1000000, 1000000 ); break;
         case 3: d = strtod( ( std::to_string( r.in( 1, 999999 ) ) + "e" + std::to_string( r.in( -330, 305 ) ) ).c_str(), nullptr ); break;
         case 4:
         {// near a power of ten
            d = strtod( ( "1e" + std::to_string( r.in( -20, 20 ) ) ).c_str(), nullptr );
            d = fromBits( bits( d ) + (u64) r.in( -6, 6 ) );
            break;
         }
         case 5: d = fromBits( (u64) r.in( 0, 3000000 ) ); break;// subnormal
         case 6:
         {// 16 digits ending in 5
            Str s = std::to_string( r.in( 1, 9 ) ) + ".";
            for( int i = 0; i < 14; i++ ) s += (char) ( r.chance( 1, 3 ) ? '9' : '0' + r.in( 0, 9 ) );
            s += "5e" + std::to_string( r.in( -30, 30 ) );
            d = strtod( s.c_str(), nullptr );
            break;
         }
         case 7: d = (double) ( (int64_t) r.next() >> r.in( 0, 60 ) ); break;
         default:
            d = (double[]){ 1, 10, 100, 0.1, 1e15, 1e14, 999999999999999.0, 9999999999999999.0, 1e-4, 0.00009999, 0.00012345, DBL_MAX, DBL_MIN, 4.9e-324, 1e300, 123456789012345.0, 1234567890123456.0, 0.5, 2.5, 1e16, 1e-5, 0.0 }[r.in( 0, 21 )];
      }
      if( r.chance( 1, 3 ) ) d = -d;
      if( std::isfinite( d ) ) return d;
   }
}
int64_t genInt( Rng &r )
{
   switch( (int) r.in( 0, 5 ) )
   {
      case 0: return (int64_t) r.next();
      case 1: return (int64_t) r.next() >> r.in( 0, 62 );
      case 2: return r.in( -1200, 1200 );
      case 3: return (int64_t[]){ INT64_MIN, INT64_MAX, INT64_MIN + 1, INT_MIN, INT_MAX, 0, -1, 1 }[r.in( 0, 7 )];
      case 4:
      {
         int64_t v = 1;
         for( int i = (int) r.in( 0, 18 ); i > 0; i-- ) v *= 10;
         return ( v + r.in( -1, 1 ) ) * ( r.chance( 1, 2 ) ? -1 : 1 );
      }
      default: return (int64_t) ( ( 1ULL << r.in( 0, 62 ) ) + (u64) r.in( -1, 1 ) );
   }
}
// text without NUL
Str genStr( Rng &r, int maxLen = 40, const char *alpha = nullptr )
{
   Str s;
   const int n = (int) ( r.chance( 1, 6 ) ? 0 : r.in( 1, r.chance( 1, 10 ) ? maxLen : std::min( maxLen, 12 ) ) );
   const int al = alpha ? (int) strlen( alpha ) : 0;
   const int mode = (int) r.in( 0, 2 );
   for( int i = 0; i < n; i++ )
      if( al ) s += alpha[r.in( 0, al - 1 )];
      else if( mode == 0 ) s += "aAbBzZ {[`@"[r.in( 0, 10 )];
      else if( mode == 1 ) s += (char) r.in( 32, 126 );
      else s += (char) r.in( 1, 255 );
   return s;
}
// decimal text by the definition: 15 significant digits, plain notation for 1e-4 <= |v| < 1e15
Str refDbl( double v, char sep )
{
   if( v == 0 ) return "0";
   char b[64];
   snprintf( b, sizeof b, "%.14e", std::fabs( v ) );
   Str dig( 1, b[0] );
   char *p = b + 2;
   for( ; *p != 'e'; p++ ) dig += *p;
   const int e = atoi( p + 1 );
   while( dig.size() > 1 && dig.back() == '0' ) dig.pop_back();
   Str res = v < 0 ? "-" : "";
   if( std::fabs( v ) >= 1e-4 && std::fabs( v ) < 1e15 )
   {
      if( e >= 0 )
      {
         Str ip = dig, fp;
         if( (int) dig.size() > e + 1 )
         {
            ip = dig.substr( 0, (size_t) e + 1 );
            fp = dig.substr( (size_t) e + 1 );
         }
         else
            ip += Str( (size_t) ( e + 1 - (int) dig.size() ), '0' );
         res += ip + ( fp.empty() ? "" : Str( 1, sep ) + fp );
      }
      else
         res += Str( "0" ) + sep + Str( (size_t) ( -e - 1 ), '0' ) + dig;
   }
   else
      res += dig.substr( 0, 1 ) + ( dig.size() > 1 ? Str( 1, sep ) + dig.substr( 1 ) : "" ) + "E" + std::to_string( e );
   return res;
}
void doubles( Rng &r )
{
   const double v = genDbl( r );
   const Str in = hexd( v );
   const char sep = r.chance( 1, 3 ) ? ',' : '.';
   // decimal form
   const Str want = refDbl( v, sep );
   EQS( sx::DblToStrSep( v, sep ), want, "dbl2str", in );
   {
      std::unique_ptr<char[]> buf( new char[256] );
      memset( buf.get(), 'Z', 256 );
      const uint8_t n = sx::DblToStrSep( v, sep, buf.get() );
      EQS( Str( buf.get(), strnlen( buf.get(), 256 ) ), want, "dbl2buf", in );
      EQI( n, want.size(), "dbl2buflen", in );
      const uint8_t n2 = sx::DblToStr( v, buf.get() );
      EQS( Str( buf.get() ), refDbl( v, '.' ), "dbl2buf", in );
      EQI( n2, refDbl( v, '.' ).size(), "dbl2buflen", in );
   }
   EQS( sx::DblToStr( v ), refDbl( v, '.' ), "dbl2str", in );
   EQS( sp::FloatToStr( v ), refDbl( v, '.' ), "float2str", in );
   {// and back
      double w = -1;
      int code = -1;
      utils::val( refDbl( v, '.' ), w, code );
      EQI( code, 0, "val-back", in );
      CK( bits( w ) == bits( strtod( refDbl( v, '.' ).c_str(), nullptr ) ) || ( w == 0 && v == 0 ), "val-back", "value", in + " " + hexd( w ) );
   }
   // hexadecimal forms
   {
      char b[32];
      snprintf( b, sizeof b, "0x%016llx", (unsigned long long) bits( v ) );
      EQS( gdlib::dblutil::dblToStrHex( v ), b, "hex", in );
      const Str h = gdlib::dblutil::dblToStrHexponential( v );
      char *e = nullptr;
      const double w = strtod( h.c_str(), &e );
      CK( bits( w ) == bits( v ) && e && !*e, "hexpo", "does not denote the value", in + " " + h );
   }
   // shortest digits
   {
      char buf[64], *end = nullptr;
      int dp = 0, neg = 0;
      const char *p = dtoaLoc( v, 0, 0, buf, sizeof buf, &dp, &neg, &end );
      CK( p != nullptr, "dtoa", "no result", in );
      const Str dig( p );
      const Str t = ( neg ? "-0." : "0." ) + dig + "e" + std::to_string( dp );
      const double w = strtod( t.c_str(), nullptr );
      CK( v == 0 ? w == 0 : bits( w ) == bits( v ), "dtoa0", "shortest digits do not denote the value", in + " " + t );
      int n = 1;
      char b[64];
      for( ; n < 17; n++ )
      {
         snprintf( b, sizeof b, "%.*e", n - 1, v );
         if( strtod( b, nullptr ) == v ) break;
      }
      CK( (int) dig.size() <= n, "dtoa0len", "not the shortest digits", in + " " + t );
      // fixed number of digits
      const int nd = (int) r.in( 1, 17 );
      p = dtoaLoc( v, 2, nd, buf, sizeof buf, &dp, &neg, &end );
      snprintf( b, sizeof b, "%.*e", nd - 1, std::fabs( v ) );
      Str wd( 1, b[0] );
      char *q = b + ( nd > 1 ? 2 : 1 );
      for( ; *q != 'e'; q++ ) wd += *q;
      const int we = atoi( q + 1 ) + 1;
      while( wd.size() > 1 && wd.back() == '0' ) wd.pop_back();
      Str gd = p;
      CK( (int) gd.size() <= nd, "dtoa2len", "too many digits", in + " " + gd );
      while( gd.size() > 1 && gd.back() == '0' ) gd.pop_back();
      EQS( gd, wd, "dtoa2", in + " digits " + std::to_string( nd ) );
      if( v != 0 ) EQI( dp, we, "dtoa2exp", in + " digits " + std::to_string( nd ) );
      EQI( neg != 0, std::signbit( v ), "dtoa2sign", in );
   }
   // parsing of any decimal expansion
   {
      char b[1200];
      if( r.chance( 1, 4 ) && std::fabs( v ) < 1e60 ) snprintf( b, sizeof b, "%.*f", (int) r.in( 0, 400 ), v );
      else snprintf( b, sizeof b, "%.*e", (int) r.in( 0, r.chance( 1, 5 ) ? 760 : 25 ), v );
      char *e = nullptr;
      int le = 0;
      const double w = strtodLoc( b, &e, &le );
      CK( bits( w ) == bits( strtod( b, nullptr ) ) && e && !*e, "strtod", "differs from the C library", Str( b ) + " " + hexd( w ) );
      double x = 0;
      int code = -1;
      utils::val( Str( b ), x, code );
      CK( code == 0 && x == w, "val-long", "long numeral", Str( b ) + " code " + std::to_string( code ) + " " + hexd( x ) );
   }
   if( r.chance( 1, 20000 ) ) sample( in + " -> " + want );
   count( "double", 1 );
   nontrivial( bits( v ) );
}
void numerals( Rng &r )
{
   Str s;
   if( r.chance( 1, 3 ) ) s += Str( (size_t) r.in( 0, 3 ), ' ' );
   if( r.chance( 1, 3 ) ) s += "+-"[r.in( 0, 1 )];
   const int kind = (int) r.in( 0, 6 );
   auto digs = [&]( int lo_, int hi ) {
      Str d;
      for( int i = (int) r.in( lo_, hi ); i > 0; i-- ) d += (char) ( '0' + r.in( 0, 9 ) );
      return d;
   };
   if( kind <= 3 )
   {
      s += digs( 0, r.chance( 1, 8 ) ? 30 : 8 );
      if( r.chance( 2, 3 ) ) s += "." + digs( 0, r.chance( 1, 8 ) ? 40 : 6 );
      if( r.chance( 1, 2 ) )
      {
         s += "eE"[r.in( 0, 1 )];
         if( r.chance( 1, 2 ) ) s += "+-"[r.in( 0, 1 )];
         s += digs( r.chance( 1, 6 ) ? 0 : 1, r.chance( 1, 6 ) ? ( r.chance( 1, 3 ) ? 25 : 4 ) : 2 );
      }
      if( r.chance( 1, 4 ) ) s += "x.e -1dDfp"[r.in( 0, 9 )];
   }
   else if( kind == 4 )
      s += ( const char *[] ){ "inf", "nan", "0x10", "0X1p3", "infinity", "INF", "NaN", "1e", "1e+", ".", "..", "e5", ".e5", "-", "+", "--1", "", " ", "1_000", "1,5", "\t1", "1 ", "0x", "00", "1.", ".5", "1.e5" }[r.in( 0, 26 )];
   else
      s = genStr( r, 300, kind == 5 ? "0123456789.eE+- x$" : nullptr );
   // double: blanks, sign, digits with an optional point, optional exponent
   {
      size_t i = 0;
      while( i < s.size() && s[i] == ' ' ) i++;
      const size_t start = i;
      if( i < s.size() && ( s[i] == '+' || s[i] == '-' ) ) i++;
      const size_t ds = i;
      auto isd = [&]( size_t k ) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
      const bool hex = isd( i ) && i + 1 < s.size() && lo( s[i + 1] ) == 'x';
      size_t nd = 0;
      while( isd( i ) && !( hex && i > ds ) ) i++, nd++;
      bool point = false;
      if( !hex && i < s.size() && s[i] == '.' )
      {
         point = true;
         i++;
         while( isd( i ) ) i++, nd++;
      }
      if( !hex && ( nd || point ) && i < s.size() && lo( s[i] ) == 'e' )
      {
         size_t k = i + 1;
         if( k < s.size() && ( s[k] == '+' || s[k] == '-' ) ) k++;
         if( isd( k ) )
         {
            while( isd( k ) ) k++;
            i = k;
         }
      }
      const bool ok = ( nd || point ) && i == s.size() && s.find( '\0' ) == Str::npos;
      double v = -77;
      int code = -77;
      utils::val( s, v, code );
      EQI( code == 0, ok, "val-accept", sane( s ) );
      if( ok && nd )
      {
         const double w = strtod( s.c_str() + start, nullptr );
         CK( bits( w ) == bits( v ) || ( w == 0 && v == 0 ), "val-value", "differs from the C library", sane( s ) + " " + hexd( v ) );
         double v2 = 0;
         if( std::isfinite( w ) )
         {
            CK( sx::StrAsDoubleEx( s, v2 ) && v2 == w, "StrAsDoubleEx", "value", sane( s ) );
            Str t = s;
            for( auto &c: t )
               if( lo( c ) == 'e' ) c = r.chance( 1, 2 ) ? 'd' : 'D';
            CK( sx::StrAsDoubleEx( t, v2 ) && v2 == w, "StrAsDoubleEx-d", "value with d exponent", sane( t ) );
         }
         else
            CK( !sx::StrAsDoubleEx( s, v2 ), "StrAsDoubleEx-inf", "accepted an overflowing numeral", sane( s ) );
      }
      if( ok && !nd ) CK( v == 0, "val-point", "value", sane( s ) );
      if( !ok && nd && !hex ) EQI( code, (int) i + 1, "val-pos", sane( s ) );
      if( !ok ) CK( code >= 1 && code <= (int) s.size() + 1, "val-pos", "position outside the text", sane( s ) + " " + std::to_string( code ) );
      // a part of a longer text
      const Str emb = s + "9";
      double v3 = 0;
      int c3 = -1;
      utils::val( emb.c_str(), (int) s.size(), v3, c3 );
      CK( c3 == code && ( bits( v3 ) == bits( v ) || ( v3 == 0 && v == 0 ) ), "val-part", "part of a text", sane( s ) + " " + std::to_string( c3 ) + " " + hexd( v3 ) );
      count( ok ? "numeral valid" : "numeral invalid", 1 );
      if( r.chance( 1, 5000 ) ) sample( sane( s ) + " -> code " + std::to_string( code ) );
      nontrivial( std::hash<Str>()( s ) );
   }
   // integers
   {
      Str t;
      long long val_ = 0;
      bool valid = true;
      const int f = (int) r.in( 0, 3 );
      const int v = (int) genInt( r );
      if( f == 0 )
      {
         t = std::to_string( v );
         val_ = v;
         if( v >= 0 && r.chance( 1, 3 ) ) t = "+" + t;
      }
      else if( f == 1 )
      {
         char b[32];
         const unsigned m = (unsigned) v >> 1;
         const bool neg = r.chance( 1, 3 );
         snprintf( b, sizeof b, "%s%s%X", neg ? "-" : r.chance( 1, 3 ) ? "+" : "", r.chance( 1, 2 ) ? "$" : r.chance( 1, 2 ) ? "0x" : "0X", m );
         t = b;
         val_ = neg ? -(long long) m : (long long) m;
      }
      else
      {
         t = ( const char *[] ){ "", "-", "+", "x", "1x", "1.5", "$", "0x", "$G", "0xG", "- 1", "1 ", "++1", "$-1", "0x-1", "abc", "1e3", "$$1", "\t5" }[r.in( 0, 18 )];
         valid = false;
      }
      if( r.chance( 1, 4 ) ) t = Str( (size_t) r.in( 1, r.chance( 1, 6 ) ? 300 : 3 ), ' ' ) + t;
      int got = -77, code = -77;
      utils::val( t, got, code );
      EQI( code == 0, valid, "vali-accept", sane( t ) );
      if( valid )
      {
         EQI( got, val_, "vali-value", sane( t ) );
         EQI( sx::StrAsInt( t ), val_, "StrAsInt", sane( t ) );
         CK( sx::StrAsIntEx( t, got ) && got == val_, "StrAsIntEx", "value", sane( t ) );
         CK( sx::StrAsIntEx2( t, got ) && got == val_, "StrAsIntEx2", "value", sane( t ) );
      }
      else
      {
         EQI( sx::StrAsInt( t ), 0, "StrAsInt-bad", sane( t ) );
         CK( code >= 1 && code <= (int) t.size() + 1, "vali-pos", "position outside the text", sane( t ) + " " + std::to_string( code ) );
      }
      const Str emb = t + "7";
      int g2 = 0, c2 = -1;
      utils::val( emb.c_str(), (int) t.size(), g2, c2 );
      CK( c2 == code && ( c2 || g2 == got ), "vali-part", "part of a text", sane( t ) + " " + std::to_string( c2 ) + " " + std::to_string( g2 ) );
      int q = 0;
      CK( sx::StrAsIntEx( r.chance( 1, 2 ) ? "MaxInt" : "maxint", q ) && q == INT_MAX && sx::StrAsIntEx( "MININT", q ) && q == INT_MIN, "StrAsIntEx", "names", "" );
      {// integral values of any notation
         double d = std::ldexp( (double) r.in( -1000000, 1000000 ), (int) r.in( -3, 20 ) );
         Str f = fmt( r.chance( 1, 2 ) ? "%.8f" : "%.17e", d );
         bool ok = d >= INT_MIN && d <= INT_MAX && d == std::trunc( d );
         q = 5;
         EQI( sx::StrAsIntEx2( f, q ), ok, "StrAsIntEx2-float", f );
         EQI( q, ok ? (int) d : 0, "StrAsIntEx2-value", f );
         double v = 0;
         CK( sx::StrAsDoubleEx( "MaxDouble", v ) && v == DBL_MAX && sx::StrAsDoubleEx( "minDOUBLE", v ) && v == DBL_MIN && sx::StrAsDoubleEx( "eps", v ) && v == DBL_EPSILON, "StrAsDoubleEx", "names", "" );
         static const char *SP[] { "off", "on", "silent", "", "offf", "o", "2" };
         int w = (int) r.in( 0, 6 );
         q = -9;
         bool known = sx::SpecialStrAsInt( SP[w], q );
         CK( known == ( w < 3 ) && ( !known || q == w ), "SpecialStrAsInt", "value", SP[w] );
      }
      {// byte order marks
         static const std::array<uint8_t, 4> B[] { { 239, 187, 191, 0 }, { 254, 255, 7, 7 }, { 255, 254, 7, 7 }, { 0, 0, 254, 255 }, { 255, 254, 0, 0 }, { 'a', 'b', 'c', 'd' }, { 239, 187, 'x', 0 }, { 0, 0, 255, 254 }, { 254, 254, 1, 1 } };
         int w = (int) r.in( 0, 8 ), off = -1;
         auto b = B[w];
         if( w == 0 ) b[3] = (uint8_t) r.in( 0, 255 );
         Str m = "old";
         bool ok = sx::checkBOMOffset( b, off, m );
         EQI( ok, w == 0 || w > 4, "bom", std::to_string( w ) );
         EQI( off, w == 0 ? 3 : 0, "bom-offset", std::to_string( w ) );
         EQI( m.empty(), ok, "bom-message", std::to_string( w ) );
      }
      {// sets of characters
         utils::charset a, b;
         std::set<char> ma, mb;
         for( int i = 0; i < 12; i++ )
         {
            char c = (char) r.in( -128, 127 ), e = (char) r.in( -128, 127 );
            switch( (int) r.in( 0, 6 ) )
            {
               case 0: a.erase( c ); ma.erase( c ); break;
               case 1: b.insert( c ); mb.insert( c ); break;
               case 2: utils::charRangeInsert( b, c, e ); for( int x = c; x <= e; x++ ) mb.insert( (char) x ); break;
               case 3: utils::charRangeInsertIntersecting( a, c, e, b ); for( int x = c; x <= e; x++ ) if( mb.count( (char) x ) ) ma.insert( (char) x ); break;
               case 4: a = utils::unionOp( a, b ); ma.insert( mb.begin(), mb.end() ); break;
               case 5: if( r.chance( 1, 6 ) ) { b.clear(); mb.clear(); } else { utils::insertAllChars( b, Str( 1, c ) + e ); mb.insert( c ); mb.insert( e ); } break;
               default: a.insert( c ); ma.insert( c );
            }
         }
         for( int x = -128; x < 128; x++ ) CK( utils::in( (char) x, a ) == (bool) ma.count( (char) x ) && b[(char) x] == (bool) mb.count( (char) x ), "charset", "membership", std::to_string( x ) );
      }
      count( "integer numeral", 1 );
   }
}
Str group( int64_t v )
{
   Str d = std::to_string( v ), o;
   const bool neg = d[0] == '-';
   if( neg ) d = d.substr( 1 );
   for( size_t i = 0; i < d.size(); i++ )
   {
      if( i && ( d.size() - i ) % 3 == 0 ) o += ',';
      o += d[i];
   }
   return ( neg ? "-" : "" ) + o;
}
Str padL( const Str &s, int w, char c = ' ' ) { return (int) s.size() >= w ? s : Str( (size_t) ( w - (int) s.size() ), c ) + s; }
void integers( Rng &r )
{
   const int64_t v = genInt( r );
   const Str in = std::to_string( v );
   EQS( sp::IntToStr( v ), in, "int2str", in );
   {
      std::unique_ptr<char[]> b( new char[256] );
      size_t len = 999;
      sp::IntToStr( v, b.get(), len );
      EQS( Str( b.get() ), in, "int2buf", in );
      EQI( len, in.size(), "int2buflen", in );
   }
   EQI( sp::StrToInt64( in ), v, "str2int64", in );
   EQI( sp::StrToInt64( Str( (size_t) r.in( 0, 3 ), ' ' ) + in ), v, "str2int64", in );
   EQI( sp::StrToInt( in ), v < INT_MIN || v > INT_MAX ? INT_MIN : v, "str2int", in );
   {
      char b[40];
      snprintf( b, sizeof b, "$%llX", (unsigned long long) ( v & INT64_MAX ) );
      Str h = b;
      if( r.chance( 1, 2 ) ) h = lower( h );
      EQI( sp::StrToInt64( h ), v & INT64_MAX, "str2int64-hex", h );
      const Str bad = in + "x.- "[r.in( 0, 3 )];
      EQI( sp::StrToInt64( bad ), INT64_MIN, "str2int64-bad", bad );
   }
   EQS( sx::IntToNiceStr( v ), group( v ), "nice", in );
   {
      const int w = (int) r.in( 0, r.chance( 1, 8 ) ? 300 : 40 );
      EQS( sx::IntToNiceStrW( v, w ), padL( group( v ), std::min( w, 255 ) ), "niceW", in + " width " + std::to_string( w ) );
      const int hw = (int) r.in( 0, 40 );
      char b[40];
      snprintf( b, sizeof b, "%llX", (unsigned long long) v );
      EQS( sp::IntToHex( v, hw ), padL( b, hw > 32 ? 0 : hw, '0' ), "int2hex", in + " width " + std::to_string( hw ) );
      const int n = (int) v;
      const Str ns = std::to_string( n );
      EQI( sx::IntegerWidth( n ), ns.size(), "intwidth", ns );
      EQS( utils::IntToStrW( n, std::min( w, 255 ) ), padL( ns, std::min( w, 255 ) ), "IntToStrW", ns );
      EQS( utils::strInflateWidth( n, w, '0' ), padL( ns, w, '0' ), "inflate", ns );
   }
   {// column names
      const int c = (int) r.in( 1, r.chance( 1, 3 ) ? INT_MAX : 20000 );
      Str name;
      for( long long k = c; k > 0; k = ( k - 1 ) / 26 ) name.insert( name.begin(), (char) ( 'A' + ( k - 1 ) % 26 ) );
      EQS( sx::ExcelColStr( c ), name, "excelname", std::to_string( c ) );
      EQI( sx::StrExcelCol( r.chance( 1, 2 ) ? name : lower( name ) ), c, "excelcol", name );
      EQI( sx::StrExcelCol( name + "1" ), 0, "excelcol-bad", name );
   }
   {
      const int e = (int) r.in( 0, 22 );
      CK( rtl::math_p3::IntPower( 10, e ) == strtod( ( "1e" + std::to_string( e ) ).c_str(), nullptr ), "intpower", "power of ten", std::to_string( e ) );
      const double d = fromBits( r.chance( 1, 2 ) ? r.next() : ( r.next() | 0x7ff0000000000000ULL ) );
      EQI( rtl::math_p3::IsNan( d ), std::isnan( d ), "isnan", hexd( d ) );
      EQI( rtl::math_p3::IsInfinite( d ), std::isinf( d ), "isinf", hexd( d ) );
   }
   count( "integer", 1 );
   nontrivial( (u64) v );
}
Str respell( Rng &r, Str s )
{
   for( auto &c: s )
      if( r.chance( 1, 2 ) ) c = r.chance( 1, 2 ) ? up( c ) : lo( c );
   return s;
}
void casing( Rng &r )
{
   const Str a = genStr( r, 80 );
   Str b = r.chance( 1, 2 ) ? respell( r, a ) : genStr( r, 80 );
   if( r.chance( 1, 4 ) )
   {
      b = respell( r, a );
      if( b.empty() ) b = "x";
      else b[(size_t) r.in( 0, (int64_t) b.size() - 1 )] = (char) r.in( 1, 255 );
   }
   if( r.chance( 1, 8 ) ) b = respell( r, a ) + genStr( r, 5 );
   const Str c = r.chance( 1, 2 ) ? respell( r, b ) : genStr( r, 20 );
   const Str in = sane( a ) + " / " + sane( b );
   EQS( utils::uppercase( a ), upper( a ), "uppercase", in );
   EQS( utils::lowercase( a ), lower( a ), "lowercase", in );
   EQS( sx::UpperCase( a ), upper( a ), "UpperCase", in );
   EQS( sx::LowerCase( a ), lower( a ), "LowerCase", in );
   EQS( sp::UpperCase( a ), upper( a ), "sp::UpperCase", in );
   EQS( sp::LowerCase( a ), lower( a ), "sp::LowerCase", in );
   {
      std::unique_ptr<char[]> buf( new char[a.size() + 1] );
      utils::copy_to_uppercase( a, buf.get() );
      EQS( Str( buf.get() ), upper( a ), "copy_upper", in );
      memset( buf.get(), 'q', a.size() + 1 );
      utils::copy_to_uppercase( a.c_str(), buf.get() );
      EQS( Str( buf.get() ), upper( a ), "copy_upper", in );
   }
   const bool eq = upper( a ) == upper( b );
   EQI( utils::sameText( a, b ), eq, "sameText", in );
   EQI( utils::sameText<false>( a, b ), a == b, "sameText-cs", in );
   EQI( utils::sameTextInvariant( a, b ), eq, "sameTextInvariant", in );
   EQI( utils::sameTextPChar( a.c_str(), b.c_str() ), eq, "sameTextPChar", in );
   EQI( sp::SameText( a, b ), eq, "SameText", in );
   EQI( sx::StrUEqual( a, b ), eq, "StrUEqual", in );
   EQI( sx::PStrUEqual( a, b ), eq, "PStrUEqual", in );
   EQI( sx::PStrEqual( a, b ), a == b, "PStrEqual", in );
   const sx::DelphiStrRef ra { (uint8_t) a.size(), a.data() }, rb { (uint8_t) b.size(), b.data() };
   EQI( sx::StrUEqual( ra, b ), eq, "StrUEqual-ref", in );
   EQI( sx::sameTextSR( ra, b ), eq, "sameTextSR", in );
   EQI( utils::sameTextPrefix( a + b, respell( r, a ) ), 1, "sameTextPrefix", in );
   EQI( utils::sameTextPrefix( b, a ), upper( b ).compare( 0, a.size(), upper( a ) ) == 0, "sameTextPrefix", in );
   // orders
   const auto order = [&]( const char *name, auto cmp, bool cs ) {
      const int ab = sgn( cmp( a, b ) ), ba = sgn( cmp( b, a ) ), bc = sgn( cmp( b, c ) ), ac = sgn( cmp( a, c ) );
      EQI( ab == 0, cs ? a == b : eq, Str( name ) + "-equal", in );
      EQI( ab, -ba, Str( name ) + "-antisym", in );
      if( ab <= 0 && bc <= 0 ) CK( ac < 0 || ( ac == 0 && ab == 0 && bc == 0 ), Str( name ) + "-trans", "order is not transitive", in + " / " + sane( c ) );
      // a proper prefix comes first; printable text follows the codes of its characters
      const Str ext = a + genStr( r, 4 );
      if( ext.size() > a.size() ) CK( cmp( a, ext ) < 0 && cmp( ext, a ) > 0, Str( name ) + "-prefix", "prefix does not come first", in );
      const Str x = cs ? a : upper( a ), y = cs ? b : upper( b );
      bool ascii = true;
      for( char ch: x + y )
         if( ch < 32 || ch > 126 ) ascii = false;
      if( ascii ) EQI( ab, sgn( x.compare( y ) ), Str( name ) + "-order", in );
   };
   order( "strCompare", []( const Str &x, const Str &y ) { return utils::strCompare( std::string_view( x ), std::string_view( y ) ); }, false );
   order( "strCompareCS", []( const Str &x, const Str &y ) { return utils::strCompare( std::string_view( x ), std::string_view( y ), false ); }, true );
   order( "strCompareC", []( const Str &x, const Str &y ) { return utils::strCompare( x.c_str(), y.c_str() ); }, false );
   order( "strCompareCCS", []( const Str &x, const Str &y ) { return utils::strCompare( x.c_str(), y.c_str(), false ); }, true );
   order( "StrUCmp", []( const Str &x, const Str &y ) { return sx::StrUCmp( std::string_view( x ), std::string_view( y ) ); }, false );
   order( "PStrUCmp", []( const Str &x, const Str &y ) { return sx::PStrUCmp( x, y ); }, false );
   order( "StrUCmpR", []( const Str &x, const Str &y ) { return sx::StrUCmp( sx::DelphiStrRef { (uint8_t) x.size(), x.data() }, sx::DelphiStrRef { (uint8_t) y.size(), y.data() } ); }, false );
   order( "CompareStr", []( const Str &x, const Str &y ) { return sp::CompareStr( x, y ); }, true );
   order( "CompareText", []( const Str &x, const Str &y ) { return sp::CompareText( x, y ); }, false );
   count( eq ? "equal texts" : "different texts", 1 );
   nontrivial( std::hash<Str>()( a + "|" + b ) );
}
Str stripR( const Str &s, const char *set )
{
   const auto p = s.find_last_not_of( set );
   return p == Str::npos ? "" : s.substr( 0, p + 1 );
}
Str stripL( const Str &s, const char *set )
{
   const auto p = s.find_first_not_of( set );
   return p == Str::npos ? "" : s.substr( p );
}
Str ctl()
{
   Str c;
   for( char i = 1; i <= 32; i++ ) c += i;
   return c;
}
int refFind( const Str &pat, const Str &s, int from )
{
   for( int i = std::max( from, 0 ); i + (int) pat.size() <= (int) s.size(); i++ )
      if( !memcmp( s.data() + i, pat.data(), pat.size() ) ) return i;
   return -1;
}
void texts( Rng &r )
{
   const Str s = genStr( r, 120, r.chance( 1, 2 ) ? "ab \t\n\r.,'\"0" : nullptr ), in = sane( s );
   const char *W = " \t\n\r";
   static const Str C = ctl();
   EQS( utils::trim( s ), stripL( stripR( s, W ), W ), "trim", in );
   EQS( Str( utils::trim( std::string_view( s ) ) ), stripL( stripR( s, W ), W ), "trim-view", in );
   EQS( utils::trimRight( s ), stripR( s, " \t" ), "trimRight", in );
   {
      Str st = genStr( r, 150 );
      utils::trimRight( s, st );
      EQS( st, stripR( s, " \t" ), "trimRight-store", in );
      std::unique_ptr<char[]> b( new char[256] );
      int n = -1;
      const char *p = utils::trimRight( s.c_str(), b.get(), n );
      EQS( Str( p ), stripR( s, C.c_str() ), "trimRight-c", in );
      EQI( n, stripR( s, C.c_str() ).size(), "trimRight-clen", in );
      st = s;
      utils::trimLeft( st );
      EQS( st, stripL( s, " \t\n\r\v\f" ), "trimLeft", in );
      st = s;
      utils::removeTrailingCarriageReturnOrLineFeed( st );
      EQS( st, !s.empty() && ( s.back() == '\r' || s.back() == '\n' ) ? s.substr( 0, s.size() - 1 ) : s, "removeTrailing", in );
   }
   EQS( sp::Trim( s ), stripL( stripR( s, C.c_str() ), C.c_str() ), "Trim", in );
   EQS( sp::TrimLeft( s ), stripL( s, C.c_str() ), "TrimLeft", in );
   EQS( sp::TrimRight( s ), stripR( s, C.c_str() ), "TrimRight", in );
   EQI( utils::hasNonBlank( s ), !stripL( s, W ).empty(), "hasNonBlank", in );
   EQS( utils::trimZeroesRight( s ), s.find( '.' ) == Str::npos ? s : stripR( s, "0" ), "trimZeroes", in );
   {
      int n = 0;
      for( char c: s ) n += !strchr( " \t\n\r\v\f", c );
      EQI( utils::strLenNoWhitespace( s ), n, "lenNoWs", in );
   }
   // padding
   {
      const int w = (int) r.in( -3, r.chance( 1, 6 ) ? 300 : 40 ), ww = std::min( w, 255 );
      EQS( sx::PadLeft( s, w ), padL( s, ww ), "PadLeft", in + " " + std::to_string( w ) );
      EQS( sx::PadRight( s, w ), (int) s.size() >= ww ? s : s + Str( (size_t) ( ww - (int) s.size() ), ' ' ), "PadRight", in + " " + std::to_string( w ) );
      const int m = (int) r.in( 0, 12 );
      int want = (int) s.size();
      while( m > 0 && want % m ) want++;
      EQI( sx::PadModLength( s, m ), want, "PadModLength", in );
      EQS( sx::PadRightMod( s, m ), s + Str( (size_t) want - s.size(), ' ' ), "PadRightMod", in );
      EQS( utils::blanks( w ), Str( (size_t) std::max( w, 0 ), ' ' ), "blanks", std::to_string( w ) );
      EQS( utils::zeros( w ), Str( (size_t) std::max( w, 0 ), '0' ), "zeros", std::to_string( w ) );
      EQS( sx::BlankStr( (unsigned) std::max( w, 0 ) ), Str( (size_t) std::max( w, 0 ), ' ' ), "BlankStr", std::to_string( w ) );
   }
   // searching
   {
      Str pat = genStr( r, 6, "ab ." );
      if( !s.empty() && r.chance( 1, 2 ) )
      {
         const size_t o = (size_t) r.in( 0, (int64_t) s.size() - 1 );
         pat = s.substr( o, (size_t) r.in( 1, 5 ) );
      }
      const int sp_ = (int) r.in( -1, (int64_t) s.size() + 2 );
      const Str in2 = in + " pattern " + sane( pat ) + " from " + std::to_string( sp_ );
      if( !pat.empty() && !s.empty() )
      {
         EQI( sx::LStrPosSp( pat, s, sp_ ), sp_ < 0 ? -1 : refFind( pat, s, sp_ ), "LStrPosSp", in2 );
         EQI( sx::LStrPos( pat, s ), refFind( pat, s, 0 ), "LStrPos", in2 );
         EQI( utils::posOfSubstr( pat, s ), refFind( pat, s, 0 ), "posOfSubstr", in2 );
      }
      const char ch = pat.empty() ? 'a' : pat[0];
      int first = -1, last = -1, from = -1, n = 0;
      for( int i = 0; i < (int) s.size(); i++ )
         if( s[(size_t) i] == ch )
         {
            if( first < 0 ) first = i;
            if( from < 0 && i >= sp_ ) from = i;
            last = i;
            n++;
         }
      EQI( sx::LChPos( ch, s.c_str() ), first, "LChPos", in2 );
      if( sp_ <= (int) s.size() ) EQI( sx::LChPosSp( ch, s.c_str(), sp_ ), from, "LChPosSp", in2 );
      EQI( utils::lastOccurence( s, ch ), last, "lastOccurence", in2 );
      EQI( utils::indexOf( s, ch ), first, "indexOf", in2 );
      EQI( utils::pos( ch, s ), first + 1, "pos", in2 );
      EQI( utils::strContains( s, ch ), n > 0, "strContains", in2 );
      int fs = -1, ls = -1;
      for( int i = 0; i < (int) s.size(); i++ )
         if( pat.find( s[(size_t) i] ) != Str::npos )
         {
            if( fs < 0 ) fs = i;
            ls = i;
         }
      EQI( sx::LChSetPos( pat.c_str(), s.c_str(), (int) s.size() ), fs, "LChSetPos", in2 );
      EQI( sx::RChSetPos( pat.c_str(), s.c_str(), (int) s.size() ), ls, "RChSetPos", in2 );
      EQI( sp::LastDelimiter( pat.c_str(), s ), ls, "LastDelimiter", in2 );
      EQI( sp::LastDelimiter( std::string_view( pat ), std::string_view( s ) ), ls, "LastDelimiter-view", in2 );
      EQI( utils::starts_with( s, pat ), s.compare( 0, pat.size(), pat ) == 0, "starts_with", in2 );
      EQI( utils::ends_with( s, pat ), s.size() >= pat.size() && s.substr( s.size() - pat.size() ) == pat, "ends_with", in2 );
      EQI( utils::starts_with( pat + s, pat ), 1, "starts_with", in2 );
      EQI( utils::ends_with( s + pat, pat ), 1, "ends_with", in2 );
      // replacing
      const Str rep = genStr( r, 4, "abc" );
      Str want;
      for( size_t i = 0; i < s.size(); )
         if( !pat.empty() && s.compare( i, pat.size(), pat ) == 0 )
         {
            want += rep;
            i += pat.size();
         }
         else
            want += s[i++];
      EQS( utils::replaceSubstrs( s, pat, rep ), want, "replaceSubstrs", in2 );
      EQS( sx::ReplaceStr( pat, rep, s ), want, "ReplaceStr", in2 );
      Str w2 = s, g2 = s;
      const char nc = (char) r.in( 1, 255 );
      for( auto &c: w2 )
         if( c == ch ) c = nc;
      utils::replaceChar( ch, nc, g2 );
      EQS( g2, w2, "replaceChar", in2 );
      utils::charset cs;
      for( char c: pat ) cs.insert( c );
      w2 = s;
      for( auto &c: w2 )
         if( pat.find( c ) != Str::npos ) c = nc;
      EQS( sx::ReplaceChar( cs, nc, s ), w2, "ReplaceChar", in2 );
      for( int c = -128; c < 128; c++ )
         if( c ) CK( cs.contains( (char) c ) == ( pat.find( (char) c ) != Str::npos ), "charset", "membership", in2 );
      const char l1 = (char) r.in( -128, 127 ), u1 = (char) r.in( -128, 127 );
      utils::charset rs;
      utils::charRangeInsert( rs, l1, u1 );
      for( int c = -128; c < 128; c++ ) CK( rs.contains( (char) c ) == ( c >= l1 && c <= u1 ), "charrange", "membership", std::to_string( l1 ) + ".." + std::to_string( u1 ) + " " + std::to_string( c ) );
      const int off = (int) r.in( 0, (int64_t) s.size() + 3 ), len = (int) r.in( 0, 20 );
      EQS( Str( utils::substr( s, off, len ) ), off >= (int) s.size() ? Str() : s.substr( (size_t) off, (size_t) len ), "substr", in );
      const int p1 = (int) r.in( -2, (int64_t) s.size() + 3 );
      EQI( sx::gsgetchar( s, p1 ), p1 >= 1 && p1 <= (int) s.size() ? s[(size_t) p1 - 1] : 0, "gsgetchar", in );
   }
   // splitting and joining
   {
      const char sep = " ,."[r.in( 0, 2 )];
      std::list<Str> want;
      Str cur;
      for( char c: s + sep )
         if( c == sep )
         {
            if( !cur.empty() ) want.push_back( cur );
            cur.clear();
         }
         else
            cur += c;
      CK( utils::split( s, sep ) == want, "split", "parts", in );
      const Str a = genStr( r ), b = genStr( r );
      EQS( utils::join( sep, { a, b, s } ), a + sep + b + sep + s, "join", in );
      EQS( utils::join( sep, { s } ), s, "join", in );
      EQS( utils::quoteWhitespace( s ), s.find( ' ' ) == Str::npos ? s : "'" + s + "'", "quoteWs", in );
      // tokens: blank separated, or in quotes
      Str line;
      std::vector<Str> toks;
      for( int i = (int) r.in( 0, 5 ); i > 0; i-- )
      {
         line += Str( (size_t) r.in( toks.empty() ? 0 : 1, 3 ), ' ' );
         const int q = (int) r.in( 0, 2 );
         Str t = genStr( r, 8, q == 1 ? "ab' " : q == 2 ? "ab\" " : "abc'\"1" );
         if( !q )
         {
            if( t.empty() || t[0] == '\'' || t[0] == '"' ) t = "x" + t;
            line += t;
         }
         else
            line += ( q == 1 ? "\"" : "'" ) + t + ( q == 1 ? "\"" : "'" );
         toks.push_back( t );
      }
      int p = 1;
      for( auto &t: toks ) EQS( sx::ExtractToken( line, p ), t, "ExtractToken", sane( line ) );
      EQS( sx::ExtractToken( line, p ), "", "ExtractToken-end", sane( line ) );
   }
   // short strings
   {
      Str t = s.substr( 0, 255 );
      if( r.chance( 1, 4 ) ) t = Str( (size_t) r.in( 250, 255 ), 'x' );
      std::unique_ptr<char[]> b( new char[256] );
      memset( b.get(), 0x55, 256 );
      EQI( sx::strConvCppToDelphi( t, b.get() ), 0, "toDelphi", in );
      CK( (uint8_t) b[0] == t.size() && !memcmp( b.get() + 1, t.data(), t.size() ), "toDelphi", "content", in );
      EQS( sx::strConvDelphiToCpp( b.get() ), t, "fromDelphi", in );
      sx::strConvDelphiToC( b.get() );
      EQS( Str( b.get() ), t, "delphiToC", in );
      EQI( sx::strConvCtoDelphi( b.get() ), 0, "CtoDelphi", in );
      CK( (uint8_t) b[0] == t.size() && !memcmp( b.get() + 1, t.data(), t.size() ), "CtoDelphi", "content", in );
      memset( b.get(), 0x55, 256 );
      EQI( utils::strConvCppToDelphi( t, b.get() ), 0, "utoDelphi", in );
      CK( (uint8_t) b[0] == t.size() && !memcmp( b.get() + 1, t.data(), t.size() ), "utoDelphi", "content", in );
      // bounded copies never leave the buffer
      const int cap = (int) r.in( 1, 60 );
      std::unique_ptr<char[]> q( new char[(size_t) cap] );
      const bool fits = (int) s.size() + 1 <= cap;
      q[0] = '\x01';
      utils::assignStrToBuf( s, q.get(), cap );
      CK( fits ? Str( q.get() ) == s : q[0] == '\x01', "assignStr", "copy", in + " cap " + std::to_string( cap ) );
      q[0] = '\x01';
      utils::assignViewToBuf( s, q.get(), (size_t) cap );
      CK( fits ? Str( q.get() ) == s : q[0] == '\x01', "assignView", "copy", in + " cap " + std::to_string( cap ) );
      q[0] = '\x01';
      utils::assignPCharToBuf( s.c_str(), s.size(), q.get(), (size_t) cap );
      CK( fits ? Str( q.get() ) == s : q[0] == '\x01', "assignPChar", "copy", in + " cap " + std::to_string( cap ) );
      utils::assignPCharToBuf( s.c_str(), q.get(), (size_t) cap );
      EQS( Str( q.get() ), s.substr( 0, (size_t) cap - 1 ), "assignTrunc", in + " cap " + std::to_string( cap ) );
   }
   count( "text", 1 );
   nontrivial( std::hash<Str>()( s ) );
}
struct Norm {
   bool abs = false;
   int up = 0;
   std::vector<Str> c;
   bool operator==( const Norm &o ) const { return abs == o.abs && up == o.up && c == o.c; }
};
Norm norm( const Str &p )
{
   Norm n;
   n.abs = !p.empty() && p[0] == '/';
   Str cur;
   for( char ch: p + "/" )
      if( ch == '/' )
      {
         if( cur == ".." )
         {
            if( !n.c.empty() ) n.c.pop_back();
            else if( !n.abs ) n.up++;
         }
         else if( !cur.empty() && cur != "." ) n.c.push_back( cur );
         cur.clear();
      }
      else
         cur += ch;
   return n;
}
Str show( const Norm &n )
{
   Str s = n.abs ? "/" : "";
   for( int i = 0; i < n.up; i++ ) s += "../";
   for( auto &c: n.c ) s += c + "/";
   return s;
}
Str genPath( Rng &r )
{
   Str p = r.chance( 1, 3 ) ? "/" : "";
   for( int i = (int) r.in( 0, 8 ); i > 0; i-- )
   {
      p += ( const char *[] ){ "..", "..", ".", "a", "bb", "ccc", "a..", "..b", "x.gdx", ".h", "", "D d", "...", "dddd" }[r.in( 0, 13 )];
      if( i > 1 || r.chance( 1, 2 ) ) p += "/";
   }
   return p;
}
void paths( Rng &r )
{
   const Str f = r.chance( 1, 2 ) ? genPath( r ) : genStr( r, 60, "ab./ :\\-" ), in = sane( f );
   auto cut = f.find_last_of( "/" );
   const Str dir = cut == Str::npos ? "" : f.substr( 0, cut + 1 ), base = cut == Str::npos ? f : f.substr( cut + 1 );
   const bool drive = base.find( ':' ) != Str::npos;// ':' is a drive delimiter where there are drives
   EQS( sp::ExtractFilePath( f ) + sp::ExtractFileName( f ), f, "splitname", in );
   EQS( sx::ExtractFilePathEx( f ) + sx::ExtractFileNameEx( f ), f, "splitnameEx", in );
   if( !drive && f.find( ':' ) == Str::npos )
   {
      EQS( sp::ExtractFilePath( f ), dir, "filepath", in );
      EQS( sp::ExtractFileName( f ), base, "filename", in );
      EQS( sx::ExtractFilePathEx( f ), dir, "filepathEx", in );
      EQS( sx::ExtractFileNameEx( f ), base, "filenameEx", in );
      const auto dot = base.rfind( '.' );
      const Str ext = dot == Str::npos ? "" : base.substr( dot ), stem = dot == Str::npos ? f : f.substr( 0, f.size() - ext.size() );
      const Str ne = r.chance( 1, 4 ) ? "" : ".gdx";
      EQS( sx::ExtractFileExtEx( f ), ext, "extEx", in );
      EQS( sx::ChangeFileExtEx( f, ne ), stem + ne, "changeExtEx", in );
      EQS( sx::CompleteFileExtEx( f, ne ), ext.empty() ? f + ne : f, "completeExtEx", in );
      if( dot != 0 || !dir.empty() ) EQS( sp::ExtractFileExt( f ), ext, "ext", in );
      EQS( sp::ChangeFileExt( f, ne ), stem + ne, "changeExt", in );
      EQS( sp::ReplaceFileExt( f, ne ), stem + ne, "replaceExt", in );
      if( dot != 0 || !dir.empty() ) EQS( sp::CompleteFileExt( f, ne ), ext.empty() ? f + ne : f, "completeExt", in );
   }
   const bool tr = !f.empty() && f.back() == '/';
   EQS( sp::IncludeTrailingPathDelimiter( f ), tr ? f : f + "/", "inclDelim", in );
   EQS( sp::ExcludeTrailingPathDelimiter( f ), tr ? f.substr( 0, f.size() - 1 ) : f, "exclDelim", in );
   EQS( sx::IncludeTrailingPathDelimiterEx( f ), tr ? f : f + "/", "inclDelimEx", in );
   EQS( sx::ExcludeTrailingPathDelimiterEx( f ), tr ? f.substr( 0, f.size() - 1 ) : f, "exclDelimEx", in );
   // cleaning keeps the place that the path names
   Str c = f;
   sx::cleanpath( c, '/' );
   CK( norm( c ) == norm( f ), "cleanpath", "names another place", in + " -> " + sane( c ) );
   CK( c.size() <= f.size(), "cleanpath-len", "path became longer", in + " -> " + sane( c ) );
   // completing with a directory
   Str d = genPath( r );
   if( d.empty() ) d = "/tmp";
   if( !f.empty() )
   {
      const Str e = sx::CompleteFileNameEx( d, f, 0, false );
      if( f[0] == '@' ) EQS( e, f, "completeName", in );
      else CK( norm( e ) == norm( f[0] == '/' ? f : d + "/" + f ), "completeName", "names another place", sane( d ) + " + " + in + " -> " + sane( e ) );
      const Str e2 = sx::CompleteFileNameEx( d, f, 0, true );
      if( f[0] != '@' ) CK( norm( e2 ) == norm( f[0] == '/' || f[0] == '.' ? f : d + "/" + f ), "completeNameRel", "names another place", sane( d ) + " + " + in + " -> " + sane( e2 ) );
      if( f[0] != '@' )
      {
         EQS( sx::CompleteFileNameEx( d, f, 1, false ), upper( e ), "completeName-upper", in );
         EQS( sx::CompleteFileNameEx( d, f, 2, false ), lower( e ), "completeName-lower", in );
         if( f.find( ':' ) == Str::npos )
         {
            EQS( sx::CompleteFileNameEx( d, f, 3, false ), sx::ExtractFilePathEx( e ) + upper( sx::ExtractFileNameEx( e ) ), "completeName-upbase", in );
            EQS( sx::CompleteFileNameEx( d, f, 4, false ), sx::ExtractFilePathEx( e ) + lower( sx::ExtractFileNameEx( e ) ), "completeName-lobase", in );
         }
      }
   }
   const Str cd = sx::CompleteDirEx( d, f, 0, false );
   CK( norm( cd ) == norm( !f.empty() && f[0] == '/' ? f : d + "/" + f ) && ( cd.empty() || cd.back() == '/' ), "completeDir", "names another place", sane( d ) + " + " + in + " -> " + sane( cd ) );
   count( "path", 1 );
   nontrivial( std::hash<Str>()( f ) );
}
void dates( Rng &r )
{
   const int y = (int) r.in( 1, 9999 ), m = (int) r.in( 1, 12 );
   const bool leap = ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0;
   const int dim = m == 2 ? ( leap ? 29 : 28 ) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31;
   const int d = (int) ( r.chance( 1, 4 ) ? dim : r.in( 1, dim ) );
   const Str in = std::to_string( y ) + "-" + std::to_string( m ) + "-" + std::to_string( d );
   EQI( sp::isLeapYear( y ), leap, "leap", in );
   // days since 1899-12-30 by counting
   long long n = 0;
   {
      const int yy = y - 1;
      n = 365LL * yy + yy / 4 - yy / 100 + yy / 400 + d;
      for( int k = 1; k < m; k++ ) n += k == 2 ? ( leap ? 29 : 28 ) : k == 4 || k == 6 || k == 9 || k == 11 ? 30 : 31;
      n -= 693594;
   }
   double v = -1e9;
   CK( sp::tryEncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) d, v ), "tryEncode", "refused a valid date", in );
   EQI( v, n, "tryEncode", in );
   CK( !sp::tryEncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) ( dim + 1 ), v ), "tryEncode-bad", "accepted an invalid date", in );
   uint16_t Y = 0, M = 0, D = 0;
   sp::DecodeDate( (double) n, Y, M, D );
   CK( Y == y && M == m && D == d, "decodeDate", "date", in + " -> " + std::to_string( Y ) + "-" + std::to_string( M ) + "-" + std::to_string( D ) );
   if( y > 1600 ) EQI( sp::EncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) d ), n, "encodeDate", in );
   if( n > 0 )
   {
      const int h = (int) r.in( 0, 23 ), mi = (int) r.in( 0, 59 ), s = (int) r.in( 0, 59 ), ms = (int) r.in( 0, 999 );
      const double t = r.chance( 1, 2 ) ? (double) n + sp::EncodeTime( (uint16_t) h, (uint16_t) mi, (uint16_t) s, (uint16_t) ms )
                                        : sp::EncodeDateTime( (uint16_t) y, (uint16_t) m, (uint16_t) d, (uint16_t) h, (uint16_t) mi, (uint16_t) s, (uint16_t) ms );
      uint16_t H = 99, I = 99, S = 99, L = 9999;
      sp::DecodeTime( t, H, I, S, L );
      sp::DecodeDate( t, Y, M, D );
      char b[80];
      snprintf( b, sizeof b, " %d:%d:%d.%d -> %d:%d:%d.%d", h, mi, s, ms, H, I, S, L );
      CK( H == h && I == mi && S == s && L == ms && Y == y && M == m && D == d, "decodeTime", "time", in + b );
   }
   count( "date", 1 );
   nontrivial( (u64) n );
}
}// namespace
void runCase( u64, Rng &r )
{
   switch( (int) r.in( 0, 11 ) )
   {
      case 0:
      case 1:
      case 2: doubles( r ); break;
      case 3:
      case 4: numerals( r ); break;
      case 5:
      case 6: integers( r ); break;
      case 7: casing( r ); break;
      case 8:
      case 9: texts( r ); break;
      case 10: paths( r ); break;
      default: dates( r ); break;
   }
}
