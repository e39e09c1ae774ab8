// P24 support streams: random typed writes, chunk sizes, seeks, compression switches and passwords on
// the stream classes, every read compared with a model of the bytes written.
#include "core.hpp"
#include "gdlib/gmsstrm.hpp"
#include "gclgms.h"
#include <unistd.h>
#include <zlib.h>
using namespace gdlib::gmsstrm;
const char *MON_RULE = "random histories of typed reads and writes, chunked reads, seeks, flushes, compression switches, passwords, line reads and rewinds on the stream classes; values, positions, end of file, refusals and the bytes on disk compared with a model";
void monInit() {}
void monDone() {}
namespace {
struct XS : TXFileStream {
   using TXFileStream::TXFileStream;
   int64_t pos() { return GetPosition(); }
   void seek( int64_t p ) { SetPosition( p ); }
   int64_t size() { return GetSize(); }
};
size_t chunk( Rng &r )
{
   switch( (int) r.in( 0, 9 ) )
   {
      case 0: return 0;
      case 1: return (size_t) r.in( 32700, 32800 );
      case 2: return (size_t) r.in( 65500, 65600 );
      case 3: return (size_t) r.in( 1000, 100000 );
      case 4: return 32768;
      default: return (size_t) r.in( 1, r.chance( 1, 3 ) ? 3000 : 40 );
   }
}
Str blob( Rng &r, size_t n )
{
   Str s( n, 'x' );
   int k = (int) r.in( 0, 2 );
   for( auto &c: s ) c = k == 0 ? (char) r.in( 0, 255 ) : k == 1 ? (char) r.in( 'a', 'd' ) : c;
   return s;
}
Str genPw( Rng &r )
{
   Str s;
   int n = (int) ( r.chance( 1, 12 ) ? r.in( 200, 255 ) : r.chance( 1, 6 ) ? 1 : r.in( 1, 20 ) );
   for( int i = 0; i < n; i++ ) s += (char) r.in( 33, 126 );
   if( n > 3 && r.chance( 1, 4 ) ) s[(size_t) r.in( 1, n - 2 )] = ' ';
   return s;
}
enum Kind { kByte, kBool, kChar, kWord, kInt, kInt64, kDouble, kString, kPChar, kRaw, kGInt, kGDbl };
struct Item {
   Kind k;
   u64 n = 0;
   double d = 0;
   Str s;
};
Item genItem( Rng &r, bool mi )
{
   Item x;
   x.k = (Kind) r.in( 0, mi ? kGDbl : kRaw );
   x.n = r.next() >> (int) r.in( 0, 63 );
   if( r.chance( 1, 2 ) ) x.n = ~x.n;
   switch( x.k )
   {
      case kByte: x.n &= 255; break;
      case kBool: x.n &= 1; break;
      case kChar: x.n &= 255; break;
      case kWord: x.n &= 65535; break;
      case kDouble: x.d = fromBits( r.next() ); break;
      case kString: x.s = blob( r, (size_t) ( r.chance( 1, 4 ) ? std::min<int64_t>( 255, r.in( 250, 260 ) ) : r.in( 0, 40 ) ) ); break;
      case kPChar: x.s = blob( r, std::min<size_t>( chunk( r ), 70000 ) ); break;
      case kRaw: x.s = blob( r, chunk( r ) ); break;
      case kInt: case kGInt: if( r.chance( 1, 10 ) ) x.n = (u64) (int64_t) r.pick( { INT_MIN, INT_MAX, INT_MIN + 1, 0, -1, 15, 16, -16, 4095, 4096 } ); break;
      case kGDbl:
         switch( (int) r.in( 0, 3 ) )
         {
            case 0: x.d = r.pick( { (double) GMS_SV_UNDEF, (double) GMS_SV_NA, (double) GMS_SV_PINF, (double) GMS_SV_MINF, (double) GMS_SV_EPS, 0.0, 1.0, -1.0 } ); break;
            case 1: x.d = GMS_SV_ACR * (double) r.in( 1, r.chance( 1, 2 ) ? 10 : 10000000 ); break;
            case 2: do x.d = fromBits( r.next() ); while( !( x.d < 1e299 && x.d > -1e308 ) || x.d == 0 ); break;
            default: x.d = (double) r.in( -1000000, 1000000 ) / (double) r.pick( { 1, 2, 8, 10, 3 } ); if( x.d == 0 ) x.d = 0;
         }
         break;
      default: break;
   }
   return x;
}
template<typename S> void put( S &s, const Item &x )
{
   switch( x.k )
   {
      case kByte: s.WriteByte( (uint8_t) x.n ); break;
      case kBool: s.WriteBool( x.n != 0 ); break;
      case kChar: s.WriteChar( (char) x.n ); break;
      case kWord: s.WriteWord( (uint16_t) x.n ); break;
      case kInt: s.WriteInteger( (int) (uint32_t) x.n ); break;
      case kInt64: s.WriteInt64( (int64_t) x.n ); break;
      case kDouble: s.WriteDouble( x.d ); break;
      case kString:
      {// a string keeps at most its first 255 characters
         Str w = x.s;
         if( w.size() == 255 && ( x.n & 1 ) ) w.append( 1 + (size_t) ( x.n >> 1 ) % ( x.n & 4 ? 3 : 600 ), 'z' );
         s.WriteString( std::string_view( w ) );
         break;
      }
      case kPChar: s.WritePChar( x.s.data(), (int) x.s.size() ); break;
      default:
      {
         uint32_t w = s.Write( x.s.data(), (uint32_t) x.s.size() );
         CHECK( w == x.s.size(), "write", "write of %zu bytes returned %u", x.s.size(), w );
      }
   }
}
size_t bytesOf( const Item &x )// not for the packed formats
{
   switch( x.k )
   {
      case kByte: case kBool: case kChar: return 1;
      case kWord: return 2;
      case kInt: return 4;
      case kInt64: case kDouble: return 8;
      case kString: return 1 + x.s.size();
      case kPChar: return 4 + x.s.size();
      default: return x.s.size();
   }
}
template<typename S> void get( Rng &r, S &s, const Item &x )
{
   switch( x.k )
   {
      case kByte: { int v = s.ReadByte(); CHECK( v == (int) x.n, "value", "byte %d read as %d", (int) x.n, v ); break; }
      case kBool: { bool v = s.ReadBool(); CHECK( v == ( x.n != 0 ), "value", "bool read wrong" ); break; }
      case kChar: { char v = s.ReadChar(); CHECK( v == (char) x.n, "value", "char read wrong" ); break; }
      case kWord: { int v = s.ReadWord(); CHECK( v == (int) x.n, "value", "word %d read as %d", (int) x.n, v ); break; }
      case kInt: { int v = s.ReadInteger(); CHECK( v == (int) (uint32_t) x.n, "value", "integer %d read as %d", (int) (uint32_t) x.n, v ); break; }
      case kInt64: { int64_t v = s.ReadInt64(); CHECK( v == (int64_t) x.n, "value", "int64 %lld read as %lld", (long long) x.n, (long long) v ); break; }
      case kDouble: { double v = s.ReadDouble(); CHECK( bits( v ) == bits( x.d ), "value", "double %.17g read as %.17g", x.d, v ); break; }
      case kString:
      {
         Str v;
         if( r.chance( 1, 2 ) ) v = s.ReadString();
         else
         {
            char b[256];
            uint8_t n = 0;
            s.ReadSString( b, n );
            v.assign( b, n );
            CHECK( b[n] == 0, "value", "string not terminated" );
         }
         CHECK( v == x.s, "value", "string of %zu characters read as %zu different ones", x.s.size(), v.size() );
         break;
      }
      case kPChar:
         if( bits( (double) x.s.size() ) % 3 == 0 )
         {// buffer allocated for the caller
            int n = -1;
            char *p = nullptr;
            s.ReadPChar( p, n );
            std::unique_ptr<char[]> own( p );
            CHECK( n == (int) x.s.size() && ( n > 0 ) == ( p != nullptr ) && ( !p || !memcmp( p, x.s.data(), (size_t) n ) ), "value", "text of %zu characters read wrong (%d)", x.s.size(), n );
            break;
         }
         { int n = -1; Str v = s.ReadPChar( n ); CHECK( v == x.s && n == (int) x.s.size(), "value", "text of %zu characters read wrong (%d)", x.s.size(), n ); break; }
      default:
      {
         Str v( x.s.size(), 0 );
         size_t at = 0;
         while( at < v.size() )
         {
            size_t n = r.chance( 1, 2 ) ? v.size() - at : (size_t) r.in( 1, (int) ( v.size() - at ) );
            uint32_t g = s.Read( &v[at], (uint32_t) n );
            CHECK( g == n, "value", "read of %zu bytes returned %u", n, g );
            at += n;
         }
         CHECK( v == x.s, "value", "%zu raw bytes read differently", v.size() );
      }
   }
   count( "items_read" );
   CHECK( !s.GetReadPastEnd(), "end", "a complete item is flagged as cut off" );
}
// written once, read several times; compression segments with recorded positions
template<typename S> void sequence( Rng &r, bool mi, bool buffered )
{
   Str fn = scratchFile( "s.bin" );
   remove( fn.c_str() );
   Str pw = r.chance( 1, 2 ) ? genPw( r ) : Str();
   struct Seg { bool comp; int64_t pos; std::vector<Item> it; int64_t end; };
   std::vector<Seg> segs;
   int64_t head = mi ? 17 : 0;
   {
      S s( fn, fmCreate );
      CHECK( s.GetLastIOResult() == 0, "open", "cannot create" );
      if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) s.FlushBuffer();
      if( !pw.empty() ) s.SetPassWord( pw );
      CHECK( s.GetUsesPassWord() == !pw.empty(), "password", "password state" );
      int ns = buffered ? (int) r.in( 1, 4 ) : 1;
      for( int q = 0; q < ns; q++ )
      {
         Seg g;
         g.comp = false;
         if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
         {
            g.comp = r.chance( 1, 2 );
            s.SetCompression( g.comp );
            CHECK( s.GetCompression() == g.comp, "compression", "compression state" );
            g.pos = s.GetPosition();
         }
         else g.pos = s.pos();
         int64_t expect = g.pos;
         int n = (int) r.in( 0, r.chance( 1, 4 ) ? 300 : 30 );
         bool exact = !g.comp;
         for( int i = 0; i < n; i++ )
         {
            Item x = genItem( r, mi );
            if constexpr( std::is_same_v<TMiBufferedStream, S> )
            {
               if( x.k == kGInt ) s.WriteGmsInteger( (int) (uint32_t) x.n );
               else if( x.k == kGDbl ) s.WriteGmsDouble( x.d );
               else put( s, x );
               if( x.k >= kGInt ) { exact = false; }
            }
            else put( s, x );
            expect += (int64_t) bytesOf( x );
            g.it.push_back( x );
            if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
            {
               if( r.chance( 1, 10 ) ) CHECK( s.FlushBuffer(), "flush", "flush failed" );
               if( r.chance( 1, 10 ) && exact ) { int64_t p = s.GetPosition(); CHECK( p == expect, "position", "position %lld after %lld bytes", (long long) p, (long long) expect ); count( "positions" ); }
            }
            else { int64_t p = s.pos(); CHECK( p == expect, "position", "position %lld after %lld bytes", (long long) p, (long long) expect ); }
            count( "items_written" );
            note( "item_kinds", (u64) x.k * 4 + (u64) g.comp * 2 + !pw.empty() );
         }
         segs.push_back( g );
      }
      if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
      {
         s.SetCompression( false );
         int64_t end = s.GetPosition();
         segs.back().end = end;
      }
      else segs.back().end = s.pos();
      for( size_t q = 0; q + 1 < segs.size(); q++ ) segs[q].end = segs[q + 1].pos;
      CHECK( s.GetLastIOResult() == 0, "io", "write error" );
      if( r.chance( 1, 2 ) ) CHECK( s.Close() == 0, "close", "close failed" );
   }
   Str disk = readFileBytes( fn );
   CHECK( (int64_t) disk.size() == segs.back().end, "size", "file has %zu bytes, position at the end was %lld", disk.size(), (long long) segs.back().end );
   if( !mi && pw.empty() && segs.size() == 1 && !segs[0].comp )
   {// the plain image
      size_t at = (size_t) head;
      for( auto &x: segs[0].it )
      {
         Str w;
         if( x.k == kString ) w = Str( 1, (char) x.s.size() ) + x.s;
         else if( x.k == kRaw ) w = x.s;
         else if( x.k == kDouble ) w.assign( (const char *) &x.d, 8 );
         else if( x.k == kPChar ) { int n = (int) x.s.size(); w.assign( (const char *) &n, 4 ); w += x.s; }
         else w.assign( (const char *) &x.n, bytesOf( x ) );
         CHECK( disk.compare( at, w.size(), w ) == 0, "image", "bytes on disk differ at %zu", at );
         at += w.size();
      }
      count( "images" );
   }
   {
      S s( fn, fmOpenRead );
      CHECK( s.GetLastIOResult() == 0, "open", "cannot open for reading" );
      if( !pw.empty() ) s.SetPassWord( pw );
      std::vector<size_t> order;
      for( size_t i = 0; i < segs.size(); i++ ) order.push_back( i );
      if( r.chance( 1, 2 ) ) r.shuffle( order );
      for( size_t q: order )
      {
         Seg &g = segs[q];
         if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
         {
            s.SetCompression( !g.comp );// also drops what was loaded under other settings
            s.SetCompression( g.comp );
            s.SetPosition( g.pos );
         }
         else s.seek( g.pos );
         int64_t at = g.pos;
         bool exact = !g.comp;
         bool last = q + 1 == segs.size();
         size_t left = g.it.size();
         for( auto &x: g.it )
         {
            if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
            {
               bool more = false;
               for( size_t j = g.it.size() - left; j < g.it.size(); j++ ) more = more || bytesOf( g.it[j] ) || g.it[j].k >= kGInt;
               if( last && r.chance( 1, 20 ) ) { CHECK( s.IsEof() == !more, "eof", "end of file reported %d with %zu items left", (int) s.IsEof(), left ); count( "eof_checks" ); }
            }
            if constexpr( std::is_same_v<TMiBufferedStream, S> )
            {
               if( x.k == kGInt ) { int v = s.ReadGmsInteger(); CHECK( v == (int) (uint32_t) x.n, "value", "packed integer %d read as %d", (int) (uint32_t) x.n, v ); exact = false; }
               else if( x.k == kGDbl ) { double v = s.ReadGmsDouble(); CHECK( bits( v ) == bits( x.d ), "value", "packed double %.17g read as %.17g", x.d, v ); exact = false; }
               else get( r, s, x );
            }
            else get( r, s, x );
            at += (int64_t) bytesOf( x );
            left--;
            if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
            {
               if( exact && r.chance( 1, 8 ) ) { int64_t p = s.GetPosition(); CHECK( p == at, "position", "reading position %lld, expected %lld", (long long) p, (long long) at ); count( "positions" ); }
            }
         }
         if( last )
         {
            char b[3];
            CHECK( s.Read( b, 3 ) == 0, "eof", "bytes behind the end of the file" );
            if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) CHECK( s.IsEof(), "eof", "end of file not reported" );
            else CHECK( s.size() == segs.back().end, "size", "size %lld of a file with %lld bytes", (long long) s.size(), (long long) segs.back().end );
            s.ReadByte();
            CHECK( s.GetReadPastEnd(), "end", "reading past the end not flagged" );
         }
      }
      // random access
      if( !segs[0].comp && !segs[0].it.empty() )
      {
         Seg &g = segs[0];
         if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) { s.SetCompression( true ); s.SetCompression( false ); s.SetPosition( g.pos ); }
         bool plain = true;
         for( auto &x: g.it ) plain = plain && x.k < kGInt;
         if( plain ) for( int q = 0; q < 10; q++ )
         {
            size_t i = (size_t) r.in( 0, (int) g.it.size() - 1 );
            int64_t at = g.pos;
            for( size_t j = 0; j < i; j++ ) at += (int64_t) bytesOf( g.it[j] );
            if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) { s.SetPosition( at ); CHECK( s.GetPosition() == at, "position", "position after seek" ); }
            else { s.seek( at ); CHECK( s.pos() == at, "position", "position after seek" ); }
            get( r, s, g.it[i] );
            count( "seeks" );
         }
      }
   }
   nontrivial( hashStr( disk ) );
}
// one stream for reading and writing, plain bytes
template<typename S> void both( Rng &r )
{
   Str fn = scratchFile( "rw.bin" ), m;
   remove( fn.c_str() );
   Str pw = r.chance( 1, 3 ) ? genPw( r ) : Str();
   size_t pos = 0;
   {
      S s( fn, fmOpenReadWrite );
      CHECK( s.GetLastIOResult() == 0, "open", "cannot open for reading and writing" );
      if( !pw.empty() ) s.SetPassWord( pw );
      int n = (int) r.in( 1, 80 );
      for( int i = 0; i < n; i++ )
      {
         switch( (int) r.in( 0, 5 ) )
         {
            case 0:
            case 1:
            {
               Str b = blob( r, chunk( r ) );
               CHECK( s.Write( b.data(), (uint32_t) b.size() ) == b.size(), "write", "short write" );
               if( m.size() < pos + b.size() ) m.resize( pos + b.size() );
               m.replace( pos, b.size(), b );
               pos += b.size();
               count( "rw_writes" );
               break;
            }
            case 2:
            case 3:
            {
               Str b( chunk( r ), 0 );
               uint32_t g = s.Read( &b[0], (uint32_t) b.size() );
               size_t want = std::min( b.size(), m.size() - pos );
               CHECK( g == want, "read", "read of %zu bytes at %zu of %zu returned %u", b.size(), pos, m.size(), g );
               CHECK( b.compare( 0, g, m, pos, g ) == 0, "read", "bytes at %zu differ from those written", pos );
               pos += g;
               count( "rw_reads" );
               break;
            }
            case 4:
               pos = (size_t) r.in( 0, (int) m.size() );
               if( r.chance( 1, 8 ) ) pos = m.size();
               if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) s.SetPosition( (int64_t) pos );
               else s.seek( (int64_t) pos );
               count( "seeks" );
               break;
            default:
               if constexpr( std::is_base_of_v<TBufferedFileStream, S> )
               {
                  if( r.chance( 1, 2 ) ) CHECK( s.FlushBuffer(), "flush", "flush failed" );
                  bool e = s.IsEof();
                  CHECK( e == ( pos >= m.size() ), "eof", "end of file is %d at %zu of %zu", (int) e, pos, m.size() );
               }
         }
         int64_t p;
         if constexpr( std::is_base_of_v<TBufferedFileStream, S> ) p = s.GetPosition();
         else p = s.pos();
         CHECK( p == (int64_t) pos, "position", "position %lld, expected %zu", (long long) p, pos );
         count( "positions" );
      }
   }
   Str disk = readFileBytes( fn );
   CHECK( disk.size() == m.size(), "size", "file has %zu bytes, expected %zu", disk.size(), m.size() );
   if( pw.empty() ) CHECK( disk == m, "image", "bytes on disk differ" );
   else if( m.size() > 600 )
   {
      size_t same = 0;
      for( size_t i = 0; i < m.size(); i++ ) same += disk[i] == m[i];
      CHECK( same < m.size() / 2, "secrecy", "%zu of %zu bytes are stored as they are", same, m.size() );
   }
   nontrivial( hashStr( m ) );
}
Str genTextBytes( Rng &r, std::vector<Str> &lines )
{
   Str t;
   int n = (int) r.in( 0, r.chance( 1, 3 ) ? 400 : 20 );
   for( int i = 0; i < n; i++ )
   {
      Str l;
      size_t len = (size_t) ( r.chance( 1, 20 ) ? r.in( 200, 40000 ) : r.chance( 1, 5 ) ? r.in( 70, 90 ) : r.in( 0, 30 ) );
      for( size_t k = 0; k < len; k++ ) { char c = (char) r.in( 32, r.chance( 1, 10 ) ? 255 : 126 ); l += c; }
      lines.push_back( l );
      t += l;
      if( i + 1 < n || r.chance( 1, 2 ) ) t += '\n';
   }
   return t;
}
void readLines( Rng &r, TBinaryTextFileIO &f, const Str &text )
{
   int max = (int) r.pick( { 80, 255, 1000000, 1 } );
   int var = (int) r.in( 0, 2 );
   Str got, cur;
   char last = f.ReadCharacter();
   std::vector<char> cb( (size_t) max + 1 );
   size_t steps = 0;
   Str want = text;
   while( true )
   {
      CHECK( ++steps < text.size() * 2 + 10, "line", "reading lines does not end" );
      int len = -1;
      Str s;
      if( var == 0 ) { f.ReadLine( s, len, max, last ); CHECK( len == (int) s.size(), "line", "length" ); }
      else if( var == 1 ) { std::vector<uint8_t> v; f.ReadLine( v, len, max, last ); s.assign( v.begin(), v.end() ); CHECK( len == (int) s.size(), "line", "length" ); }
      else { f.ReadLine( cb.data(), len, max, last ); CHECK( len >= 0 && len <= max, "line", "%d characters for a limit of %d", len, max ); s.assign( cb.data(), (size_t) len ); }
      CHECK( (int) s.size() <= max, "line", "%zu characters for a limit of %d", s.size(), max );
      got += s;
      count( "lines_read" );
      if( last == '\n' ) { got += '\n'; last = f.ReadCharacter(); }
      else if( last == 0x1A ) break;
      else CHECK( (int) s.size() == max, "line", "line ends after %zu characters without reason", s.size() );
   }
   size_t i = 0;
   while( i < got.size() && i < want.size() && got[i] == want[i] ) i++;
   CHECK( got == want, "line", "lines (limit %d, variant %d) differ at %zu (%zu and %zu characters)", max, var, i, got.size(), want.size() );
}
void readChunks( Rng &r, TBinaryTextFileIO &f, const Str &text )
{
   Str got;
   while( true )
   {
      Str b( std::max<size_t>( 1, chunk( r ) ), 0 );
      uint32_t g = f.Read( &b[0], (uint32_t) b.size() );
      CHECK( g <= b.size(), "text", "more bytes than asked for" );
      got.append( b, 0, g );
      if( g < b.size() ) break;
   }
   size_t i = 0;
   while( i < got.size() && i < text.size() && got[i] == text[i] ) i++;
   CHECK( got == text, "text", "text differs at %zu (%zu and %zu characters)", i, got.size(), text.size() );
}
bool plainStart( const Str &t )
{// text that is taken for something else when stored without a header
   auto st = [&]( const char *p ) { return t.compare( 0, strlen( p ), p ) == 0; };
   return !st( "\xEF\xBB\xBF" ) && !st( "\xFE\xFF" ) && !st( "\xFF" ) && !st( "\x1F\x8B" ) && !( t.size() > 3 && t.compare( 0, 4, Str( "\0\0\xFE\xFF", 4 ) ) == 0 );
}
void textIO( Rng &r )
{
   Str fn = scratchFile( "t.txt" ), f2 = scratchFile( "t2.txt" ), f3 = scratchFile( "t3.txt" );
   for( auto *p: { &fn, &f2, &f3 } ) remove( p->c_str() );
   std::vector<Str> lines;
   bool binary = r.chance( 1, 3 );
   Str text = binary ? blob( r, chunk( r ) ) : genTextBytes( r, lines );
   int err = 0;
   std::string msg;
   int how = (int) r.in( 0, 9 );
   if( how == 0 )
   {// gzip
      gzFile z = gzopen( fn.c_str(), "wb" );
      if( text.size() ) gzwrite( z, text.data(), (unsigned) text.size() );
      gzclose( z );
      bool cut = !text.empty() && r.chance( 1, 3 );
      if( cut )
      {
         Str d = readFileBytes( fn );
         if( r.chance( 1, 2 ) && d.size() > 14 ) d.resize( d.size() - (size_t) r.in( 1, (int) std::min<size_t>( d.size() - 12, 40 ) ) );
         else for( int i = 0; i < 4; i++ ) d[(size_t) r.in( 10, (int) d.size() - 1 )] ^= (char) r.in( 1, 255 );
         writeFileBytes( fn, d );
      }
      TBinaryTextFileIO f( fn, "", err, msg );
      CHECK( !err && msg.empty(), "gzip", "gzip file refused: %s", msg.c_str() );
      if( cut )
      {// no claim on the content
         Str b( 5000, 0 );
         size_t total = 0;
         for( uint32_t g; ( g = f.Read( &b[0], 5000 ) ) != 0 && total < 2000000; total += g ) CHECK( g <= 5000, "gzip", "more bytes than asked for" );
         count( "damaged_gzip" );
         return;
      }
      if( binary || r.chance( 1, 2 ) ) readChunks( r, f, text );
      else readLines( r, f, text );
      CHECK( f.GetLastIOResult() == 0, "gzip", "error reported" );
      count( "gzip_files" );
      return;
   }
   if( how == 1 )
   {// errors
      Str no = scratchFile( "no/such/file" );
      {
         err = 0; msg.clear();
         TBinaryTextFileIO f( no, "", err, msg );
         CHECK( err && !msg.empty(), "open", "missing file not reported" );
      }
      {
         err = 0; msg.clear();
         TBinaryTextFileIO f( no, "me", r.chance( 1, 2 ) ? genPw( r ) : Str(), r.chance( 1, 2 ) ? fsign_text : fsign_blocktext, r.chance( 1, 2 ), err, msg );
         CHECK( err && !msg.empty(), "open", "file that cannot be created not reported" );
      }
      TXFileStream a( no, fmOpenRead );
      CHECK( a.GetLastIOResult() != 0, "open", "missing file not reported" );
      TBufferedFileStream b( no, r.chance( 1, 2 ) ? fmCreate : fmOpenReadWrite );
      CHECK( b.GetLastIOResult() != 0, "open", "file that cannot be created not reported" );
      for( auto *p: { "\xFE\xFF""ab", "\xFF\xFE""a", "\xFF\xFE" } )
      {
         writeFileBytes( fn, p );
         err = 0; msg.clear();
         TBinaryTextFileIO f( fn, "", err, msg );
         CHECK( err && !msg.empty(), "encoding", "unsupported encoding not reported" );
      }
      writeFileBytes( fn, "\xEF\xBB\xBF" + text );
      TBinaryTextFileIO f( fn, "", err, msg );
      CHECK( !err, "encoding", "UTF-8 mark refused" );
      readChunks( r, f, text );
      f.ReWind();
      readChunks( r, f, text );
      count( "open_errors" );
      return;
   }
   bool comp = r.chance( 1, 2 );
   Str pw = r.chance( 1, 2 ) ? genPw( r ) : Str();
   if( how == 2 )
   {// conversions of whole files
      if( !plainStart( text ) ) text = "T" + text;
      writeFileBytes( fn, text );
      CompressTextFile( fn, f2, pw, comp, err, msg );
      CHECK( msg.empty() && !err, "convert", "compressing failed: %s", msg.c_str() );
      if( !pw.empty() && r.chance( 1, 3 ) )
      {
         UnCompressTextFile( f2, f3, "", err, msg );
         CHECK( err == strmErrorNoPassWord && !msg.empty(), "password", "missing password not refused (%d)", err );
      }
      err = 0; msg.clear();
      UnCompressTextFile( f2, f3, pw, err, msg );
      CHECK( msg.empty() && !err, "convert", "uncompressing failed: %s", msg.c_str() );
      CHECK( readFileBytes( f3 ) == text, "convert", "text differs after compressing (%d) and uncompressing (password %zu)", (int) comp, pw.size() );
      count( "conversions" );
      return;
   }
   TFileSignature sig = r.chance( 1, 3 ) ? fsign_blocktext : fsign_text;
   if( sig == fsign_text && !comp && pw.empty() && !plainStart( text ) ) text = "T" + text;
   {
      TBinaryTextFileIO f( fn, "Monitor", pw, sig, comp, err, msg );
      CHECK( !err && msg.empty(), "text", "cannot create: %s", msg.c_str() );
      CHECK( f.UsesPassWord() == !pw.empty(), "password", "password state" );
      size_t at = 0;
      while( at < text.size() )
      {
         size_t n = std::min( chunk( r ), text.size() - at );
         CHECK( f.Write( text.data() + at, (uint32_t) n ) == n, "text", "short write" );
         at += n;
      }
      CHECK( f.GetLastIOResult() == 0, "text", "write error" );
   }
   if( sig == fsign_text && !comp && pw.empty() ) CHECK( readFileBytes( fn ) == text, "image", "plain text is not stored as it is" );
   if( !pw.empty() )
   {
      Str bad = pw;
      int k = (int) r.in( 0, 2 );
      if( k == 0 ) bad.clear();
      else
      {// one character changed
         size_t i = r.chance( 1, 3 ) ? 0 : (size_t) r.in( 0, (int) pw.size() - 1 );
         while( pw[i] == ' ' ) i++;
         do bad[i] = (char) r.in( 33, 126 ); while( bad[i] == pw[i] );
      }
      int e = 0;
      std::string m;
      TBinaryTextFileIO f( fn, bad, e, m );
      CHECK( e && !m.empty(), "password", "%s password not refused (password of %zu characters)", bad.empty() ? "missing" : "wrong", pw.size() );
      CHECK( !bad.empty() || e == strmErrorNoPassWord, "password", "missing password reported as %d", e );
      count( "refused_passwords" );
   }
   TBinaryTextFileIO f( fn, pw, err, msg );
   CHECK( !err && msg.empty(), "text", "cannot open with the password it was written with (%zu characters): %d %s", pw.size(), err, msg.c_str() );
   CHECK( f.UsesPassWord() == !pw.empty(), "password", "password state" );
   int rounds = (int) r.in( 1, 3 );
   for( int q = 0; q < rounds; q++ )
   {
      if( q ) { f.ReWind(); count( "rewinds" ); }
      if( binary || r.chance( 1, 2 ) ) readChunks( r, f, text );
      else readLines( r, f, text );
   }
   CHECK( f.GetLastIOResult() == 0, "text", "error reported" );
   count( "text_files" );
   note( "text_settings", (u64) comp + 2 * !pw.empty() + 4 * sig );
   nontrivial( hashStr( text ) );
}
}// namespace
void runCase( u64 idx, Rng &r )
{
   switch( (int) r.in( 0, 6 ) )
   {
      case 0: sequence<XS>( r, false, false ); break;
      case 1: sequence<TBufferedFileStream>( r, false, true ); break;
      case 2: sequence<TMiBufferedStream>( r, true, true ); break;
      case 3: both<TBufferedFileStream>( r ); break;
      case 4: both<XS>( r ); break;
      default: textIO( r );
   }
   (void) idx;
}
