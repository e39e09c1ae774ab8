// P25 support containers: random histories of operations on every container class next to a plain model;
// every query, order, count and returned index is compared, memory is watched by the sanitizers.
#include "core.hpp"
#include "gxfile.hpp"
#include "gdlib/gmsobj.hpp"
#include "gdlib/strhash.hpp"
#include "gdlib/datastorage.hpp"
#include "gdlib/gmsdata.hpp"
#include "gdlib/batchalloc.hpp"
#include "gdlib/strindexbuf.hpp"
#include <list>
#include <map>
#include <set>
#include <unistd.h>
using namespace gdlib;
const char *MON_RULE = "random histories of operations (adding, inserting, removing, renaming, sorting, clearing, growing, saving and loading) on the string lists, hash lists, pointer lists, bit sets, record stores, growable arrays, integer maps and allocators; results compared with plain models after every step";
void monInit() {}
void monDone() {}
namespace {
#define CK( cond, key, msg, detail ) CHECK( cond, key, "%s: %s", msg, Str( detail ).c_str() )
Str sane( const Str &s )
{
   Str o = "'";
   for( char c: s )
      if( c >= 32 && c < 127 ) o += c;
      else
      {
         char b[8];
         snprintf( b, sizeof b, "\\x%02x", (unsigned char) c );
         o += b;
      }
   return o + "'";
}
// --- strings
char up( char c ) { return c >= 'a' && c <= 'z' ? (char) ( c - 32 ) : c; }
Str upper( Str s )
{
   for( auto &c: s ) c = up( c );
   return s;
}
bool same( const Str &a, const Str &b, bool cs ) { return cs ? a == b : upper( a ) == upper( b ); }
Str genStr( Rng &r, int big = 0 )
{
   Str s;
   switch( (int) r.in( 0, 6 ) )
   {
      case 0: return s;
      case 1: return Str( 1, (char) r.in( 33, 126 ) );
      case 2: return "i" + std::to_string( r.in( 0, 40 ) );
      case 3: return ( r.chance( 1, 2 ) ? "Lab" : "LAB" ) + std::to_string( r.in( 0, 30 ) );
      case 4:
         for( int i = 0, n = (int) r.in( 1, big ? big : 63 ); i < n; i++ ) s += (char) ( r.chance( 1, 9 ) ? r.in( 1, 255 ) : r.in( 32, 126 ) );
         return s;
      default:
         for( int i = 0, n = (int) r.in( 1, 12 ); i < n; i++ ) s += "aAbB1_ "[r.in( 0, 6 )];
         return s;
   }
}
template<class V>
size_t anyIdx( Rng &r, const V &v ) { return (size_t) r.in( 0, (int64_t) v.size() - 1 ); }

// --- TXList with a record of what is freed
template<class X>
struct Lst : gmsobj::TXList<X> {
   std::vector<X *> freed;
   explicit Lst( bool ob ) { this->OneBased = ob; }
   ~Lst() override { Clear(); }
   void Clear() override { gmsobj::TXList<X>::Clear(); }
   void FreeItem( int i ) override { freed.push_back( this->FList[i - ( this->OneBased ? 1 : 0 )] ); }
};
void doList( Rng &r )
{
   count( "list" );
   static int pool[40];
   bool ob = r.chance( 1, 3 );
   int B = ob ? 1 : 0;
   Lst<int> l( ob );
   std::vector<int *> m;
   std::vector<int *> fr;
   int n = (int) r.in( 1, r.chance( 1, 10 ) ? 3000 : 80 );
   for( int s = 0; s < n; s++ )
   {
      int *p = &pool[r.in( 0, 39 )];
      switch( (int) r.in( 0, 11 ) )
      {
         case 0:
         case 1:
         case 2:
         case 3:
         {
            int k = l.Add( p );
            CK( k == (int) m.size() + B, "list-add", "Add gives another position", std::to_string( k ) );
            m.push_back( p );
            break;
         }
         case 4:
         case 5:
         {
            int at = (int) r.in( 0, (int64_t) m.size() );
            l.Insert( at + B, p );
            m.insert( m.begin() + at, p );
            break;
         }
         case 6:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               l.Delete( (int) at + B );
               fr.push_back( m[at] );
               m.erase( m.begin() + (long) at );
               count( "list_delete" );
            }
            break;
         case 7:
         {
            int *q = l.Extract( p );
            auto it = std::find( m.begin(), m.end(), p );
            CK( q == ( it == m.end() ? nullptr : p ), "list-extract", "Extract returns another item", "" );
            if( it != m.end() ) m.erase( it );
            break;
         }
         case 8:
         {
            if( ob ) break;// the position returned by Remove is only described for zero based lists
            int k = l.Remove( p );
            int e = (int) m.size() - 1;
            while( e >= 0 && m[(size_t) e] != p ) e--;
            CK( k == e, "list-remove", "Remove returns another position", std::to_string( k ) + " " + std::to_string( e ) );
            if( e >= 0 ) fr.push_back( p ), m.erase( m.begin() + e );
            break;
         }
         case 9: l.SetCapacity( (int) r.in( 0, 200 ) ); break;
         case 10:
            if( r.chance( 1, 12 ) )
            {
               l.Clear();
               for( size_t i = m.size(); i-- > 0; ) fr.push_back( m[i] );
               m.clear();
            }
            break;
         default:
         {
            auto it = std::find( m.begin(), m.end(), p );
            int e = it == m.end() ? -1 : (int) ( it - m.begin() ) + B;
            CK( l.IndexOf( p ) == e, "list-indexof", "IndexOf finds another position", "" );
         }
      }
      CK( l.GetCount() == (int) m.size() && l.size() == (int) m.size() && l.empty() == m.empty() && l.GetCapacity() >= l.GetCount(), "list-count", "number of items differs", std::to_string( l.GetCount() ) + " " + std::to_string( m.size() ) );
      CK( l.GetLast() == ( m.empty() ? nullptr : m.back() ), "list-last", "last item differs", "" );
      for( size_t i = 0; i < m.size(); i += n > 500 && s + 1 < n ? 37 : 1 )
         CK( l[(int) i + B] == m[i] && l.GetConst( (int) i + B ) == m[i], "list-items", "item differs", std::to_string( i ) );
      CK( l.freed.size() == fr.size(), "list-freed", "items released differ from those removed", std::to_string( l.freed.size() ) + " " + std::to_string( fr.size() ) );
   }
   CK( l.freed == fr, "list-freed-which", "other items released than those removed", "" );
   count( "container_ops", n );
}
void doStrings( Rng &r )
{
   count( "strings" );
   gmsobj::TXStrings l;
   std::vector<Str> m;
   int n = (int) r.in( 1, 80 );
   for( int s = 0; s < n; s++ )
   {
      Str x = !m.empty() && r.chance( 1, 3 ) ? m[anyIdx( r, m )] : genStr( r, 300 );
      switch( (int) r.in( 0, 7 ) )
      {
         case 0:
         case 1:
         case 2:
         {
            CK( l.Add( x.c_str(), x.size() ) == (int) m.size(), "strings-add", "Add gives another position", "" );
            m.push_back( x );
            break;
         }
         case 3:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               l.Delete( (int) at );
               m.erase( m.begin() + (long) at );
            }
            break;
         case 4:
            if( r.chance( 1, 6 ) ) l.Clear(), m.clear();
            break;
         case 5: l.SetCapacity( (int) r.in( 0, 50 ) ); break;
         default:
         {
            int e = -1;
            for( size_t i = m.size(); i-- > 0; )
               if( same( m[i], x, false ) ) e = (int) i;
            CK( l.IndexOf( x.c_str() ) == e, "strings-indexof", "IndexOf differs", sane( x ) );
         }
      }
      CK( l.GetCount() == (int) m.size(), "strings-count", "count differs", "" );
      for( size_t i = 0; i < m.size(); i++ ) CK( l[(int) i] == m[i], "strings-items", "string differs", sane( m[i] ) );
   }
   count( "container_ops", n );
}
void doBits( Rng &r )
{
   count( "bits" );
   gmsobj::TBooleanBitArray b;
   std::set<int> m;
   int hi = -1, lim = (int) r.pick( { 20, 300, 5000, 70000, 3000000 } );
   int n = (int) r.in( 1, 400 );
   for( int s = 0; s < n; s++ )
   {
      int k = (int) r.in( -3, lim );
      if( r.chance( 1, 3 ) ) k = (int) r.pick( { 2047, 2048, 2049, 8 * 256 * 32 - 1, 8 * 256 * 32, 7, 8, hi, hi + 1 } );
      if( k > lim + 1 ) k = lim;
      switch( (int) r.in( 0, 5 ) )
      {
         case 0:
         case 1:
         case 2:
         {
            bool v = r.chance( 2, 3 );
            b.SetBit( k, v );
            if( k >= 0 )
            {
               if( v ) m.insert( k ), hi = std::max( hi, k );
               else
                  m.erase( k );
            }
            break;
         }
         case 3:
            b.SetHighIndex( k );
            hi = std::max( hi, k );
            break;
         default: CK( b.GetBit( k ) == ( m.count( k ) > 0 ), "bits-get", "bit differs", std::to_string( k ) );
      }
      CK( b.GetHighIndex() == hi, "bits-high", "highest index differs", std::to_string( b.GetHighIndex() ) + " " + std::to_string( hi ) );
   }
   size_t seen = 0;
   for( int i = -2; i <= std::min( hi + 20, 200000 ); i++ )
   {
      CK( b.GetBit( i ) == ( m.count( i ) > 0 ), "bits-all", "bit differs", std::to_string( i ) );
      seen += b.GetBit( i );
   }
   for( int i: m ) CK( b.GetBit( i ), "bits-lost", "bit lost", std::to_string( i ) );
   count( "bits_seen", (int64_t) seen );
   count( "container_ops", n );
}
struct QS : gmsobj::TQuickSortClass {
   std::vector<std::pair<int, int>> v;
   bool bad = false;
   void Exchange( int a, int b ) override
   {
      int B = OneBased ? 1 : 0;
      a -= B, b -= B;
      if( a < 0 || b < 0 || a >= (int) v.size() || b >= (int) v.size() ) bad = true;
      else
         std::swap( v[(size_t) a], v[(size_t) b] );
   }
   int Compare( int a, int b ) override
   {
      int B = OneBased ? 1 : 0;
      a -= B, b -= B;
      if( a < 0 || b < 0 || a >= (int) v.size() || b >= (int) v.size() ) { bad = true; return 0; }
      return v[(size_t) a].first < v[(size_t) b].first ? -1 : v[(size_t) a].first > v[(size_t) b].first;
   }
};
void doQuick( Rng &r )
{
   count( "quicksort" );
   QS q;
   q.OneBased = r.chance( 1, 2 );
   int n = (int) r.in( 0, r.chance( 1, 6 ) ? 2000 : 40 ), range = (int) r.pick( { 1, 2, 5, 1000, 1000000 } ), kind = (int) r.in( 0, 4 );
   for( int i = 0; i < n; i++ ) q.v.emplace_back( kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? std::min( i, n - i ) : (int) r.in( -range, range ), i );
   auto m = q.v;
   std::sort( m.begin(), m.end() );
   q.SortN( n );
   CK( !q.bad, "sort-bounds", "sorting looks outside the list", std::to_string( n ) );
   for( size_t i = 1; i < q.v.size(); i++ ) CK( q.v[i - 1].first <= q.v[i].first, "sort-order", "list is not sorted", std::to_string( n ) );
   std::sort( q.v.begin(), q.v.end() );
   CK( q.v == m, "sort-conserve", "sorting changed the items", std::to_string( n ) );
   count( "container_ops", n );
}
// sorted order used by the string lists: case insensitive
bool lessU( const Str &a, const Str &b )
{
   Str x = upper( a ), y = upper( b );
   return x < y;
}
struct Named {
   Str s;
   int *p;
};
void doCustom( Rng &r )
{
   count( "stringlist" );
   gmsobj::TXCustomStringList<int> l;
   l.OneBased = r.chance( 1, 2 );
   const int B = l.OneBased ? 1 : 0;
   std::vector<Named> m;
   static int pool[20];
   int n = (int) r.in( 1, 100 );
   for( int s = 0; s < n; s++ )
   {
      Str x = !m.empty() && r.chance( 1, 3 ) ? m[anyIdx( r, m )].s : genStr( r, 300 );
      int *p = r.chance( 1, 4 ) ? nullptr : &pool[r.in( 0, 19 )];
      switch( (int) r.in( 0, 10 ) )
      {
         case 0:
         case 1:
            CK( l.AddObject( x.c_str(), x.size(), p ) == (int) m.size() + B, "slist-add", "AddObject gives another position", "" );
            m.push_back( { x, p } );
            break;
         case 2:
            CK( l.Add( x.c_str(), x.size() ) == (int) m.size() + B, "slist-add", "Add gives another position", "" );
            m.push_back( { x, nullptr } );
            break;
         case 3:
         case 4:
         {
            int at = (int) r.in( 0, (int64_t) m.size() );
            l.InsertItem( at + B, x.c_str(), x.size(), p );
            m.insert( m.begin() + at, { x, p } );
            break;
         }
         case 5:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               l.Delete( (int) at + B );
               m.erase( m.begin() + (long) at );
            }
            break;
         case 6:
            if( !m.empty() )
            {
               size_t a = anyIdx( r, m ), b = anyIdx( r, m );
               l.Exchange( (int) a + B, (int) b + B );
               std::swap( m[a], m[b] );
               int c = l.Compare( (int) a + B, (int) b + B ), e = lessU( m[a].s, m[b].s ) ? -1 : lessU( m[b].s, m[a].s ) ? 1 : 0;
               // bytes beyond ASCII may be ordered as signed or unsigned characters, only antisymmetry and equality are fixed
               CK( ( c == 0 ) == ( e == 0 ), "slist-compare", "Compare calls different strings equal or equal ones different", sane( m[a].s ) + " / " + sane( m[b].s ) );
               CK( ( c < 0 ) == ( l.Compare( (int) b + B, (int) a + B ) > 0 ), "slist-compare", "Compare is not antisymmetric", sane( m[a].s ) + " / " + sane( m[b].s ) );
            }
            break;
         case 7:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               l.PutObject( (int) at + B, p );
               m[at].p = p;
            }
            break;
         case 8:
            if( r.chance( 1, 3 ) )
            {
               l.SortN( l.Count() );
               std::multiset<std::pair<Str, int *>> a, b;
               for( auto &e: m ) a.insert( { e.s, e.p } );
               m.clear();
               for( int i = 0; i < l.Count(); i++ )
               {
                  m.push_back( { l.GetName( i + B ), l.GetObject( i + B ) } );
                  b.insert( { m.back().s, m.back().p } );
                  if( i ) CK( l.Compare( i - 1 + B, i + B ) <= 0, "slist-sorted", "list is not sorted", "" );
               }
               CK( a == b, "slist-sort-conserve", "sorting changed the entries", "" );
               count( "slist_sorts" );
            }
            else if( r.chance( 1, 4 ) )
               l.Clear(), m.clear();
            break;
         case 9: l.SetCapacity( (int) r.in( 0, 60 ) ); break;
         default:
         {
            int e = -1;
            for( size_t i = m.size(); i-- > 0; )
               if( same( m[i].s, x, false ) ) e = (int) i + B;
            CK( l.IndexOf( x.c_str() ) == e, "slist-indexof", "IndexOf differs", sane( x ) );
         }
      }
      CK( l.Count() == (int) m.size() && l.size() == (int) m.size(), "slist-count", "count differs", "" );
      for( size_t i = 0; i < m.size(); i++ )
      {
         CK( l.GetName( (int) i + B ) == m[i].s && l.GetString( (int) i + B ) == m[i].s && l[(int) i + B] == m[i].s, "slist-items", "string differs", sane( m[i].s ) );
         CK( l.GetObject( (int) i + B ) == m[i].p && *l.GetObjectAddr( (int) i + B ) == m[i].p, "slist-objects", "object differs", sane( m[i].s ) );
      }
   }
   count( "container_ops", n );
}
template<class L>
void doHashed( Rng &r, const char *what )
{
   count( what );
   L l;
   l.OneBased = r.chance( 1, 2 );
   const int B = l.OneBased ? 1 : 0;
   std::vector<Named> m;
   std::map<Str, int> at;
   static int pool[20];
   bool large = r.chance( 1, 60 );
   int n = large ? (int) r.in( 131000, 140000 ) : (int) r.in( 1, 300 );
   for( int s = 0; s < n; s++ )
   {
      Str x = large ? "k" + std::to_string( s ) : !m.empty() && r.chance( 1, 3 ) ? m[anyIdx( r, m )].s
                                                                               : genStr( r, 300 );
      int *p = r.chance( 1, 4 ) ? nullptr : &pool[r.in( 0, 19 )];
      if( !large && r.chance( 1, 60 ) )
      {
         l.Clear();
         m.clear();
         at.clear();
      }
      bool obj = r.chance( 1, 2 );
      if( !obj ) p = nullptr;
      int k = obj ? l.AddObject( x.c_str(), x.size(), p ) : l.Add( x.c_str(), x.size() );
      auto it = at.find( x );
      if( it == at.end() )
      {
         CK( k == (int) m.size() + B, "hashed-add", "new string gets another position", sane( x ) + " " + std::to_string( k ) );
         at[x] = (int) m.size();
         m.push_back( { x, p } );
      }
      else
      {
         CK( k == it->second + B, "hashed-find", "known string gets another position", sane( x ) + " " + std::to_string( k ) );
         count( "hashed_hits" );
      }
      CK( l.Count() == (int) m.size(), "hashed-count", "count differs", "" );
   }
   for( size_t i = 0; i < m.size(); i++ )
   {
      CK( l.GetName( (int) i + B ) == m[i].s && l[(int) i + B] == m[i].s && l.GetObject( (int) i + B ) == m[i].p, "hashed-items", "entry differs", sane( m[i].s ) );
      if( i < 2000 || i % 100 == 0 ) CK( l.Add( m[i].s.c_str(), m[i].s.size() ) == (int) i + B, "hashed-all", "string is no longer found", sane( m[i].s ) );
   }
   for( int q = 0; q < 10 && !m.empty(); q++ )
   {
      size_t i = anyIdx( r, m ), e = 0;
      while( !same( m[e].s, m[i].s, false ) ) e++;
      if( !large || i < 5000 ) CK( l.IndexOf( m[i].s.c_str() ) == (int) e + B, "hashed-indexof", "IndexOf differs", sane( m[i].s ) );
   }
   if( !large )
   {
      // sorting ends the use as a hash list, but must give a sorted list
      std::multiset<Str> a, b;
      for( auto &e: m ) a.insert( e.s );
      l.SortN( l.Count() );
      for( int i = 0; i < l.Count(); i++ )
      {
         b.insert( l.GetName( i + B ) );
         if( i ) CK( l.Compare( i - 1 + B, i + B ) <= 0, "hashed-sorted", "list is not sorted", "" );
      }
      CK( a == b, "hashed-sort-conserve", "sorting changed the entries", "" );
      for( int i = 0; i + 1 < l.Count(); i++ )
      {
         int c1 = l.Compare( i + B, i + 1 + B ), c2 = l.Compare( i + 1 + B, i + B );
         CK( ( c1 < 0 ) == ( c2 > 0 ) && ( c1 == 0 ) == ( c2 == 0 ), "hashed-compare", "Compare is not antisymmetric", sane( l.GetName( i + B ) ) + " / " + sane( l.GetName( i + 1 + B ) ) );
      }
   }
   count( "container_ops", n );
   if( large ) count( "hashed_large" );
}
void doSorted( Rng &r )
{
   count( "sortedlist" );
   gmsobj::TXSortedStringList<int> l;
   l.OneBased = r.chance( 1, 3 );
   const int B = l.OneBased ? 1 : 0;
   std::multiset<std::pair<Str, int *>> m;
   std::vector<Str> keys;
   static int pool[20];
   int n = (int) r.in( 1, 120 ), upd = 0;
   auto sorted = [&]() {
      for( int i = 1; i < l.Count(); i++ )
         if( l.Compare( i - 1 + B, i + B ) > 0 ) return false;
      return true;
   };
   for( int s = 0; s < n; s++ )
   {
      Str x = !keys.empty() && r.chance( 1, 3 ) ? r.pick( keys ) : genStr( r );
      if( r.chance( 1, 4 ) ) x = r.chance( 1, 2 ) ? upper( x ) : x + "z";
      int *p = &pool[r.in( 0, 19 )];
      switch( (int) r.in( 0, 9 ) )
      {
         case 0:
         case 1:
         case 2:
         case 3:
         {
            int k = l.AddObject( x.c_str(), x.size(), p );
            CK( k >= B && k < l.Count() + B && l.GetName( k ) == x && l.GetObject( k ) == p, "sorted-add", "entry is not at the position returned", sane( x ) );
            m.insert( { x, p } );
            keys.push_back( x );
            break;
         }
         case 4:
            if( !upd && l.Count() )
            {
               int k = (int) r.in( B, l.Count() - 1 + B );
               m.erase( m.find( { l.GetName( k ), l.GetObject( k ) } ) );
               l.Delete( k );
            }
            break;
         case 5:
            l.BeginUpdate();
            upd++;
            break;
         case 6:
         case 7:
            if( upd )
            {
               l.EndUpdate();
               upd--;
               if( !upd ) CK( l.GetSorted(), "sorted-state", "not sorted after the update", "" );
            }
            else if( r.chance( 1, 2 ) )
               l.SetSorted( true );
            break;
         default:
         {
            bool in = false;
            for( auto &e: m ) in |= same( e.first, x, false );
            int k = l.IndexOf( x.c_str(), x.size() );
            CK( in == ( k >= B ), "sorted-indexof", "IndexOf finds what is not there or misses what is", sane( x ) );
            if( in ) CK( same( l.GetName( k ), x, false ), "sorted-indexof-which", "IndexOf leads to another string", sane( x ) );
            if( !upd )
            {
               int at = -7;
               bool f = l.Find( x.c_str(), x.size(), at );
               CK( f == in && at >= B && at <= l.Count() + B, "sorted-find", "Find differs", sane( x ) );
               if( f ) CK( same( l.GetName( at ), x, false ), "sorted-find-which", "Find leads to another string", sane( x ) );
            }
            count( "sorted_lookups" );
         }
      }
      CK( l.Count() == (int) m.size(), "sorted-count", "count differs", "" );
      if( !upd ) CK( sorted(), "sorted-order", "list is not sorted", "" );
      std::multiset<std::pair<Str, int *>> got;
      for( int i = B; i < l.Count() + B; i++ ) got.insert( { l.GetName( i ), l.GetObject( i ) } );
      CK( got == m, "sorted-items", "entries differ", "" );
   }
   count( "container_ops", n );
}
// --- hash lists
template<class Base>
struct HLx : Base {
   void doSort() { this->Sort(); }
   char *at( int i ) { return this->GetSortedString( i ); }
   int cmp( const char *a, const char *b ) { return this->Compare( a, b ); }
};
template<class L>
void doHashList( Rng &r, bool cs, const char *what )
{
   count( what );
   HLx<L> l;
   l.OneBased = r.chance( 1, 2 );
   const int B = l.OneBased ? 1 : 0;
   struct E {
      Str s;
      int o;
   };
   std::vector<E> m;
   bool large = r.chance( 1, 40 );
   int n = large ? (int) r.pick( { 1499, 1500, 1501, 1600, 15100, 16000 } ) : (int) r.in( 1, 150 );
   auto find = [&]( const Str &x ) {
      std::vector<int> f;
      for( size_t i = 0; i < m.size(); i++ )
         if( same( m[i].s, x, cs ) ) f.push_back( (int) i + B );
      return f;
   };
   auto isIn = []( const std::vector<int> &f, int k ) { return std::find( f.begin(), f.end(), k ) != f.end(); };
   for( int s = 0; s < n; s++ )
   {
      Str x = large ? "k" + std::to_string( s ) : !m.empty() && r.chance( 1, 3 ) ? m[anyIdx( r, m )].s
                                                                               : genStr( r, 255 );
      if( !large && r.chance( 1, 6 ) ) x = upper( x );
      int o = (int) r.in( 0, 100 );
      int op = large ? 0 : (int) r.in( 0, 13 );
      if( large && r.chance( 1, 500 ) ) op = (int) r.pick( { 3, 6, 9 } );
      switch( op )
      {
         case 0:
         case 1:
         case 2:
         {
            auto f = large && op == 0 ? std::vector<int>() : find( x );
            int k = r.chance( 1, 3 ) && !large ? ( o = 0, l.Add( x.c_str(), x.size() ) ) : l.AddObject( x.c_str(), x.size(), o );
            if( f.empty() )
            {
               CK( k == (int) m.size() + B, "hash-add", "new string gets another number", sane( x ) + " " + std::to_string( k ) );
               m.push_back( { x, o } );
            }
            else
               CK( isIn( f, k ), "hash-add-known", "known string gets another number", sane( x ) + " " + std::to_string( k ) );
            break;
         }
         case 3:
         case 4:
         {
            int k = l.StoreObject( x.c_str(), x.size(), o );
            CK( k == (int) m.size() + B, "hash-store", "stored string gets another number", "" );
            m.push_back( { x, o } );
            break;
         }
         case 5:
         case 6:
         case 7:
         {
            auto f = find( x );
            int k = l.IndexOf( x.c_str() );
            CK( f.empty() ? k == -1 : isIn( f, k ), "hash-indexof", "lookup differs", sane( x ) + " " + std::to_string( k ) );
            count( f.empty() ? "hash_misses" : "hash_hits" );
            break;
         }
         case 8:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               l.RenameEntry( (int) at + B, x.c_str() );
               m[at].s = x;
               count( "hash_renames" );
            }
            break;
         case 9:
         {
            l.doSort();
            std::vector<Str> a, b;
            for( int i = 0; i < (int) m.size(); i++ )
            {
               a.push_back( l.at( i + B ) );
               b.push_back( m[(size_t) i].s );
               if( i ) CK( l.cmp( a[(size_t) i - 1].c_str(), a[(size_t) i].c_str() ) <= 0, "hash-sorted", "sorted view is not sorted", sane( a.back() ) );
            }
            std::sort( a.begin(), a.end() );
            std::sort( b.begin(), b.end() );
            CK( a == b, "hash-sort-conserve", "sorted view has other strings", "" );
            count( "hash_sorts" );
            break;
         }
         case 10:
            if( r.chance( 1, 6 ) ) l.Clear(), m.clear();
            break;
         case 11:
            if( r.chance( 1, 2 ) ) l.SetCapacity( (int) r.in( 0, 4000 ), r.chance( 1, 2 ) ? 0 : (size_t) r.in( 1, 100000 ) );
            break;
         case 12:
            if( !m.empty() )
            {
               size_t at = anyIdx( r, m );
               *l.GetObject( (int) at + B ) = o;
               m[at].o = o;
            }
            break;
         default:
         {
            Str f = "hl.bin";
            {
               gmsstrm::TXFileStream st( f, gmsstrm::FileAccessMode::fmCreate );
               l.SaveToStream( st );
            }
            HLx<L> l2;
            l2.OneBased = l.OneBased;
            l2.Add( "before", 6 );
            {
               gmsstrm::TXFileStream st( f, gmsstrm::FileAccessMode::fmOpenRead );
               l2.LoadFromStream( st );
            }
            unlink( f.c_str() );
            CK( l2.Count() == (int) m.size(), "hash-load-count", "list read back has another count", "" );
            for( size_t i = 0; i < m.size(); i++ ) CK( l2.GetString( (int) i + B ) == m[i].s, "hash-load", "list read back has other strings", sane( m[i].s ) );
            count( "hash_saves" );
         }
      }
      CK( l.Count() == (int) m.size() && l.size() == (int) m.size() && l.empty() == m.empty(), "hash-count", "count differs", "" );
      if( !large || s % 1000 == 0 )
         for( size_t i = 0; i < m.size(); i++ )
         {
            CK( l.GetString( (int) i + B ) == m[i].s && l.GetName( (int) i + B ) == m[i].s && l.GetStringLength( (int) i + B ) == (int) m[i].s.size(), "hash-items", "string differs", sane( m[i].s ) + " is " + sane( l.GetString( (int) i + B ) ) );
            CK( *l.GetObject( (int) i + B ) == m[i].o && *l[(int) i + B] == m[i].o, "hash-objects", "object differs", sane( m[i].s ) );
         }
   }
   for( size_t i = 0; i < m.size(); i += large ? 7 : 1 )
   {
      auto f = large && m.size() > 3000 ? std::vector<int> { (int) i + B } : find( m[i].s );
      int k = l.IndexOf( m[i].s.c_str() );
      CK( isIn( f, k ) || ( large && same( m[(size_t) ( k - B )].s, m[i].s, cs ) ), "hash-all", "string is no longer found", sane( m[i].s ) );
   }
   if( large ) count( "hash_large" );
   count( "container_ops", n );
}
void doLinked( Rng &r )
{
   count( "records" );
   int dim = (int) ( r.chance( 1, 8 ) ? 0 : r.chance( 1, 6 ) ? 20 : r.in( 1, 5 ) ), nv = (int) r.in( 1, 5 );
   datastorage::TLinkedData<int, double> ld( dim, nv * (int) sizeof( double ) );
   using Rec = std::pair<std::vector<int>, std::vector<double>>;
   std::vector<Rec> m;// in the order kept by the store
   int lo = (int) r.pick( { 0, 1, 5, -4 } ), range = (int) r.pick( { 1, 3, 10, 5000 } );
   int n = (int) r.in( 1, 60 );
   std::vector<int> map( (size_t) dim );
   for( int i = 0; i < dim; i++ ) map[(size_t) i] = i;
   bool useMap = r.chance( 1, 4 );
   if( useMap ) r.shuffle( map );
   for( int s = 0; s < n; s++ )
   {
      int op = (int) r.in( 0, 9 );
      if( op < 8 )
      {
         Rec x;
         x.first.reserve( (size_t) dim + 1 );
         for( int d = 0; d < dim; d++ ) x.first.push_back( (int) r.in( lo, lo + range ) );
         if( !m.empty() && r.chance( 1, 6 ) ) x.first = m[anyIdx( r, m )].first;
         for( int v = 0; v < nv; v++ ) x.second.push_back( (double) r.in( -1000, 1000 ) );
         bool none = r.chance( 1, 8 );
         ld.AddItem( x.first.data(), none ? nullptr : x.second.data() );
         if( none ) std::fill( x.second.begin(), x.second.end(), 0.0 );
         m.push_back( x );
      }
      else if( op == 8 )
      {
         auto it = ld.StartRead( useMap ? map.data() : nullptr );
         CK( it.has_value() == !m.empty(), "records-start", "reading starts without records or not at all", "" );
         std::stable_sort( m.begin(), m.end(), [&]( const Rec &a, const Rec &b ) {
            for( int d: map )
               if( a.first[(size_t) d] != b.first[(size_t) d] ) return a.first[(size_t) d] < b.first[(size_t) d];
            return false;
         } );
         std::vector<int> k( (size_t) dim + 1 );
         std::vector<double> v( (size_t) nv );
         size_t i = 0;
         if( it )
            while( ld.GetNextRecord( &*it, k.data(), v.data() ) )
            {
               CK( i < m.size(), "records-more", "more records than added", "" );
               CK( std::equal( m[i].first.begin(), m[i].first.end(), k.begin() ) && v == m[i].second, "records-order", "record differs from the sorted order", std::to_string( i ) );
               i++;
            }
         CK( i == m.size(), "records-fewer", "fewer records than added", std::to_string( i ) + " of " + std::to_string( m.size() ) );
         count( "record_reads", (int64_t) i );
      }
      else if( r.chance( 1, 5 ) )
         ld.Clear(), m.clear();
      CK( ld.Count() == (int) m.size(), "records-count", "number of records differs", "" );
   }
   count( "container_ops", n );
}
void doTable( Rng &r )
{
   count( "table" );
   int dim = (int) r.in( 0, r.chance( 1, 5 ) ? 20 : 4 ), nv = (int) r.in( 1, 5 );
   gmsdata::TTblGamsData<double> t( dim, nv * (int) sizeof( double ) );
   using Rec = std::pair<std::vector<int>, std::vector<double>>;
   std::vector<Rec> m;
   int n = (int) r.in( 1, 80 ), range = (int) r.pick( { 1, 4, 100000 } );
   auto get = [&]( int i ) {
      Rec x { std::vector<int>( (size_t) dim ), std::vector<double>( (size_t) nv ) };
      x.first.reserve( (size_t) dim + 1 );
      Rec y = x;
      y.first.reserve( (size_t) dim + 1 );
      t.GetRecord( i, x.first.data(), x.second.data() );
      t.GetKeys( i, y.first.data() );
      t.GetData( i, y.second.data() );
      CK( x == y && std::equal( x.second.begin(), x.second.end(), t.GetDataPtr( i ) ), "table-get", "GetRecord, GetKeys, GetData and GetDataPtr disagree", "" );
      return x;
   };
   for( int s = 0; s < n; s++ )
   {
      int op = (int) r.in( 0, 11 );
      if( op < 10 )
      {
         Rec x;
         x.first.reserve( (size_t) dim + 1 );
         for( int d = 0; d < dim; d++ ) x.first.push_back( (int) r.in( -range, range ) );
         if( !m.empty() && r.chance( 1, 6 ) ) x.first = m[anyIdx( r, m )].first;
         for( int v = 0; v < nv; v++ ) x.second.push_back( (double) r.in( -1000, 1000 ) );
         t.AddRecord( x.first.data(), x.second.data() );
         m.push_back( x );
      }
      else if( op == 10 )
      {
         t.Sort();
         std::vector<Rec> got;
         for( int i = 0; i < t.size(); i++ ) got.push_back( get( i ) );
         for( size_t i = 1; i < got.size(); i++ ) CK( got[i - 1].first <= got[i].first, "table-sorted", "table is not sorted", "" );
         auto a = got, b = m;
         std::sort( a.begin(), a.end() );
         std::sort( b.begin(), b.end() );
         CK( a == b, "table-conserve", "sorting changed the records", "" );
         m = got;
      }
      else if( r.chance( 1, 4 ) )
         t.Clear(), m.clear();
      CK( t.size() == (int) m.size() && t.GetCount() == (int) m.size() && t.empty() == m.empty() && t.GetDimension() == dim, "table-count", "count differs", "" );
      if( !m.empty() )
      {
         size_t i = anyIdx( r, m );
         CK( get( (int) i ) == m[i], "table-items", "record differs", std::to_string( i ) );
      }
   }
   for( size_t i = 0; i < m.size(); i++ ) CK( get( (int) i ) == m[i], "table-items", "record differs", std::to_string( i ) );
   count( "container_ops", n );
}
struct Item {
   char b[24];
};
void doGrow( Rng &r )
{
   count( "growarray" );
   if( r.chance( 1, 2 ) )
   {
      gmsdata::TXIntList l;
      std::vector<int> m;
      int n = (int) r.in( 1, r.chance( 1, 6 ) ? 20000 : 300 );
      for( int s = 0; s < n; s++ )
      {
         int v = (int) r.next();
         switch( (int) r.in( 0, 9 ) )
         {
            case 0:
               if( !m.empty() )
               {
                  size_t a = anyIdx( r, m ), b = anyIdx( r, m );
                  l.Exchange( (int) a, (int) b );
                  std::swap( m[a], m[b] );
               }
               break;
            case 1:
            {
               size_t at = (size_t) r.in( 0, (int64_t) m.size() + ( r.chance( 1, 10 ) ? 5000 : 3 ) );
               l[(int) at] = v;
               if( at >= m.size() ) m.resize( at + 1, 0 );
               m[at] = v;
               break;
            }
            case 2:
               if( r.chance( 1, 200 ) ) l.Clear(), m.clear();
               break;
            default:
               CK( l.Add( v ) == (int) m.size(), "ints-add", "Add gives another position", "" );
               m.push_back( v );
         }
         CK( l.size() == (int64_t) m.size() && l.GetCount() == (int64_t) m.size(), "ints-count", "count differs", "" );
      }
      const auto &c = l;
      for( size_t i = 0; i < m.size(); i++ ) CK( c[(int) i] == m[i] && *l.GetItemPtrIndexConst( (int) i ) == m[i], "ints-items", "item differs", std::to_string( i ) );
      count( "container_ops", n );
      return;
   }
   int sz = (int) r.pick( { 1, 3, 24, 23, 1000, 16384, 8192 } );
   gmsdata::TGrowArrayFxd<uint8_t> g( sz );
   std::vector<Str> m;
   std::vector<uint8_t *> ptr;
   int n = (int) r.in( 1, sz > 500 ? 100 : 2000 );
   for( int s = 0; s < n; s++ )
   {
      Str x( (size_t) sz, (char) r.in( 0, 255 ) );
      x[0] = (char) s;
      x.back() = (char) ( s >> 3 );
      if( r.chance( 1, 3 ) )
      {
         uint8_t *p = r.chance( 1, 2 ) ? g.ReserveMem() : g.ReserveAndClear();
         memcpy( p, x.data(), (size_t) sz );
         ptr.push_back( p );
      }
      else if( r.chance( 1, 10 ) )
      {
         ptr.push_back( g.ReserveAndClear() );
         x.assign( (size_t) sz, '\0' );
      }
      else
         ptr.push_back( g.AddItem( (const uint8_t *) x.data() ) );
      m.push_back( x );
      CK( g.size() == (int64_t) m.size(), "grow-count", "count differs", "" );
      if( r.chance( 1, 700 ) ) g.Clear(), m.clear(), ptr.clear();
   }
   for( size_t i = 0; i < m.size(); i++ )
      CK( !memcmp( g[(int) i], m[i].data(), (size_t) sz ) && g[(int) i] == ptr[i] && g.GetItemPtrIndex( (int) i ) == ptr[i], "grow-items", "item differs or moved", std::to_string( i ) );
   count( "container_ops", n );
}
template<size_t N, int A>
void doBatch( Rng &r )
{
   count( "allocator" );
   batchalloc::BatchAllocator<N, A> b;
   struct Blk {
      uint8_t *p;
      size_t n;
      uint8_t v;
   };
   std::vector<Blk> m;
   int n = (int) r.in( 1, 200 );
   auto all = [&]() {
      for( auto &x: m )
         for( size_t i = 0; i < x.n; i++ ) CK( x.p[i] == x.v, "alloc-overlap", "memory handed out was changed", "" );
   };
   for( int s = 0; s < n; s++ )
   {
      if( r.chance( 1, 12 ) ) b.SetFirstBatchSize( (size_t) r.in( 0, (int64_t) ( 5 * N ) ) );
      if( r.chance( 1, 60 ) )
      {
         all();
         b.clear();
         m.clear();
      }
      size_t k = (size_t) ( r.chance( 1, 6 ) ? N : r.in( 1, r.chance( 1, 2 ) ? 40 : (int64_t) N ) );
      Blk x { b.GetBytes( k ), k, (uint8_t) r.in( 0, 255 ) };
      CK( ( (size_t) x.p ) % A == 0, "alloc-align", "memory handed out is not aligned", "" );
      memset( x.p, x.v, k );
      m.push_back( x );
   }
   all();
   count( "container_ops", n );
}
void doIntMap( Rng &r )
{
   count( "intmap" );
   gdx::TIntegerMapping im;
   std::map<int, int> m;
   int hi = 0, n = (int) r.in( 1, 200 ), lim = (int) r.pick( { 10, 1100, 5000, 3000000 } );
   for( int s = 0; s < n; s++ )
   {
      int k = (int) r.in( 0, lim );
      if( r.chance( 1, 6 ) ) k = std::min( lim, (int) r.pick( { 0, 1023, 1024, 1025, 2047, 2048, 1048575, 1048576 } ) );
      switch( (int) r.in( 0, 4 ) )
      {
         case 0:
         case 1:
         {
            int v = (int) r.in( -2, 1000000 );
            im.SetMapping( k, v );
            m[k] = v;
            hi = std::max( hi, k );
            break;
         }
         case 2:
            if( r.chance( 1, 30 ) ) im.reset(), m.clear(), hi = 0;
            break;
         default:
         {
            if( r.chance( 1, 6 ) ) k = (int) r.pick( { -1, -5, 2147483647, lim + 1, hi + 1 } );
            auto it = m.find( k );
            CK( im.GetMapping( k ) == ( it == m.end() ? -1 : it->second ), "map-get", "mapping differs", std::to_string( k ) );
         }
      }
      CK( im.GetHighestIndex() == hi && im.empty() == m.empty() && im.size() >= ( m.empty() ? 0 : hi + 1 ), "map-high", "highest index differs", "" );
   }
   for( auto &[k, v]: m ) CK( im.GetMapping( k ) == v, "map-all", "mapping lost", std::to_string( k ) );
   for( int i = 0; i < std::min( lim, 3000 ); i++ )
      if( !m.count( i ) ) CK( im.GetMapping( i ) == -1, "map-none", "mapping invented", std::to_string( i ) );
   count( "container_ops", n );
}
void doUel( Rng &r )
{
   count( "labels" );
   gdx::TUELTable t;
   struct E {
      Str s;
      int u;
   };
   std::vector<E> m;
   std::map<int, int> u2e;
   int hi = 0, n = (int) r.in( 1, 120 );
   auto find = [&]( const Str &x ) {
      for( size_t i = 0; i < m.size(); i++ )
         if( same( m[i].s, x, false ) ) return (int) i + 1;
      return -1;
   };
   auto add = [&]( const Str &x ) {
      int e = find( x );
      if( e < 0 ) m.push_back( { x, -1 } ), e = (int) m.size();
      return e;
   };
   auto setm = [&]( int e, int u ) {
      m[(size_t) e - 1].u = u;
      u2e[u] = e;
      hi = std::max( hi, u );
   };
   for( int s = 0; s < n; s++ )
   {
      Str x = !m.empty() && r.chance( 1, 3 ) ? m[anyIdx( r, m )].s : genStr( r );
      switch( (int) r.in( 0, 6 ) )
      {
         case 0:
         {
            int e = add( x );
            if( m[(size_t) e - 1].u < 0 ) setm( e, hi + 1 );
            CK( t.AddUsrNew( x.c_str(), x.size() ) == m[(size_t) e - 1].u, "label-new", "label gets another user number", sane( x ) );
            break;
         }
         case 1:
         {
            int u = (int) r.in( 1, 300 ), e = add( x ), w;
            if( m[(size_t) e - 1].u < 0 ) setm( e, u ), w = u;
            else
               w = m[(size_t) e - 1].u == u ? u : -1;
            CK( t.AddUsrIndxNew( x.c_str(), x.size(), u ) == w, "label-index", "label with a chosen number is answered differently", sane( x ) );
            break;
         }
         case 2:
            if( !m.empty() )
            {
               int e = (int) anyIdx( r, m ) + 1;
               if( m[(size_t) e - 1].u < 0 ) setm( e, hi + 1 );
               CK( t.NewUsrUel( e ) == m[(size_t) e - 1].u, "label-newusr", "entry gets another user number", "" );
            }
            break;
         case 3:
         {
            int e = find( x );
            bool isNew = e < 0;
            e = add( x );
            int k = t.AddObject( x.c_str(), x.size(), -1 );
            CK( k == e, "label-add", isNew ? "new label gets another entry" : "known label gets another entry", sane( x ) );
            break;
         }
         case 4:
            if( !m.empty() && find( x ) < 0 )
            {
               int e = (int) anyIdx( r, m ) + 1;
               t.RenameEntry( e, x.c_str() );
               m[(size_t) e - 1].s = x;
               count( "label_renames" );
            }
            break;
         default: CK( t.IndexOf( x.c_str() ) == find( x ), "label-indexof", "lookup differs", sane( x ) );
      }
      CK( t.size() == (int) m.size() && t.empty() == m.empty(), "label-count", "number of labels differs", "" );
      size_t ml = 0;
      for( size_t i = 0; i < m.size(); i++ )
      {
         ml = std::max( ml, m[i].s.size() );
         CK( t[(int) i + 1] == m[i].s && t.GetUserMap( (int) i + 1 ) == m[i].u, "label-items", "label or its number differs", sane( m[i].s ) );
      }
      CK( t.GetMaxUELLength() == (int) ml, "label-maxlen", "longest label differs", "" );
      for( auto &[u, e]: u2e ) CK( t.UsrUel2Ent->GetMapping( u ) == e, "label-u2e", "user number leads to another entry", std::to_string( u ) );
   }
   count( "container_ops", n );
}
void doStrIndex( Rng &r )
{
   count( "strindex" );
   strindexbuf::TgdxStrIndex in;
   for( auto &s: in ) s = r.chance( 1, 2 ) ? genStr( r, 255 ) : Str( (size_t) r.in( 0, 255 ), 'q' );
   bool init = r.chance( 1, 2 );
   strindexbuf::StrIndexBuffers b( init ? &in : nullptr );
   if( !init )
      for( auto &s: in ) s.clear();
   int n = (int) r.in( 1, 60 );
   for( int s = 0; s < n; s++ )
   {
      int k = (int) r.in( 0, (int64_t) in.size() - 1 );
      switch( (int) r.in( 0, 3 ) )
      {
         case 0: b[k] = in[(size_t) k] = genStr( r, 255 ); break;
         case 1:
         {
            in[(size_t) k] = Str( (size_t) r.in( 0, 255 ), 'w' );
            strcpy( b.ptrs()[k], in[(size_t) k].c_str() );
            break;
         }
         case 2:
            if( r.chance( 1, 10 ) )
            {
               b.clear();
               for( auto &x: in ) x.clear();
            }
            break;
         default:;
      }
      for( size_t i = 0; i < in.size(); i++ )
      {
         auto q = b[(int) i];
         CK( q.str() == in[i] && (Str) q == in[i] && q == in[i] && q.empty() == in[i].empty() && q.c_str() == in[i] && b.cptrs()[i] == in[i], "strindex", "string of the index differs", std::to_string( i ) );
      }
      CK( b.front().str() == in[0], "strindex-front", "first string differs", "" );
   }
   // moving bytes
   for( int q = 0; q < 5; q++ )
   {
      size_t k = (size_t) r.in( 0, 100 );
      Str a( k, 'x' ), d( k, 'y' );
      for( auto &c: a ) c = (char) r.in( 0, 255 );
      gmsobj::CMove( a.data(), d.data(), (int) k );
      CK( a == d, "cmove", "bytes differ", std::to_string( k ) );
   }
   count( "container_ops", n );
}
}// namespace
void runCase( u64, Rng &r )
{
   switch( (int) r.in( 0, 18 ) )
   {
      case 0: doList( r ); break;
      case 1: doStrings( r ); break;
      case 2: doBits( r ); break;
      case 3: doQuick( r ); break;
      case 4:
      case 5: doCustom( r ); break;
      case 6: doHashed<gmsobj::TXHashedStringList<int>>( r, "hashed" ); break;
      case 7: doHashed<gmsobj::TXStrPool<int>>( r, "strpool" ); break;
      case 8:
      case 9: doSorted( r ); break;
      case 10:
      case 11: doHashList<strhash::TXStrHashList<int>>( r, false, "hashlist" ); break;
      case 12: doHashList<strhash::TXCSStrHashList<int>>( r, true, "cshashlist" ); break;
      case 13: doLinked( r ); break;
      case 14: doTable( r ); break;
      case 15: doGrow( r ); break;
      case 16: r.chance( 1, 2 ) ? doBatch<960, 8>( r ) : doBatch<1024, 1>( r ); break;
      case 17: r.chance( 1, 2 ) ? doIntMap( r ) : doUel( r ); break;
      default: r.chance( 1, 3 ) ? doStrIndex( r ) : r.chance( 1, 2 ) ? doUel( r ) : doLinked( r );
   }
   nontrivial( r.s );
}
