// P04: label table: numbers, spelling, lookups, user mapping, renames, rejection
#include "core.hpp"
const char *MON_RULE = "a case performs a random history of label registrations (raw, string, mapped), bad labels, string writes, lookups and renames while writing and again while reading the reopened file, over populations from 1 to 200000 labels, comparing every return value with a model table; non-trivial = distinct history with at least two label operations of different kinds";
struct Tab {
   std::vector<Str> lab;               // [n-1]
   std::unordered_map<Str, int> idx;   // lower -> n
   std::unordered_map<int, int> u2n;   // user -> n (last)
   std::vector<int> n2u;
   int high = 0;
   int find( const Str &s ) const { auto i = idx.find( lower( trimR( s ) ) ); return i == idx.end() ? -1 : i->second; }
   int add( const Str &s )
   {
      int n = find( s );
      if( n > 0 ) return n;
      lab.push_back( trimR( s ) );
      n2u.push_back( -1 );
      n = (int) lab.size();
      idx[lower( trimR( s ) )] = n;
      return n;
   }
   void map( int n, int u ) { n2u[(size_t) n - 1] = u; u2n[u] = n; if( u > high ) high = u; }
};
static void checkOne( Gdx &g, const Tab &t, int n )
{
   char b[512];
   int m = -7, nr = -7;
   CHECK( gdxUMUelGet( g, n, b, &m ), "get", "label %d of %zu not found", n, t.lab.size() );
   CHECK( t.lab[(size_t) n - 1] == b, "spelling", "label %d is '%s', expected '%s'", n, b, t.lab[(size_t) n - 1].c_str() );
   CHECK( m == t.n2u[(size_t) n - 1], "usermap", "label %d '%s' has user number %d, expected %d", n, b, m, t.n2u[(size_t) n - 1] );
   CHECK( gdxUMFindUEL( g, b, &nr, &m ) && nr == n, "find", "label %d '%s' found as %d", n, b, nr );
   CHECK( m == t.n2u[(size_t) n - 1], "usermap", "find: label %d '%s' has user number %d, expected %d", n, b, m, t.n2u[(size_t) n - 1] );
}
static void checkUser( Gdx &g, const Tab &t, int u )
{
   char b[512] = "?";
   int ok = gdxGetUEL( g, u, b );
   auto it = t.u2n.find( u );
   CHECK( ( ok != 0 ) == ( it != t.u2n.end() ), "getuel", "user number %d: lookup returned %d", u, ok );
   if( ok ) CHECK( t.lab[(size_t) it->second - 1] == b, "getuel", "user number %d is '%s', expected '%s'", u, b, t.lab[(size_t) it->second - 1].c_str() );
   else CHECK( fmt( "?L__%d", u ) == b, "getuel", "unknown user number %d reported as '%s'", u, b );
}
static void checkInfo( Gdx &g, const Tab &t )
{
   int n = -1, h = -1, s, m;
   CHECK( gdxUMUelInfo( g, &n, &h ), "info", "gdxUMUelInfo failed" );
   CHECK( n == (int) t.lab.size() && h == t.high, "info", "%d labels, highest user number %d; expected %zu and %d", n, h, t.lab.size(), t.high );
   CHECK( gdxSystemInfo( g, &s, &m ) && m == n, "info", "label counts differ" );
   char b[512];
   int x;
   for( int bad: { 0, -1, n + 1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() } )
      CHECK( !gdxUMUelGet( g, bad, b, &x ) && x == -1, "getbad", "label number %d outside 1..%d accepted", bad, n );
}
static void checkAll( Gdx &g, const Tab &t )
{
   checkInfo( g, t );
   for( int n = 1; n <= (int) t.lab.size(); n++ ) checkOne( g, t, n );
   int ml = 0;
   for( auto &l: t.lab ) ml = std::max( ml, (int) l.size() );
   CHECK( gdxUELMaxLength( g ) == ml, "maxlen", "longest label %d, reported %d", ml, gdxUELMaxLength( g ) );
   for( int u = 0; u <= std::min( t.high + 2, 3000 ); u++ ) checkUser( g, t, u );
   for( int u: { -1, t.high + 1, t.high + 5000 } ) checkUser( g, t, u );
   count( "labels_verified", t.lab.size() );
}
struct Pop {
   Rng &r;
   int style;
   int ctr = 0;
   explicit Pop( Rng &rr ) : r( rr ), style( (int) r.in( 0, 6 ) ) {}
   Str fresh()
   {
      static const char al[] = "abcxyzABCXYZ";
      int st = r.chance( 1, 30 ) ? (int) r.in( 0, 6 ) : style;
      Str s;
      switch( st )
      {
         case 0: return fmt( "i%d", ++ctr );
         case 1: for( int i = (int) r.in( 0, 4 ); i > 0; i-- ) s += al[r.in( 0, 11 )]; return s;
         case 2: for( int i = (int) r.in( 58, 63 ); i > 0; i-- ) s += (char) ( i < 4 ? al[r.in( 0, 11 )] : 'k' ); return s;
         case 3: for( int i = (int) r.in( 1, 6 ); i > 0; i-- ) s += (char) r.in( 128, 255 ); return s;
         case 4: for( int i = (int) r.in( 1, 12 ); i > 0; i-- ) { char c; do c = (char) r.in( 32, 127 ); while( c == '\'' ); s += c; } return trimR( s );
         case 5: s = Str( (size_t) r.in( 0, 4 ), ' ' ) + fmt( "l%d'", (int) r.in( 0, 50 ) ); return s;
         default: return fmt( "%x", (unsigned) ( ++ctr * 2654435761u ) );
      }
   }
   Str bad()
   {
      switch( r.in( 0, 5 ) )
      {
         case 0: return Str( 64, 'a' );
         case 1: return Str( (size_t) r.in( 65, 1000 ), 'b' ) + Str( (size_t) r.in( 0, 3 ), ' ' );
         case 2: return Str( "x'" ) + "\"y";
         case 3: return Str( "a\nb" );
         case 4: return Str( 63, 'q' ) + (char) r.in( 128, 255 );
         default: return Str( "\"" ) + fresh() + "'";
      }
   }
};
static Str deco( Rng &r, const Str &s )
{
   Str t = r.chance( 1, 3 ) ? flipCase( r, s ) : s;
   if( r.chance( 1, 6 ) ) for( int i = (int) r.in( 1, 3 ); i > 0; i-- ) t += r.pick( { ' ', '\t', '\r', '\n' } );
   return t;
}
static int g_errs;
static void session( Gdx &g, Tab &t, Pop &p, Rng &r, char mode, int nops )
{
   if( mode == 'R' ) CHECK( gdxUELRegisterRawStart( g ), "start", "raw registration refused" );
   if( mode == 'S' ) CHECK( gdxUELRegisterStrStart( g ), "start", "string registration refused" );
   if( mode == 'M' ) CHECK( gdxUELRegisterMapStart( g ), "start", "mapped registration refused" );
   for( int i = 0; i < nops; i++ )
   {
      int op = (int) r.in( 0, 19 );
      bool isBad = op == 0;
      Str l = isBad ? p.bad() : op < 6 && !t.lab.empty() ? deco( r, r.pick( t.lab ) ) : deco( r, p.fresh() );
      if( !goodUel( trimR( l ) ) ) isBad = true;
      int rc, nr = -77, ex = -1;
      if( mode == 'R' ) rc = gdxUELRegisterRaw( g, l.c_str() );
      else if( mode == 'S' ) rc = gdxUELRegisterStr( g, l.c_str(), &nr );
      else
      {
         int n = t.find( l );
         int u = n > 0 && t.n2u[(size_t) n - 1] >= 0 && !r.chance( 1, 5 ) ? t.n2u[(size_t) n - 1] : r.chance( 1, 40 ) ? (int) r.in( 0, 200000 ) : t.high + (int) r.in( 1, 3 );
         if( r.chance( 1, 10 ) ) u = (int) r.in( 0, t.high + 1 );
         if( r.chance( 1, 60 ) ) u = (int) r.pick( { -1, -2, -1000000, std::numeric_limits<int>::min() } );
         ex = u;
         rc = gdxUELRegisterMap( g, u, l.c_str() );
      }
      if( isBad )
      {
         CHECK( !rc, "badlabel", "invalid label of length %zu accepted", l.size() );
         int e = gdxGetLastError( g );
         CHECK( e == -100017, "badlabel", "error %d for an invalid label", e );
         g_errs++;
         CHECK( gdxErrorCount( g ) == g_errs, "errcount", "error count %d expected %d", gdxErrorCount( g ), g_errs );
         count( "bad_labels_refused" );
         continue;
      }
      if( mode == 'M' )
      {
         int before = t.find( l );
         if( ex < 0 )
         {
            CHECK( !rc, "badmap", "user number %d accepted", ex );
            gdxGetLastError( g );
            g_errs++;
            int nr2, m2;// a label first named by a refused mapping may or may not stay; it must have no user number
            if( gdxUMFindUEL( g, l.c_str(), &nr2, &m2 ) && before < 0 ) { CHECK( m2 == -1, "badmap", "refused mapping left user number %d", m2 ); t.add( l ); }
            continue;
         }
         int n = t.add( l );
         int have = t.n2u[(size_t) n - 1];
         if( have >= 0 && have != ex )
         {
            CHECK( !rc, "conflict", "label '%s' has user number %d and accepted %d", l.c_str(), have, ex );
            int e = gdxGetLastError( g );
            CHECK( e == -100013, "conflict", "error %d for a conflicting user number", e );
            g_errs++;
            count( "conflicts_refused" );
         }
         else
         {
            CHECK( rc, "mapreg", "label '%s' with user number %d refused (known %d)", l.c_str(), ex, before );
            if( have < 0 ) t.map( n, ex );
         }
         checkOne( g, t, n );
         continue;
      }
      CHECK( rc, "reg", "label '%s' refused in mode %c", l.c_str(), mode );
      int n = t.add( l );
      if( mode == 'S' )
      {
         if( t.n2u[(size_t) n - 1] < 0 ) t.map( n, t.high + 1 );
         CHECK( nr == t.n2u[(size_t) n - 1], "regnr", "label '%s' got user number %d, expected %d", l.c_str(), nr, t.n2u[(size_t) n - 1] );
      }
      if( r.chance( 1, 8 ) ) checkOne( g, t, (int) r.in( 1, (int64_t) t.lab.size() ) );
      if( r.chance( 1, 20 ) ) checkUser( g, t, (int) r.in( -2, t.high + 3 ) );
      if( r.chance( 1, 20 ) )
      {
         Str q = deco( r, p.fresh() );
         int a = -7, b = -7, rr = gdxUMFindUEL( g, q.c_str(), &a, &b ), x = t.find( q );
         CHECK( ( rr != 0 ) == ( x > 0 ) && a == x, "find", "lookup of '%s' gave %d/%d, expected %d", q.c_str(), rr, a, x );
      }
   }
   CHECK( gdxUELRegisterDone( g ), "done", "registration end refused" );
   checkInfo( g, t );
   count( "label_operations", (u64) nops );
}
static void renames( Gdx &g, Tab &t, Pop &p, Rng &r, int k )
{
   for( int i = 0; i < k; i++ )
   {
      Str o = t.lab.empty() || r.chance( 1, 6 ) ? p.fresh() : r.pick( t.lab );
      Str n = r.chance( 1, 8 ) ? p.bad() : !t.lab.empty() && r.chance( 1, 5 ) ? r.pick( t.lab ) : p.fresh();
      Str od = deco( r, o ), nd = deco( r, n );
      if( r.chance( 1, 40 ) ) od = Str( 400, 'z' ) + " ";
      int ex;
      int on = t.find( od );
      if( !goodUel( trimR( nd ) ) ) ex = -100017;
      else if( on < 0 ) ex = 2;
      else if( t.find( nd ) > 0 ) ex = 3;
      else ex = 0;
      int rc = gdxRenameUEL( g, od.c_str(), nd.c_str() );
      CHECK( rc == ex, "rename", "rename of '%s' to '%s' returned %d, expected %d", od.c_str(), nd.c_str(), rc, ex );
      if( !ex )
      {
         t.idx.erase( lower( t.lab[(size_t) on - 1] ) );
         t.lab[(size_t) on - 1] = trimR( nd );
         t.idx[lower( trimR( nd ) )] = on;
         checkOne( g, t, on );
         int a = -7, b = -7;
         CHECK( !gdxUMFindUEL( g, od.c_str(), &a, &b ) && a == -1, "rename", "old label still found after rename" );
         count( "renames" );
      }
      else count( "renames_refused" );
   }
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "lab.gdx" );
   g_errs = 0;
   Tab t;
   Pop p( r );
   int big = idx % 4000 == 1993 ? 3 : idx % 397 == 5 ? 2 : idx % 29 == 3 ? 1 : 0;
   u64 h = idx;
   {
      Gdx g;
      int err;
      CHECK( gdxOpenWriteEx( g, path.c_str(), "x", (int) r.in( 0, 1 ), &err ), "open", "open %d", err );
      gdxAutoConvert( g, 0 );
      if( big ) { p.style = 6; session( g, t, p, r, r.pick( { 'R', 'S', 'M' } ), big == 3 ? 1560000 : big == 2 ? 240000 : (int) r.in( 1500, 24000 ) ); p.style = (int) r.in( 0, 6 ); }
      int k = (int) r.in( 1, 8 );
      int sy = 0;
      for( int i = 0; i < k; i++ )
      {
         int op = (int) r.in( 0, 5 );
         h = h * 31 + (u64) op;
         if( op < 3 ) session( g, t, p, r, "RSM"[op], (int) r.in( 0, 60 ) );
         else if( op == 3 ) renames( g, t, p, r, (int) r.in( 1, 10 ) );
         else if( op == 4 )
         {
            CHECK( gdxDataWriteStrStart( g, fmt( "s%d", ++sy ).c_str(), "", 2, T_SET, 0 ), "wstart", "start refused" );
            double v[5] {};
            int m = (int) r.in( 0, 40 );
            Str last[2];
            for( int j = 0; j < m; j++ )
            {
               Str a[2];
               const char *kp[2];
               bool ok = true;
               for( int d = 0; d < 2; d++ )
               {
                  a[d] = j && r.chance( 1, 3 ) ? last[d] : r.chance( 1, 30 ) ? p.bad() : !t.lab.empty() && r.chance( 1, 2 ) ? deco( r, r.pick( t.lab ) ) : deco( r, p.fresh() );
                  kp[d] = a[d].c_str();
                  if( ok && goodUel( trimR( a[d] ) ) ) t.add( a[d] ), last[d] = a[d];
                  else ok = false, last[d] = a[d];
               }
               int rc = gdxDataWriteStr( g, kp, v );
               CHECK( ( rc != 0 ) == ok, "wstr", "record with labels '%s','%s' returned %d", kp[0], kp[1], rc );
               if( !ok ) { CHECK( gdxGetLastError( g ) == -100017, "wstr", "wrong error" ); g_errs++; }
               if( r.chance( 1, 25 ) ) renames( g, t, p, r, 1 );
            }
            CHECK( gdxDataWriteDone( g ), "wdone", "done refused" );
            g_errs = gdxErrorCount( g );// duplicates are judged by P03
            gdxGetLastError( g );
         }
         else for( int j = 0; j < 10 && !t.lab.empty(); j++ ) checkOne( g, t, (int) r.in( 1, (int64_t) t.lab.size() ) );
         if( !big ) checkAll( g, t );
      }
      checkAll( g, t );
      CHECK( gdxClose( g ) == 0, "close", "close failed" );
   }
   for( auto &u: t.n2u ) u = -1;
   t.u2n.clear();
   t.high = 0;
   {
      Gdx g;
      int err;
      CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "reopen", "cannot reopen: %d", err );
      g_errs = 0;
      checkAll( g, t );
      int k = (int) r.in( 0, 4 );
      for( int i = 0; i < k; i++ )
      {
         int op = (int) r.in( 0, 2 );
         h = h * 31 + (u64) op;
         if( op < 2 ) session( g, t, p, r, "SM"[op], (int) r.in( 0, 60 ) );
         else renames( g, t, p, r, (int) r.in( 1, 10 ) );
      }
      checkAll( g, t );
      // the universe counts only labels of the file
      CHECK( gdxClose( g ) == 0, "close", "close failed" );
   }
   note( "population_size", t.lab.size() );
   nontrivial( h ^ t.lab.size() );
   if( idx < 3 ) sample( fmt( "case %llu: %zu labels, style %d", (unsigned long long) idx, t.lab.size(), p.style ) );
}
