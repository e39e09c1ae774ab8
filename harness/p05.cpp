// P05: mapped / filtered / expanding reads and domain element enumeration against a sequential model
#include "core.hpp"
const char *MON_RULE = "a case writes a file, registers a random partial (monotone, shuffled or gappy) user mapping and filters in a reader, and performs 3-10 mapped/filtered reads with random action vectors and domain enumerations (with a poisoned key buffer per call), comparing every record, key, value, count, error record and mapping with a model; non-trivial = distinct read that rejects or translates records";
struct M {
   std::vector<int> n2u;// [label]
   std::map<int, int> u2n;
   int high = 0;
   void set( int n, int u ) { n2u[(size_t) n] = u; u2n[u] = n; high = std::max( high, u ); }
};
struct Got { std::vector<std::pair<int, int>> v; };
static void GDX_CALLCONV domCb( int raw, int mapped, void *u ) { ( (Got *) u )->v.push_back( { raw, mapped } ); }
struct Exp { Rec r; };
static void sync( Gdx &g, M &m )
{
   char b[256];
   for( size_t n = 1; n < m.n2u.size(); n++ )
   {
      int u;
      CHECK( gdxUMUelGet( g, (int) n, b, &u ), "umget", "label %zu unreadable", n );
      if( m.n2u[n] >= 0 ) CHECK( u == m.n2u[n], "mapchanged", "user number of label %zu changed from %d to %d", n, m.n2u[n], u );
      else if( u >= 0 ) { CHECK( !m.u2n.count( u ), "mapdup", "user number %d given twice", u ); m.set( (int) n, u ); }
   }
}
static void checkMap( Gdx &g, const M &m )
{
   char b[256];
   int u, nc, hm;
   for( size_t n = 1; n < m.n2u.size(); n++ )
   {
      CHECK( gdxUMUelGet( g, (int) n, b, &u ), "umget", "label %zu unreadable", n );
      CHECK( u == m.n2u[n], "usermap", "label %zu has user number %d, expected %d", n, u, m.n2u[n] );
   }
   CHECK( gdxUMUelInfo( g, &nc, &hm ) && hm == m.high, "highmap", "highest user number %d, expected %d", hm, m.high );
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "map.gdx" );
   Content c;
   int nl = (int) r.pick( { 2, 4, 10, 40, 256, 400 } );
   bool outside = r.chance( 1, 12 );
   {
      Gdx w0;
      Writer w( w0, r );
      w.open( path, (int) r.in( 0, 1 ) );
      w.registerLabels( genLabels( r, nl ), 'R' );
      int ns = (int) r.in( 1, 4 );
      for( int i = 0; i < ns; i++ )
      {
         Sym s;
         s.name = fmt( "s%d", i );
         s.type = (int) r.in( 0, 3 );
         s.user = s.type == T_EQU ? 54 : 0;
         s.dim = (int) ( r.chance( 1, 8 ) ? r.in( 5, 20 ) : r.in( 0, 4 ) );
         int n = s.dim ? (int) ( r.chance( 1, 5 ) ? r.in( 200, 1500 ) : r.in( 0, 80 ) ) : 1;
         KeyShape sh = genShape( r, s.dim, nl );
         if( r.chance( 1, 2 ) ) for( int d = 0; d < s.dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = (int) r.in( 1, std::min( nl, s.dim > 2 ? 6 : 30 ) ); }
         std::vector<Rec> v = genKeys( r, s.dim, n, sh, (int) r.in( 0, 2 ) );
         for( auto &x: v ) for( int j = 0; j < nvals( s.type ); j++ ) x.v[j] = s.type == T_SET ? 0 : (double) r.in( -5, 100000 );
         w.writeSymbol( s, v, r.pick( { 'S', 'R' } ) );
         if( s.type == T_SET && r.chance( 1, 3 ) ) w.addAlias( s.name + "a", (int) w.c.syms.size() );
      }
      if( outside )
      {
         Sym s;
         s.name = "outside"; s.type = T_PAR; s.dim = 2;
         std::vector<Rec> v( 3 );
         v[0].k[0] = 1; v[0].k[1] = 1; v[1].k[0] = 1; v[1].k[1] = nl + (int) r.in( 1, 100000000 ); v[2].k[0] = nl + (int) r.in( 1, 3 ); v[2].k[1] = 1;
         if( r.chance( 1, 2 ) ) v[0].k[r.in( 0, 1 )] = 0;
         for( auto &x: v ) x.v[0] = 1;
         w.writeSymbol( s, v, 'R' );
      }
      w.close();
      c = w.c;
   }
   Gdx g;
   int err;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "open", "cannot open: %d", err );
   M m;
   m.n2u.assign( (size_t) nl + 1, -1 );
   auto registerSome = [&]( int style ) {
      if( style == 0 ) return;
      std::vector<int> labs;
      for( int n = 1; n <= nl; n++ )
         if( style == 1 || ( style == 2 && r.chance( 1, 2 ) ) || ( style == 3 && n <= nl / 2 ) || style == 4 || ( style == 5 && r.chance( 2, 3 ) ) || ( style == 6 && n > nl / 2 ) ) labs.push_back( n );
      if( style == 4 || style == 5 ) { if( r.chance( 1, 3 ) && labs.size() > 1 ) { size_t k = (size_t) r.in( 0, (int64_t) labs.size() - 2 ); std::swap( labs[k], labs[k + 1] ); } else if( r.chance( 1, 2 ) ) std::reverse( labs.begin(), labs.end() ); else r.shuffle( labs ); }
      bool str = r.chance( 1, 2 );
      CHECK( str ? gdxUELRegisterStrStart( g ) : gdxUELRegisterMapStart( g ), "regstart", "registration refused" );
      for( int n: labs )
      {
         const char *l = c.uels[(size_t) n - 1].c_str();
         if( str )
         {
            int u;
            CHECK( gdxUELRegisterStr( g, l, &u ), "reg", "registration refused" );
            if( m.n2u[(size_t) n] < 0 ) m.set( n, m.high + 1 );
            CHECK( u == m.n2u[(size_t) n], "reg", "got user number %d, expected %d", u, m.n2u[(size_t) n] );
         }
         else
         {
            int u = m.n2u[(size_t) n];
            if( u < 0 && !m.u2n.count( 0 ) && r.chance( 1, 10 ) ) u = 0;
            if( u < 0 ) u = m.high + ( r.chance( 1, 5 ) ? (int) r.in( 1, 40 ) : 1 );
            CHECK( gdxUELRegisterMap( g, u, l ), "reg", "mapping refused" );
            if( m.n2u[(size_t) n] < 0 ) m.set( n, u );
         }
      }
      CHECK( gdxUELRegisterDone( g ), "regdone", "refused" );
   };
   std::map<int, std::set<int>> filters;
   auto registerFilter = [&]( int nr ) {
      CHECK( gdxFilterRegisterStart( g, nr ), "fstart", "filter start refused" );
      std::set<int> f;
      for( auto &p: m.u2n )
         if( p.first >= 1 && r.chance( 1, 2 ) )
         {
            CHECK( gdxFilterRegister( g, p.first ), "freg", "filter element %d refused", p.first );
            f.insert( p.first );
         }
      for( int bad: { 0, -3, m.high + 1 } )
      {
         CHECK( !gdxFilterRegister( g, bad ), "fregbad", "filter element %d accepted, highest is %d", bad, m.high );
         gdxGetLastError( g );
      }
      int hole = (int) r.in( 1, std::max( 1, m.high ) );
      if( hole <= m.high && !m.u2n.count( hole ) ) { CHECK( !gdxFilterRegister( g, hole ), "fregbad", "filter element %d without label accepted", hole ); gdxGetLastError( g ); }
      CHECK( gdxFilterRegisterDone( g ), "fdone", "refused" );
      filters[nr] = f;
      CHECK( gdxFilterExists( g, nr ), "fexists", "filter %d not found", nr );
   };
   registerSome( (int) r.in( 0, 6 ) );
   int nops = (int) r.in( 3, 10 );
   u64 h = idx;
   bool nont = false;
   for( int op = 0; op < nops; op++ )
   {
      if( r.chance( 1, 5 ) ) registerSome( (int) r.in( 1, 6 ) );
      if( r.chance( 1, 2 ) ) registerFilter( (int) r.in( 1, 4 ) );
      CHECK( !gdxFilterExists( g, 99 ), "fexists", "filter 99 found" );
      int sy = (int) r.in( 0, (int64_t) c.syms.size() );
      int dim = sy ? c.syms[(size_t) sy - 1].dim : 1, type = sy ? c.syms[(size_t) sy - 1].type : T_SET;
      if( type == T_ALIAS ) type = T_SET;
      std::vector<Rec> uni;
      if( !sy ) for( int n = 1; n <= nl; n++ ) { Rec x {}; x.k[0] = n; uni.push_back( x ); }
      const std::vector<Rec> &src = sy ? c.syms[(size_t) sy - 1].recs : uni;
      bool isOut = outside && sy == (int) c.syms.size();
      if( dim && r.chance( 1, 4 ) )
      {// domain elements
         if( !sy ) continue;
         int pos = (int) r.in( 1, dim );
         int fn = filters.empty() || r.chance( 1, 2 ) ? -1 : (int) r.in( 1, 4 );
         bool withCb = r.chance( 2, 3 );
         Got got;
         int n = -1, rc = gdxGetDomainElements( g, sy, pos, fn, withCb ? domCb : nullptr, &n, &got );
         if( fn > 0 && !filters.count( fn ) ) { CHECK( !rc, "domfilter", "unknown filter %d accepted", fn ); gdxGetLastError( g ); continue; }
         if( isOut ) { for( auto &p: got.v ) CHECK( p.first <= nl, "domout", "label number %d outside the table enumerated", p.first ); gdxGetLastError( g ); sync( g, m ); continue; }
         CHECK( rc, "dom", "gdxGetDomainElements refused, error %d", gdxGetLastError( g ) );
         std::set<int> want;
         std::set<int> bad;
         for( auto &x: src ) ( fn < 0 || filters[fn].count( m.n2u[(size_t) x.k[pos - 1]] ) ? want : bad ).insert( x.k[pos - 1] );
         CHECK( n == (int) want.size(), "domcount", "symbol %d position %d: %d elements reported, %zu used", sy, pos, n, want.size() );
         CHECK( gdxDataErrorCount( g ) == (int) std::min<size_t>( 11, bad.size() ), "domerr", "%zu labels outside the filter, %d error records", bad.size(), gdxDataErrorCount( g ) );
         if( withCb )
         {
            std::vector<std::pair<int, int>> ex;
            for( int l: want ) { if( m.n2u[(size_t) l] < 0 ) m.set( l, m.high + 1 ); ex.push_back( { m.n2u[(size_t) l], l } ); }
            std::sort( ex.begin(), ex.end() );
            CHECK( got.v.size() == ex.size(), "domcb", "callback ran %zu times for %zu elements", got.v.size(), ex.size() );
            for( size_t i = 0; i < ex.size(); i++ )
               CHECK( got.v[i].first == ex[i].second && got.v[i].second == ex[i].first, "domcb", "element %zu reported as (%d,%d), expected (%d,%d)", i, got.v[i].first, got.v[i].second, ex[i].second, ex[i].first );
         }
         checkMap( g, m );
         count( "domain_enumerations" );
         count( "domain_elements", want.size() );
         continue;
      }
      int act[MAXD];
      bool viaMapStart = r.chance( 1, 3 );
      int homog = (int) r.in( 0, 6 );
      for( int d = 0; d < MAXD; d++ )
      {
         act[d] = viaMapStart ? 0 : homog == 0 ? 0 : homog == 1 ? -1 : homog == 2 ? -2 : filters.empty() ? (int) r.in( -2, 0 ) : (int) r.in( -2, 4 );
         if( act[d] > 0 && !filters.count( act[d] ) && !r.chance( 1, 60 ) ) act[d] = 0;
      }
      bool badFilter = false, expands = false, mappedPos = false;
      for( int d = 0; d < dim; d++ ) { if( act[d] > 0 && !filters.count( act[d] ) ) badFilter = true; if( act[d] == -1 ) expands = true; if( act[d] != -2 ) mappedPos = true; }
      int nr = -7;
      int rc = viaMapStart ? gdxDataReadMapStart( g, sy, &nr ) : gdxDataReadFilteredStart( g, sy, act, &nr );
      if( badFilter ) { CHECK( !rc, "badfilter", "unknown filter accepted" ); int e = gdxGetLastError( g ); CHECK( e == -100035 || e < 0, "badfilter", "error %d", e ); continue; }
      if( isOut )
      {// labels outside the table cannot be mapped: an error ends the read, nothing wrong is returned
         if( rc )
         {
            int k[MAXD]; double v[5]; int df, n = 0;
            while( n < 10 && gdxDataReadMap( g, ++n, k, v, &df ) )
               for( int d = 0; d < dim; d++ ) if( act[d] != -2 ) CHECK( m.u2n.count( k[d] ) || act[d] == -1, "outkey", "key %d returned for a label outside the table", k[d] );
            CHECK( n < 10, "outend", "read does not end" );
            gdxDataReadDone( g );
         }
         gdxGetLastError( g );
         sync( g, m );
         count( "outside_label_reads" );
         continue;
      }
      CHECK( rc, "start", "read start refused: error %d", gdxGetLastError( g ) );
      // model
      M m0 = m;
      std::vector<Rec> ex, rej;
      std::vector<std::vector<bool>> rejBad;
      std::vector<size_t> srcOf;
      for( auto &x: src )
      {
         std::vector<bool> bad( MAXD, false );
         bool any = false;
         Rec y = x;
         for( int d = 0; d < dim; d++ )
         {
            if( act[d] == -2 ) continue;
            int u = m.n2u[(size_t) x.k[d]];
            if( act[d] == 0 && u < 0 ) bad[(size_t) d] = any = true;
            if( act[d] > 0 && !( u >= 1 && filters[act[d]].count( u ) ) ) bad[(size_t) d] = any = true;
         }
         if( any ) { rej.push_back( x ); rejBad.push_back( bad ); continue; }
         for( int d = 0; d < dim; d++ )
         {
            if( act[d] == -2 ) continue;
            if( m.n2u[(size_t) x.k[d]] < 0 ) m.set( x.k[d], m.high + 1 );
            y.k[d] = m.n2u[(size_t) x.k[d]];
         }
         ex.push_back( y );
      }
      bool sortedAlready = true;
      for( size_t i = 1; i < ex.size(); i++ ) if( cmpKey( ex[i - 1], ex[i], dim ) > 0 ) sortedAlready = false;
      std::stable_sort( ex.begin(), ex.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
      CHECK( nr == (int) ex.size() || nr == (int) src.size(), "count", "announced %d records; %zu qualify out of %zu", nr, ex.size(), src.size() );
      if( rej.empty() ) CHECK( nr == (int) ex.size(), "count", "announced %d records, there are %zu", nr, ex.size() );
      bool abandon = r.chance( 1, 8 );
      size_t stop = abandon && !ex.empty() ? (size_t) r.in( 0, (int64_t) ex.size() - 1 ) : ~(size_t) 0;
      Rec prev {};
      size_t i = 0;
      for( ;; i++ )
      {
         if( i == stop ) break;
         Rec x {};
         for( int d = 0; d < MAXD; d++ ) x.k[d] = 777000 + d;
         int df = -9;
         if( !gdxDataReadMap( g, (int) i + 1, x.k, x.v, &df ) ) break;
         CHECK( i < ex.size(), "extra", "symbol %d: record %zu returned, only %zu qualify: %s", sy, i + 1, ex.size(), showRec( x, dim, type ).c_str() );
         bool same = cmpKey( x, ex[i], dim ) == 0;
         for( int v = 0; v < nvals( type ); v++ ) same = same && bits( x.v[v] ) == bits( ex[i].v[v] );
         CHECK( same, "record", "symbol %d record %zu of %zu: got %s, expected %s", sy, i + 1, ex.size(), showRec( x, dim, type ).c_str(), showRec( ex[i], dim, type ).c_str() );
         int wdf = 0;
         for( int d = 0; d < dim && !wdf; d++ ) if( i == 0 || x.k[d] != prev.k[d] ) wdf = d + 1;
         CHECK( df == wdf || ( i && !cmpKey( prev, x, dim ) ), "dimfirst", "symbol %d record %zu: first changed position %d, expected %d", sy, i + 1, df, wdf );
         prev = x;
      }
      if( i != stop )
      {
         CHECK( i == ex.size(), "missing", "symbol %d: %zu records returned, %zu qualify", sy, i, ex.size() );
         int ne = gdxDataErrorCount( g );
         CHECK( ( ne > 0 ) == !rej.empty() && ne <= 11, "errcount", "%zu records rejected, %d error records", rej.size(), ne );
         std::set<std::pair<int, int>> shown;
         for( int e = 1; e <= ne; e++ )
         {
            Rec x {}, y {};
            CHECK( gdxDataErrorRecordX( g, e, x.k, x.v ) && gdxDataErrorRecord( g, e, y.k, y.v ), "errrec", "error record %d refused", e );
            Rec z = x;
            bool neg = false;
            for( int d = 0; d < dim; d++ ) { z.k[d] = std::abs( x.k[d] ); if( x.k[d] < 0 ) { neg = true; shown.insert( { d, z.k[d] } ); } CHECK( y.k[d] == z.k[d], "errrec", "the two error record queries differ" ); }
            CHECK( neg, "errrec", "error record %d marks no position", e );
            auto it = std::lower_bound( rej.begin(), rej.end(), z, [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
            CHECK( it != rej.end() && cmpKey( *it, z, dim ) == 0, "errrec", "error record %d %s was not rejected", e, showRec( x, dim, type ).c_str() );
            for( int v = 0; v < nvals( type ); v++ ) CHECK( bits( it->v[v] ) == bits( x.v[v] ), "errrec", "error record %d has other values", e );
            for( int d = 0; d < dim; d++ ) if( x.k[d] < 0 ) CHECK( rejBad[(size_t) ( it - rej.begin() )][(size_t) d], "errrec", "error record %d marks good position %d", e, d + 1 );
         }
         if( ne < 11 )
            for( size_t q = 0; q < rej.size(); q++ )
            {
               int d = 0;
               while( !rejBad[q][(size_t) d] ) d++;
               CHECK( shown.count( { d, rej[q].k[d] } ), "errmissing", "label %d rejected at position %d is in no error record", rej[q].k[d], d + 1 );
            }
      }
      if( !r.chance( 1, 10 ) ) CHECK( gdxDataReadDone( g ), "done", "gdxDataReadDone refused" );
      else { int q; CHECK( gdxDataReadRawStart( g, 0, &q ) && gdxDataReadDone( g ), "done", "implicit end refused" ); }
      if( i == stop && expands ) { m = m0; sync( g, m ); }
      else checkMap( g, m );
      count( "mapped_reads" );
      count( "records_returned", i );
      count( "records_rejected", rej.size() );
      if( !sortedAlready ) count( "reads_reordered" );
      if( expands ) count( "expanding_reads" );
      if( !rej.empty() || mappedPos ) nont = true;
      h = hashBytes( act, sizeof act, h * 31 + (u64) sy );
      u64 sig = 0;
      for( int d = 0; d < std::min( dim, 5 ); d++ ) sig = sig * 5 + (u64) ( std::min( act[d], 1 ) + 3 );
      note( "action_vectors", sig * 2 + sortedAlready );
   }
   CHECK( gdxClose( g ) == 0, "close", "close failed" );
   if( nont ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %d labels, %zu symbols, %d operations", (unsigned long long) idx, nl, c.syms.size(), nops ) );
}
