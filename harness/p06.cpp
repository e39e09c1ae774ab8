// P06: domain definition, enforcement on write, reporting on read
#include "core.hpp"
const char *MON_RULE = "a case writes domain sets (random membership, aliases, aliases of aliases and of the universe, sets without stored elements) and symbols over them in every write mode with random records, judges every accept/reject, error record and domain query against a membership model, optionally appends a second session, and reads everything back; non-trivial = distinct history with at least one domain-checked symbol";
static const int E_DOM = -100058, E_UNKDOM = -100052, E_NOTSET = -100055, E_NODATA = -100054, E_DUP = -100009, E_SORT = -100025;
struct SetInfo { bool bits = false; std::set<int> mem; };
struct St {
   std::map<int, SetInfo> info;// set symbol nr -> info
   int total = 0;
   bool store = true, bogus = true;
   bool nont = false;
};
static void oneSymbol( Rng &r, Gdx &g, Writer &w, St &st, int nl, bool asSet )
{
   Sym s;
   do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
   s.type = asSet ? T_SET : (int) r.in( 0, 3 );
   s.dim = asSet ? 1 : r.chance( 1, 8 ) ? (int) r.in( 5, 20 ) : (int) r.in( 1, 3 );
   s.user = s.type == T_EQU ? 54 : 1;
   int dim = s.dim, nr = (int) w.c.syms.size() + 1;
   if( r.chance( 1, 4 ) ) { st.store = r.chance( 2, 3 ); gdxStoreDomainSetsSet( g, st.store ); CHECK( ( gdxStoreDomainSets( g ) != 0 ) == st.store, "storeflag", "flag not kept" ); }
   if( r.chance( 1, 4 ) ) { st.bogus = r.chance( 1, 2 ); gdxAllowBogusDomainsSet( g, st.bogus ); CHECK( ( gdxAllowBogusDomains( g ) != 0 ) == st.bogus, "bogusflag", "flag not kept" ); }
   bool hasBits = s.type == T_SET && dim == 1 && st.store;
   char mode = r.pick( { 'S', 'M', 'R' } );
   int ok = mode == 'S' ? gdxDataWriteStrStart( g, s.name.c_str(), "", dim, s.type, s.user ) : mode == 'M' ? gdxDataWriteMapStart( g, s.name.c_str(), "", dim, s.type, s.user )
                                                                                                     : gdxDataWriteRawStart( g, s.name.c_str(), "", dim, s.type, s.user );
   CHECK( ok, "start", "start refused, error %d", gdxGetLastError( g ) );
   s.domNrs.assign( (size_t) dim, 0 );
   s.domIds.assign( (size_t) dim, "*" );
   std::vector<const std::set<int> *> need( (size_t) dim, nullptr );
   if( asSet ? r.chance( 1, 4 ) : r.chance( 5, 6 ) )
   {
      std::vector<Str> ids;
      std::vector<int> nrs;
      int result = 1, code = 0;
      bool hard = false;
      for( int d = 0; d < dim; d++ )
      {
         int t = (int) r.in( 0, (int64_t) w.c.syms.size() );
         if( r.chance( 1, 2 ) && !st.info.empty() ) { auto it = st.info.begin(); std::advance( it, r.in( 0, (int64_t) st.info.size() - 1 ) ); t = it->first; }
         if( r.chance( 1, 10 ) ) t = -1;
         if( asSet && r.chance( 1, 4 ) ) t = nr;// set over itself
         Str id = t == 0 ? Str( "*" ) : t < 0 ? Str( "unknownSet" ) : t == nr ? s.name : w.c.syms[(size_t) t - 1].name;
         if( t > 0 && r.chance( 1, 3 ) ) id = flipCase( r, id );
         ids.push_back( id );
         nrs.push_back( t );
      }
      for( int d = 0; d < dim && !hard; d++ )
      {
         int t = nrs[(size_t) d];
         if( t < 0 ) { if( !code ) code = E_UNKDOM; result = 0; nrs[(size_t) d] = 0; st.total++; continue; }
         if( t == 0 ) continue;
         if( t == nr )
         {
            if( !hasBits && !st.bogus ) { if( !code ) code = E_NODATA; result = 0; hard = true; st.total++; }
            continue;
         }
         int b = w.resolve( t );
         if( b == 0 ) continue;// alias of the universe: everything allowed
         const Sym &bs = w.c.syms[(size_t) b - 1];
         if( bs.type != T_SET || bs.dim != 1 ) { if( !code ) code = E_NOTSET; result = 0; nrs[(size_t) d] = 0; st.total++; continue; }
         SetInfo &si = st.info[b];
         if( !si.bits && !st.bogus ) { if( !code ) code = E_NODATA; result = 0; hard = true; st.total++; continue; }
         if( si.bits ) need[(size_t) d] = &si.mem;
      }
      const char *p[MAXD];
      for( int d = 0; d < dim; d++ ) p[d] = ids[(size_t) d].c_str();
      int rc = gdxSymbolSetDomain( g, p );
      Str all;
      for( auto &x: ids ) all += x + " ";
      CHECK( ( rc != 0 ) == ( result != 0 ), "setdomain", "gdxSymbolSetDomain(%s) returned %d, expected %d (code %d, bogus %d)", all.c_str(), rc, result, code, st.bogus );
      if( code ) { int e = gdxGetLastError( g ); CHECK( e == code, "setdomainerr", "gdxSymbolSetDomain(%s) error %d, expected %d", all.c_str(), e, code ); count( "domains_refused" ); }
      if( hard ) need.assign( (size_t) dim, nullptr );// refused as a whole: no domain
      else
      {
         s.domKind = 3;
         for( int d = 0; d < dim; d++ ) { s.domNrs[(size_t) d] = nrs[(size_t) d]; if( nrs[(size_t) d] ) s.domIds[(size_t) d] = nrs[(size_t) d] == nr ? s.name : w.c.syms[(size_t) nrs[(size_t) d] - 1].name; }
      }
      count( "domains_set" );
   }
   bool anyNeed = false;
   for( auto *p: need ) if( p ) anyNeed = true;
   if( anyNeed ) st.nont = true;
   int n = (int) ( r.chance( 1, 6 ) ? 0 : r.in( 1, dim == 1 ? nl : 60 ) );
   std::vector<Rec> in;
   {
      KeyShape sh {};
      for( int d = 0; d < dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = nl; }
      in = genKeys( r, dim, n, sh, 1 );
      for( auto &x: in )
      {
         if( r.chance( 2, 3 ) ) for( int d = 0; d < dim; d++ ) if( need[(size_t) d] && !need[(size_t) d]->empty() ) { auto it = need[(size_t) d]->begin(); std::advance( it, r.in( 0, (int64_t) need[(size_t) d]->size() - 1 ) ); x.k[d] = *it; }
         for( int v = 0; v < nvals( s.type ); v++ ) x.v[v] = s.type == T_SET ? 0 : (double) r.in( 1, 1000 );
      }
      if( mode == 'R' ) { std::sort( in.begin(), in.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } ); if( r.chance( 1, 3 ) && in.size() > 1 ) std::swap( in[(size_t) r.in( 0, (int64_t) in.size() - 1 )], in[0] ); }
      else r.shuffle( in );
   }
   auto domOk = [&]( const Rec &x ) { for( int d = 0; d < dim; d++ ) if( need[(size_t) d] && !need[(size_t) d]->count( x.k[d] ) ) return false; return true; };
   std::vector<Rec> seq = in, kept, domRej;
   if( mode != 'R' ) std::stable_sort( seq.begin(), seq.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
   auto judge = [&]( const Rec &x ) {
      if( !domOk( x ) ) { domRej.push_back( x ); return E_DOM; }
      if( !kept.empty() ) { int c = cmpKey( kept.back(), x, dim ); if( c == 0 ) return E_DUP; if( c > 0 ) return E_SORT; }
      kept.push_back( x );
      return 0;
   };
   int firstErr = 0;
   if( mode == 'R' )
      for( auto &x: in )
      {
         int e = judge( x );
         int rc = gdxDataWriteRaw( g, x.k, x.v );
         CHECK( ( rc != 0 ) == ( e == 0 ), "raw", "raw record %s returned %d, expected error %d", showRec( x, dim, s.type ).c_str(), rc, e );
         if( e ) { int le = gdxGetLastError( g ); CHECK( le == e, "rawerr", "raw record rejected with %d, expected %d", le, e ); st.total++; }
      }
   else
   {
      for( auto &x: in )
      {
         if( mode == 'M' )
         {
            int k[MAXD];
            for( int d = 0; d < dim; d++ ) k[d] = w.uel2usr.at( x.k[d] );
            CHECK( gdxDataWriteMap( g, k, x.v ), "map", "mapped record refused" );
         }
         else
         {
            const char *kp[MAXD];
            for( int d = 0; d < dim; d++ ) kp[d] = w.c.uels[(size_t) x.k[d] - 1].c_str();
            CHECK( gdxDataWriteStr( g, kp, x.v ), "str", "record refused" );
         }
      }
      for( auto &x: seq ) { int e = judge( x ); if( e ) { st.total++; if( !firstErr ) firstErr = e; } }
   }
   CHECK( gdxDataWriteDone( g ), "done", "gdxDataWriteDone refused" );
   if( firstErr ) { int e = gdxGetLastError( g ); CHECK( e == firstErr, "doneerr", "first error of the symbol is %d, expected %d", e, firstErr ); }
   CHECK( gdxErrorCount( g ) == st.total, "errcount", "error count %d, expected %d (%zu domain violations)", gdxErrorCount( g ), st.total, domRej.size() );
   int ne = gdxDataErrorCount( g );
   if( !domRej.empty() ) CHECK( ne > 0, "errlist", "%zu domain violations and no error record", domRej.size() );
   std::set<std::pair<int, int>> shown;
   for( int e = 1; e <= ne; e++ )
   {
      Rec x {};
      CHECK( gdxDataErrorRecordX( g, e, x.k, x.v ), "errrec", "error record %d refused", e );
      Rec z = x;
      bool neg = false;
      for( int d = 0; d < dim; d++ ) { z.k[d] = std::abs( x.k[d] ); if( x.k[d] < 0 ) { neg = true; shown.insert( { d, z.k[d] } ); CHECK( need[(size_t) d] && !need[(size_t) d]->count( z.k[d] ), "errrec", "error record marks member %d at position %d", z.k[d], d + 1 ); } }
      if( neg )
      {
         for( int d = 0; d < dim; d++ ) if( x.k[d] > 0 ) CHECK( !need[(size_t) d] || need[(size_t) d]->count( x.k[d] ), "errrec", "error record does not mark the violation at position %d", d + 1 );
         bool found = false;
         for( auto &y: domRej ) if( !cmpKey( y, z, dim ) ) { bool sv = true; for( int v = 0; v < nvals( s.type ); v++ ) sv = sv && bits( y.v[v] ) == bits( x.v[v] ); if( sv ) { found = true; break; } }
         CHECK( found, "errrec", "error record %s was not rejected", showRec( x, dim, s.type ).c_str() );
      }
      count( "error_records_checked" );
   }
   if( ne < 11 )
      for( auto &y: domRej )
         for( int d = 0; d < dim; d++ )
            if( need[(size_t) d] && !need[(size_t) d]->count( y.k[d] ) ) { CHECK( shown.count( { d, y.k[d] } ), "errmissing", "violating label %d at position %d is in no error record", y.k[d], d + 1 ); }
   for( auto &x: kept ) s.recs.push_back( w.store( x, s ) );
   w.c.syms.push_back( s );
   w.symIdx[lower( s.name )] = nr;
   if( s.type == T_SET && dim == 1 )
   {
      SetInfo si;
      si.bits = hasBits;
      for( auto &x: kept ) si.mem.insert( x.k[0] );
      st.info[nr] = si;
   }
   // queries while writing
   int q[MAXD];
   CHECK( gdxSymbolGetDomain( g, nr, q ), "getdom", "gdxSymbolGetDomain refused" );
   for( int d = 0; d < dim; d++ ) CHECK( q[d] == s.domNrs[(size_t) d], "getdom", "domain %d is %d, expected %d", d + 1, q[d], s.domNrs[(size_t) d] );
   if( r.chance( 1, 5 ) )
   {
      std::vector<Str> ids;
      for( int d = 0; d < dim; d++ ) ids.push_back( r.chance( 1, 4 ) ? Str( "*" ) : r.chance( 1, 8 ) ? Str( "" ) : r.chance( 1, 8 ) ? Str( "no good" ) : r.chance( 1, 3 ) ? flipCase( r, "relDom" ) : genIdent( r ) );
      w.setDomainX( nr, ids );
      count( "relaxed_domains" );
   }
   count( "records_offered", in.size() );
   count( "records_rejected_by_domain", domRej.size() );
   note( "mode_dim_checked", (u64) mode * 64 + (u64) dim * 2 + anyNeed );
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "dom.gdx" );
   int nl = r.chance( 1, 100 ) ? (int) r.in( 1000, 3000 ) : (int) r.pick( { 3, 8, 20, 70, 260, 300 } );
   u64 h = idx;
   St st;
   Content c;
   {
      Gdx g;
      Writer w( g, r );
      w.open( path, (int) r.in( 0, 1 ) );
      w.registerLabels( genLabels( r, nl ), r.pick( { 'S', 'M' } ) );
      int sessions = r.chance( 1, 5 ) ? 2 : 1;
      for( int q = 0; q < sessions; q++ )
      {
         if( q )
         {
            w.close();
            int err;
            CHECK( gdxOpenAppend( g, path.c_str(), "app", &err ) && !err, "append", "append refused: %d", err );
            gdxAutoConvert( g, 0 );
            for( auto &x: st.info ) x.second.bits = false;// elements of earlier sessions are not kept
            st.total = 0;
            w.uel2usr.clear(); w.usr2uel.clear(); w.highUsr = 0;
            w.registerLabels( w.c.uels, 'S' );
         }
         int ns = (int) r.in( 1, 3 );
         for( int i = 0; i < ns; i++ ) oneSymbol( r, g, w, st, nl, true );
         if( r.chance( 1, 4 ) ) { Sym s; do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) ); s.type = r.pick( { T_SET, T_PAR } ); s.dim = 2; w.writeSymbol( s, {}, 'R' ); }
         int na = (int) r.in( 0, 3 );
         for( int i = 0; i < na; i++ )
         {
            Str an;
            do an = genIdent( r ); while( w.symIdx.count( lower( an ) ) );
            int t = (int) r.in( 0, (int64_t) w.c.syms.size() );
            if( t == 0 || w.c.syms[(size_t) t - 1].type == T_SET || w.c.syms[(size_t) t - 1].type == T_ALIAS ) w.addAlias( an, t );
         }
         ns = (int) r.in( 1, 4 );
         for( int i = 0; i < ns; i++ ) oneSymbol( r, g, w, st, nl, false );
      }
      w.close();
      c = w.c;
   }
   Content d = readFile( path );
   Str df = diffContent( c, d );
   CHECK( df.empty(), "stored", "%s", df.c_str() );
   for( auto &s: c.syms ) h = hashBytes( s.recs.data(), s.recs.size() * sizeof( Rec ), hashStr( s.name, h ) );
   if( st.nont ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu symbols over %d labels, %d errors", (unsigned long long) idx, c.syms.size(), nl, st.total ) );
}
