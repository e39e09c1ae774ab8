// P03: unordered writes are sorted; conservation of records; first duplicate wins; raw order rule
#include "core.hpp"
const char *MON_RULE = "a case writes 1-6 symbols with records in random order and with duplicate keys (string/mapped) or unsorted and repeated keys (raw), checks every return code, error counter and retained error record, and reads the file back; non-trivial = distinct history with at least one rejected or reordered record";
static const int E_DUP = -100009, E_RAWSORT = -100025, E_BADIDX = -100004, E_BADUEL = -100017;
// raw writing with announced bounds: whatever the keys, a record is stored exactly or rejected with an error
static void boundsCase( Rng &r )
{
   Str path = scratchFile( "bd.gdx" );
   Gdx g;
   int e = 0;
   CHECK( gdxOpenWriteEx( g, path.c_str(), "p03", (int) r.in( 0, 1 ), &e ), "open", "cannot open %d", e );
   gdxAutoConvert( g, 0 );
   gdxUELRegisterRawStart( g );
   int nl = (int) r.pick( { 3, 20, 300 } );
   for( int i = 0; i < nl; i++ ) gdxUELRegisterRaw( g, fmt( "l%d", i ).c_str() );
   gdxUELRegisterDone( g );
   int ns = (int) r.in( 1, 4 );
   std::vector<std::vector<Rec>> acc;
   std::vector<int> dims;
   int errs = 0;
   for( int q = 0; q < ns; q++ )
   {
      int dim = (int) ( r.chance( 1, 6 ) ? r.in( 4, 20 ) : r.in( 1, 3 ) ), lo[MAXD], hi[MAXD];
      for( int d = 0; d < dim; d++ )
      {
         int64_t l = r.pick( { (int64_t) 1, (int64_t) 1, (int64_t) 0, (int64_t) 5, (int64_t) 250, (int64_t) 65530, (int64_t) 1000000, (int64_t) 2147483000 } );
         int64_t span = r.pick( { 0, 1, 10, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 100000 } ) + r.in( 0, 1 );
         lo[d] = (int) l;
         hi[d] = (int) std::min<int64_t>( l + span, INT32_MAX );
      }
      Str name = fmt( "s%d", q );
      CHECK( gdxDataWriteRawStartKeyBounds( g, name.c_str(), "", dim, T_PAR, 0, lo, hi ), "start", "symbol refused" );
      std::vector<Rec> in, out;
      int n = (int) r.in( 1, 60 ), style = (int) r.in( 0, 3 );
      for( int i = 0; i < n; i++ )
      {
         Rec x {};
         for( int d = 0; d < dim; d++ )
         {
            int64_t k = r.chance( 1, 3 ) ? lo[d] + r.in( 0, 3 ) : r.chance( 1, 2 ) ? hi[d] - r.in( 0, 3 ) : r.in( lo[d], hi[d] );
            if( d + 1 < dim && r.chance( 1, 2 ) ) k = lo[d];
            k = std::min<int64_t>( std::max<int64_t>( k, lo[d] ), hi[d] );
            if( style && r.chance( 1, 4 * dim ) ) k = r.pick( { (int64_t) lo[d] - 1, (int64_t) lo[d] - 2, (int64_t) lo[d] - 256, (int64_t) hi[d] + 1, (int64_t) hi[d] + 2, (int64_t) lo[d] + 255, (int64_t) lo[d] + 256, (int64_t) lo[d] + 65535, (int64_t) lo[d] + 65536, (int64_t) hi[d] + 70000 } );
            x.k[d] = (int) std::min<int64_t>( std::max<int64_t>( k, 0 ), INT32_MAX );
         }
         x.v[0] = (double) r.in( 1, 100000 );
         in.push_back( x );
      }
      if( r.chance( 3, 4 ) ) std::sort( in.begin(), in.end(), [&]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
      int rej = 0;
      for( auto &x: in )
      {
         int b4 = gdxErrorCount( g ), rc = gdxDataWriteRaw( g, x.k, x.v ), now = gdxErrorCount( g );
         bool asc = out.empty() || cmpKey( out.back(), x, dim ) < 0, inside = true;
         for( int d = 0; d < dim; d++ ) if( x.k[d] < lo[d] || x.k[d] > hi[d] ) inside = false;
         CHECK( !rc == ( now == b4 + 1 ) && ( !rc || now == b4 ), "bounds-report", "raw record with key %d.. in bounds %d..%d: result %d, error count %d to %d", x.k[dim - 1], lo[dim - 1], hi[dim - 1], rc, b4, now );
         CHECK( asc || !rc, "bounds-order", "a record that is not after the last one was accepted" );
         CHECK( !asc || !inside || rc, "bounds-refused", "record %d.. within the bounds %d..%d and after the last one was refused", x.k[0], lo[0], hi[0] );
         if( rc ) out.push_back( x ); else rej++;
         if( !inside ) count( rc ? "outside_bounds_stored" : "outside_bounds_rejected" );
      }
      CHECK( gdxDataErrorCount( g ) == std::min( rej, 11 ), "bounds-errors", "%d records rejected, %d error records", rej, gdxDataErrorCount( g ) );
      errs += rej;
      CHECK( gdxDataWriteDone( g ), "done", "symbol not finished" );
      acc.push_back( out );
      dims.push_back( dim );
   }
   int rc = gdxClose( g );
   CHECK( rc == 0, "close", "close returned %d", rc );
   CHECK( gdxOpenRead( g, path.c_str(), &e ), "open", "cannot open %d", e );
   for( int q = 0; q < ns; q++ )
   {
      int n = -1, df = 0;
      CHECK( gdxDataReadRawStart( g, q + 1, &n ) && n == (int) acc[(size_t) q].size(), "bounds-count", "%d records announced, %zu accepted", n, acc[(size_t) q].size() );
      for( auto &x: acc[(size_t) q] )
      {
         Rec y {};
         CHECK( gdxDataReadRaw( g, y.k, y.v, &df ) && !cmpKey( x, y, dims[(size_t) q] ) && x.v[0] == y.v[0], "bounds-stored", "record %d..=%g read as %d..=%g", x.k[dims[(size_t) q] - 1], x.v[0], y.k[dims[(size_t) q] - 1], y.v[0] );
      }
      Rec y {};
      CHECK( !gdxDataReadRaw( g, y.k, y.v, &df ), "bounds-count", "more records than accepted" );
      count( "bounded_symbols" );
   }
   gdxClose( g );
   nontrivial( r.next() );
}
void runCase( u64 idx, Rng &r )
{
   if( idx % 5 == 1 ) for( int i = 0; i < 4; i++ ) boundsCase( r );
   Str path = scratchFile( "or.gdx" );
   Gdx g;
   Writer w( g, r );
   w.open( path, (int) r.in( 0, 1 ) );
   int nl = idx % 53 == 9 ? (int) r.in( 60000, 70000 ) : (int) r.pick( { 3, 8, 30, 255, 256, 300, 1500 } );
   w.registerLabels( genLabels( r, nl ), r.pick( { 'S', 'M' } ) );
   int ns = (int) r.in( 1, 6 );
   int total = 0;
   bool nont = false, unfinished = false;
   u64 h = idx;
   for( int q = 0; q < ns; q++ )
   {
      Sym s;
      do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
      s.type = (int) r.in( 0, 3 );
      s.dim = (int) ( r.chance( 1, 5 ) ? r.in( 6, 20 ) : r.in( 1, 4 ) );
      s.user = s.type == T_EQU ? 54 : 3;
      int n = (int) ( r.chance( 1, 4 ) ? r.in( 0, 5 ) : r.chance( 1, 6 ) ? r.in( 1000, idx % 11 == 0 ? 12000 : 3000 ) : r.in( 5, 300 ) );
      std::vector<Rec> base = recsFor( r, w, s, n, nl ), in;
      // duplicates
      int dupStyle = (int) r.in( 0, 3 );
      for( auto &x: base )
      {
         in.push_back( x );
         int k = dupStyle == 0 ? 0 : dupStyle == 1 ? ( r.chance( 1, 10 ) ? 1 : 0 ) : dupStyle == 2 ? (int) r.in( 0, 2 ) : ( r.chance( 1, 40 ) ? (int) r.in( 1, 15 ) : 0 );
         for( int i = 0; i < k; i++ )
         {
            Rec y = x;
            for( int v = 0; v < nvals( s.type ); v++ ) y.v[v] = s.type == T_SET ? 0 : (double) r.in( 1, 100000 );
            in.push_back( y );
         }
      }
      switch( r.in( 0, 4 ) )
      {
         case 0: break;
         case 1: std::reverse( in.begin(), in.end() ); break;
         case 2: if( in.size() > 2 ) std::swap( in[(size_t) r.in( 0, (int64_t) in.size() - 1 )], in[(size_t) r.in( 0, (int64_t) in.size() - 1 )] ); break;
         case 3: if( in.size() > 2 ) std::rotate( in.begin(), in.begin() + (long) r.in( 0, (int64_t) in.size() - 1 ), in.end() ); break;
         default: r.shuffle( in );
      }
      char mode = r.pick( { 'S', 'M', 'R' } );
      int ok = mode == 'S' ? gdxDataWriteStrStart( g, s.name.c_str(), "", s.dim, s.type, s.user ) : mode == 'M' ? gdxDataWriteMapStart( g, s.name.c_str(), "", s.dim, s.type, s.user )
                                                                                                    : gdxDataWriteRawStart( g, s.name.c_str(), "", s.dim, s.type, s.user );
      CHECK( ok, "start", "symbol start refused (%c)", mode );
      std::vector<Rec> stored, rejected;
      const Rec *last = nullptr;
      int dim = s.dim, other = 0;
      Rec lastStore;
      for( auto &x: in )
      {
         int rc;
         if( mode == 'R' )
         {
            int cmp = last ? cmpKey( *last, x, dim ) : -1;
            rc = gdxDataWriteRaw( g, x.k, x.v );
            CHECK( ( rc != 0 ) == ( cmp < 0 ), "rawaccept", "raw record %s after %s: returned %d", showRec( x, dim, s.type ).c_str(), last ? showRec( *last, dim, s.type ).c_str() : "start", rc );
            if( rc ) { stored.push_back( x ); lastStore = x; last = &lastStore; }
            else
            {
               int e = gdxGetLastError( g );
               CHECK( e == ( cmp == 0 ? E_DUP : E_RAWSORT ), "rawerror", "raw record rejected with error %d (key comparison %d)", e, cmp );
               rejected.push_back( x );
               total++;
               nont = true;
            }
         }
         else if( mode == 'M' )
         {
            int k[MAXD];
            for( int d = 0; d < dim; d++ ) k[d] = w.uel2usr.at( x.k[d] );
            if( r.chance( 1, 60 ) )
            {// unknown user number: refused, no effect
               int k2[MAXD];
               memcpy( k2, k, sizeof k );
               k2[r.in( 0, dim - 1 )] = w.highUsr + (int) r.in( 1, 5000 );
               CHECK( !gdxDataWriteMap( g, k2, x.v ), "mapunknown", "record with unmapped user number accepted" );
               int e = gdxGetLastError( g );
               CHECK( e == E_BADIDX, "mapunknown", "error %d for unmapped user number", e );
               total++; other++;
            }
            CHECK( gdxDataWriteMap( g, k, x.v ), "mapaccept", "mapped record refused" );
         }
         else
         {
            std::vector<Str> ks( (size_t) dim );
            const char *kp[MAXD];
            for( int d = 0; d < dim; d++ ) { ks[(size_t) d] = w.c.uels[(size_t) x.k[d] - 1]; kp[d] = ks[(size_t) d].c_str(); }
            if( r.chance( 1, 60 ) )
            {// bad label: refused
               int p = (int) r.in( 0, dim - 1 );
               Str bad = r.pick( { 0, 1, 2 } ) == 0 ? Str( (size_t) r.in( 64, 200 ), 'x' ) : r.chance( 1, 2 ) ? Str( "a'b\"c" ) : Str( "a\tb" );
               const char *save = kp[p];
               kp[p] = bad.c_str();
               CHECK( !gdxDataWriteStr( g, kp, x.v ), "strbad", "record with bad label accepted" );
               int e = gdxGetLastError( g );
               CHECK( e == E_BADUEL, "strbad", "error %d for a bad label", e );
               kp[p] = save;
               total++; other++;
            }
            CHECK( gdxDataWriteStr( g, kp, x.v ), "straccept", "record refused" );
         }
      }
      if( mode != 'R' )
      {
         std::vector<Rec> t = in;
         std::stable_sort( t.begin(), t.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
         for( auto &x: t )
         {
            if( !stored.empty() && cmpKey( stored.back(), x, dim ) == 0 ) { rejected.push_back( x ); total++; }
            else stored.push_back( x );
         }
         if( !rejected.empty() ) nont = true;
         for( size_t i = 1; i < in.size(); i++ ) if( cmpKey( in[i - 1], in[i], dim ) > 0 ) { nont = true; break; }
      }
      unfinished = q == ns - 1 && r.chance( 1, 5 );
      if( !unfinished )
      {
         CHECK( gdxDataWriteDone( g ), "done", "gdxDataWriteDone refused" );
         int ec = gdxErrorCount( g );
         CHECK( ec == total, "errcount", "%zu records rejected in this symbol; error counter is %d, expected %d", rejected.size() + (size_t) other, ec, total );
         int dc = gdxDataErrorCount( g ), ex = (int) std::min<size_t>( 11, rejected.size() );
         CHECK( dc == ex, "dataerrcount", "%zu records rejected, %d error records retained (expected %d), mode %c", rejected.size(), dc, ex, mode );
         for( int i = 1; i <= dc; i++ )
         {
            Rec y {};
            CHECK( gdxDataErrorRecord( g, i, y.k, y.v ), "errrec", "error record %d refused", i );
            const Rec &e = rejected[(size_t) i - 1];
            bool same = cmpKey( y, e, dim ) == 0;
            for( int v = 0; v < nvals( s.type ); v++ ) same = same && bits( y.v[v] ) == bits( e.v[v] );
            CHECK( same, "errrec", "error record %d is %s, expected %s", i, showRec( y, dim, s.type ).c_str(), showRec( e, dim, s.type ).c_str() );
            count( "error_records_checked" );
         }
         if( mode != 'R' && !rejected.empty() ) { int e = gdxGetLastError( g ); CHECK( e == E_DUP, "duperror", "duplicate keys reported as error %d", e ); }
      }
      s.recs.clear();
      for( auto &x: stored )
      {
         s.recs.push_back( w.store( x, s ) );
         if( s.type == T_SET && x.v[0] != 0.0 ) s.hasText = true;
      }
      s.domNrs.assign( (size_t) dim, 0 );
      s.domIds.assign( (size_t) dim, "*" );
      w.c.syms.push_back( s );
      w.symIdx[lower( s.name )] = (int) w.c.syms.size();
      count( "records_offered", in.size() );
      count( "records_stored", stored.size() );
      count( "records_rejected", rejected.size() );
      h = hashBytes( in.data(), in.size() * sizeof( Rec ), h );
      note( "mode_dim_order", (u64) mode * 100 + (u64) dim );
   }
   if( unfinished ) { int rc = gdxClose( g ); CHECK( rc == 0, "close", "closing with unfinished symbol returned %d", rc ); count( "closed_unfinished" ); }
   else w.close();
   Content d = readFile( path );
   Str df = diffContent( w.c, d );
   CHECK( df.empty(), "stored", "%s%s", df.c_str(), unfinished ? " (file closed while the last symbol was being written)" : "" );
   if( nont ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %d symbols over %d labels, %d errors expected and seen", (unsigned long long) idx, ns, nl, total ) );
}
