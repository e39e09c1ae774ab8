// P10: acronyms
#include "core.hpp"
const char *MON_RULE = "a case adds acronyms explicitly and implicitly (by writing acronym values in every write mode and field), attempts conflicting and malformed additions and changes, queries the table while writing, reopens the file, assigns reader indices by name or automatic numbering, and reads all values; a model of the table predicts every answer; non-trivial = distinct case with at least one acronym value written and read";
struct E { Str name, text; int idx; int rd = -1; bool aut = false; };
static const double ACR = 1e301;
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "acr.gdx" );
   std::vector<E> t;
   std::set<Str> symNames;
   struct SX { Str name; int dim, type; std::vector<std::pair<std::vector<int>, std::array<double, 5>>> recs; };
   std::vector<SX> syms;
   int nl = (int) r.in( 1, 30 );
   u64 h = idx, nv = 0;
   auto find = [&]( const Str &n ) { for( size_t i = 0; i < t.size(); i++ ) if( lower( t[i].name ) == lower( n ) ) return (int) i; return -1; };
   auto findIdx = [&]( int k ) { for( size_t i = 0; i < t.size(); i++ ) if( t[i].idx == k ) return (int) i; return -1; };
   auto badNm = [&]() { return r.pick( { Str( "1a" ), Str( "a b" ), Str( "_x" ), Str( 64, 'w' ), Str( "a-b" ), Str( "x\xe4" ) } ); };
   auto table = [&]( Gdx &g ) {
      CHECK( gdxAcronymCount( g ) == (int) t.size(), "count", "%d acronyms, expected %zu", gdxAcronymCount( g ), t.size() );
      char a[512], b[512];
      int k, o, n, au;
      for( size_t i = 0; i < t.size(); i++ )
      {
         CHECK( gdxAcronymGetInfo( g, (int) i + 1, a, b, &k ), "info", "acronym %zu refused", i + 1 );
         CHECK( t[i].name == a && t[i].text == b && t[i].idx == k, "info", "acronym %zu is '%s' '%s' %d, expected '%s' '%s' %d", i + 1, a, b, k, t[i].name.c_str(), t[i].text.c_str(), t[i].idx );
         CHECK( gdxAcronymGetMapping( g, (int) i + 1, &o, &n, &au ), "mapping", "acronym %zu refused", i + 1 );
         CHECK( o == t[i].idx && ( au != 0 ) == t[i].aut, "mapping", "acronym %zu mapping %d %d %d", i + 1, o, n, au );
         if( t[i].rd > 0 ) CHECK( n == t[i].rd, "mapping", "acronym %zu read index %d, expected %d", i + 1, n, t[i].rd );
         else CHECK( n <= 0, "mapping", "acronym %zu has read index %d, expected none", i + 1, n );
         if( !t[i].name.empty() )
         {
            CHECK( gdxAcronymName( g, gdxAcronymValue( g, k ), a ) && t[i].name == a, "name", "name of acronym value %d is '%s', expected '%s'", k, a, t[i].name.c_str() );
         }
         count( "table_entries_checked" );
      }
      for( int bad: { 0, -1, (int) t.size() + 1, 100000, -2147483647 } )
      {
         CHECK( !gdxAcronymGetInfo( g, bad, a, b, &k ), "range", "information on acronym %d of %zu", bad, t.size() );
         CHECK( !gdxAcronymGetMapping( g, bad, &o, &n, &au ), "range", "mapping of acronym %d of %zu", bad, t.size() );
         CHECK( !gdxAcronymSetInfo( g, bad, "zzz", "t", 1 ), "range", "acronym %d of %zu changed", bad, t.size() );
      }
   };
   auto values = [&]( Gdx &g ) {
      for( int q = 0; q < 6; q++ )
      {
         int k = r.chance( 1, 3 ) ? (int) r.in( -3, 3 ) : (int) r.in( 1, 1000000 );
         double v = gdxAcronymValue( g, k );
         if( k <= 0 ) CHECK( v == 0, "value", "value of acronym index %d is %g", k, v );
         else { CHECK( v == ACR * k, "value", "value of acronym %d is %g", k, v ); CHECK( gdxAcronymIndex( g, v ) == k, "index", "index of %g is %d, expected %d", v, gdxAcronymIndex( g, v ), k ); }
      }
      char a[512];
      for( double v: { 0.0, 1.0, -1.0, 1e300, 2e300, 3e300, 4e300, 5e300, 9.9e300, -1e301, -5e307, 1e-300, HUGE_VAL, -HUGE_VAL, std::nan( "" ) } )
      {
         CHECK( gdxAcronymIndex( g, v ) == 0, "notacr", "%g taken for acronym %d", v, gdxAcronymIndex( g, v ) );
         CHECK( !gdxAcronymName( g, v, a ) && !a[0], "notacr", "%g has acronym name '%s'", v, a );
      }
   };
   {
      Gdx g;
      Writer w( g, r );
      w.open( path, (int) r.in( 0, 1 ) );
      w.registerLabels( genLabels( r, nl ), 'S' );
      auto add = [&]() {
         Str n, x = r.chance( 1, 4 ) ? Str( (size_t) r.in( 250, 260 ), 'x' ) : genText( r );
         int k = (int) r.in( 1, 60 );
         switch( r.in( 0, 5 ) )
         {
            case 0: n = badNm(); break;
            case 1: if( !t.empty() ) { n = flipCase( r, r.pick( t ).name ); break; } [[fallthrough]];
            case 2: if( !symNames.empty() && r.chance( 1, 2 ) ) { auto it = symNames.begin(); std::advance( it, r.in( 0, (int64_t) symNames.size() - 1 ) ); n = *it; break; } [[fallthrough]];
            default: n = genIdent( r );
         }
         if( r.chance( 1, 3 ) && find( n ) >= 0 ) k = t[(size_t) find( n )].idx;
         int ex = (int) t.size() + 1;
         for( auto &e: t )
         {
            if( lower( e.name ) == lower( n ) ) { ex = e.idx == k ? 0 : -1; break; }
            if( e.idx == k ) { ex = -1; break; }
         }
         if( ex > 0 && ( !goodIdent( n ) || symNames.count( lower( n ) ) ) ) ex = -1;
         int rc = gdxAcronymAdd( g, n.c_str(), x.c_str(), k );
         CHECK( rc == ex, "add", "adding acronym '%s' %d returned %d, expected %d", n.c_str(), k, rc, ex );
         if( rc < 0 ) { CHECK( gdxGetLastError( g ) != 0, "adderr", "refused acronym without error" ); count( "additions_refused" ); }
         if( ex > 0 ) t.push_back( { n, normText( x, false ), k, k, false } );
      };
      auto setInfo = [&]() {
         if( t.empty() ) return;
         int i = (int) r.in( 0, (int64_t) t.size() - 1 );
         Str n = r.chance( 1, 5 ) ? badNm() : r.chance( 1, 4 ) ? flipCase( r, r.pick( t ).name ) : r.chance( 1, 6 ) && !symNames.empty() ? *symNames.begin() : genIdent( r );
         Str x = genText( r );
         int k = r.chance( 1, 6 ) ? (int) r.in( 1, 90 ) : t[(size_t) i].idx;
         bool ok = goodIdent( n ) && find( n ) < 0 && !symNames.count( lower( n ) ) && k == t[(size_t) i].idx;
         int rc = gdxAcronymSetInfo( g, i + 1, n.c_str(), x.c_str(), k );
         CHECK( ( rc != 0 ) == ok, "setinfo", "naming acronym %d '%s' index %d returned %d, expected %d", i + 1, n.c_str(), k, rc, ok );
         if( ok ) { t[(size_t) i].name = n; t[(size_t) i].text = normText( x, false ); }
         else { CHECK( gdxGetLastError( g ) != 0, "setinfoerr", "refused without error" ); count( "changes_refused" ); }
      };
      int steps = (int) r.in( 2, 12 );
      for( int q = 0; q < steps; q++ )
      {
         int op = (int) r.in( 0, 5 );
         if( op < 2 ) add();
         else if( op == 2 ) setInfo();
         else if( op == 3 ) { table( g ); values( g ); }
         else
         {
            SX s;
            s.name = r.chance( 1, 6 ) && !t.empty() ? flipCase( r, r.pick( t ).name ) : genIdent( r );
            if( symNames.count( lower( s.name ) ) || s.name.empty() ) continue;
            s.type = (int) r.in( 1, 3 );
            s.dim = (int) r.in( 0, 3 );
            char mode = r.pick( { 'S', 'M', 'R' } );
            gdxGetLastError( g );
            int rc = mode == 'S' ? gdxDataWriteStrStart( g, s.name.c_str(), "", s.dim, s.type, 0 ) : mode == 'M' ? gdxDataWriteMapStart( g, s.name.c_str(), "", s.dim, s.type, 0 ) : gdxDataWriteRawStart( g, s.name.c_str(), "", s.dim, s.type, 0 );
            if( find( s.name ) >= 0 ) { CHECK( !rc, "symclash", "symbol with the name of acronym '%s' accepted", s.name.c_str() ); CHECK( gdxGetLastError( g ) == -100007, "symclash", "wrong error" ); count( "symbol_clashes" ); continue; }
            CHECK( rc, "start", "start refused" );
            symNames.insert( lower( s.name ) );
            KeyShape sh {};
            for( int d = 0; d < s.dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = nl; }
            auto recs = genKeys( r, s.dim, s.dim ? (int) r.in( 1, 15 ) : 1, sh, 1 );
            auto order = recs;
            if( mode != 'R' ) r.shuffle( order );
            std::map<std::vector<int>, std::array<double, 5>> m;
            auto seen = [&]( const std::array<double, 5> &v ) { for( int f = 0; f < nvals( s.type ); f++ ) if( v[(size_t) f] >= ACR ) { int k = (int) std::lround( v[(size_t) f] / ACR ); if( findIdx( k ) < 0 ) { t.push_back( { "", "", k } ); count( "implicit_acronyms" ); } } };
            for( auto &x: order )
            {
               std::array<double, 5> v {};
               for( int f = 0; f < nvals( s.type ); f++ )
               {
                  v[(size_t) f] = r.chance( 1, 3 ) ? ACR * (double) ( r.chance( 1, 2 ) && !t.empty() ? r.pick( t ).idx : r.in( 1, 70 ) ) : r.chance( 1, 50 ) ? ACR * 17976931.0 : (double) r.in( -5, 5 );
                  if( v[(size_t) f] >= ACR ) { nv++; h = h * 31 + bits( v[(size_t) f] ); count( "acronym_values_written" ); }
               }
               m[std::vector<int>( x.k, x.k + s.dim )] = v;
               const char *kp[MAXD];
               int um[MAXD];
               for( int d = 0; d < s.dim; d++ ) { kp[d] = w.c.uels[(size_t) x.k[d] - 1].c_str(); um[d] = w.uel2usr.at( x.k[d] ); }
               CHECK( mode == 'S' ? gdxDataWriteStr( g, kp, v.data() ) : mode == 'M' ? gdxDataWriteMap( g, um, v.data() ) : gdxDataWriteRaw( g, x.k, v.data() ), "write", "record refused" );
               if( mode == 'R' ) seen( v );
            }
            CHECK( gdxDataWriteDone( g ), "done", "done refused" );
            if( mode != 'R' ) for( auto &x: m ) seen( x.second );
            for( auto &x: m ) s.recs.push_back( x );
            syms.push_back( s );
         }
      }
      table( g );
      CHECK( gdxClose( g ) == 0, "close", "close failed" );
   }
   Gdx g;
   int err = 0, n, df;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "openread", "reopen refused" );
   for( auto &e: t ) { if( e.name.empty() ) e.name = fmt( "UnknownACRO%d", e.idx ); e.rd = -1; e.aut = false; }
   table( g );
   values( g );
   double sv[GMS_SVIDX_MAX] = { -11, -12, -13, -14, -15, 0, 0 };
   double na = GMS_SV_NA;
   if( r.chance( 1, 3 ) ) { CHECK( gdxSetReadSpecialValues( g, sv ), "sv", "refused" ); na = -12; }
   int next = 0;
   for( int pass = 0; pass < 3; pass++ )
   {
      if( r.chance( 1, 2 ) ) { int nn = r.chance( 1, 3 ) ? 0 : (int) r.in( 100, 2000 ); CHECK( gdxAcronymNextNr( g, nn ) == next, "nextnr", "previous automatic number wrong" ); next = nn; }
      CHECK( gdxAcronymNextNr( g, -1 ) == next, "nextnr", "automatic number %d, expected %d", gdxAcronymNextNr( g, -1 ), next );
      bool nan = r.chance( 1, 4 );
      gdxMapAcronymsToNaNSet( g, nan );
      CHECK( ( gdxMapAcronymsToNaN( g ) != 0 ) == nan, "flag", "flag not kept" );
      for( size_t i = 0; i < t.size(); i++ )
         if( r.chance( 1, 3 ) )
         {
            int k = r.chance( 1, 4 ) && !t.empty() ? r.pick( t ).rd : (int) r.in( 1, 3000 );
            if( k <= 0 ) k = 5;
            Str nm = r.chance( 1, 5 ) ? Str( "different" ) : flipCase( r, t[i].name );
            bool ok, newName = false;
            if( t[i].aut ) { nm = r.chance( 1, 2 ) ? nm : genIdent( r ); if( r.chance( 1, 2 ) ) k = t[i].rd; ok = goodIdent( nm ) && find( nm ) < 0 && !symNames.count( lower( nm ) ) && k == t[i].rd; newName = ok; }
            else if( t[i].rd == k ) ok = true;
            else
            {
               ok = lower( nm ) == lower( t[i].name );
               for( auto &e: t ) if( e.rd == k ) ok = false;
            }
            int rc = gdxAcronymSetInfo( g, (int) i + 1, nm.c_str(), "nt", k );
            CHECK( ( rc != 0 ) == ok, "readset", "assigning index %d to acronym '%s' by name '%s' returned %d, expected %d", k, t[i].name.c_str(), nm.c_str(), rc, ok );
            if( ok ) { t[i].rd = k; if( newName ) { t[i].name = nm; t[i].text = "nt"; t[i].aut = false; } count( "reader_indices_set" ); }
            else { CHECK( gdxGetLastError( g ) != 0, "readset", "refused without error" ); }
         }
      for( size_t i = 0; i < syms.size(); i++ )
      {
         SX &s = syms[i];
         bool str = r.chance( 1, 2 );
         int k[MAXD];
         double v[5];
         std::array<std::array<char, 256>, MAXD> kb;
         char *kp[MAXD];
         for( int d = 0; d < MAXD; d++ ) kp[d] = kb[(size_t) d].data();
         CHECK( str ? gdxDataReadStrStart( g, (int) i + 1, &n ) : gdxDataReadRawStart( g, (int) i + 1, &n ), "rs", "start" );
         size_t q = 0;
         while( str ? gdxDataReadStr( g, kp, v, &df ) : gdxDataReadRaw( g, k, v, &df ) )
         {
            CHECK( q < s.recs.size(), "recs", "too many records" );
            for( int f = 0; f < nvals( s.type ); f++ )
            {
               double x = s.recs[q].second[(size_t) f], ex = x;
               if( x >= ACR )
               {
                  if( nan ) ex = na;
                  else
                  {
                     int e = findIdx( (int) std::lround( x / ACR ) );
                     CHECK( e >= 0, "harness", "model" );
                     E &en = t[(size_t) e];
                     if( en.rd <= 0 && next > 0 ) { en.rd = next++; en.aut = true; }
                     ex = ACR * ( en.rd > 0 ? en.rd : en.idx );
                  }
                  count( "acronym_values_read" );
               }
               CHECK( bits( ex ) == bits( v[f] ), "value", "symbol '%s' record %zu field %d: %.17g, expected %.17g", s.name.c_str(), q + 1, f, v[f], ex );
               if( v[f] >= ACR ) CHECK( gdxAcronymIndex( g, v[f] ) == (int) std::lround( ex / ACR ), "index", "index of value read" );
            }
            q++;
         }
         CHECK( q == s.recs.size(), "recs", "%zu records, expected %zu", q, s.recs.size() );
         gdxDataReadDone( g );
      }
      table( g );
   }
   gdxClose( g );
   if( nv ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu acronyms, %zu symbols, %llu acronym values", (unsigned long long) idx, t.size(), syms.size(), (unsigned long long) nv ) );
}
