// P09: special values under user mappings
#include "core.hpp"
const char *MON_RULE = "a case writes symbols in every write mode under randomly chosen representations of the five special values (including NaN payloads, infinities, both zeros, denormals, 1, 0.5, values of other defaults), switches representations between symbols and between raw records, attempts conflicting mappings, and reads back through raw, string, mapped and callback reads under other representations set with either call; every field is compared bit for bit with a model of the stored special code; non-trivial = distinct case with a changed representation on both sides";
enum { UND, NA, PIN, MIN_, EPS, NSV };
struct Map { double v[NSV]; };
static const Map DEF { { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS } };
static double oddVal( Rng &r )
{
   switch( r.in( 0, 9 ) )
   {
      case 0: return std::numeric_limits<double>::quiet_NaN();
      case 1: return fromBits( 0x7ff8000000000000ull | r.in( 1, 9 ) );
      case 2: return r.chance( 1, 2 ) ? HUGE_VAL : -HUGE_VAL;
      case 3: return r.chance( 1, 2 ) ? 0.0 : -0.0;
      case 4: return r.pick( { 1.0, -1.0, 0.5, 2.0, 4.9e-324, 1e-9, -1e-9, 1e30, 1.0000000000000002 } );
      case 5: return DEF.v[r.in( 0, 4 )];
      case 6: return DEF.v[r.in( 0, 4 )] * -1;
      case 7: return r.pick( { 1e299, 9.99e300, -1e301, -5e304, -1.7976931348623157e308, 6e300 } );
      case 8: return fromBits( 0xfff8000000000000ull | r.in( 0, 9 ) );
      default: return (double) r.in( -50, 50 );
   }
}
static bool distinct( const Map &m ) { for( int i = 0; i < NSV; i++ ) for( int j = 0; j < i; j++ ) if( bits( m.v[i] ) == bits( m.v[j] ) ) return false; return true; }
static Map genMap( Rng &r )
{
   Map m = DEF;
   if( r.chance( 1, 8 ) ) return m;
   if( r.chance( 1, 6 ) ) { std::swap( m.v[r.in( 0, 4 )], m.v[r.in( 0, 4 )] ); return m; }
   do for( int i = 0; i < NSV; i++ ) m.v[i] = r.chance( 1, 4 ) ? DEF.v[i] : oddVal( r );
   while( !distinct( m ) );
   return m;
}
// stored field: special code 0..4 or an ordinary number
struct Field { int code = -1; double x = 0; };
static Field stored( const Map &w, double x )
{
   for( int i = 0; i < NSV; i++ ) if( bits( x ) == bits( w.v[i] ) ) return { i, 0 };
   if( std::isnan( x ) ) return { NA, 0 };
   if( std::isinf( x ) ) return { x > 0 ? PIN : MIN_, 0 };
   return { -1, x == 0 ? 0.0 : x };
}
static double seen( const Map &rd, const Field &f ) { return f.code >= 0 ? rd.v[f.code] : f.x; }
struct SymX { Str name; int dim, type, user; std::vector<std::pair<std::vector<int>, std::array<Field, 5>>> recs; };
static void apiSet( Gdx &g, const Map &m, bool readOnly )
{
   double a[GMS_SVIDX_MAX] = {};
   for( int i = 0; i < NSV; i++ ) a[i] = m.v[i];
   a[5] = 7; a[6] = 8;
   CHECK( readOnly ? gdxSetReadSpecialValues( g, a ) : gdxSetSpecialValues( g, a ), "set", "mapping refused" );
}
static void expectMap( Gdx &g, Rng &r, const Map &m )
{
   double a[GMS_SVIDX_MAX];
   CHECK( gdxGetSpecialValues( g, a ), "get", "gdxGetSpecialValues refused" );
   for( int i = 0; i < NSV; i++ ) CHECK( bits( a[i] ) == bits( m.v[i] ), "current", "special value %d is %.17g, expected %.17g", i, a[i], m.v[i] );
   for( int q = 0; q < 8; q++ )
   {
      double x = r.chance( 1, 2 ) ? m.v[r.in( 0, 4 )] : oddVal( r );
      int ex = 5, sv = -1;
      for( int i = 0; i < NSV; i++ ) if( bits( x ) == bits( m.v[i] ) ) ex = i;
      int rc = gdxMapValue( g, x, &sv );
      CHECK( sv == ex && ( rc != 0 ) == ( ex != 5 ), "classify", "value %.17g (%016llx) classified %d/%d, expected %d", x, (unsigned long long) bits( x ), rc, sv, ex );
      count( "values_classified" );
   }
}
static void tryBad( Gdx &g, Rng &r, const Map &cur )
{
   Map m = genMap( r );
   int i = (int) r.in( 0, 4 ), j = (int) r.in( 0, 4 );
   if( i == j ) return;
   m.v[i] = m.v[j];
   double a[GMS_SVIDX_MAX] = {};
   memcpy( a, m.v, sizeof m.v );
   CHECK( !gdxSetSpecialValues( g, a ), "dup", "ambiguous mapping accepted" );
   int e = gdxGetLastError( g );
   CHECK( e == -100014, "duperr", "ambiguous mapping: error %d", e );
   expectMap( g, r, cur );
   count( "ambiguous_refused" );
}
static std::vector<Rec> *g_fast;
static int g_dim, g_nv;
static int GDX_CALLCONV fastCb( const int *k, const double *v, int, void * )
{
   Rec x {};
   memcpy( x.k, k, sizeof( int ) * (size_t) g_dim );
   memcpy( x.v, v, sizeof( double ) * (size_t) g_nv );
   g_fast->push_back( x );
   return 1;
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "sv.gdx" );
   int nl = (int) r.in( 1, 40 );
   std::vector<SymX> syms;
   bool wch = false, rch = false;
   u64 h = idx;
   {
      Gdx g;
      Writer w( g, r );
      if( r.chance( 1, 3 ) ) { Map m = genMap( r ); apiSet( g, m, r.chance( 1, 3 ) ); }// before opening: must not survive the open
      w.open( path, (int) r.in( 0, 1 ) );
      expectMap( g, r, DEF );
      Map cur = DEF;
      w.registerLabels( genLabels( r, nl ), 'S' );
      int ns = (int) r.in( 1, 5 );
      for( int k = 0; k < ns; k++ )
      {
         auto change = [&]() {
            if( r.chance( 1, 6 ) ) { CHECK( gdxResetSpecialValues( g ), "reset", "reset refused" ); cur = DEF; }
            else if( r.chance( 1, 6 ) ) { tryBad( g, r, cur ); return; }
            else if( r.chance( 1, 8 ) ) { Map m = genMap( r ); apiSet( g, m, true ); }// reading side only: no influence on writing
            else { cur = genMap( r ); apiSet( g, cur, false ); wch = true; }
            if( r.chance( 1, 2 ) ) expectMap( g, r, cur );
         };
         if( r.chance( 2, 3 ) ) change();
         SymX s;
         do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
         w.symIdx[lower( s.name )] = k + 1;
         s.type = (int) r.in( 1, 3 );
         s.dim = r.chance( 1, 3 ) ? 0 : (int) r.in( 1, 3 );
         s.user = s.type == T_EQU ? (int) r.in( 50, 61 ) : (int) r.in( -1, 11 );
         char mode = r.pick( { 'S', 'M', 'R' } );
         CHECK( mode == 'S' ? gdxDataWriteStrStart( g, s.name.c_str(), "", s.dim, s.type, s.user ) : mode == 'M' ? gdxDataWriteMapStart( g, s.name.c_str(), "", s.dim, s.type, s.user ) : gdxDataWriteRawStart( g, s.name.c_str(), "", s.dim, s.type, s.user ), "start", "start refused" );
         KeyShape sh {};
         for( int d = 0; d < s.dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = nl; }
         auto recs = genKeys( r, s.dim, s.dim ? (int) r.in( 0, 40 ) : (int) r.in( 0, 1 ), sh, 1 );
         std::vector<Rec> order = recs;
         if( mode != 'R' ) r.shuffle( order );
         std::map<std::vector<int>, std::array<Field, 5>> st;
         for( auto &x: order )
         {
            if( mode == 'R' && r.chance( 1, 20 ) ) change();
            std::array<Field, 5> f;
            for( int v = 0; v < nvals( s.type ); v++ )
            {
               double y;
               switch( r.in( 0, 3 ) )
               {
                  case 0: y = cur.v[r.in( 0, 4 )]; break;
                  case 1: do y = oddVal( r ); while( y >= 9.999e300 && !std::isinf( y ) ); break;
                  case 2: y = (double) r.in( -3, 3 ) / 2; break;
                  default: do y = fromBits( r.next() ); while( y >= 9e300 && !std::isinf( y ) );
               }
               x.v[v] = y;
               f[(size_t) v] = stored( cur, y );
               h = h * 31 + bits( y );
               if( f[(size_t) v].code >= 0 ) count( "special_fields_written" ); else count( "ordinary_fields_written" );
               note( "code", (u64) ( f[(size_t) v].code + 1 ) );
            }
            st[std::vector<int>( x.k, x.k + s.dim )] = f;
            const char *kp[MAXD];
            int um[MAXD];
            for( int d = 0; d < s.dim; d++ ) { kp[d] = w.c.uels[(size_t) x.k[d] - 1].c_str(); um[d] = w.uel2usr.at( x.k[d] ); }
            CHECK( mode == 'S' ? gdxDataWriteStr( g, kp, x.v ) : mode == 'M' ? gdxDataWriteMap( g, um, x.v ) : gdxDataWriteRaw( g, x.k, x.v ), "write", "record refused" );
         }
         CHECK( gdxDataWriteDone( g ), "done", "done refused" );
         if( !s.dim && st.empty() )
         {
            Rec d = defaultRec( s.type, s.user );
            std::array<Field, 5> f;
            for( int v = 0; v < 5; v++ ) f[(size_t) v] = stored( DEF, d.v[v] );
            st[{}] = f;
            count( "default_records" );
         }
         for( auto &x: st ) s.recs.push_back( x );
         syms.push_back( s );
      }
      int rc = gdxClose( g );
      CHECK( rc == 0, "close", "close returned %d", rc );
   }
   Gdx g;
   int err = 0, n, df;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "openread", "reopen refused" );
   Map cur = DEF, rd = DEF;
   gdxUELRegisterMapStart( g );
   for( int i = 1; i <= nl; i++ ) { char b[256]; int m; gdxUMUelGet( g, i, b, &m ); CHECK( gdxUELRegisterMap( g, i, b ), "reg", "register" ); }
   gdxUELRegisterDone( g );
   for( int pass = 0; pass < 3; pass++ )
   {
      if( r.chance( 1, 4 ) ) { CHECK( gdxResetSpecialValues( g ), "reset", "reset refused" ); cur = rd = DEF; }
      else if( r.chance( 1, 2 ) ) { cur = rd = genMap( r ); apiSet( g, cur, false ); rch = true; }
      else { rd = genMap( r ); if( r.chance( 1, 3 ) ) rd.v[r.in( 0, 4 )] = rd.v[r.in( 0, 4 )]; apiSet( g, rd, true ); rch = true; }
      expectMap( g, r, cur );
      if( r.chance( 1, 3 ) ) tryBad( g, r, cur );
      for( size_t i = 0; i < syms.size(); i++ )
      {
         SymX &s = syms[i];
         int how = (int) r.in( 0, 3 ), nr = (int) i + 1;
         std::vector<Rec> got;
         Rec x {};
         std::array<std::array<char, 256>, MAXD> kb;
         char *kp[MAXD];
         for( int d = 0; d < MAXD; d++ ) kp[d] = kb[(size_t) d].data();
         std::vector<Map> at;// representation in force when the record was delivered
         if( how == 0 )
         {
            CHECK( gdxDataReadRawStart( g, nr, &n ), "rs", "start" );
            for( ;; )
            {
               if( r.chance( 1, 20 ) ) { cur = rd = genMap( r ); apiSet( g, cur, false ); }
               if( !gdxDataReadRaw( g, x.k, x.v, &df ) ) break;
               got.push_back( x );
               at.push_back( rd );
            }
         }
         else if( how == 1 )
         {
            CHECK( gdxDataReadStrStart( g, nr, &n ), "rs", "start" );
            while( gdxDataReadStr( g, kp, x.v, &df ) ) { for( int d = 0; d < s.dim; d++ ) { int m; gdxUMFindUEL( g, kp[d], &x.k[d], &m ); } got.push_back( x ); }
         }
         else if( how == 2 )
         {
            CHECK( gdxDataReadMapStart( g, nr, &n ), "rs", "start" );
            for( int q = 1; gdxDataReadMap( g, q, x.k, x.v, &df ); q++ ) got.push_back( x );
         }
         else
         {
            g_fast = &got; g_dim = s.dim; g_nv = nvals( s.type );
            CHECK( gdxDataReadRawFastEx( g, nr, fastCb, &n, nullptr ), "rs", "start" );
         }
         gdxDataReadDone( g );
         CHECK( got.size() == s.recs.size(), "recs", "%zu records, expected %zu", got.size(), s.recs.size() );
         for( size_t q = 0; q < got.size(); q++ )
            for( int v = 0; v < nvals( s.type ); v++ )
            {
               const Field &f = s.recs[q].second[(size_t) v];
               double ex = seen( q < at.size() ? at[q] : rd, f );
               CHECK( bits( ex ) == bits( got[q].v[v] ), "value", "symbol '%s' record %zu field %d (read way %d, stored code %d): %.17g (%016llx), expected %.17g (%016llx)", s.name.c_str(), q + 1, v, how, f.code, got[q].v[v], (unsigned long long) bits( got[q].v[v] ), ex, (unsigned long long) bits( ex ) );
               count( "fields_compared" );
            }
      }
   }
   gdxClose( g );
   if( wch && rch ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu symbols over %d labels", (unsigned long long) idx, syms.size(), nl ) );
}
