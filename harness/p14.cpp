// P14: twin monitor for refused calls.  Object A receives a random sequence of API calls in any state and
// with hostile arguments; object B receives the same sequence without the calls A refused.  A monitor-side
// automaton of the documented states tells which calls must be refused.  Every answer of A and B to the
// calls both received is compared, and so are the files finally written; refused calls must be reported
// through the error interface with an explanation; ASan/UBSan watch all of it.
#include "trans.hpp"
const char *MON_RULE = "sequence with refused calls == sequence without them; calls outside the documented states are refused";

enum Mode { CLOSED, R_INIT, R_RAW, R_MAP, R_STR, R_SLICE, R_FILT, W_INIT, W_DRAW, W_DMAP, W_DSTR, W_RAW, W_MAP, W_STR, E_RAW, E_MAP, E_STR, NMODE };
static const char *MN[] = { "closed", "read", "read-raw", "read-map", "read-str", "slice", "filter", "write", "dom-raw", "dom-map", "dom-str", "write-raw", "write-map", "write-str", "reg-raw", "reg-map", "reg-str" };
typedef unsigned MS;
static MS ms( std::initializer_list<int> l ) { MS m = 0; for( int x: l ) m |= 1u << x; return m; }
static const MS ALL = ( 1u << NMODE ) - 1, ANYW = ms( { W_INIT, W_DRAW, W_DMAP, W_DSTR, W_RAW, W_MAP, W_STR } ), ANYR = ms( { R_INIT, R_RAW, R_MAP, R_STR } ), OPEN = ALL & ~1u;

enum Op { O_OPENW, O_OPENA, O_OPENR, O_OPENBAD, O_CLOSE,
          O_WSTRS, O_WRAWS, O_WMAPS, O_WRAWB, O_WSTR, O_WRAW, O_WMAP, O_WDONE, O_SETDOM, O_SETDOMX,
          O_REGRAWS, O_REGMAPS, O_REGSTRS, O_REGRAW, O_REGMAP, O_REGSTR, O_REGDONE,
          O_ALIAS, O_COMMENT, O_ACRADD, O_ACRSET, O_TEXT, O_NODE, O_RENAME,
          O_RRAWS, O_RMAPS, O_RSTRS, O_RFILTS, O_RRAW, O_RMAP, O_RSTR, O_RDONE,
          O_SLICES, O_SLICE, O_SLICEU, O_FILTS, O_FILT, O_FILTD,
          O_FAST, O_FASTEX, O_FASTF, O_DOMEL, O_IDXLEN, O_SETSV,
          O_QUERY, NOP };
static const char *ON[] = { "OpenWrite", "OpenAppend", "OpenRead", "OpenRead(bad)", "Close", "WriteStrStart", "WriteRawStart", "WriteMapStart", "WriteRawStartKeyBounds", "WriteStr", "WriteRaw", "WriteMap", "WriteDone",
                           "SetDomain", "SetDomainX", "RegRawStart", "RegMapStart", "RegStrStart", "RegRaw", "RegMap", "RegStr", "RegDone", "AddAlias", "AddComment", "AcronymAdd", "AcronymSetInfo", "AddSetText",
                           "SetTextNodeNr", "RenameUEL", "ReadRawStart", "ReadMapStart", "ReadStrStart", "ReadFilteredStart", "ReadRaw", "ReadMap", "ReadStr", "ReadDone", "SliceStart", "Slice", "SliceUELS", "FilterStart",
                           "FilterRegister", "FilterDone", "RawFast", "RawFastEx", "RawFastFilt", "DomainElements", "SymbIndxMaxLength", "SetSpecialValues", "query" };
static MS allowed( int op )
{
   switch( op )
   {
      case O_OPENW: case O_OPENA: case O_OPENR: return ms( { CLOSED } );
      case O_OPENBAD: return 0;
      case O_CLOSE: return ALL;
      case O_WSTRS: case O_WRAWS: case O_WMAPS: case O_WRAWB: return ms( { W_INIT } );
      case O_WSTR: return ms( { W_DSTR, W_STR } );
      case O_WRAW: return ms( { W_DRAW, W_RAW } );
      case O_WMAP: return ms( { W_DMAP, W_MAP } );
      case O_WDONE: return ms( { W_DSTR, W_STR, W_DRAW, W_RAW, W_DMAP, W_MAP } );
      case O_SETDOM: return ms( { W_DSTR, W_DRAW, W_DMAP } );
      case O_SETDOMX: case O_ALIAS: case O_COMMENT: return ANYW;
      case O_REGRAWS: return ms( { W_INIT } );
      case O_REGMAPS: case O_REGSTRS: return ms( { W_INIT, R_INIT } );
      case O_REGRAW: return ms( { E_RAW } );
      case O_REGMAP: return ms( { E_MAP } );
      case O_REGSTR: return ms( { E_STR } );
      case O_REGDONE: return ms( { E_RAW, E_MAP, E_STR } );
      case O_ACRADD: case O_ACRSET: case O_TEXT: case O_NODE: case O_RENAME: return OPEN;
      case O_RRAWS: case O_RMAPS: case O_RSTRS: case O_RFILTS: case O_SLICES: case O_FAST: case O_FASTEX: case O_FASTF: case O_DOMEL: return ANYR;
      case O_RRAW: return ms( { R_RAW } );
      case O_RMAP: return ms( { R_MAP } );
      case O_RSTR: return ms( { R_STR } );
      case O_RDONE: return ANYR | ms( { R_SLICE } );
      case O_SLICE: case O_SLICEU: return ms( { R_SLICE } );
      case O_FILTS: return ms( { R_INIT } );
      case O_FILT: case O_FILTD: return ms( { R_FILT } );
      case O_IDXLEN: return ms( { R_INIT } );
   }
   return ALL;
}
struct Call {
   int op = 0, a = 0, b = 0, c = 0, d = 0, q = 0;
   Str s, t;
   std::vector<Str> ks = std::vector<Str>( MAXD );
   int ki[MAXD] = {}, k2[MAXD] = {};
   double v[5] = {}, sv[GMS_SVIDX_MAX] = {};
};
struct Ans { int rc = 0; bool ok = false; Str out; };
static thread_local Str *t_out;
static thread_local int t_dim, t_nv, t_lim;
static Str rs( const int *k, const double *v, int dim, int nv )
{
   Str s;
   for( int i = 0; i < dim; i++ ) s += fmt( "%d,", k[i] );
   for( int i = 0; i < nv; i++ ) s += fmt( " %llx", (unsigned long long) bits( v[i] ) );
   return s + ";";
}
static void GDX_CALLCONV cb1( const int *k, const double *v ) { if( t_out->size() < 4000 ) *t_out += rs( k, v, t_dim, t_nv ); else t_lim++; }
static int GDX_CALLCONV cb2( const int *k, const double *v, int df, void * ) { *t_out += rs( k, v, t_dim, t_nv ) + fmt( "%d", df ); return --t_lim > 0; }
static int GDX_CALLCONV cb3( const int *k, const double *v, void * ) { *t_out += rs( k, v, t_dim, t_nv ); return --t_lim > 0; }
static void GDX_CALLCONV cb4( int r, int m, void * ) { if( t_out->size() < 4000 ) *t_out += fmt( "%d>%d;", r, m ); }

static Str g_dir;
struct Twin {
   Gdx g;
   Str tag;
   explicit Twin( const char *t ) : tag( t ) { gdxAutoConvert( g, 0 ); }
   Str path( const Str &n ) { return scratchFile( tag + n ); }
   int dimNow = 0, nvNow = 1;// of the read in progress
   Ans run( const Call &c )
   {
      Ans x;
      int n = -7, m = -7, df = 0, e = 0, k[MAXD] = {};
      double v[5] = {};
      const char *kp[MAXD];
      char buf[MAXD][GMS_SSSIZE], *bp[MAXD], s1[GMS_SSSIZE + 1] = "", s2[GMS_SSSIZE + 1] = "";
      for( int i = 0; i < MAXD; i++ ) { kp[i] = c.ks[(size_t) i].c_str(); bp[i] = buf[i]; buf[i][0] = 0; }
      Str out;
      t_out = &out;
      auto symShape = [&]( int nr ) {
         int t = 0;
         int dd = 0;
         char nm[GMS_SSSIZE];
         if( gdxSymbolInfo( g, nr, nm, &dd, &t ) ) { t_dim = dd; t_nv = nvals( t ); } else { t_dim = 0; t_nv = 0; }
      };
      switch( c.op )
      {
         case O_OPENW: x.rc = gdxOpenWriteEx( g, path( c.s ).c_str(), "p14", c.a, &e ); x.ok = x.rc != 0; out = fmt( "%d", x.ok ? e : 0 ); if( !x.ok ) n = e; break;
         case O_OPENA: x.rc = gdxOpenAppend( g, path( c.s ).c_str(), "p14", &e ); x.ok = x.rc != 0; out = fmt( "%d", x.ok ? e : 0 ); if( !x.ok ) n = e; break;
         case O_OPENR: x.rc = gdxOpenRead( g, path( c.s ).c_str(), &e ); x.ok = x.rc != 0; out = fmt( "%d", x.ok ? e : 0 ); if( !x.ok ) n = e; break;
         case O_OPENBAD:
            if( c.a == 0 ) x.rc = gdxOpenRead( g, c.s.c_str(), &e );
            else if( c.a == 1 ) x.rc = gdxOpenWrite( g, c.s.c_str(), "p14", &e );
            else x.rc = gdxOpenReadEx( g, c.s.c_str(), 0, &e );
            x.ok = x.rc != 0;
            n = e;
            break;
         case O_CLOSE: gdxClose( g ); x.ok = true; break;
         case O_WSTRS: x.rc = gdxDataWriteStrStart( g, c.s.c_str(), c.t.c_str(), c.a, c.b, c.c ); x.ok = x.rc != 0; break;
         case O_WRAWS: x.rc = gdxDataWriteRawStart( g, c.s.c_str(), c.t.c_str(), c.a, c.b, c.c ); x.ok = x.rc != 0; break;
         case O_WMAPS: x.rc = gdxDataWriteMapStart( g, c.s.c_str(), c.t.c_str(), c.a, c.b, c.c ); x.ok = x.rc != 0; break;
         case O_WRAWB: x.rc = gdxDataWriteRawStartKeyBounds( g, c.s.c_str(), c.t.c_str(), c.a, c.b, c.c, c.ki, c.k2 ); x.ok = x.rc != 0; break;
         case O_WSTR: x.rc = gdxDataWriteStr( g, kp, c.v ); x.ok = x.rc != 0; break;
         case O_WRAW: x.rc = gdxDataWriteRaw( g, c.ki, c.v ); x.ok = x.rc != 0; break;
         case O_WMAP: x.rc = gdxDataWriteMap( g, c.ki, c.v ); x.ok = x.rc != 0; break;
         case O_WDONE: x.rc = gdxDataWriteDone( g ); x.ok = x.rc != 0; break;
         case O_SETDOM: x.rc = gdxSymbolSetDomain( g, kp ); x.ok = x.rc != 0; break;
         case O_SETDOMX: x.rc = gdxSymbolSetDomainX( g, c.a, kp ); x.ok = x.rc != 0; break;
         case O_REGRAWS: x.rc = gdxUELRegisterRawStart( g ); x.ok = x.rc != 0; break;
         case O_REGMAPS: x.rc = gdxUELRegisterMapStart( g ); x.ok = x.rc != 0; break;
         case O_REGSTRS: x.rc = gdxUELRegisterStrStart( g ); x.ok = x.rc != 0; break;
         case O_REGRAW: x.rc = gdxUELRegisterRaw( g, c.s.c_str() ); x.ok = x.rc != 0; break;
         case O_REGMAP: x.rc = gdxUELRegisterMap( g, c.a, c.s.c_str() ); x.ok = x.rc != 0; break;
         case O_REGSTR: x.rc = gdxUELRegisterStr( g, c.s.c_str(), &n ); x.ok = x.rc != 0; if( x.ok ) out = fmt( "%d", n ); break;
         case O_REGDONE: x.rc = gdxUELRegisterDone( g ); x.ok = x.rc != 0; break;
         case O_ALIAS: x.rc = gdxAddAlias( g, c.s.c_str(), c.t.c_str() ); x.ok = x.rc != 0; break;
         case O_COMMENT: x.rc = gdxSymbolAddComment( g, c.a, c.t.c_str() ); x.ok = x.rc != 0; break;
         case O_ACRADD: x.rc = gdxAcronymAdd( g, c.s.c_str(), c.t.c_str(), c.a ); x.ok = x.rc >= 0; break;
         case O_ACRSET: x.rc = gdxAcronymSetInfo( g, c.a, c.s.c_str(), c.t.c_str(), c.b ); x.ok = x.rc != 0; break;
         case O_TEXT: x.rc = gdxAddSetText( g, c.t.c_str(), &n ); x.ok = x.rc != 0; if( x.ok ) out = fmt( "%d", n ); break;
         case O_NODE: x.rc = gdxSetTextNodeNr( g, c.a, c.b ); x.ok = x.rc != 0; break;
         case O_RENAME: x.rc = gdxRenameUEL( g, c.s.c_str(), c.t.c_str() ); x.ok = x.rc == 0; break;
         case O_RRAWS: x.rc = gdxDataReadRawStart( g, c.a, &n ); x.ok = x.rc != 0; goto rstart;
         case O_RMAPS: x.rc = gdxDataReadMapStart( g, c.a, &n ); x.ok = x.rc != 0; goto rstart;
         case O_RSTRS: x.rc = gdxDataReadStrStart( g, c.a, &n ); x.ok = x.rc != 0; goto rstart;
         case O_RFILTS: x.rc = gdxDataReadFilteredStart( g, c.a, c.ki, &n ); x.ok = x.rc != 0;
         rstart:
            if( x.ok ) { out = fmt( "%d", n ); symShape( c.a ); dimNow = t_dim; nvNow = t_nv; }
            break;
         case O_RRAW: x.rc = gdxDataReadRaw( g, k, v, &df ); x.ok = x.rc != 0; if( x.ok ) out = rs( k, v, dimNow, nvNow ) + fmt( "%d", df ); break;
         case O_RMAP: x.rc = gdxDataReadMap( g, c.a, k, v, &df ); x.ok = x.rc != 0; if( x.ok ) out = rs( k, v, dimNow, nvNow ) + fmt( "%d", df ); break;
         case O_RSTR:
            x.rc = gdxDataReadStr( g, bp, v, &df );
            x.ok = x.rc != 0;
            if( x.ok ) { for( int i = 0; i < dimNow; i++ ) out += Str( buf[i] ) + "|"; out += rs( k, v, 0, nvNow ) + fmt( "%d", df ); }
            break;
         case O_RDONE: x.rc = gdxDataReadDone( g ); x.ok = x.rc != 0; break;
         case O_SLICES:
            x.rc = gdxDataReadSliceStart( g, c.a, k );
            x.ok = x.rc != 0;
            if( x.ok ) { symShape( c.a ); dimNow = t_dim; nvNow = t_nv; out = rs( k, v, MAXD, 0 ); }
            break;
         case O_SLICE:
            t_dim = 0;
            for( int i = 0; i < dimNow; i++ ) if( c.ks[(size_t) i].empty() ) t_dim++;
            t_nv = nvNow;
            x.rc = gdxDataReadSlice( g, kp, &n, cb1 );
            x.ok = x.rc != 0;
            if( x.ok ) out += fmt( " dim %d", n );
            else CHECK( out.empty(), "refused-slice-delivers", "gdxDataReadSlice delivered records although it was refused: %s", out.c_str() );
            break;
         case O_SLICEU: x.rc = gdxDataSliceUELS( g, c.ki, bp ); x.ok = x.rc != 0; if( x.ok ) for( int i = 0; i < dimNow; i++ ) out += Str( buf[i] ) + "|"; break;
         case O_FILTS: x.rc = gdxFilterRegisterStart( g, c.a ); x.ok = x.rc != 0; break;
         case O_FILT: x.rc = gdxFilterRegister( g, c.a ); x.ok = x.rc != 0; break;
         case O_FILTD: x.rc = gdxFilterRegisterDone( g ); x.ok = x.rc != 0; break;
         case O_FAST: symShape( c.a ); x.rc = gdxDataReadRawFast( g, c.a, cb1, &n ); x.ok = x.rc != 0; if( x.ok ) out += fmt( " n %d", n ); goto fast;
         case O_FASTEX: symShape( c.a ); t_lim = c.b; x.rc = gdxDataReadRawFastEx( g, c.a, cb2, &n, nullptr ); x.ok = x.rc != 0; if( x.ok ) out += fmt( " n %d", n ); goto fast;
         case O_FASTF: symShape( c.a ); t_lim = c.b; x.rc = gdxDataReadRawFastFilt( g, c.a, kp, cb3 ); x.ok = x.rc != 0;
         fast:
            break;
         case O_DOMEL: x.rc = gdxGetDomainElements( g, c.a, c.b, c.c, c.d ? cb4 : nullptr, &n, nullptr ); x.ok = x.rc != 0; if( x.ok ) out += fmt( " n %d", n ); break;
         case O_IDXLEN: x.rc = gdxSymbIndxMaxLength( g, c.a, k ); x.ok = true; out = rs( k, v, MAXD, 0 ) + fmt( "%d", x.rc ); break;
         case O_SETSV: x.rc = gdxSetSpecialValues( g, c.sv ); x.ok = x.rc != 0; break;
         case O_QUERY: out = query( c ); x.ok = true; break;
      }
      x.out = out;
      if( !x.ok ) x.out = fmt( "%d", n );// error number of failed opens
      return x;
   }
   Str query( const Call &c )
   {
      int a = -9, b = -9, d = -9, k[MAXD] = {};
      double v[GMS_SVIDX_MAX] = {};
      char s1[GMS_SSSIZE + 1] = "", s2[GMS_SSSIZE + 1] = "", buf[MAXD][GMS_SSSIZE], *bp[MAXD];
      for( int i = 0; i < MAXD; i++ ) { bp[i] = buf[i]; buf[i][0] = 0; }
      int rc = 0;
      switch( c.q )
      {
         case 0: rc = gdxSymbolInfo( g, c.a, s1, &a, &b ); break;
         case 1: rc = gdxSymbolInfoX( g, c.a, &a, &b, s1 ); break;
         case 2: rc = gdxSymbolDim( g, c.a ); break;
         case 3: rc = gdxSymbolGetDomain( g, c.a, k ); break;
         case 4: rc = gdxSymbolGetDomainX( g, c.a, bp ); for( auto &x: buf ) if( rc ) strcat( s1, "" ), snprintf( s2, sizeof s2, "%.120s%.60s.", Str( s2 ).c_str(), x ); break;
         case 5: rc = gdxSymbolGetComment( g, c.a, c.b, s1 ); break;
         case 6: rc = gdxFindSymbol( g, c.s.c_str(), &a ); break;
         case 7: rc = gdxUMUelGet( g, c.a, s1, &a ); break;
         case 8: rc = gdxUMUelInfo( g, &a, &b ); break;
         case 9: rc = gdxGetUEL( g, c.a, s1 ); break;
         case 10: rc = gdxUMFindUEL( g, c.s.c_str(), &a, &b ); break;
         case 11: rc = gdxGetElemText( g, c.a, s1, &a ); break;
         case 12: rc = gdxSetHasText( g, c.a ); break;
         case 13: rc = gdxAcronymGetInfo( g, c.a, s1, s2, &a ); break;
         case 14: rc = gdxAcronymGetMapping( g, c.a, &a, &b, &d ); break;
         case 15: rc = gdxAcronymCount( g ); break;
         case 16: rc = gdxAcronymName( g, c.v[0], s1 ); break;
         case 17: rc = gdxSystemInfo( g, &a, &b ); break;
         case 18: rc = gdxFileInfo( g, &a, &b ); break;
         case 19: rc = gdxFileVersion( g, s1, s2 ); break;
         case 20: rc = gdxDataErrorCount( g ); break;
         case 21: rc = gdxDataErrorRecord( g, c.a, k, v ); break;
         case 22: rc = gdxDataErrorRecordX( g, c.a, k, v ); break;
         case 23: rc = gdxCurrentDim( g ); break;
         case 24: rc = gdxUELMaxLength( g ); break;
         case 25: rc = gdxSymbMaxLength( g ); break;
         case 26: rc = gdxGetSpecialValues( g, v ); break;
         case 27: rc = gdxMapValue( g, c.v[0], &a ); break;
         case 28: rc = gdxFilterExists( g, c.a ); break;
         case 29: rc = gdxAcronymIndex( g, c.v[0] ); v[0] = gdxAcronymValue( g, c.a ); break;
         case 30: rc = gdxGetMemoryUsed( g ) >= 0; break;
         case 31: rc = gdxGetDLLVersion( g, s1 ); break;
         case 32: rc = gdxGetElemText( g, c.b, s1, &a ); break;
         case 33: rc = gdxSymbolInfo( g, c.b, s1, &a, &b ); break;
         case 34: rc = gdxAcronymNextNr( g, c.ki[0] % 2 ? 100 + c.ki[0] % 50 : -1 ); break;
      }
      Str o = fmt( "q%d %d %d %d %d '%s' '%s' ", c.q, rc, a, b, d, s1, s2 );
      for( int x: k ) o += fmt( "%d,", x );
      for( double x: v ) o += fmt( "%llx,", (unsigned long long) bits( x ) );
      return o;
   }
};
constexpr int NQ = 35;

struct Run {
   Rng &r;
   Twin A { "A" }, B { "B" };
   int mode = CLOSED, after = W_INIT;
   bool wild = false;
   std::vector<Str> files;
   std::vector<Str> names { "i", "j", "a1", "p", "x_y", "Set1" };
   std::vector<Str> labels;
   std::vector<Str> written;// trace
   u64 refused = 0, done = 0;
   explicit Run( Rng &q ) : r( q ) { labels = genLabels( r, 8 ); }
   int nr()
   {
      int sy = 0, ue = 0;
      gdxSystemInfo( A.g, &sy, &ue );
      switch( r.in( 0, 9 ) )
      {
         case 0: return (int) r.pick( { -1, -2, INT32_MIN, INT32_MAX, 100, 1 << 30 } );
         case 1: return 0;
         case 2: return sy + (int) r.in( 0, 2 );
         case 3: return ue + (int) r.in( 0, 2 );
         default: return (int) r.in( 1, std::max( 1, sy ) );
      }
   }
   Str name()
   {
      switch( r.in( 0, 14 ) )
      {
         case 0: return r.pick( { Str( "" ), Str( "1a" ), Str( "a b" ), Str( 64, 'q' ), Str( 300, 'z' ), Str( "_x" ), Str( "*" ), Str( "a-b" ), Str( "\xc3\xa4" ) } );
         case 1: return Str( 63, (char) r.in( 'a', 'z' ) );
         case 2: case 3: return genIdent( r );
         case 4: return "*";
         default: return flipCase( r, r.pick( names ) );
      }
   }
   Str label()
   {
      switch( r.in( 0, 12 ) )
      {
         case 0: return r.pick( { Str( 64, 'q' ), Str( 255, 'w' ), Str( 256, 'w' ), Str( 400, 'z' ), Str( "a'b\"c" ), Str( "tab\tx" ), Str( "\x01" ), Str( 63, 'x' ) + "    ", Str( 300, ' ' ) } );
         case 1: return "";
         case 2: return "new" + fmt( "%d", (int) r.in( 1, 30 ) );
         default: return flipCase( r, r.pick( labels ) );
      }
   }
   Str text()
   {
      switch( r.in( 0, 6 ) )
      {
         case 0: return Str( (size_t) r.in( 250, 320 ), 't' );
         case 1: return "both ' and \" quotes";
         case 2: return "";
         default: return genText( r );
      }
   }
   Call make( int op )
   {
      Call c;
      c.op = op;
      c.s = name();
      c.t = text();
      c.a = nr();
      c.b = nr();
      for( double &v: c.v ) v = r.chance( 1, 6 ) ? r.pick( { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_EPS, GMS_SV_ACR, GMS_SV_ACR * 3, (double) NAN, (double) INFINITY, 1e300 } ) : (double) r.in( -3, 40 );
      int sy = 0, ue = 0, hm = 0;
      gdxSystemInfo( A.g, &sy, &ue );
      gdxUMUelInfo( A.g, &ue, &hm );
      for( int i = 0; i < MAXD; i++ )
      {
         c.ks[(size_t) i] = label();
         c.ki[i] = r.chance( 1, 12 ) ? ( wild ? (int) r.pick( { 0, -1, ue + 1, INT32_MAX, -1000, 70000 } ) : ( op == O_WRAW ? 1 : (int) r.pick( { 0, -1, ue + 5, hm + 1, INT32_MAX } ) ) ) : (int) r.in( 1, std::max( 1, std::min( 6, op == O_WMAP ? hm : ue ) ) );
         c.k2[i] = c.ki[i] < 1000000 ? c.ki[i] + (int) r.in( 0, 5 ) : c.ki[i];
      }
      switch( op )
      {
         case O_OPENW: case O_OPENA: case O_OPENR: c.s = files.empty() || r.chance( 1, 3 ) ? fmt( "f%d.gdx", (int) r.in( 0, 2 ) ) : r.pick( files ); c.a = (int) r.in( 0, 2 ); break;
         case O_OPENBAD: c.a = (int) r.in( 0, 2 ); c.s = r.pick( { Str( "" ), g_scratch + "/no/such/dir/x.gdx", g_scratch, g_scratch + "/nodir/y" } ); break;
         case O_WSTRS: case O_WRAWS: case O_WMAPS: case O_WRAWB:
            c.a = r.chance( 1, 6 ) ? (int) r.pick( { -1, 21, INT32_MAX, INT32_MIN, 20, 0, 5 } ) : (int) r.in( 0, 3 );
            c.b = r.chance( 1, 8 ) ? (int) r.pick( { -1, 5, INT32_MAX, 4, 100 } ) : (int) r.in( 0, 3 );
            c.c = r.chance( 1, 2 ) ? 0 : (int) r.in( 0, 10 );
            if( c.b == T_EQU ) c.c = (int) r.in( 53, 59 );
            if( c.b == T_ALIAS ) c.c = 0;
            for( int i = 0; i < MAXD; i++ ) { c.ki[i] = 1; c.k2[i] = r.chance( 1, 3 ) ? 300 : r.chance( 1, 2 ) ? 100 : 100000; if( wild && r.chance( 1, 4 ) ) c.ki[i] = (int) r.pick( { 0, 5, 50, 1000 } ), c.k2[i] = c.ki[i] + (int) r.in( 0, 400 ); }
            break;
         case O_WRAW: if( r.chance( 2, 3 ) ) { c.ki[0] = (int) r.in( 1, std::max( 1, ue ) ); } break;
         case O_SETDOM: case O_SETDOMX: for( auto &k: c.ks ) k = r.chance( 1, 2 ) ? Str( "*" ) : name(); break;
         case O_REGRAW: case O_REGSTR: c.s = label(); break;
         case O_REGMAP: c.s = label(); c.a = r.chance( 1, 6 ) ? (int) r.pick( { -1, INT32_MIN, 0, 100000 } ) : (int) r.in( 1, 12 ); break;
         case O_ALIAS: c.t = name(); break;
         case O_ACRADD: c.a = r.chance( 1, 5 ) ? (int) r.pick( { -1, 0, INT32_MAX } ) : (int) r.in( 1, 5 ); break;
         case O_ACRSET:
            c.b = (int) r.in( 0, 6 );
            if( int n = gdxAcronymCount( A.g ), o, x, y; n > 0 && r.chance( 2, 3 ) )
            {
               c.a = (int) r.in( 1, n );
               if( r.chance( 2, 3 ) && gdxAcronymGetMapping( A.g, c.a, &o, &x, &y ) ) c.b = r.chance( 1, 2 ) ? x : o;
               char nm[GMS_SSSIZE], tx[GMS_SSSIZE];
               if( r.chance( 1, 3 ) && gdxAcronymGetInfo( A.g, c.a, nm, tx, &o ) ) c.s = nm;
            }
            break;
         case O_NODE: break;
         case O_RENAME: c.s = label(); c.t = label(); break;
         case O_RFILTS: for( int i = 0; i < MAXD; i++ ) c.ki[i] = r.chance( 1, 5 ) ? (int) r.in( 1, 5 ) : r.chance( 1, 30 ) ? (int) r.pick( { -3, 99, INT32_MAX, INT32_MIN } ) : (int) r.in( -2, 0 ); break;
         case O_RMAP: c.a = (int) r.in( 0, 1 ); break;
         case O_SLICE: for( auto &k: c.ks ) k = r.chance( 2, 3 ) ? Str() : label(); break;
         case O_SLICEU: for( int &k: c.ki ) k = (int) r.in( 0, 3 ); break;
         case O_FILTS: c.a = r.chance( 1, 5 ) ? (int) r.pick( { 0, -1, INT32_MIN } ) : (int) r.in( 1, 5 ); break;
         case O_FILT: c.a = r.chance( 1, 4 ) ? (int) r.pick( { 0, -1, INT32_MAX, hm + 1 } ) : (int) r.in( 1, std::max( 1, hm ) ); break;
         case O_FASTEX: case O_FASTF: c.b = (int) r.pick( { 1, 2, 1000000 } ); for( auto &k: c.ks ) k = r.chance( 2, 3 ) ? Str() : label(); break;
         case O_DOMEL: c.b = r.chance( 1, 4 ) ? (int) r.pick( { 0, -1, 21, INT32_MAX } ) : (int) r.in( 1, 3 ); c.c = r.chance( 1, 3 ) ? (int) r.pick( { 1, 2, 99, -1 } ) : -2 /*DOMC_EXPAND*/; c.d = (int) r.in( 0, 1 ); break;
         case O_SETSV:
         {
            double base[] = { 1.0E300, 2.0E300, 3.0E300, 4.0E300, 5.0E300, 10.0E300, 0 };
            for( int i = 0; i < GMS_SVIDX_MAX && i < 7; i++ ) c.sv[i] = base[i];
            c.sv[GMS_SVIDX_UNDEF] = 1e300; c.sv[GMS_SVIDX_NA] = 2e300; c.sv[GMS_SVIDX_PINF] = 3e300; c.sv[GMS_SVIDX_MINF] = 4e300; c.sv[GMS_SVIDX_EPS] = 5e300;
            if( r.chance( 1, 2 ) ) c.sv[GMS_SVIDX_NA] = r.pick( { 1e300, 5e300 } );// clash: refused
            else c.sv[GMS_SVIDX_EPS] = r.pick( { 5e300, 7e299 } );
            break;
         }
         case O_QUERY: c.q = (int) r.in( 0, NQ - 1 ); if( c.q == 10 ) c.s = label(); break;
      }
      return c;
   }
   Str show( const Call &c, const Ans &a )
   {
      return fmt( "[%s] %s(%d,%d,'%.20s','%.20s',keys %d %d '%.12s') -> %d", MN[mode], ON[c.op], c.a, c.b, c.s.c_str(), c.t.c_str(), c.ki[0], c.ki[1], c.ks[0].c_str(), a.rc );
   }
   Str tail()
   {
      Str s;
      size_t n = written.size(), f = n > 14 ? n - 14 : 0;
      for( size_t i = f; i < n; i++ ) s += written[i] + "\n";
      return s;
   }
   bool pureOrSelf( int op ) { return op == O_QUERY || op == O_CLOSE || op == O_IDXLEN; }
   // refusals that are part of the documented dialogue: both objects see them
   bool dialogue( const Call &c )
   {
      bool in = ( allowed( c.op ) >> mode ) & 1;
      switch( c.op )
      {
         case O_WSTR: case O_WRAW: case O_WMAP: case O_SETDOM: case O_RRAW: case O_RMAP: case O_RSTR: return in;
         case O_DOMEL: case O_FASTF: case O_SLICES: case O_FAST: case O_FASTEX: return in && wild;
         case O_RMAPS: case O_RFILTS: return in && wild;
      }
      return false;
   }
   int wdim = 0, wrecs = 0;
   bool ran = false, lastOk = false;
   void step( const Call &c )
   {
      ran = false;
      bool w = ( c.op == O_WSTR || c.op == O_WRAW || c.op == O_WMAP ) && ( ( allowed( c.op ) >> mode ) & 1 );
      if( w && !wdim && wrecs++ ) return;// one record per scalar
      bool inMode = ( allowed( c.op ) >> mode ) & 1;
      bool both = pureOrSelf( c.op ) || dialogue( c );
      int before = gdxErrorCount( A.g );
      Ans a = A.run( c );
      ran = true;
      lastOk = a.ok;
      written.push_back( show( c, a ) );
      if( written.size() > 4000 ) written.erase( written.begin(), written.begin() + 2000 );
      count( fmt( "op_%s", ON[c.op] ).c_str() );
      done++;
      note( "op x state x refused", (u64) c.op * 1000 + (u64) mode * 10 + ( a.ok ? 1 : 0 ) );
      if( !inMode && !pureOrSelf( c.op ) )
         CHECK( !a.ok, "not-refused", "call outside its states was accepted (%s)\n%s", a.out.c_str(), tail().c_str() );
      if( !a.ok )
      {
         count( "refused_calls" );
         refused++;
         explain( c, a, inMode, before );
      }
      if( a.ok || both )
      {
         Ans b = B.run( c );
         CHECK( a.ok == b.ok && a.out == b.out && ( !a.ok || a.rc == b.rc ), "trace-left",
                "after a refused call the object answers differently from one that never got it: %s: '%s'(%d) vs '%s'(%d)\n%s", ON[c.op], a.out.substr( 0, 300 ).c_str(), a.rc, b.out.substr( 0, 300 ).c_str(), b.rc, tail().c_str() );
         count( "answers_compared" );
      }
      transition( c, a );
      if( !a.ok && r.chance( 1, 3 ) )
         for( int i = (int) r.in( 1, 3 ); i > 0; i-- )
         {
            Call q = make( O_QUERY );
            Str x = A.query( q ), y = B.query( q );
            CHECK( x == y, "trace-left", "after a refused call the object answers differently from one that never got it: %s vs %s\n%s", x.c_str(), y.c_str(), tail().c_str() );
            count( "answers_compared" );
         }
   }
   void explain( const Call &c, const Ans &a, bool inMode, int before )
   {
      char msg[GMS_SSSIZE] = "";
      if( c.op <= O_OPENBAD )
      {
         int e = atoi( a.out.c_str() );
         CHECK( e != 0, "no-error-number", "a refused open gave error number 0\n%s", tail().c_str() );
         gdxErrorStr( A.g, e, msg );
         CHECK( msg[0], "no-explanation", "error %d of a refused open has no explanation\n%s", e, tail().c_str() );
         count( "explanations_checked" );
         return;
      }
      bool reports = !( c.op == O_TEXT || c.op == O_NODE || c.op == O_RENAME );
      // the end of the data and an empty result are no errors
      if( inMode && ( c.op == O_RRAW || c.op == O_RMAP || c.op == O_RSTR || c.op == O_SLICE || c.op == O_FASTF || c.op == O_DOMEL || c.op == O_IDXLEN || c.op == O_RDONE || c.op == O_WDONE ) ) reports = false;
      if( reports )
      {
         int now = gdxErrorCount( A.g );
         CHECK( now > before || ( c.op == O_ACRSET && !inMode ), "not-reported", "the refused call did not raise the error count (%d -> %d)\n%s", before, now, tail().c_str() );
      }
      if( reports || r.chance( 1, 4 ) )
      {
         int e = gdxGetLastError( A.g );
         CHECK( e != 0 || !reports, "not-reported", "after the refused call gdxGetLastError gave 0\n%s", tail().c_str() );
         if( e )
         {
            gdxErrorStr( A.g, e, msg );
            CHECK( msg[0], "no-explanation", "error %d has no explanation\n%s", e, tail().c_str() );
            count( "explanations_checked" );
         }
         if( e < 0 )
         {// retrieving forgets the error; the first of several is kept until it is retrieved
            int again = gdxGetLastError( A.g );
            CHECK( again == 0, "not-cleared", "error %d was retrieved, yet gdxGetLastError then gave %d\n%s", e, again, tail().c_str() );
            if( mode != CLOSED && r.chance( 1, 4 ) )
            {
               int dom[MAXD], code[2], x, y, z;
               for( int i = 0; i < 2; i++ ) { if( i ) gdxAcronymGetMapping( A.g, -3, &x, &y, &z ); else gdxSymbolGetDomain( A.g, -3, dom ); code[i] = gdxGetLastError( A.g ); }
               CHECK( code[0] && code[1] && code[0] != code[1], "not-reported", "unknown symbol and acronym number gave the errors %d and %d", code[0], code[1] );
               int first = r.chance( 1, 2 ) ? 1 : 0, n = (int) r.in( 2, 4 ), b4 = gdxErrorCount( A.g );
               for( int i = 0; i < n; i++ ) if( ( i ? 1 - first : first ) ) gdxAcronymGetMapping( A.g, -3, &x, &y, &z ); else gdxSymbolGetDomain( A.g, -3, dom );
               CHECK( gdxErrorCount( A.g ) == b4 + n, "miscounted", "%d errors raised the error count from %d to %d", n, b4, gdxErrorCount( A.g ) );
               int got = gdxGetLastError( A.g );
               CHECK( got == code[first], "first-error", "of the errors %d, %d the first is to be kept, got %d", code[first], code[1 - first], got );
               CHECK( gdxGetLastError( A.g ) == 0, "not-cleared", "error %d was retrieved and is still there", got );
               count( "error_sequences" );
            }
         }
      }
   }
   void transition( const Call &c, const Ans &a )
   {
      bool in = ( allowed( c.op ) >> mode ) & 1;
      if( a.ok && c.op == O_WRAW )
      {
         int ue = 0, hm = 0;
         gdxUMUelInfo( A.g, &ue, &hm );
         for( int i = 0; i < wdim; i++ ) if( c.ki[i] < 1 || c.ki[i] > ue ) wild = true;
      }
      if( a.ok && c.op >= O_WSTRS && c.op <= O_WRAWB ) { wdim = c.a; wrecs = 0; }
      switch( c.op )
      {
         case O_OPENW: if( a.ok ) { mode = W_INIT; files.push_back( c.s ); } break;
         case O_OPENA: if( a.ok ) mode = W_INIT; break;
         case O_OPENR: if( a.ok ) mode = R_INIT; break;
         case O_CLOSE: mode = CLOSED; break;
         case O_WSTRS: if( a.ok ) { mode = W_DSTR; names.push_back( c.s ); } break;
         case O_WMAPS: if( a.ok ) { mode = W_DMAP; names.push_back( c.s ); } break;
         case O_WRAWS: case O_WRAWB: if( a.ok ) { mode = W_DRAW; names.push_back( c.s ); } break;
         case O_WSTR: if( in ) mode = W_STR; break;
         case O_WRAW: if( in ) mode = W_RAW; break;
         case O_WMAP: if( in ) mode = W_MAP; break;
         case O_SETDOM: if( in ) mode = mode == W_DSTR ? W_STR : mode == W_DRAW ? W_RAW : W_MAP; break;
         case O_WDONE: if( a.ok ) mode = W_INIT; break;
         case O_REGRAWS: if( a.ok ) { after = mode; mode = E_RAW; } break;
         case O_REGMAPS: if( a.ok ) { after = mode; mode = E_MAP; } break;
         case O_REGSTRS: if( a.ok ) { after = mode; mode = E_STR; } break;
         case O_REGDONE: if( a.ok ) mode = after; break;
         case O_RRAWS: if( a.ok ) mode = R_RAW; break;
         case O_RMAPS: case O_RFILTS: if( a.ok ) mode = R_MAP; else if( in && wild ) mode = R_INIT, resync(); break;
         case O_RSTRS: if( a.ok ) mode = R_STR; break;
         case O_RMAP: if( in && !a.ok && wild ) { resync(); break; } [[fallthrough]];
         case O_RRAW: case O_RSTR: if( in && !a.ok ) mode = R_INIT; break;
         case O_RDONE: if( a.ok ) mode = R_INIT; break;
         case O_SLICES: if( a.ok ) mode = R_SLICE; else if( in && wild ) resync(); break;
         case O_FILTS: if( a.ok ) mode = R_FILT; break;
         case O_FILTD: if( a.ok ) mode = R_INIT; break;
         case O_FAST: case O_FASTEX: case O_FASTF: case O_DOMEL: if( a.ok ) mode = R_INIT; else if( in && wild ) resync(); break;
      }
   }
   // with element numbers outside the label table in the file, a read may stop by itself: bring both to a known state
   void resync()
   {
      gdxDataReadDone( A.g );
      gdxDataReadDone( B.g );
      mode = R_INIT;
   }
};
static const std::vector<std::vector<int>> GOOD = {
   /*closed*/ { O_OPENW, O_OPENW, O_OPENA, O_OPENR, O_OPENR },
   /*r_init*/ { O_RRAWS, O_RMAPS, O_RSTRS, O_RFILTS, O_SLICES, O_FILTS, O_REGMAPS, O_REGSTRS, O_FAST, O_FASTEX, O_FASTF, O_DOMEL, O_IDXLEN, O_RENAME, O_CLOSE, O_ACRSET },
   /*raw*/ { O_RRAW, O_RRAW, O_RRAW, O_RDONE, O_RSTRS },
   /*map*/ { O_RMAP, O_RMAP, O_RMAP, O_RDONE },
   /*str*/ { O_RSTR, O_RSTR, O_RSTR, O_RDONE, O_RFILTS },
   /*slice*/ { O_SLICE, O_SLICE, O_SLICEU, O_RDONE },
   /*filt*/ { O_FILT, O_FILT, O_FILT, O_FILTD },
   /*w_init*/ { O_WSTRS, O_WSTRS, O_WRAWS, O_WMAPS, O_WRAWB, O_REGRAWS, O_REGMAPS, O_REGSTRS, O_ALIAS, O_COMMENT, O_ACRADD, O_ACRSET, O_TEXT, O_NODE, O_RENAME, O_SETDOMX, O_CLOSE, O_SETSV },
   { O_WRAW, O_WRAW, O_SETDOM, O_SETDOM }, { O_WMAP, O_WMAP, O_SETDOM, O_SETDOM }, { O_WSTR, O_WSTR, O_SETDOM, O_SETDOM },
   { O_WRAW, O_WRAW, O_WRAW, O_WRAW, O_WDONE, O_COMMENT }, { O_WMAP, O_WMAP, O_WMAP, O_WMAP, O_WDONE, O_ALIAS }, { O_WSTR, O_WSTR, O_WSTR, O_WSTR, O_WDONE, O_RENAME },
   { O_REGRAW, O_REGRAW, O_REGRAW, O_REGDONE }, { O_REGMAP, O_REGMAP, O_REGMAP, O_REGDONE }, { O_REGSTR, O_REGSTR, O_REGSTR, O_REGDONE } };

void monInit() {}
void monDone() {}
void runCase( u64, Rng &r )
{
   for( const char *t: { "A", "B" } )
      for( int i = 0; i < 3; i++ ) remove( scratchFile( fmt( "%sf%d.gdx", t, i ) ).c_str() );
   Run q( r );
   q.wild = r.chance( 1, 4 );
   int hostile = (int) r.pick( { 1, 3, 6 } ), n = (int) r.in( 40, 260 );
   bool closedPhase = r.chance( 1, 5 );
   for( int i = 0; i < n; i++ )
   {
      int op;
      if( closedPhase && i < 25 ) op = (int) r.in( O_CLOSE, NOP - 1 );
      else if( r.chance( hostile, 10 ) ) op = (int) r.in( 0, NOP - 1 );
      else op = r.pick( GOOD[(size_t) q.mode] );
      if( op == O_CLOSE && r.chance( 2, 3 ) ) op = O_QUERY;
      auto c = q.make( op );
      int before = q.mode;
      q.step( c );
      // the same call in the same state is refused again, as often as it is made
      for( int k = 0; q.ran && !q.lastOk && q.mode == before && k < 3 && r.chance( 1, 3 ); k++ )
      {
         q.step( c );
         CHECK( !q.ran || !q.lastOk, "accepted-later", "a refused call was accepted when it was repeated\n%s", q.tail().c_str() );
         count( "refused_calls_repeated" );
      }
   }
   q.step( q.make( O_CLOSE ) );
   std::set<Str> fs( q.files.begin(), q.files.end() );
   ReadOpts o;
   o.rawKeysOnly = q.wild;
   for( const Str &f: fs )
   {
      Content a = readFile( q.A.path( f ), o ), b = readFile( q.B.path( f ), o );
      Str d = diffContent( b, a );
      CHECK( d.empty(), "file-differs", "the file written with refused calls in between differs: %s\n%s", d.c_str(), q.tail().c_str() );
      count( "files_compared" );
      count( "symbols_compared", a.syms.size() );
   }
   note( "refused per sequence", q.refused / 4 );
   if( q.refused > 3 && q.done > 30 ) nontrivial( hashStr( q.tail() ) );
   if( g_case % 400 == 0 ) sample( fmt( "%llu calls, %llu refused, last: %s", (unsigned long long) q.done, (unsigned long long) q.refused, q.written.empty() ? "" : q.written.back().c_str() ) );
}
