#include "trans.hpp"
thread_local void ( *t_yield )() = nullptr;
void Log::f( const char *fm, ... )
{
   char b[2048];
   va_list ap;
   va_start( ap, fm );
   vsnprintf( b, sizeof b, fm, ap );
   va_end( ap );
   add( b );
}
Str firstDifference( const Log &a, const Log &b )
{
   size_t n = std::min( a.last.size(), b.last.size() );
   for( size_t i = 0; i < n; i++ ) if( a.last[i] != b.last[i] ) return fmt( "answer %zu: '%s' vs '%s'", i + 1, a.last[i].substr( 0, 300 ).c_str(), b.last[i].substr( 0, 300 ).c_str() );
   return fmt( "%zu vs %zu answers", a.last.size(), b.last.size() );
}
static Str recStr( const int *k, const double *v, int dim, int nv )
{
   Str s;
   for( int d = 0; d < dim; d++ ) s += fmt( "%d ", k[d] );
   for( int i = 0; i < nv; i++ ) s += fmt( "%016llx ", (unsigned long long) bits( v[i] ) );
   return s;
}
static thread_local Log *t_log;
static thread_local int t_dim, t_nv;
static thread_local long t_stop;
static void GDX_CALLCONV cbPlain( const int *k, const double *v ) { t_log->add( recStr( k, v, t_dim, t_nv ) ); }
static int GDX_CALLCONV cbEx( const int *k, const double *v, int df, void *u ) { ( (Log *) u )->add( recStr( k, v, t_dim, t_nv ) + fmt( "f%d", df ) ); return --t_stop != 0; }
static int GDX_CALLCONV cbFilt( const int *k, const double *v, void * ) { t_log->add( recStr( k, v, t_dim, t_nv ) ); return --t_stop != 0; }
static void GDX_CALLCONV cbDom( int raw, int mapped, void *u ) { ( (Log *) u )->f( "dom %d %d", raw, mapped ); }

void openReadLog( gdxHandle_t h, const Str &path, Log &log )
{
   int e = -1, rc = gdxOpenRead( h, path.c_str(), &e );
   log.f( "open %d %d", rc, e );
}
void readSession( gdxHandle_t h, Rng &r, Log &log, int ops )
{
   int n = 0, m = 0, a = 0, b = 0, c = 0, df = 0;
   char s1[512], s2[512];
   std::array<std::array<char, 256>, MAXD> kb;
   char *kp[MAXD];
   for( int d = 0; d < MAXD; d++ ) { kp[d] = kb[(size_t) d].data(); kb[(size_t) d][0] = 0; }
   gdxSystemInfo( h, &n, &m );
   log.f( "sys %d %d", n, m );
   s1[0] = s2[0] = 0;
   int rc = gdxFileVersion( h, s1, s2 );
   log.f( "ver %d %s", rc, s2 );
   auto pickSym = [&]() { return (int) r.in( 0, n ); };
   auto dimType = [&]( int sy, int &dim, int &nv ) { int t; s1[0] = 0; gdxSymbolInfo( h, sy, s1, &dim, &t ); nv = nvals( t ); log.f( "info %d %s %d %d", sy, s1, dim, t ); };
   std::vector<int> filters;
   for( int q = 0; q < ops; q++ )
   {
      int sy = pickSym(), dim = 0, nv = 1, k[MAXD] = {}, nr = -1;
      double v[5] = {};
      int op = (int) r.in( 0, 23 );
      long lim = r.chance( 1, 4 ) ? r.in( 0, 5 ) : 1000000000;
      switch( op )
      {
         case 0:
         case 1:
            dimType( sy, dim, nv );
            rc = gdxDataReadRawStart( h, sy, &nr );
            log.f( "raw %d %d", rc, nr );
            while( lim-- > 0 && gdxDataReadRaw( h, k, v, &df ) ) log.add( recStr( k, v, dim, nv ) + fmt( "f%d", df ) );
            log.f( "done %d", gdxDataReadDone( h ) );
            break;
         case 2:
         case 3:
            dimType( sy, dim, nv );
            rc = gdxDataReadStrStart( h, sy, &nr );
            log.f( "str %d %d", rc, nr );
            while( lim-- > 0 && gdxDataReadStr( h, kp, v, &df ) )
            {
               Str s;
               for( int d = 0; d < dim; d++ ) s += Str( kp[d] ) + "|";
               log.add( s + recStr( k, v, 0, nv ) + fmt( "f%d", df ) );
            }
            log.f( "done %d", gdxDataReadDone( h ) );
            break;
         case 4:
            dimType( sy, dim, nv );
            rc = gdxDataReadMapStart( h, sy, &nr );
            log.f( "map %d %d", rc, nr );
            for( int i = 1; lim-- > 0 && gdxDataReadMap( h, i, k, v, &df ); i++ ) log.add( recStr( k, v, dim, nv ) + fmt( "f%d", df ) );
            log.f( "done %d", gdxDataReadDone( h ) );
            log.f( "errs %d", gdxDataErrorCount( h ) );
            break;
         case 5:
            dimType( sy, dim, nv );
            t_log = &log; t_dim = dim; t_nv = nv; t_stop = 1000000000;
            rc = gdxDataReadRawFast( h, sy, cbPlain, &nr );
            log.f( "fast %d %d", rc, nr );
            break;
         case 6:
            dimType( sy, dim, nv );
            t_dim = dim; t_nv = nv; t_stop = lim + 1;
            rc = gdxDataReadRawFastEx( h, sy, cbEx, &nr, &log );
            log.f( "fastex %d %d", rc, nr );
            break;
         case 7:
         {
            dimType( sy, dim, nv );
            t_log = &log; t_dim = dim; t_nv = nv; t_stop = lim + 1;
            std::vector<Str> fs;
            const char *fp[MAXD];
            for( int d = 0; d < MAXD; d++ )
            {
               Str x;
               if( r.chance( 1, 3 ) && m ) { s1[0] = 0; gdxUMUelGet( h, (int) r.in( 1, std::min( m, 6 ) ), s1, &a ); x = s1; }
               if( r.chance( 1, 20 ) ) x = "not a label at all";
               fs.push_back( x );
            }
            for( int d = 0; d < MAXD; d++ ) fp[d] = fs[(size_t) d].c_str();
            rc = gdxDataReadRawFastFilt( h, sy, fp, cbFilt );
            log.f( "filt %d", rc );
            break;
         }
         case 8:
         {
            if( !sy ) break;
            dimType( sy, dim, nv );
            int cnt[MAXD] = {};
            rc = gdxDataReadSliceStart( h, sy, cnt );
            Str s = fmt( "slice %d", rc );
            for( int d = 0; d < dim; d++ ) s += fmt( " %d", cnt[d] );
            log.add( s );
            if( rc )
            {
               std::vector<Str> fs;
               const char *fp[MAXD];
               for( int d = 0; d < MAXD; d++ ) { Str x; if( r.chance( 1, 3 ) && m ) { gdxUMUelGet( h, (int) r.in( 1, std::min( m, 6 ) ), s1, &a ); x = s1; } fs.push_back( x ); }
               int free = 0;
               for( int d = 0; d < dim; d++ ) if( fs[(size_t) d].empty() ) free++;
               for( int d = 0; d < MAXD; d++ ) fp[d] = fs[(size_t) d].c_str();
               t_log = &log; t_dim = free; t_nv = nv;
               int dd = -1;
               rc = gdxDataReadSlice( h, fp, &dd, cbPlain );
               log.f( "sl %d %d", rc, dd );
               log.f( "done %d", gdxDataReadDone( h ) );
            }
            break;
         }
         case 9:
            s1[0] = 0; a = b = 0;
            rc = gdxSymbolInfoX( h, sy, &a, &b, s1 );
            log.f( "infox %d %d %d %s", rc, a, b, s1 );
            for( int i = 1; i < 4; i++ ) { rc = gdxSymbolGetComment( h, sy, i, s1 ); log.f( "com %d %s", rc, s1 ); }
            break;
         case 10:
            if( !sy ) break;
            dimType( sy, dim, nv );
            rc = gdxSymbolGetDomain( h, sy, k );
            log.add( "getdom " + recStr( k, v, dim, 0 ) + fmt( "%d", rc ) );
            rc = gdxSymbolGetDomainX( h, sy, kp );
            { Str s = fmt( "getdomx %d ", rc ); for( int d = 0; d < dim; d++ ) s += Str( kp[d] ) + "|"; log.add( s ); }
            log.f( "hastext %d", gdxSetHasText( h, sy ) );
            break;
         case 11:
            a = (int) r.in( -1, m + 1 ); b = -7; s1[0] = 0;
            rc = gdxUMUelGet( h, a, s1, &b );
            log.f( "umget %d %s %d", rc, s1, b );
            a = (int) r.in( 0, 30 ); s1[0] = 0;
            rc = gdxGetUEL( h, a, s1 );
            log.f( "getuel %d %s", rc, s1 );
            rc = gdxUMUelInfo( h, &a, &b );
            log.f( "uminfo %d %d %d", rc, a, b );
            if( m )
            {
               gdxUMUelGet( h, (int) r.in( 1, m ), s1, &b );
               Str q = flipCase( r, s1 ) + ( r.chance( 1, 2 ) ? "  " : "" );
               a = b = -7;
               rc = gdxUMFindUEL( h, q.c_str(), &a, &b );
               log.f( "umfind %d %d %d", rc, a, b );
            }
            break;
         case 12:
            a = (int) r.in( -1, 40 ); s1[0] = 0; b = -5;
            rc = gdxGetElemText( h, a, s1, &b );
            log.f( "text %d %s %d", rc, s1, b );
            break;
         case 13:
            log.f( "lens %d %d", gdxUELMaxLength( h ), gdxSymbMaxLength( h ) );
            if( sy ) { rc = gdxSymbIndxMaxLength( h, sy, k ); log.add( "imax " + recStr( k, v, 20, 0 ) + fmt( "%d", rc ) ); }
            break;
         case 14:
            log.f( "acr %d", gdxAcronymCount( h ) );
            for( int i = 1; i <= gdxAcronymCount( h ); i++ ) { s1[0] = s2[0] = 0; rc = gdxAcronymGetInfo( h, i, s1, s2, &a ); log.f( "acri %d %s %s %d", rc, s1, s2, a ); }
            break;
         case 15:// register some labels in the user numbering
         {
            rc = r.chance( 1, 2 ) ? gdxUELRegisterMapStart( h ) : 0;
            if( rc )
            {
               int base = (int) r.in( 0, 50 );
               for( int i = 0; i < 10 && m; i++ ) { int u = (int) r.in( 1, m ); s1[0] = 0; gdxUMUelGet( h, u, s1, &b ); if( u % 3 == 0 ) strcat( s1, " " ); log.f( "regm %d", gdxUELRegisterMap( h, base + u, s1 ) ); }
            }
            else
            {
               rc = gdxUELRegisterStrStart( h );
               for( int i = 0; i < 10 && m && rc; i++ ) { int u = (int) r.in( 1, m ); s1[0] = 0; gdxUMUelGet( h, u, s1, &b ); if( u % 3 == 0 ) strcat( s1, "  " ); a = -1; int z = gdxUELRegisterStr( h, s1, &a ); log.f( "regs %d %d", z, a ); }
            }
            log.f( "regdone %d", gdxUELRegisterDone( h ) );
            break;
         }
         case 16:// filter
         {
            int fn = (int) r.in( 1, 3 ), hi = 0;
            gdxUMUelInfo( h, &a, &hi );
            rc = gdxFilterRegisterStart( h, fn );
            log.f( "flt %d", rc );
            for( int i = 0; i < 8 && hi > 0; i++ ) log.f( "freg %d", gdxFilterRegister( h, (int) r.in( 1, hi ) ) );
            log.f( "fdone %d", gdxFilterRegisterDone( h ) );
            log.f( "fex %d %d", gdxFilterExists( h, fn ), gdxFilterExists( h, fn + 1 ) );
            filters.push_back( fn );
            break;
         }
         case 17:
         {
            dimType( sy, dim, nv );
            int act[MAXD];
            for( int d = 0; d < MAXD; d++ ) act[d] = !filters.empty() && r.chance( 1, 3 ) ? r.pick( filters ) : (int) r.in( -2, 0 );
            rc = gdxDataReadFilteredStart( h, sy, act, &nr );
            log.f( "filtered %d %d", rc, nr );
            for( int i = 1; rc && lim-- > 0 && gdxDataReadMap( h, i, k, v, &df ); i++ ) log.add( recStr( k, v, dim, nv ) );
            c = gdxDataErrorCount( h );
            log.f( "ferr %d", c );
            for( int i = 1; i <= c; i++ ) { rc = gdxDataErrorRecord( h, i, k, v ); log.add( recStr( k, v, dim, nv ) + fmt( "%d", rc ) ); }
            log.f( "done %d", gdxDataReadDone( h ) );
            break;
         }
         case 18:
            if( !sy ) break;
            dimType( sy, dim, nv );
            if( dim )
            {
               rc = gdxGetDomainElements( h, sy, (int) r.in( 1, dim ), -1, cbDom, &nr, &log );
               log.f( "domel %d %d", rc, nr );
            }
            break;
      }
      if( op == 19 )
      {// own representation of special values
         double sv[10] = {};
         rc = gdxGetSpecialValues( h, sv );
         log.f( "gsv %d %016llx %016llx %016llx", rc, (unsigned long long) bits( sv[0] ), (unsigned long long) bits( sv[1] ), (unsigned long long) bits( sv[4] ) );
         for( int i = 0; i < 5; i++ ) sv[i] = r.chance( 1, 2 ) ? sv[i] : r.pick( { -1.5, 7.0, 1e20, 0.125, -3e33, 42.0 } );
         rc = r.chance( 1, 3 ) ? gdxSetReadSpecialValues( h, sv ) : gdxSetSpecialValues( h, sv );
         log.f( "ssv %d %d", rc, gdxGetLastError( h ) );
         a = -1;
         rc = gdxMapValue( h, sv[r.in( 0, 4 )], &a );
         log.f( "mv %d %d", rc, a );
         if( r.chance( 1, 5 ) ) log.f( "rsv %d", gdxResetSpecialValues( h ) );
      }
      if( op == 20 )
      {
         int cnt = gdxAcronymCount( h );
         for( int i = 1; i <= cnt; i++ ) { s1[0] = s2[0] = 0; gdxAcronymGetInfo( h, i, s1, s2, &a ); Str nm = s1, tx = s2; log.f( "asi %d", gdxAcronymSetInfo( h, i, nm.c_str(), tx.c_str(), (int) r.in( 1, 200 ) ) ); }
         for( int i = 1; i <= cnt; i++ ) { a = b = c = -1; rc = gdxAcronymGetMapping( h, i, &a, &b, &c ); log.f( "agm %d %d %d %d", rc, a, b, c ); }
      }
      if( op == 21 && m )
      {
         s1[0] = 0;
         gdxUMUelGet( h, (int) r.in( 1, m ), s1, &a );
         Str nm = s1, nn = r.chance( 1, 4 ) ? nm : nm.substr( 0, 40 ) + fmt( "_%d", (int) r.in( 0, 99 ) );
         rc = gdxRenameUEL( h, nm.c_str(), nn.c_str() );
         log.f( "ren %d %d", rc, gdxGetLastError( h ) );
      }
      if( op == 22 )
      {// refused calls
         log.f( "ref %d", gdxDataWriteDone( h ) );
         log.f( "ref %d %d", gdxDataReadRawStart( h, n + 5, &nr ), gdxGetLastError( h ) );
         log.f( "ref %d %d", gdxDataReadRaw( h, k, v, &df ), gdxGetLastError( h ) );
         log.f( "ref %d", gdxDataErrorRecord( h, 3, k, v ) );
      }
      if( op == 23 )
      {
         s1[0] = 0; a = -1;
         rc = gdxAddSetText( h, genText( r ).c_str(), &a );
         log.f( "addtext %d %d", rc, a );
         b = gdxSetTextNodeNr( h, a, (int) r.in( 1, 99 ) );
         log.f( "node %d", b );
      }
      log.f( "lasterr %d count %d", gdxGetLastError( h ), gdxErrorCount( h ) );
   }
}

void writeSession( gdxHandle_t h, Rng &r, const Str &path, Log &log, const WOpts &o )
{
   int e = -1, rc;
   rc = o.byEnv ? gdxOpenWrite( h, path.c_str(), o.producer.c_str(), &e ) : gdxOpenWriteEx( h, path.c_str(), o.producer.c_str(), o.compr, &e );
   log.f( "openw %d %d", rc, e );
   if( !rc ) return;
   if( !o.byEnv ) gdxAutoConvert( h, 0 );
   std::vector<Str> lab = genLabels( r, o.size == 2 ? 3000 : (int) r.in( 2, o.size ? 300 : 30 ) );
   std::vector<Str> sets, names, given = lab;
   for( size_t i = 0; i < given.size(); i += 4 ) given[i] += i % 8 ? " " : "   ";// as handed over, with blanks behind
   int nl = (int) lab.size();
   std::vector<int> usr;
   int mode = (int) r.in( 0, 2 );
   if( mode == 0 ) { log.f( "rs %d", gdxUELRegisterStrStart( h ) ); for( auto &l: given ) { int nr = -1; rc = gdxUELRegisterStr( h, l.c_str(), &nr ); log.f( "r %d %d", rc, nr ); usr.push_back( nr ); } }
   if( mode == 1 ) { log.f( "rm %d", gdxUELRegisterMapStart( h ) ); int u = 0; for( auto &l: given ) { u += (int) r.in( 1, 3 ); log.f( "r %d", gdxUELRegisterMap( h, u, l.c_str() ) ); usr.push_back( u ); } }
   if( mode == 2 ) { log.f( "rr %d", gdxUELRegisterRawStart( h ) ); for( auto &l: given ) log.f( "r %d", gdxUELRegisterRaw( h, l.c_str() ) ); }
   log.f( "rdone %d", gdxUELRegisterDone( h ) );
   int nt = (int) r.in( 0, 8 ), maxText = 0;
   for( int i = 0; i < nt; i++ ) { int t = -1; Str x = genText( r ); rc = gdxAddSetText( h, x.c_str(), &t ); log.f( "text %d %d", rc, t ); maxText = std::max( maxText, t ); }
   if( r.chance( 1, 3 ) ) log.f( "acr %d", gdxAcronymAdd( h, genIdent( r ).c_str(), genText( r ).c_str(), (int) r.in( 1, 9 ) ) );
   int ns = (int) r.in( 1, o.size == 2 ? 3 : 6 );
   for( int i = 0; i < ns; i++ )
   {
      Str nm = r.chance( 1, 10 ) ? Str( "bad name" ) : r.chance( 1, 12 ) && !names.empty() ? r.pick( names ) : genIdent( r );
      int type = (int) r.in( 0, 3 ), dim = r.chance( 1, 3 ) ? 1 : genDim( r );
      if( r.chance( 1, 20 ) ) dim = 21;
      Str tx = genText( r );
      char wm = mode == 2 ? r.pick( { 'S', 'R' } ) : r.pick( { 'S', 'M', 'R' } );
      int ui = r.chance( 1, 2 ) ? 3 : r.pick( { 0, -1, 53, 59, INT32_MIN, INT32_MAX, -77, 100000 } );
      rc = wm == 'S' ? gdxDataWriteStrStart( h, nm.c_str(), tx.c_str(), dim, type, ui ) : wm == 'M' ? gdxDataWriteMapStart( h, nm.c_str(), tx.c_str(), dim, type, ui ) : gdxDataWriteRawStart( h, nm.c_str(), tx.c_str(), dim, type, ui );
      if( int fv, cl; o.levels && gdxFileInfo( h, &fv, &cl ) ) o.levels->push_back( cl );
      log.f( "start %d %d", rc, gdxGetLastError( h ) );
      if( !rc ) continue;
      names.push_back( nm );
      if( dim && !sets.empty() && r.chance( 1, 3 ) )
      {
         const char *p[MAXD];
         for( int d = 0; d < dim; d++ ) p[d] = r.chance( 1, 2 ) ? "*" : r.pick( sets ).c_str();
         log.f( "sd %d", gdxSymbolSetDomain( h, p ) );
      }
      if( type == T_SET && dim == 1 ) sets.push_back( nm );
      int n = o.size == 2 ? (int) r.in( 1000, 20000 ) : dim ? (int) r.in( 0, o.size ? 400 : 40 ) : 1;
      KeyShape sh {};
      for( int d = 0; d < dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = nl; }
      auto recs = genKeys( r, dim, n, sh, (int) r.in( 0, 1 ) );
      if( wm != 'R' ) r.shuffle( recs );
      if( recs.size() > 2 && r.chance( 1, 4 ) ) recs.push_back( recs[0] );// duplicate / out of order
      ValGen vg( r );
      for( auto &x: recs )
      {
         for( int v = 0; v < nvals( type ); v++ ) x.v[v] = type == T_SET ? (double) r.in( 0, maxText ) : vg.make( r );
         if( wm == 'R' ) rc = gdxDataWriteRaw( h, x.k, x.v );
         else if( wm == 'M' )
         {
            int k[MAXD];
            for( int d = 0; d < dim; d++ ) k[d] = usr[(size_t) x.k[d] - 1];
            if( r.chance( 1, 30 ) && dim ) k[dim - 1] = 99999999;
            rc = gdxDataWriteMap( h, k, x.v );
         }
         else
         {
            std::vector<Str> ks;
            const char *kp[MAXD];
            for( int d = 0; d < dim; d++ ) ks.push_back( r.chance( 1, 60 ) ? Str( "new " ) + lab[(size_t) x.k[d] - 1].substr( 0, 40 ) : r.chance( 1, 8 ) ? flipCase( r, lab[(size_t) x.k[d] - 1] ) + " " : lab[(size_t) x.k[d] - 1] );
            for( int d = 0; d < dim; d++ ) kp[d] = ks[(size_t) d].c_str();
            if( r.chance( 1, 40 ) && dim ) kp[0] = "bad\tlabel";
            rc = gdxDataWriteStr( h, kp, x.v );
         }
         if( !rc ) log.f( "refused %d", gdxGetLastError( h ) );
      }
      if( o.abandon && i == ns - 1 && r.chance( 1, 2 ) ) break;
      log.f( "done %d %d", gdxDataWriteDone( h ), gdxGetLastError( h ) );
      int ne = gdxDataErrorCount( h ), k[MAXD] = {};
      double v[5] = {};
      log.f( "errs %d", ne );
      for( int q = 1; q <= ne; q++ ) { rc = gdxDataErrorRecordX( h, q, k, v ); log.add( recStr( k, v, dim, nvals( type ) ) + fmt( "%d", rc ) ); }
      if( r.chance( 1, 6 ) ) log.f( "com %d", gdxSymbolAddComment( h, 0, genText( r ).c_str() ) );
      if( r.chance( 1, 6 ) && !sets.empty() ) log.f( "alias %d", gdxAddAlias( h, genIdent( r ).c_str(), r.pick( sets ).c_str() ) );
      if( r.chance( 1, 6 ) && dim ) { const char *p[MAXD]; Str id = genIdent( r ); for( int d = 0; d < dim; d++ ) p[d] = d % 2 ? "*" : id.c_str(); int sy = 0; gdxFindSymbol( h, nm.c_str(), &sy ); log.f( "sdx %d", gdxSymbolSetDomainX( h, sy, p ) ); }
   }
   int a, b;
   gdxSystemInfo( h, &a, &b );
   log.f( "sysinfo %d %d", a, b );
   log.f( "errcount %d %d", gdxErrorCount( h ), gdxGetLastError( h ) );
   if( o.close ) { rc = gdxClose( h ); log.f( "close %d", rc ); }
}
