// P17: damaged files never crash the reader
#include "trans.hpp"
#include "codec.hpp"
const char *MON_RULE = "a case takes a good file (written by the library or synthesised by the independent encoder in any version, byte order and compression), damages it (bits, bytes, interesting integers at any or at structural positions, insertions, deletions, duplications, splices of two files, damage inside sections before they are compressed) and opens and reads it completely through every reading interface under ASan+UBSan with limits on time and single allocations; also random bytes and other non-GDX inputs, which must be refused; the same object then has to read the good file with the same answers as a fresh one; non-trivial = distinct damaged byte sequences; opened = those that got past opening";
static thread_local long t_cnt;
static void GDX_CALLCONV cb1( const int *k, const double *v ) { t_cnt += (long) k[0] + ( v[0] > 0 ); }
static int GDX_CALLCONV cb2( const int *k, const double *v, int df, void * ) { t_cnt += (long) k[0] + ( v[0] > 0 ) + df; return 1; }
static int GDX_CALLCONV cb3( const int *k, const double *v, void * ) { t_cnt += (long) k[0] + ( v[0] > 0 ); return 1; }
static void GDX_CALLCONV cb4( int a, int b, void * ) { t_cnt += (long) a + b; }
// heap buffers of exactly the documented size, so that an overrun is seen
struct Buf {
   char *p;
   explicit Buf( size_t n ) : p( new char[n] ) { p[0] = 0; }
   ~Buf() { delete[] p; }
};
static void exhaust( gdxHandle_t h, Rng &r )
{
   int n = 0, m = 0, a, b, c, nr, df;
   gdxSystemInfo( h, &n, &m );
   Buf id( GMS_SSSIZE ), tx( GMS_SSSIZE ), tx2( GMS_SSSIZE );
   gdxFileVersion( h, tx.p, tx2.p );
   gdxFileInfo( h, &a, &b );
   std::vector<std::unique_ptr<Buf>> keys, doms;
   char *kp[MAXD], *dp[MAXD];
   for( int d = 0; d < MAXD; d++ ) { keys.emplace_back( new Buf( GMS_UEL_IDENT_SIZE ) ); kp[d] = keys.back()->p; doms.emplace_back( new Buf( GMS_SSSIZE ) ); dp[d] = doms.back()->p; }
   {
      Buf l( GMS_UEL_IDENT_SIZE );
      for( int i = 0; i <= std::min( m, 2000 ) + 1; i++ ) { gdxUMUelGet( h, i, l.p, &a ); gdxUMFindUEL( h, l.p, &a, &b ); }
      for( int i = -1; i < 40; i++ ) gdxGetElemText( h, i, tx.p, &a );
      gdxGetElemText( h, 2147483647, tx.p, &a );
      for( int i = 0; i <= std::min( gdxAcronymCount( h ), 200 ) + 1; i++ ) { gdxAcronymGetInfo( h, i, id.p, tx.p, &a ); gdxAcronymGetMapping( h, i, &a, &b, &c ); gdxAcronymName( h, a * 1e301, id.p ); }
      gdxUELMaxLength( h );
      gdxSymbMaxLength( h );
      if( r.chance( 1, 2 ) && gdxUELRegisterMapStart( h ) )
      {
         int u = 0;
         for( int i = 1; i <= std::min( m, 50 ); i++ ) { gdxUMUelGet( h, i, l.p, &a ); u += (int) r.in( 1, 3 ); gdxUELRegisterMap( h, u, l.p ); }
         gdxUELRegisterDone( h );
      }
      if( gdxFilterRegisterStart( h, 1 ) )
      {
         int hi = 0;
         gdxUMUelInfo( h, &a, &hi );
         for( int i = 1; i <= std::min( hi, 20 ); i += 2 ) gdxFilterRegister( h, i );
         gdxFilterRegisterDone( h );
      }
   }
   for( int sy = 0; sy <= std::min( n, 60 ); sy++ )
   {
      int dim = 0, type = 0;
      if( !gdxSymbolInfo( h, sy, id.p, &dim, &type ) ) continue;
      gdxSymbolInfoX( h, sy, &a, &b, tx.p );
      gdxSymbolDim( h, sy );
      gdxFindSymbol( h, id.p, &a );
      std::vector<int> k( (size_t) std::max( dim, 1 ) );// exactly the dimension announced
      std::vector<double> v( 5 );
      if( sy ) { std::vector<int> dn( (size_t) std::max( dim, 1 ) ); gdxSymbolGetDomain( h, sy, dn.data() ); gdxSymbolGetDomainX( h, sy, dp ); gdxSetHasText( h, sy ); }
      for( int i = 1; i < 4; i++ ) gdxSymbolGetComment( h, sy, i, tx.p );
      long got = 0;
      if( gdxDataReadRawStart( h, sy, &nr ) ) { while( gdxDataReadRaw( h, k.data(), v.data(), &df ) ) got++; }
      gdxDataReadDone( h );
      if( gdxDataReadStrStart( h, sy, &nr ) ) { while( gdxDataReadStr( h, kp, v.data(), &df ) ) for( int d = 0; d < dim; d++ ) t_cnt += (long) strlen( kp[d] ); }
      gdxDataReadDone( h );
      if( gdxDataReadMapStart( h, sy, &nr ) ) for( int i = 1; gdxDataReadMap( h, i, k.data(), v.data(), &df ); i++ ) t_cnt++;
      gdxDataReadDone( h );
      int act[MAXD];
      for( int d = 0; d < MAXD; d++ ) act[d] = (int) r.in( -2, 1 );
      if( gdxDataReadFilteredStart( h, sy, act, &nr ) ) for( int i = 1; gdxDataReadMap( h, i, k.data(), v.data(), &df ); i++ ) t_cnt++;
      int ne = gdxDataErrorCount( h );
      for( int i = 1; i <= ne; i++ ) gdxDataErrorRecordX( h, i, k.data(), v.data() );
      gdxDataReadDone( h );
      gdxDataReadRawFast( h, sy, cb1, &nr );
      gdxDataReadRawFastEx( h, sy, cb2, &nr, nullptr );
      const char *fp[MAXD];
      for( int d = 0; d < MAXD; d++ ) fp[d] = "";
      if( dim ) fp[0] = kp[0];
      gdxDataReadRawFastFilt( h, sy, fp, cb3 );
      if( sy )
      {
         int lens[MAXD];
         gdxSymbIndxMaxLength( h, sy, lens );
         for( int d = 1; d <= dim; d++ ) gdxGetDomainElements( h, sy, d, r.chance( 1, 3 ) ? 1 : -1, cb4, &nr, nullptr );
         int cnt[MAXD];
         if( gdxDataReadSliceStart( h, sy, cnt ) )
         {
            for( int d = 0; d < MAXD; d++ ) fp[d] = "";
            if( dim > 1 && kp[1][0] ) fp[1] = kp[1];
            gdxDataReadSlice( h, fp, &nr, cb1 );
            int sk[MAXD] = {};
            gdxDataSliceUELS( h, sk, kp );
         }
         gdxDataReadDone( h );
      }
      count( "records_of_damaged_files", (u64) got );
   }
   gdxErrorStr( h, gdxGetLastError( h ), tx.p );
}
static const int INTERESTING[] = { 0, 1, -1, 2, 3, 4, 19, 20, 21, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, (int) 0x80000000, 0x7ffffffe, 1000000, 100000000, -256, 0x00ffffff };
static void damage( Rng &r, Str &s, const std::vector<int64_t> &spots )
{
   if( s.empty() ) return;
   int n = r.chance( 1, 2 ) ? 1 : (int) r.in( 1, 8 );
   while( n-- > 0 && !s.empty() )
   {
      size_t p = (size_t) r.in( 0, (int64_t) s.size() - 1 );
      if( !spots.empty() && r.chance( 1, 2 ) )
      {
         int64_t q = r.pick( spots ) + r.in( 0, r.chance( 1, 2 ) ? 12 : 120 );
         if( q >= 0 && q < (int64_t) s.size() ) p = (size_t) q;
      }
      switch( (int) r.in( 0, 9 ) )
      {
         case 0: s[p] = (char) ( s[p] ^ ( 1 << r.in( 0, 7 ) ) ); break;
         case 1: s[p] = (char) r.in( 0, 255 ); break;
         case 2: s[p] = r.pick( { (char) 0, (char) 1, (char) 20, (char) 127, (char) 128, (char) 254, (char) 255 } ); break;
         case 3:
         case 4: { int v = INTERESTING[r.in( 0, (int64_t) ( sizeof INTERESTING / sizeof( int ) ) - 1 )]; if( r.chance( 1, 8 ) ) v = (int) __builtin_bswap32( (unsigned) v ); for( size_t i = 0; i < 4 && p + i < s.size(); i++ ) s[p + i] = ( (char *) &v )[i]; break; }
         case 5: { int64_t v = r.chance( 1, 2 ) ? r.in( 0, (int64_t) s.size() + 10 ) : (int64_t) r.next() >> r.in( 0, 60 ); for( size_t i = 0; i < 8 && p + i < s.size(); i++ ) s[p + i] = ( (char *) &v )[i]; break; }
         case 6: s.erase( p, (size_t) r.in( 1, r.chance( 1, 2 ) ? 4 : 200 ) ); break;
         case 7: s.insert( p, Str( (size_t) r.in( 1, r.chance( 1, 2 ) ? 4 : 200 ), (char) r.in( 0, 255 ) ) ); break;
         case 8: { size_t q = (size_t) r.in( 0, (int64_t) s.size() - 1 ), l = (size_t) r.in( 1, 64 ); Str x = s.substr( q, l ); for( size_t i = 0; i < x.size() && p + i < s.size(); i++ ) s[p + i] = x[i]; break; }
         case 9: if( r.chance( 1, 3 ) ) s.resize( p ); else { int d = (int) r.in( -3, 3 ); s[p] = (char) ( s[p] + d ); } break;
      }
   }
}
static void tryFile( Gdx &g, const Str &path, Rng &r, bool &opened )
{
   int e = 0;
   int rc = r.chance( 1, 6 ) ? gdxOpenReadEx( g, path.c_str(), (int) r.in( 0, 1 ), &e ) : gdxOpenRead( g, path.c_str(), &e );
   opened = rc && !e;
   if( !opened )
   {
      CHECK( e != 0, "open", "refused without an error number" );
      Buf t( GMS_SSSIZE );
      gdxErrorStr( g, e, t.p );
      CHECK( t.p[0], "open", "error %d is not explained", e );
      note( "refusals", (u64) (unsigned) e );
      if( rc ) gdxClose( g );
      count( "refused" );
   }
   else
   {
      exhaust( g, r );
      Log l;
      readSession( g, r, l, 12 );
      count( "opened" );
      gdxClose( g );
   }
}
void runCase( u64 idx, Rng &r )
{
   Str good = scratchFile( "good.gdx" ), bad = scratchFile( "bad.gdx" );
   Gdx g;
   Content c = genFile( r, good, (int) r.in( 0, 1 ), idx % 40 == 7 ? 1 : 0 );
   Str base = readFileBytes( good );
   bool opened;
   if( idx % 16 == 3 )
   {// not GDX files
      for( int i = 0; i < 20; i++ )
      {
         Str s;
         switch( (int) r.in( 0, 5 ) )
         {
            case 0: break;
            case 1: { int n = (int) r.in( 1, 2000 ); for( int k = 0; k < n; k++ ) s += (char) r.in( 0, 255 ); break; }
            case 2: s = base.substr( (size_t) r.in( 1, 40 ) ); break;
            case 3: { size_t p = (size_t) r.in( 20, 26 ); s = base; s[p] = (char) ( s[p] ^ ( 1 << r.in( 0, 4 ) ) ); break; }// marker text (not just its case)
            case 4: s = "* a text file\nset i / a, b /;\n" + Str( (size_t) r.in( 0, 300 ), 'x' ); break;
            case 5: { s = base; size_t p = r.pick( { 0, 3, 8 } ); s[p] = (char) r.pick( { 1, 0, 16, 3 } ); break; }
         }
         if( s == base ) continue;
         writeFileBytes( bad, s );
         int e = 0;
         int rc = gdxOpenRead( g, bad.c_str(), &e );
         CHECK( !rc || e, "notgdx", "something that is not a GDX file was opened: first bytes %s", Str( s, 0, 30 ).c_str() );
         e = 0;
         rc = gdxOpenAppend( g, bad.c_str(), "x", &e );
         CHECK( !rc || e, "notgdx", "something that is not a GDX file was opened for appending" );
         count( "not_gdx" );
         nontrivial( hashStr( s ) );
      }
      for( const char *p: { "/", "/dev/null", "/proc/self/maps", "/nonexistent/dir/file.gdx", "" } )
      {
         int e = 0;
         int rc = gdxOpenRead( g, p, &e );
         CHECK( !rc || e, "notgdx", "'%s' was opened", p );
      }
   }
   else
   {
      std::vector<int64_t> spots;
      Str src = base;
      bool synth = r.chance( 1, 2 );
      std::function<Str()> make;
      if( idx % 16 == 5 )
      {// keys at the end of the integers
         int e = 0;
         gdxOpenWriteEx( g, bad.c_str(), "p17", 0, &e );
         for( int q = 0; q < 3; q++ )
         {
            int lo[MAXD], hi[MAXD], dim = (int) r.in( 1, 4 ), k[MAXD];
            double v[5] = { 1, 2, 3, 4, 5 };
            for( int d = 0; d < dim; d++ ) { hi[d] = INT32_MAX - (int) r.in( 0, 3 ); lo[d] = hi[d] - (int) r.pick( { 3, 100, 70000, 2000000000 } ); k[d] = hi[d] - (int) r.in( 0, 3 ); }
            gdxDataWriteRawStartKeyBounds( g, fmt( "s%d", q ).c_str(), "", dim, (int) r.in( 0, 2 ), 0, lo, hi );
            int64_t k0 = (int64_t) INT32_MAX - r.in( 0, 400 );
            for( int i = 0; i < 20 && k0 <= INT32_MAX; i++, k0 += r.in( 1, 60 ) ) { k[dim - 1] = (int) k0; gdxDataWriteRaw( g, k, v ); }
            gdxDataWriteDone( g );
         }
         gdxClose( g );
         src = readFileBytes( bad );
         try { Decoded d = decodeGdx( src ); for( auto p: d.symPos ) spots.push_back( p + 5 ), spots.push_back( p + 40 ); }
         catch( const BadFile & ) {}
         make = [&]() {
            Str s = src;
            // change bytes only, so that the data stays aligned
            for( int n = (int) r.in( 1, 20 ); n > 0; n-- )
            {
               size_t p = (size_t) ( ( spots.empty() ? 0 : r.pick( spots ) ) + r.in( 0, 200 ) );
               if( p < s.size() ) s[p] = (char) ( r.chance( 1, 2 ) ? r.in( 1, 254 ) : (unsigned char) s[p] + r.in( -9, 90 ) );
            }
            return s;
         };
         count( "extreme_keys" );
      }
      else if( !synth )
      {
         try { Decoded d = decodeGdx( base ); spots = { d.symbPos, d.uelPos, d.textPos, d.acroPos, d.domPos, d.indexPos }; for( auto p: d.symPos ) spots.push_back( p ); }
         catch( const BadFile & ) {}
         make = [&]() { Str s = base; damage( r, s, spots ); return s; };
      }
      else
      {
         Content full = readFile( good );
         make = [&, full]() {
            EncOpts eo;
            eo.version = r.chance( 3, 4 ) ? 7 : (int) r.in( 4, 7 );
            eo.compr = eo.version > 5 && r.chance( 1, 2 );
            eo.swInt = r.chance( 1, 6 ); eo.swWord = r.chance( 1, 6 ); eo.swDbl = r.chance( 1, 6 );
            eo.y2001 = r.chance( 1, 20 );
            int den = (int) r.in( 1, 6 );
            eo.mutate = [&]( Str &s ) { if( r.chance( 1, den ) ) damage( r, s, { 0, 0, 7, (int64_t) s.size() - 20 } ); };
            Str s = encodeGdx( full, eo, r );
            if( r.chance( 1, 4 ) ) damage( r, s, spots );
            return s;
         };
      }
      int tries = 8;
      for( int i = 0; i < tries; i++ )
      {
         Str s = make();
         if( r.chance( 1, 20 ) ) { size_t p = (size_t) r.in( 0, (int64_t) s.size() ); s = s.substr( 0, p ) + base.substr( (size_t) r.in( 0, (int64_t) base.size() ) ); }
         writeFileBytes( bad, s );
         tryFile( g, bad, r, opened );
         nontrivial( hashStr( s ) );
         if( opened && s != base ) count( "opened_damaged" );
         if( r.chance( 1, 6 ) )
         {// appending to it
            int e = 0;
            int rc = gdxOpenAppend( g, bad.c_str(), "x", &e );
            if( rc && !e )
            {
               gdxAutoConvert( g, 0 );
               if( gdxDataWriteStrStart( g, "appended_sym", "", 1, T_PAR, 0 ) )
               {
                  const char *kp[1] = { "lab" };
                  double v[5] = { 1 };
                  gdxDataWriteStr( g, kp, v );
                  gdxDataWriteDone( g );
               }
               count( "append_to_damaged" );
            }
            if( rc ) gdxClose( g );
         }
      }
      count( "damaged", (u64) tries );
   }
   // the object still works
   Log a, b;
   u64 rs = r.next();
   {
      openReadLog( g, good, a );
      Rng s( rs );
      readSession( g, s, a, 6 );
      a.f( "close %d", gdxClose( g ) );
      Gdx f;
      openReadLog( f, good, b );
      Rng s2( rs );
      readSession( f, s2, b, 6 );
      b.f( "close %d", gdxClose( f ) );
   }
   CHECK( a == b, "after", "after damaged files the object reads a good file differently from a fresh object" );
   count( "good_after" );
}
