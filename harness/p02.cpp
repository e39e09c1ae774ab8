// P02: every read interface delivers the same records
#include "core.hpp"
const char *MON_RULE = "a case opens one random file and performs 6-30 random read operations (raw, string, mapped, callback, extended callback, string-filtered, slice; some abandoned halfway) on random symbols including aliases and the universe; every delivered record is compared with the model; non-trivial = distinct (file, operation sequence) with at least one delivered record";
struct Got { std::vector<Rec> v; int dim = 0, type = 0; long stop = -1; std::vector<int> df; bool bad = false; };
static Got *cur;
static void cbPlain( const int *k, const double *v )
{
   Rec x {};
   memcpy( x.k, k, sizeof( int ) * (size_t) cur->dim );
   memcpy( x.v, v, 8 * (size_t) nvals( cur->type ) );
   cur->v.push_back( x );
}
static int cbEx( const int *k, const double *v, int df, void *u )
{
   Got *g = (Got *) u;
   if( g != cur ) { cur->bad = true; return 0; }
   cur->df.push_back( df );
   cbPlain( k, v );
   return g->stop < 0 || (long) g->v.size() < g->stop;
}
static int cbFilt( const int *k, const double *v, void * )
{
   cbPlain( k, v );
   return cur->stop < 0 || (long) cur->v.size() < cur->stop;
}
static int firstDiff( const Rec *prev, const Rec &x, int dim )
{
   if( !dim ) return 0;
   if( !prev ) return 1;
   for( int d = 0; d < dim; d++ ) if( prev->k[d] != x.k[d] ) return d + 1;
   return dim;
}
static void cmpRecs( const char *what, const std::vector<Rec> &exp, const std::vector<Rec> &got, int dim, int type, bool prefix )
{
   for( size_t i = 0; i < std::min( exp.size(), got.size() ); i++ )
   {
      bool same = cmpKey( exp[i], got[i], dim ) == 0;
      for( int v = 0; v < nvals( type ); v++ ) same = same && bits( exp[i].v[v] ) == bits( got[i].v[v] );
      CHECK( same, "readrec", "%s: record %zu expected %s, got %s", what, i + 1, showRec( exp[i], dim, type ).c_str(), showRec( got[i], dim, type ).c_str() );
   }
   if( prefix ) CHECK( got.size() <= exp.size(), "readcount", "%s: %zu records delivered, only %zu exist", what, got.size(), exp.size() );
   else CHECK( got.size() == exp.size(), "readcount", "%s: %zu records delivered, expected %zu", what, got.size(), exp.size() );
   count( "records_compared", got.size() );
}
// every field a read delivers has to be delivered, not left as it was
static void spoil( Rec &x, int dim, int type ) { for( int d = 0; d < dim; d++ ) x.k[d] = -987654; for( int i = 0; i < nvals( type ); i++ ) x.v[i] = -7.25e77; }
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "ri.gdx" );
   int size = idx % 61 == 7 ? 2 : idx % 4 == 1 ? 1 : 0;
   Content c = genFile( r, path, (int) r.in( 0, 1 ), size );
   Gdx g;
   int err;
   CHECK( gdxOpenRead( g, path.c_str(), &err ), "open", "open failed %d", err );
   int nU = (int) c.uels.size();
   // optional full mapping, in label order or permuted
   std::vector<int> usr( (size_t) nU + 1, -1 );
   bool mapped = r.chance( 1, 2 );
   if( mapped )
   {
      std::vector<int> ord;
      for( int i = 1; i <= nU; i++ ) ord.push_back( i );
      if( r.chance( 1, 2 ) ) r.shuffle( ord );
      CHECK( gdxUELRegisterStrStart( g ), "regstart", "refused" );
      int n = 0;
      for( int u: ord )
      {
         int k;
         CHECK( gdxUELRegisterStr( g, c.uels[(size_t) u - 1].c_str(), &k ) && k == n + 1, "reg", "label '%s' user number %d, expected %d", c.uels[(size_t) u - 1].c_str(), k, n + 1 );
         usr[(size_t) u] = ++n;
      }
      CHECK( gdxUELRegisterDone( g ), "regdone", "refused" );
   }
   if( r.chance( 1, 3 ) )
   {// labels that are not in the file do not belong to its universe
      CHECK( gdxUELRegisterStrStart( g ), "regstart", "refused" );
      int k, nn = (int) r.in( 1, 4 );
      for( int i = 0; i < nn; i++ ) CHECK( gdxUELRegisterStr( g, fmt( "|not in the file %d", i ).c_str(), &k ), "reg", "new label refused" );
      CHECK( gdxUELRegisterDone( g ), "regdone", "refused" );
      count( "labels_outside_the_file", (u64) nn );
   }
   int nops = (int) r.in( 6, size == 2 ? 8 : 30 );
   u64 h = hashStr( fmt( "%llu", (unsigned long long) idx ) );
   u64 delivered = 0;
   char kb[MAXD][256];
   char *kp[MAXD];
   for( int d = 0; d < MAXD; d++ ) kp[d] = kb[d];
   bool open = false;
   for( int op = 0; op < nops; op++ )
   {
      int sn = (int) r.in( 0, (int64_t) c.syms.size() );
      Sym univ;
      if( sn == 0 )
      {
         univ.name = "*"; univ.dim = 1; univ.type = T_SET;
         for( int i = 1; i <= nU; i++ ) { Rec x {}; x.k[0] = i; univ.recs.push_back( x ); }
      }
      const Sym &s = sn ? c.syms[(size_t) sn - 1] : univ;
      int vt = s.type == T_ALIAS ? T_SET : s.type;
      const std::vector<Rec> &E = s.recs;
      bool dflt = s.dim == 0;
      (void) dflt;
      int kind = (int) r.in( 0, 6 );
      Str what = fmt( "op %d kind %d symbol '%s' (dim %d)", op, kind, s.name.c_str(), s.dim );
      h = hashStr( what, h );
      long stop = r.chance( 1, 3 ) ? (long) r.in( 0, (int64_t) E.size() ) : -1;
      bool needDone = kind >= 3 && open;// callback reads also finish a pending one themselves, exercise both
      if( open && ( needDone ? r.chance( 1, 2 ) : r.chance( 1, 3 ) ) ) { CHECK( gdxDataReadDone( g ), "readdone", "%s: gdxDataReadDone refused", what.c_str() ); open = false; }
      int n = -77;
      Got got;
      got.dim = s.dim; got.type = vt; got.stop = stop == 0 ? 1 : stop;
      cur = &got;
      if( kind == 0 )
      {
         CHECK( gdxDataReadRawStart( g, sn, &n ), "start", "%s: refused", what.c_str() );
         CHECK( n == (int) E.size(), "nrrecs", "%s: %d records announced, expected %zu", what.c_str(), n, E.size() );
         open = true;
         Rec x {}, prev {};
         int df;
         while( stop < 0 || (long) got.v.size() < stop )
         {
            spoil( x, s.dim, vt );
            if( !gdxDataReadRaw( g, x.k, x.v, &df ) ) { open = false; break; }
            int ex = firstDiff( got.v.empty() ? nullptr : &prev, x, s.dim );
            CHECK( df == ex, "dimfirst", "%s: record %zu first changed position %d, expected %d", what.c_str(), got.v.size() + 1, df, ex );
            got.v.push_back( x ); prev = x;
            if( got.v.size() > E.size() ) break;
         }
         cmpRecs( what.c_str(), E, got.v, s.dim, vt, stop >= 0 );
      }
      else if( kind == 1 )
      {
         CHECK( gdxDataReadStrStart( g, sn, &n ), "start", "%s: refused", what.c_str() );
         CHECK( n == (int) E.size(), "nrrecs", "%s: %d records announced, expected %zu", what.c_str(), n, E.size() );
         open = true;
         size_t i = 0;
         int df;
         while( stop < 0 || (long) i < stop )
         {
            Rec x {};
            for( int d = 0; d < MAXD; d++ ) kb[d][0] = 0;
            spoil( x, s.dim, vt );
            if( !gdxDataReadStr( g, kp, x.v, &df ) ) { open = false; break; }
            CHECK( i < E.size(), "readcount", "%s: more records than %zu", what.c_str(), E.size() );
            for( int d = 0; d < s.dim; d++ )
               CHECK( c.uels[(size_t) E[i].k[d] - 1] == kb[d], "readlabel", "%s: record %zu position %d label '%s', expected '%s'", what.c_str(), i + 1, d + 1, kb[d], c.uels[(size_t) E[i].k[d] - 1].c_str() );
            x = E[i];
            int ex = firstDiff( i ? &E[i - 1] : nullptr, x, s.dim );
            CHECK( df == ex, "dimfirst", "%s: record %zu first changed position %d, expected %d", what.c_str(), i + 1, df, ex );
            i++;
            got.v.push_back( x );
         }
         if( stop < 0 ) CHECK( i == E.size(), "readcount", "%s: %zu of %zu records", what.c_str(), i, E.size() );
         // values again through a second pass (the loop above overwrote x)
         if( stop < 0 && !E.empty() )
         {
            CHECK( gdxDataReadStrStart( g, sn, &n ), "start", "%s: refused again", what.c_str() );
            got.v.clear();
            Rec x {};
            while( gdxDataReadStr( g, kp, x.v, &df ) && got.v.size() <= E.size() )
            {
               if( got.v.size() < E.size() ) memcpy( x.k, E[got.v.size()].k, sizeof x.k );
               got.v.push_back( x );
            }
            cmpRecs( what.c_str(), E, got.v, s.dim, vt, false );
            open = false;
         }
      }
      else if( kind == 2 )
      {
         if( !mapped ) { op--; if( r.chance( 1, 2 ) ) op++; continue; }
         std::vector<Rec> M;
         for( auto x: E ) { for( int d = 0; d < s.dim; d++ ) x.k[d] = usr[(size_t) x.k[d]]; M.push_back( x ); }
         int dim = s.dim;
         std::sort( M.begin(), M.end(), [dim]( const Rec &a, const Rec &b ) { return cmpKey( a, b, dim ) < 0; } );
         CHECK( gdxDataReadMapStart( g, sn, &n ), "start", "%s: refused", what.c_str() );
         CHECK( n == (int) E.size(), "nrrecs", "%s: %d records announced, expected %zu", what.c_str(), n, E.size() );
         open = true;
         Rec x {}, prev {};
         int df;
         while( stop < 0 || (long) got.v.size() < stop )
         {
            spoil( x, s.dim, vt );
            if( !gdxDataReadMap( g, (int) got.v.size() + 1, x.k, x.v, &df ) ) break;
            int ex = firstDiff( got.v.empty() ? nullptr : &prev, x, s.dim );
            CHECK( df == ex, "dimfirst", "%s: record %zu first changed position %d, expected %d", what.c_str(), got.v.size() + 1, df, ex );
            got.v.push_back( x ); prev = x;
            if( got.v.size() > E.size() ) break;
         }
         cmpRecs( what.c_str(), M, got.v, s.dim, vt, stop >= 0 );
      }
      else if( kind == 3 )
      {
         CHECK( gdxDataReadRawFast( g, sn, cbPlain, &n ), "start", "%s: refused", what.c_str() );
         open = false;
         CHECK( n == (int) E.size(), "nrrecs", "%s: %d records announced, expected %zu", what.c_str(), n, E.size() );
         cmpRecs( what.c_str(), E, got.v, s.dim, vt, false );
      }
      else if( kind == 4 )
      {
         CHECK( gdxDataReadRawFastEx( g, sn, cbEx, &n, &got ), "start", "%s: refused", what.c_str() );
         open = false;
         CHECK( n == (int) E.size(), "nrrecs", "%s: %d records announced, expected %zu", what.c_str(), n, E.size() );
         CHECK( !got.bad, "userptr", "%s: user pointer not passed through", what.c_str() );
         for( size_t i = 0; i < got.v.size(); i++ )
         {
            int ex = firstDiff( i ? &got.v[i - 1] : nullptr, got.v[i], s.dim );
            CHECK( got.df[i] == ex, "dimfirst", "%s: record %zu first changed position %d, expected %d", what.c_str(), i + 1, got.df[i], ex );
         }
         std::vector<Rec> X = E;
         if( got.stop >= 0 && X.size() > (size_t) got.stop ) X.resize( (size_t) got.stop );
         cmpRecs( what.c_str(), X, got.v, s.dim, vt, false );
      }
      else
      {// filtered / slice
         std::vector<Str> f( MAXD );
         bool unknown = false, hasEmptyLabel = false;
         int nr[MAXD];
         for( int d = 0; d < s.dim; d++ )
         {
            nr[d] = 0;
            if( r.chance( 1, 2 ) ) continue;
            if( r.chance( 1, 25 ) ) { f[(size_t) d] = "no such label!"; unknown = unknown || true; for( auto &u: c.uels ) if( lower( u ) == f[(size_t) d] ) hasEmptyLabel = true; continue; }
            int u = !E.empty() && r.chance( 4, 5 ) ? E[(size_t) r.in( 0, (int64_t) E.size() - 1 )].k[d] : (int) r.in( 1, nU );
            nr[d] = u;
            f[(size_t) d] = flipCase( r, c.uels[(size_t) u - 1] );
            if( f[(size_t) d].empty() ) nr[d] = 0;// an empty filter means no filter
         }
         if( hasEmptyLabel ) continue;
         const char *fp[MAXD];
         for( int d = 0; d < MAXD; d++ ) fp[d] = f[(size_t) d].c_str();
         std::vector<Rec> X;
         for( auto &x: E )
         {
            bool ok = true;
            for( int d = 0; d < s.dim; d++ ) if( nr[d] && x.k[d] != nr[d] ) ok = false;
            if( ok ) X.push_back( x );
         }
         if( kind == 5 )
         {
            int rc = gdxDataReadRawFastFilt( g, sn, fp, cbFilt );
            open = false;
            if( unknown ) { CHECK( !rc, "filtunknown", "%s: filter with unknown label accepted", what.c_str() ); CHECK( got.v.empty(), "filtunknown", "%s: records delivered for an unknown label", what.c_str() ); }
            else
            {
               CHECK( rc, "filt", "%s: refused", what.c_str() );
               if( got.stop >= 0 && X.size() > (size_t) got.stop ) X.resize( (size_t) got.stop );
               cmpRecs( what.c_str(), X, got.v, s.dim, vt, false );
            }
         }
         else
         {
            int cnt[MAXD];
            if( open ) { CHECK( gdxDataReadDone( g ), "readdone", "refused" ); open = false; }
            CHECK( gdxDataReadSliceStart( g, sn, cnt ), "slicestart", "%s: refused", what.c_str() );
            std::vector<std::vector<int>> el( (size_t) s.dim );
            for( int d = 0; d < s.dim; d++ )
            {
               std::set<int> z;
               for( auto &x: E ) z.insert( x.k[d] );
               el[(size_t) d].assign( z.begin(), z.end() );
               CHECK( cnt[d] == (int) z.size(), "slicecount", "%s: position %d has %d distinct labels, reported %d", what.c_str(), d + 1, (int) z.size(), cnt[d] );
            }
            int rounds = (int) r.in( 1, 2 );
            for( int q = 0; q < rounds; q++ )
            {
               int fd = 0, dm = -1;
               for( int d = 0; d < s.dim; d++ ) if( f[(size_t) d].empty() ) fd++;
               got.v.clear();
               got.dim = fd;
               int rc = gdxDataReadSlice( g, fp, &dm, cbPlain );
               if( unknown ) { CHECK( !rc && got.v.empty(), "sliceunknown", "%s: slice with unknown label accepted", what.c_str() ); break; }
               CHECK( rc, "slice", "%s: refused", what.c_str() );
               CHECK( dm == fd, "slicedim", "%s: %d free positions, reported %d", what.c_str(), fd, dm );
               // translate the slice numbers back
               CHECK( got.v.size() == X.size(), "slicerecs", "%s: slice delivered %zu records, expected %zu", what.c_str(), got.v.size(), X.size() );
               for( size_t i = 0; i < X.size(); i++ )
               {
                  int p = 0;
                  for( int d = 0; d < s.dim; d++ )
                     if( f[(size_t) d].empty() )
                     {
                        int z = got.v[i].k[p++];
                        CHECK( z >= 0 && z < (int) el[(size_t) d].size() && el[(size_t) d][(size_t) z] == X[i].k[d], "slicekey", "%s: slice record %zu position %d number %d", what.c_str(), i + 1, d + 1, z );
                     }
                  for( int v = 0; v < nvals( vt ); v++ ) CHECK( bits( got.v[i].v[v] ) == bits( X[i].v[v] ), "sliceval", "%s: slice record %zu value differs", what.c_str(), i + 1 );
                  if( i % 7 == 0 )
                  {
                     CHECK( gdxDataSliceUELS( g, got.v[i].k, kp ), "sliceuels", "%s: refused", what.c_str() );
                     for( int d = 0; d < s.dim; d++ )
                        CHECK( lower( kb[d] ) == lower( c.uels[(size_t) X[i].k[d] - 1] ), "sliceuels", "%s: slice record %zu position %d label '%s', expected '%s'", what.c_str(), i + 1, d + 1, kb[d], c.uels[(size_t) X[i].k[d] - 1].c_str() );
                  }
               }
               count( "records_compared", X.size() );
               // a different slice of the same symbol
               if( q + 1 < rounds )
               {
                  X.clear();
                  for( int d = 0; d < s.dim; d++ ) { nr[d] = 0; f[(size_t) d].clear(); if( r.chance( 1, 3 ) && !E.empty() ) { nr[d] = E[(size_t) r.in( 0, (int64_t) E.size() - 1 )].k[d]; f[(size_t) d] = c.uels[(size_t) nr[d] - 1]; if( f[(size_t) d].empty() ) nr[d] = 0; } fp[d] = f[(size_t) d].c_str(); }
                  for( auto &x: E ) { bool ok = true; for( int d = 0; d < s.dim; d++ ) if( nr[d] && x.k[d] != nr[d] ) ok = false; if( ok ) X.push_back( x ); }
               }
            }
            CHECK( gdxDataReadDone( g ), "readdone", "%s: refused after slices", what.c_str() );
         }
      }
      delivered += got.v.size();
      note( "kind_dim", (u64) kind * 32 + (u64) s.dim );
      count( "read_operations" );
   }
   if( open ) CHECK( gdxDataReadDone( g ), "readdone", "final gdxDataReadDone refused" );
   CHECK( gdxErrorCount( g ) == 0, "errors", "%d errors counted during correct reads (last %d)", gdxErrorCount( g ), gdxGetLastError( g ) );
   int rc = gdxClose( g );
   CHECK( rc == 0, "close", "close returned %d", rc );
   if( delivered ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu symbols, %d operations, %llu records delivered", (unsigned long long) idx, c.syms.size(), nops, (unsigned long long) delivered ) );
}
