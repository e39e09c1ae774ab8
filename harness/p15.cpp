// P15: a write failure is never reported as success
#include "trans.hpp"
#include "iofault.hpp"
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
const char *MON_RULE = "a case records a random writing (or write+append) session without faults, then repeats it once per injected fault (n-th write failing or shortened, n-th seek, the open or the close failing, transient or persistent, with various errno; or the process file size limit at random byte positions, or a full device) and requires that some call up to the close reports an error or that the complete content reads back exactly; afterwards the same object must write a good file; non-trivial = distinct (session, fault position, kind) where the fault was really hit";
struct Outcome { bool reported = false; Str how; Log log; };
// performs the session; reports whether any call told about a problem (compared with the clean run)
static Outcome session( gdxHandle_t h, u64 seed, const Str &path, const WOpts &o, bool append, u64 seed2 )
{
   Outcome out;
   Rng r( seed );
   WOpts q = o;
   q.close = false;
   Log &l = out.log;
   int e = 0;
   if( append )
   {
      int rc = gdxOpenAppend( h, path.c_str(), "app", &e );
      l.f( "oa %d %d", rc, e );
      if( !rc || e ) { out.reported = true; out.how = fmt( "open %d", e ); return out; }
      gdxAutoConvert( h, 0 );
      Rng s( seed2 );
      int n = (int) s.in( 1, 3 );
      for( int i = 0; i < n; i++ )
      {
         Str nm = fmt( "appended_%d_%llx", i, (unsigned long long) ( s.next() & 0xffff ) );
         rc = gdxDataWriteStrStart( h, nm.c_str(), "t", 1, T_PAR, 0 );
         if( !rc ) { out.reported = true; out.how = "start"; continue; }
         int m = (int) s.in( 0, 1500 );
         for( int k = 0; k < m; k++ )
         {
            Str key = fmt( "lab%d", k );
            const char *kp[1] = { key.c_str() };
            double v[5] = { (double) k * 1.37 };
            if( !gdxDataWriteStr( h, kp, v ) ) { out.reported = true; out.how = "record"; }
         }
         if( !gdxDataWriteDone( h ) ) { out.reported = true; out.how = "done"; }
      }
   }
   else
      writeSession( h, r, path, l, q );
   return out;
}
static Outcome finish( gdxHandle_t h, Outcome o )
{
   int rc = gdxClose( h );
   o.log.f( "close %d", rc );
   if( rc ) { o.reported = true; o.how = fmt( "close %d", rc ); }
   return o;
}
void monInit() { signal( SIGXFSZ, SIG_IGN ); }
static void withLimit( int64_t lim, const std::function<void()> &f )
{
   struct rlimit old, neu;
   getrlimit( RLIMIT_FSIZE, &old );
   neu = old;
   if( lim >= 0 ) { neu.rlim_cur = (rlim_t) lim; setrlimit( RLIMIT_FSIZE, &neu ); }
   try { f(); }
   catch( ... ) { if( lim >= 0 ) setrlimit( RLIMIT_FSIZE, &old ); throw; }
   if( lim >= 0 ) setrlimit( RLIMIT_FSIZE, &old );
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "f.gdx" ), base = scratchFile( "base.gdx" ), good = scratchFile( "good.gdx" );
   WOpts o;
   o.size = idx % 19 == 3 ? 2 : idx % 3 == 1 ? 1 : 0;
   o.compr = (int) r.in( 0, 1 );
   bool app = r.chance( 1, 3 );
   u64 seed = r.next(), seed2 = r.next();
   if( app )
   {
      Gdx g;
      Rng s( seed );
      Log l;
      WOpts q = o;
      remove( base.c_str() );
      writeSession( g, s, base, l, q );
   }
   auto prepare = [&]() { remove( path.c_str() ); if( app ) writeFileBytes( path, readFileBytes( base ) ); };
   // clean run
   IoPlan clean;
   clean.target = path;
   prepare();
   Content want;
   Log cleanLog;
   {
      Gdx g;
      g_io = &clean;
      Outcome c = finish( g, session( g, seed, path, o, app, seed2 ) );
      g_io = nullptr;
      CHECK( !c.reported, "clean", "a session without faults reported %s", c.how.c_str() );
      cleanLog = c.log;
      want = readFile( path );
   }
   Str cleanBytes = readFileBytes( path );
   CHECK( clean.writes > 0, "observe", "no write to the file was observed" );
   int tries = o.size == 2 ? 3 : 6;
   for( int q = 0; q < tries; q++ )
   {
      IoPlan p;
      p.target = path;
      int kind = (int) r.pick( { 0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 5, 6 } );
      int64_t lim = -1;
      Str target = path;
      p.kind = kind;
      p.err = r.pick( { ENOSPC, EIO, EDQUOT, EFBIG } );
      p.persistent = r.chance( 1, 2 );
      if( kind <= 1 ) p.failAt = r.chance( 1, 3 ) ? clean.writes - 1 : r.chance( 1, 4 ) ? std::max( 0l, clean.writes - 2 ) : (long) r.in( 0, clean.writes - 1 );
      else if( kind == 2 ) { if( !clean.seeks ) continue; p.failAt = (long) r.in( 0, clean.seeks - 1 ); }
      else if( kind == 3 ) { p.failAt = 0; p.err = r.pick( { EACCES, EMFILE, ENOSPC } ); }
      else if( kind == 4 ) p.failAt = 0;
      else if( kind == 5 ) lim = r.chance( 1, 4 ) ? (int64_t) cleanBytes.size() - 1 : r.chance( 1, 4 ) ? r.in( 0, std::min<int64_t>( 200, (int64_t) cleanBytes.size() - 1 ) ) : r.in( 0, (int64_t) cleanBytes.size() - 1 );
      else { if( app ) continue; target = "/dev/full"; }
      prepare();
      Gdx g;
      // an earlier good session on the same object must not matter
      Outcome oc;
      bool asked = r.chance( 1, 4 );
      withLimit( lim, [&] {
         g_io = &p;
         oc = session( g, seed, target, o, app, seed2 );
         if( !oc.reported && asked )
         {
            int le = gdxGetLastError( g );
            // refused calls of the session are followed by their own query; anything left must be an I/O problem
            if( le ) { oc.reported = true; oc.how = fmt( "last error %d", le ); count( "told_by_last_error" ); }
         }
         oc = finish( g, oc );
         g_io = nullptr;
      } );
      if( !oc.reported && !( oc.log == cleanLog ) ) { oc.reported = true; oc.how = "some answer differs"; }
      bool hitIt = p.injected > 0 || kind >= 5;
      if( !oc.reported )
      {
         if( target != path ) fail( "silent", "writing to a full device reported no error" );
         Str why;
         if( readFileBytes( path ) != cleanBytes )
         {
            try { Content got = readFile( path ); why = diffContent( want, got ); }
            catch( const Fail &f ) { why = f.msg; }
         }
         CHECK( why.empty() && kind != 4, "silent", "%s: no call reported an error, but: %s", kind == 0 ? "failing write" : kind == 1 ? "short write" : kind == 2 ? "failing seek" : kind == 4 ? "failing close" : kind == 5 ? "file size limit" : "fault", why.empty() ? "close(2) failed" : why.c_str() );
         if( hitIt ) count( "harmless_faults" );
      }
      else
      {
         CHECK( hitIt, "spurious", "no fault was injected but %s was reported", oc.how.c_str() );
         count( "faults_reported" );
      }
      if( hitIt )
      {
         nontrivial( ( seed ^ (u64) ( p.failAt * 16 + kind ) ) + (u64) lim );
         count( kind == 0 ? "write_faults" : kind == 1 ? "short_writes" : kind == 2 ? "seek_faults" : kind == 3 ? "open_faults" : kind == 4 ? "close_faults" : kind == 5 ? "size_limits" : "full_device" );
         note( "fault_position", (u64) ( p.failAt >= 0 ? p.failAt : lim ) * 8 + (u64) kind );
      }
      // the object works again
      remove( good.c_str() );
      WOpts w = o;
      w.size = 0;
      Rng s( seed + 77 );
      Log a, b;
      writeSession( g, s, good, a, w );
      Str again = readFileBytes( good );
      remove( good.c_str() );
      Gdx fresh;
      Rng s2( seed + 77 );
      writeSession( fresh, s2, good, b, w );
      CHECK( a == b && again == readFileBytes( good ), "after", "after a reported write failure the object does not work like a new one" );
      count( "reuse_checks" );
   }
   if( idx < 3 ) sample( fmt( "case %llu: %ld writes, %ld seeks in the clean session, %zu bytes", (unsigned long long) idx, clean.writes, clean.seeks, cleanBytes.size() ) );
}
