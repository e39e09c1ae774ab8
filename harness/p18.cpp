// P18: objects of different threads (or used alternately in one thread) never influence each other.
// Every thread runs a recorded session of its own; its answers and the bytes of its files have to be
// those of the same session run alone.  Three schedules: free running threads under ThreadSanitizer,
// threads passing a baton after every recorded answer (fine-grained alternation decided by the case's
// random source), and threads that create and free objects all the time.
#include "trans.hpp"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <unistd.h>
const char *MON_RULE = "answers and file bytes of every thread equal those of its solo run; no data race";
struct Plan { u64 seed; Str path; int size, ops, sessions; bool readShared; };
struct Outcome { Log log; std::vector<Str> files; Str error; };
static Str g_shared;// a file read by several threads at once
static std::mutex g_createLock;
static void GDX_CALLCONV cbNothing( const int *, const double * ) {}

static void session( const Plan &p, Outcome &out, bool keep )
{
   out.log.keep = keep;
   try
   {
      Rng r( p.seed );
      Gdx g;
      for( int s = 0; s < p.sessions; s++ )
      {
         if( r.chance( 1, 6 ) )
         {// a failing open in between
            int e = 0, rc = gdxOpenRead( g, ( p.path + ".none" ).c_str(), &e );
            char m[512] = "";
            gdxErrorStr( g, e, m );
            out.log.f( "miss %d %d %s", rc, e, m );
         }
         WOpts o;
         o.compr = (int) r.in( 0, 1 );
         o.size = p.size;
         writeSession( g, r, p.path, out.log, o );
         out.files.push_back( readFileBytes( p.path ) );
         if( r.chance( 1, 3 ) )
         {// continue the file
            int e = 0, rc = gdxOpenAppend( g, p.path.c_str(), "more", &e );
            out.log.f( "app %d %d", rc, e );
            if( rc )
            {
               const char *k[1] = { "extra label" };
               double v[5] = { 1.5 };
               rc = gdxDataWriteStrStart( g, "extra_sym", "", 1, T_PAR, 0 );
               if( rc ) { rc = gdxDataWriteStr( g, k, v ); gdxDataWriteDone( g ); }
               out.log.f( "app %d %d %d", rc, gdxErrorCount( g ), gdxClose( g ) );
            }
            out.files.push_back( readFileBytes( p.path ) );
         }
         openReadLog( g, p.path, out.log );
         readSession( g, r, out.log, p.ops );
         out.log.f( "close %d", gdxClose( g ) );
         if( p.readShared )
         {
            openReadLog( g, g_shared, out.log );
            readSession( g, r, out.log, p.ops / 2 );
            out.log.f( "close %d", gdxClose( g ) );
         }
         char m[512] = "";
         int en = (int) r.pick( { -100000, -100059, -100038, -5, 2, 13, 28, 100, 777, -100199, 0 } );
         gdxErrorStr( g, en, m );
         out.log.f( "msg %d %s", en, m );
         gdxGetDLLVersion( g, m );
         out.log.add( m );
      }
   }
   catch( Fail &f ) { out.error = f.key + ": " + f.msg; }
   unlink( p.path.c_str() );
}

// ---- baton ---------------------------------------------------------------------------------
struct Baton {
   std::mutex m;
   std::condition_variable cv;
   int owner = 0, n = 0;
   std::vector<char> alive;
   Rng r { 1 };
   int every = 1;
   u64 switches = 0, h = 0;
   void pass( int from )
   {// caller holds m
      std::vector<int> c;
      for( int i = 0; i < n; i++ ) if( alive[(size_t) i] && i != from ) c.push_back( i );
      if( !c.empty() ) { owner = c[(size_t) r.in( 0, (int64_t) c.size() - 1 )]; switches++; h = h * 1099511628211ull + (u64) owner + 1; cv.notify_all(); }
   }
};
static Baton *g_baton;
static thread_local int t_me;
static void waitTurn()
{
   std::unique_lock<std::mutex> l( g_baton->m );
   g_baton->cv.wait( l, [] { return g_baton->owner == t_me; } );
}
static void batonYield()
{
   std::unique_lock<std::mutex> l( g_baton->m );
   if( g_baton->r.in( 0, g_baton->every ) ) return;
   g_baton->pass( t_me );
   g_baton->cv.wait( l, [] { return g_baton->owner == t_me; } );
}

static void compare( const std::vector<Plan> &ps, std::vector<Outcome> &solo, std::vector<Outcome> &got, const char *how )
{
   for( size_t i = 0; i < ps.size(); i++ )
   {
      CHECK( got[i].error == solo[i].error, "session", "%s thread %zu of %zu: %s (alone: %s)", how, i, ps.size(), got[i].error.c_str(), solo[i].error.c_str() );
      if( !( got[i].log == solo[i].log ) ) fail( "answers", "%s thread %zu of %zu: answers differ from the solo run: %s", how, i, ps.size(), firstDifference( solo[i].log, got[i].log ).c_str() );
      CHECK( got[i].files.size() == solo[i].files.size(), "files", "%s thread %zu: %zu files, alone %zu", how, i, got[i].files.size(), solo[i].files.size() );
      for( size_t q = 0; q < got[i].files.size(); q++ )
      {
         const Str &a = solo[i].files[q], &b = got[i].files[q];
         size_t at = 0;
         while( at < a.size() && at < b.size() && a[at] == b[at] ) at++;
         CHECK( a == b, "bytes", "%s thread %zu file %zu: %zu vs %zu bytes, first difference at %zu", how, i, q, a.size(), b.size(), at );
      }
      count( "answers_compared", got[i].log.n );
      count( "files_compared", got[i].files.size() );
      nontrivial( got[i].log.h );
   }
}

void runCase( u64 idx, Rng &r )
{
   int mode = (int) ( idx % 4 );
   if( mode == 3 )
   {// creation and release
      int nt = (int) r.in( 3, 8 ), rounds = (int) r.in( 3, 10 );
      std::atomic<int> ready { 0 }, bad { 0 };
      std::vector<Str> err( (size_t) nt );
      std::vector<std::thread> th;
      u64 seed = r.next();
      for( int t = 0; t < nt; t++ )
         th.emplace_back( [&, t] {
            Rng q( seed + (u64) t );
            Str f = scratchFile( fmt( "cd%d.gdx", t ) );
            ready++;
            while( ready < nt ) std::this_thread::yield();
            for( int i = 0; i < rounds; i++ )
            {
               std::vector<std::unique_ptr<Gdx>> objs;
               int n = (int) q.in( 1, 4 );
               for( int j = 0; j < n; j++ ) objs.emplace_back( new Gdx );
               Gdx &g = *objs[(size_t) q.in( 0, n - 1 )];
               int e = -1, rc = gdxOpenWriteEx( g, f.c_str(), "cd", (int) q.in( 0, 1 ), &e );
               gdxAutoConvert( g, 0 );
               double v[5] = { (double) t + i * 0.5 };
               Str lab = fmt( "t%d_%d", t, i );
               const char *k[1] = { lab.c_str() };
               rc = rc && gdxDataWriteStrStart( g, "p", "", 1, T_PAR, 0 ) && gdxDataWriteStr( g, k, v ) && gdxDataWriteDone( g );
               if( !rc || gdxClose( g ) ) { err[(size_t) t] = fmt( "round %d: writing failed (%d)", i, e ); break; }
               Gdx &g2 = *objs[(size_t) q.in( 0, n - 1 )];
               int nr = 0, df = 0;
               char kb[256] = "";
               char *kp[1] = { kb };
               double w[5] = {};
               rc = gdxOpenRead( g2, f.c_str(), &e ) && gdxDataReadStrStart( g2, 1, &nr ) && gdxDataReadStr( g2, kp, w, &df );
               if( !rc || nr != 1 || lab != kb || w[0] != v[0] ) { err[(size_t) t] = fmt( "round %d: read back %s %g, expected %s %g", i, kb, w[0], lab.c_str(), v[0] ); break; }
               if( q.chance( 1, 2 ) ) gdxClose( g2 );
               q.shuffle( objs );
            }
            unlink( f.c_str() );
         } );
      for( auto &t: th ) t.join();
      for( int t = 0; t < nt; t++ ) CHECK( err[(size_t) t].empty(), "create", "thread %d of %d: %s", t, nt, err[(size_t) t].c_str() );
      count( "create_rounds", (u64) nt * (u64) rounds );
      nontrivial( seed );
      return;
   }
   int nt = mode == 1 ? (int) r.in( 2, 4 ) : (int) r.in( 2, 6 );
   std::vector<Plan> ps;
   g_shared = scratchFile( "shared.gdx" );
   {
      Gdx g;
      Log l;
      Rng q( r.next() );
      WOpts o;
      o.compr = (int) r.in( 0, 1 );
      o.size = 1;
      writeSession( g, q, g_shared, l, o );
   }
   bool same = r.chance( 1, 4 );
   u64 base = r.next();
   int size = mode == 1 ? 0 : (int) r.in( 0, 1 );
   for( int t = 0; t < nt; t++ )
      ps.push_back( { same ? base : r.next(), scratchFile( fmt( "th%d.gdx", t ) ), size, (int) r.in( 4, mode == 1 ? 10 : 14 ), (int) r.in( 1, 2 ), r.chance( 1, 2 ) } );
   std::vector<Outcome> solo( (size_t) nt ), got( (size_t) nt );
   for( int t = 0; t < nt; t++ ) session( ps[(size_t) t], solo[(size_t) t], true );
   std::vector<std::thread> th;
   if( mode == 1 )
   {
      Baton b;
      b.n = nt;
      b.alive.assign( (size_t) nt, 1 );
      b.r = Rng( r.next() );
      b.every = (int) r.pick( { 0, 0, 1, 3, 10 } );
      g_baton = &b;
      for( int t = 0; t < nt; t++ )
         th.emplace_back( [&, t] {
            t_me = t;
            waitTurn();
            t_yield = batonYield;
            session( ps[(size_t) t], got[(size_t) t], true );
            t_yield = nullptr;
            std::unique_lock<std::mutex> l( b.m );
            b.alive[(size_t) t] = 0;
            b.pass( t );
         } );
      for( auto &t: th ) t.join();
      count( "baton_switches", b.switches );
      note( "interleavings", b.h );
      g_baton = nullptr;
   }
   else
   {
      std::atomic<int> ready { 0 };
      for( int t = 0; t < nt; t++ )
         th.emplace_back( [&, t] {
            ready++;
            while( ready < nt ) std::this_thread::yield();
            session( ps[(size_t) t], got[(size_t) t], true );
         } );
      for( auto &t: th ) t.join();
      count( "free_runs" );
   }
   compare( ps, solo, got, mode == 1 ? "alternating" : "parallel" );
   unlink( g_shared.c_str() );
   if( idx < 16 ) sample( fmt( "%s: %d threads, %llu answers", mode == 1 ? "alternating" : "parallel", nt, (unsigned long long) got[0].log.n ) );
}
void monInit() { gdxInitMutexes(); }
void monDone() {}
