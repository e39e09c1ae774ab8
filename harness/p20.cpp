// P20: the bytes of a file depend only on the calls made.  The same numbered session is executed in
// several processes with different surroundings (variant): heap fill pattern, stack contents, object and
// process history, directory and path, locale, unrelated environment.  The hashes of the produced files
// are written out and compared between the variants by lib/p20run.py; one variant runs under memcheck.
#include "trans.hpp"
#include <clocale>
#include <unistd.h>
const char *MON_RULE = "equal bytes of every file in all surroundings";
static int s_variant;
static FILE *s_out;
__attribute__( ( noinline ) ) static void dirtyStack( int byte )
{
   volatile char b[200000];
   for( size_t i = 0; i < sizeof b; i++ ) b[i] = (char) byte;
}
static void dirtyHeap( Rng &r, int byte )
{
   std::vector<void *> p;
   for( int i = 0; i < 400; i++ ) { size_t n = (size_t) r.in( 8, 3000 ); void *q = malloc( n ); memset( q, byte, n ); p.push_back( q ); }
   for( void *q: p ) free( q );
}
void runCase( u64 idx, Rng &r )
{
   Rng local( idx * 31 + (u64) s_variant );// decisions of the surroundings
   Str dir = g_scratch;
   if( s_variant == 2 ) { dir = g_scratch + "/" + Str( 60, 'd' ) + " x"; (void) !system( ( "mkdir -p '" + dir + "'" ).c_str() ); }
   Str p = dir + ( s_variant == 3 ? "/other_name_of_file.gdx" : "/a.gdx" );
   if( s_variant == 4 ) { (void) !chdir( g_scratch.c_str() ); p = "rel.gdx"; }
   std::unique_ptr<Gdx> other;
   Gdx g;
   if( s_variant == 1 || s_variant == 3 )
   {// history of the object and of the process
      dirtyHeap( local, s_variant == 1 ? 0xA5 : 0x5A );
      int n = (int) local.in( 1, 3 );
      for( int i = 0; i < n; i++ )
      {
         Log l;
         WOpts o;
         o.compr = (int) local.in( 0, 1 );
         writeSession( g, local, g_scratch + "/hist.gdx", l, o );
         openReadLog( g, g_scratch + "/hist.gdx", l );
         readSession( g, local, l, 4 );
         gdxClose( g );
      }
      if( s_variant == 3 ) { other.reset( new Gdx ); int e; gdxOpenWrite( *other, ( g_scratch + "/open.gdx" ).c_str(), "o", &e ); }
   }
   if( s_variant == 4 && local.chance( 1, 2 ) ) writeFileBytes( p, Str( 300000, 'Z' ) );// overwritten
   dirtyStack( s_variant * 0x37 + 1 );
   Log log;
   WOpts o;
   o.compr = (int) r.in( 0, 1 );
   o.size = r.chance( 1, 40 ) ? 2 : (int) r.in( 0, 1 );
   if( r.chance( 1, 5 ) ) o.abandon = true;
   writeSession( g, r, p, log, o );
   Str b = readFileBytes( p );
   u64 h = hashStr( b );
   if( r.chance( 1, 3 ) )
   {
      dirtyStack( s_variant * 0x11 + 3 );
      int e = 0, k[MAXD] = {}, rc = gdxOpenAppend( g, p.c_str(), "appender", &e );
      if( rc )
      {
         const char *kk[2] = { "late one", "late two" };
         double v[5] = { 2.5, -1, 7, 0, 1 };
         int t = 0;
         gdxAddSetText( g, "late text", &t );
         gdxDataWriteStrStart( g, "late_sym", "late", 2, (int) r.in( 0, 3 ), 1 );
         gdxDataWriteStr( g, kk, v );
         gdxDataWriteDone( g );
         gdxDataWriteRawStart( g, "late_raw", "", (int) r.in( 0, 1 ), 1, 0 );
         k[0] = 1;
         gdxDataWriteRaw( g, k, v );
         gdxDataWriteDone( g );
         gdxSymbolAddComment( g, 1, "late comment" );
         gdxClose( g );
      }
      Str b2 = readFileBytes( p );
      h = hashStr( b2, h );
      count( "appended_files" );
   }
   count( "files" );
   count( "bytes", b.size() );
   nontrivial( h );
   if( s_out ) fprintf( s_out, "%llu %016llx %016llx %zu\n", (unsigned long long) idx, (unsigned long long) h, (unsigned long long) log.h, b.size() );
   unlink( p.c_str() );
   if( idx < 5 ) sample( fmt( "variant %d case %llu: %zu bytes", s_variant, (unsigned long long) idx, b.size() ) );
}
void monInit()
{
   const char *v = getenv( "P20_VARIANT" ), *o = getenv( "P20_OUT" );
   s_variant = v ? atoi( v ) : 0;
   if( o ) s_out = fopen( ( Str( o ) + fmt( ".%d", (int) getpid() ) ).c_str(), "w" );
   if( s_variant == 2 ) setlocale( LC_ALL, "C.utf8" );
}
void monDone() { if( s_out ) fclose( s_out ); }
