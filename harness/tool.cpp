#include "tool.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
Str joinArgs( const std::vector<Str> &args )
{
   Str s;
   for( auto &a: args ) s += " [" + ( a.size() > 60 ? a.substr( 0, 60 ) + "..." : a ) + "]";
   return s;
}
std::vector<Str> viaParamFile( Rng &r, const std::vector<Str> &args )
{
   std::vector<Str> res;
   if( args.empty() ) return args;
   size_t a = (size_t) r.in( 0, (int64_t) args.size() - 1 ), b = (size_t) r.in( (int64_t) a + 1, (int64_t) args.size() );
   for( size_t i = a; i < b; i++ ) if( args[i].find( '@' ) != Str::npos ) return args;
   Str body, line;
   bool crlf = r.chance( 1, 4 );
   auto flush = [&]() { body += line + ( crlf ? "\r\n" : "\n" ); line.clear(); };
   auto blanks = [&]() { return Str( (size_t) ( r.chance( 1, 3 ) ? r.in( 2, 5 ) : 1 ), r.chance( 1, 8 ) ? '\t' : ' ' ); };
   for( size_t i = a; i < b; i++ )
   {
      if( line.empty() && r.chance( 1, 6 ) ) { line = r.pick( { "* a comment", "*", "", "*f1.gdx  id=zzz" } ); flush(); }
      Str x = args[i];
      if( x.find( ' ' ) != Str::npos )
      {
         size_t e = x.find( '=' );
         x = e == Str::npos ? "\"" + x + "\"" : x.substr( 0, e + 1 ) + "\"" + x.substr( e + 1 ) + "\"";
      }
      if( line.empty() ) { if( r.chance( 1, 6 ) || x[0] == '*' ) line = blanks(); }
      else line += blanks();
      line += x;
      if( r.chance( 1, 2 ) ) { if( r.chance( 1, 6 ) ) line += blanks(); flush(); }
   }
   if( !line.empty() ) { if( r.chance( 1, 2 ) ) flush(); else body += line; }
   static const char *NM[] { "par.txt", "par", "my par.txt", "p.opt" };
   Str n = NM[r.in( 0, 3 )];
   writeFileBytes( g_scratch + "/" + ( n == "par" ? "par.txt" : n ), body );
   for( size_t i = 0; i < a; i++ ) res.push_back( args[i] );
   res.push_back( "@" + n );
   for( size_t i = b; i < args.size(); i++ ) res.push_back( args[i] );
   count( "parameter_files" );
   return res;
}
ToolRun runTool( const Str &tool, const std::vector<Str> &args, const Str &cwd )
{
   ToolRun t;
   Str bin = g_libdir + "/" + tool, fo = scratchFile( "tool.out" ), fe = scratchFile( "tool.err" );
   std::vector<char *> av;
   av.push_back( (char *) bin.c_str() );
   for( auto &a: args ) av.push_back( (char *) a.c_str() );
   av.push_back( nullptr );
   pid_t p = fork();
   if( p < 0 ) { fprintf( stderr, "fork failed\n" ); exit( 99 ); }
   if( !p )
   {
      int o = open( fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ), e = open( fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ), i = open( "/dev/null", O_RDONLY );
      dup2( i, 0 );
      dup2( o, 1 );
      dup2( e, 2 );
      struct rlimit rl { 30, 31 };
      setrlimit( RLIMIT_CPU, &rl );
      struct rlimit fs { 200u << 20, 200u << 20 };
      setrlimit( RLIMIT_FSIZE, &fs );
      if( chdir( cwd.c_str() ) ) _exit( 99 );
      setenv( "LD_LIBRARY_PATH", g_libdir.c_str(), 1 );
      setenv( "ASAN_OPTIONS", "detect_odr_violation=0:exitcode=66:detect_leaks=0:abort_on_error=0:symbolize=1:handle_abort=1:detect_stack_use_after_return=1", 1 );
      execv( bin.c_str(), av.data() );
      _exit( 99 );
   }
   int st = 0;
   while( waitpid( p, &st, 0 ) < 0 ) {}
   t.rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
   t.out = readFileBytes( fo );
   t.err = readFileBytes( fe );
   count( "tool_runs" );
   return t;
}
void checkSane( const ToolRun &t, const Str &tool, const std::vector<Str> &args )
{
   if( t.rc == 99 ) { fprintf( stderr, "cannot run %s\n", tool.c_str() ); exit( 99 ); }
   size_t p = t.err.find( "ERROR: " );
   if( p == Str::npos ) p = t.err.find( "runtime error" );
   CHECK( p == Str::npos && t.rc != 66, "tool-sanitizer", "%s%s: %s", tool.c_str(), joinArgs( args ).c_str(), t.err.substr( p == Str::npos ? 0 : p > 80 ? p - 80 : 0, 1500 ).c_str() );
   CHECK( t.rc < 1000 || t.rc != 1000 + SIGXCPU, "tool-hang", "%s%s did not end", tool.c_str(), joinArgs( args ).c_str() );
   CHECK( t.rc < 128, "tool-crash", "%s%s ended with %d: %s", tool.c_str(), joinArgs( args ).c_str(), t.rc, t.err.substr( 0, 800 ).c_str() );
}
