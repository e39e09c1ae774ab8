// Recorded sessions: random but reproducible sequences of API calls whose every observable answer is
// appended to a log.  Two executions that must be indistinguishable are compared through their logs.
#pragma once
#include "core.hpp"
extern thread_local void ( *t_yield )();// called after every recorded answer (interleaving of objects)
struct Log {
   u64 h = 14695981039346656037ull;
   u64 n = 0;
   std::vector<Str> last;// full text (kept only when keep is set)
   bool keep = false;
   void add( const Str &s ) { h = hashStr( s, h * 1099511628211ull + s.size() ); n++; if( keep ) last.push_back( s ); if( t_yield ) t_yield(); }
   void f( const char *fm, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
   bool operator==( const Log &o ) const { return h == o.h && n == o.n; }
};
Str firstDifference( const Log &a, const Log &b );
struct WOpts { int compr = 0; bool close = true; bool byEnv = false; int size = 0; Str producer = "trans"; bool abandon = false; std::vector<int> *levels = nullptr; /* compression reported while writing */ };
// a complete writing session (open..close) with valid and refused calls
void writeSession( gdxHandle_t h, Rng &r, const Str &path, Log &log, const WOpts &o );
// random reading of an open file
void readSession( gdxHandle_t h, Rng &r, Log &log, int ops );
// everything a reader can see through the plain interfaces
void openReadLog( gdxHandle_t h, const Str &path, Log &log );
