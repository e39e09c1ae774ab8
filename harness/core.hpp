// Shared machinery of the GDX runtime monitors: random source, API access through the public
// C loader, reference model ("Content") and helpers.  Every monitor drives the real library
// (built with sanitizers) through the public C API and compares each observation with the model.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <array>
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include "gdxcc.h"
#include "gclgms.h"

typedef std::string Str;
typedef uint64_t u64;

struct Rng {
   u64 s;
   explicit Rng( u64 x = 1 ) : s( x * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); next(); }
   u64 next() {
      u64 z = ( s += 0x9E3779B97F4A7C15ull );
      z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
      z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
      return z ^ ( z >> 31 );
   }
   // inclusive
   int64_t in( int64_t a, int64_t b ) { return a >= b ? a : a + (int64_t) ( next() % (u64) ( b - a + 1 ) ); }
   bool chance( int num, int den ) { return (int) ( next() % den ) < num; }
   template<class T> const T &pick( const std::vector<T> &v ) { return v[next() % v.size()]; }
   template<class T> T pick( std::initializer_list<T> l ) { return *( l.begin() + next() % l.size() ); }
   template<class T> void shuffle( std::vector<T> &v ) { for( size_t i = v.size(); i > 1; i-- ) std::swap( v[i - 1], v[next() % i] ); }
};
u64 hashBytes( const void *p, size_t n, u64 h = 1469598103934665603ull );
inline u64 hashStr( const Str &s, u64 h = 1469598103934665603ull ) { return hashBytes( s.data(), s.size(), h ); }

// ---- verdicts and measurements -----------------------------------------------------------
struct Fail { Str key, msg; };
[[noreturn]] void fail( const char *key, const char *fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
#define CHECK( cond, key, ... ) do { if( !( cond ) ) fail( key, __VA_ARGS__ ); } while( 0 )
void count( const char *name, u64 n = 1 );
void note( const char *name, u64 value );// distinct value seen (set)
void sample( const Str &s );
void nontrivial( u64 h );
void known( const Str &id, const Str &msg );// a listed known finding was observed
Str fmt( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
extern Str g_scratch;// private scratch directory of this shard
extern bool g_thorough;
extern u64 g_case;
extern Str g_libdir;
Str scratchFile( const Str &name );
Str readFileBytes( const Str &path );
void writeFileBytes( const Str &path, const Str &data );
int openFds();

// ---- API object ---------------------------------------------------------------------------
struct Gdx {
   gdxHandle_t h = nullptr;
   Gdx();
   ~Gdx();
   Gdx( const Gdx & ) = delete;
   operator gdxHandle_t() const { return h; }
};

// ---- model ---------------------------------------------------------------------------------
enum { T_SET = 0, T_PAR = 1, T_VAR = 2, T_EQU = 3, T_ALIAS = 4 };
constexpr int MAXD = 20;
struct Rec {
   int k[MAXD] {};
   double v[5] {};
};
struct Acro { Str name, text; int idx; };
struct Sym {
   Str name, text;
   int dim = 0, type = T_PAR, user = 0;
   std::vector<Str> comments;
   int domKind = 1;             // 1 none, 2 relaxed, 3 regular
   std::vector<int> domNrs;     // per position symbol number of regular domain
   std::vector<Str> domIds;     // as reported by the name query
   std::vector<Rec> recs;       // ascending key order
   bool hasText = false;
   bool checkRecs = true;
};
struct Content {
   std::vector<Str> uels;// [0] = label number 1
   std::vector<Sym> syms;
   std::vector<Str> texts { "" };
   std::vector<Acro> acros;
   int compr = 0;
   Str producer;
};
inline int nvals( int type ) { return type == T_VAR || type == T_EQU ? 5 : 1; }
inline u64 bits( double d ) { u64 u; memcpy( &u, &d, 8 ); return u; }
inline double fromBits( u64 u ) { double d; memcpy( &d, &u, 8 ); return d; }
int cmpKey( const Rec &a, const Rec &b, int dim );

Rec defaultRec( int type, int user );// record of an empty scalar
Str lower( const Str &s );// ASCII
Str trimR( const Str &s );
bool goodIdent( const Str &s );
bool goodUel( const Str &trimmed );
Str normText( const Str &s, bool symText );
Str normComment( const Str &s );
double normVal( double x );// default special values
Str showRec( const Rec &r, int dim, int type );

struct ReadOpts {
   bool texts = true, find = true, records = true;
   bool rawKeysOnly = false;
};
// reads everything through the API (file must be open for reading); verifies internal consistency
Content readContent( gdxHandle_t h, const ReadOpts &o = ReadOpts() );
// opens, reads, closes with a fresh object
Content readFile( const Str &path, const ReadOpts &o = ReadOpts() );
// "" when equal
Str diffContent( const Content &expect, const Content &got, bool producer = false );

// ---- generator ------------------------------------------------------------------------------
struct LabelGen {
   int style;
   explicit LabelGen( Rng &r );
   Str make( Rng &r, int i );// valid, already trimmed, unique-ish
};
std::vector<Str> genLabels( Rng &r, int n );// pairwise different ignoring case, valid, trimmed
Str genIdent( Rng &r );
Str genText( Rng &r );
struct ValGen {
   int style;
   bool allowNaN = true;
   explicit ValGen( Rng &r ) : style( (int) r.in( 0, 7 ) ) {}
   double make( Rng &r );
};
// n distinct ascending keys within [lo,hi] per position
struct KeyShape { int lo[MAXD], hi[MAXD]; };
std::vector<Rec> genKeys( Rng &r, int dim, int n, const KeyShape &s, int style );
KeyShape genShape( Rng &r, int dim, int maxKey );
int genDim( Rng &r );
int genCount( Rng &r, int dim, bool big );
Str flipCase( Rng &r, const Str &s );

// ---- shadow writer: performs calls, predicts their outcome, keeps the expected content ------
struct Writer {
   Gdx &g;
   Content c;
   std::unordered_map<Str, int> uelIdx; // lower -> number
   std::unordered_map<Str, int> symIdx; // lower -> number
   std::unordered_map<Str, int> textIdx;// exact -> number
   std::map<int, int> usr2uel;
   std::map<int, int> uel2usr;
   int highUsr = 0;
   Rng &r;
   Writer( Gdx &g, Rng &r );
   void reindex();// after loading c from an existing file (append)
   void open( const Str &path, int compr, const Str &producer = "monitor" );
   void append( const Str &path, const Str &producer = "app" );// continues with the content kept in c
   void close();
   int addUel( const Str &label );// model only
   // register labels in one session; mode 'R' raw, 'S' string, 'M' mapped (user numbers random)
   void registerLabels( const std::vector<Str> &labels, char mode );
   int addText( const Str &t );// API + model, returns number
   // writes the records (in the given order) with mode 'S','M','R','B'(raw with bounds); returns symbol number
   int writeSymbol( Sym s, const std::vector<Rec> &recsInOrder, char mode );
   Rec store( const Rec &x, const Sym &s );
   std::map<Str, Str> domStr;// lower -> first spelling
   void addAlias( const Str &name, int target /*0 universe*/ );
   void addComment( int nr, const Str &t, bool current = false );
   void setDomainX( int nr, const std::vector<Str> &ids );
   int resolve( int nr ) const;// follows aliases; 0 = universe
};
// a random complete file: labels, symbols, texts; returns expected content
Content genFile( Rng &r, const Str &path, int compr, int size /*0 small,1 medium,2 big*/, Gdx *useObj = nullptr );
void genInto( Rng &r, Writer &w, int size );
std::vector<Rec> recsFor( Rng &r, Writer &w, Sym &s, int n, int maxKey );

// implemented by every monitor
extern const char *MON_RULE;
void runCase( u64 idx, Rng &r );
void monInit();
void monDone();
