// P22 gdxdiff: pairs of files whose contents are known as string-keyed tables are compared by the
// tool; the expected differences are computed from the tables and compared with the exit code, the
// printed summary and the difference file read back through the API.
#include "tool.hpp"
#include <sys/stat.h>
const char *MON_RULE = "pairs of generated files (second derived from the first by insertions, removals, value, text, domain, type and dimension changes) compared by gdxdiff under random options; expected differences computed independently";
void monInit() {}
void monDone() {}
namespace {
typedef std::vector<Str> SKey;// lower case
struct TRec {
   SKey shown;
   double v[5] {};
   Str text;
};
struct TSym {
   Str name;
   int dim = 1, type = T_PAR, user = 0;
   std::map<SKey, TRec> recs;
   std::vector<Str> dom;// relaxed names or empty
   Str aliasOf;
};
struct Tab : std::vector<TSym> {
   std::map<int, std::pair<Str, int>> acr;// acronym id: name (empty: not declared) and index in this file
   double val( double v ) const { return v >= 1e301 ? 1e301 * acr.at( (int) std::lround( v / 1e301 ) ).second : v; }
};
bool special( double v ) { return v == GMS_SV_EPS || v == GMS_SV_NA || v == GMS_SV_PINF || v == GMS_SV_MINF || v == GMS_SV_UNDEF; }
bool g_acr;// the files have acronyms
double genVal( Rng &r, double eps )
{
   if( g_acr && r.chance( 1, 6 ) ) return 1e301 * (double) r.in( 1, 4 );
   switch( (int) r.in( 0, 7 ) )
   {
      case 0: return r.pick( { (double) GMS_SV_EPS, (double) GMS_SV_NA, (double) GMS_SV_PINF, (double) GMS_SV_MINF, (double) GMS_SV_UNDEF } );
      case 1: return 0;
      case 2: return r.pick( { 1.0, -1.0, 0.5 } );
      case 3: return eps * (double) r.in( -3, 3 ) / 2;
      case 4: return (double) r.in( -1000000, 1000000 );
      case 5: return std::ldexp( (double) r.in( 1, 1 << 30 ), (int) r.in( -80, 80 ) );
      default: return (double) r.in( -100, 100 ) / 8;
   }
}
void write( Rng &r, const Str &path, const Tab &t, std::vector<Str> labels, bool fixedOrder = false )
{
   remove( path.c_str() );
   Gdx g;
   gdxAutoConvert( g, 0 );
   int err = 0;
   bool ok = r.chance( 1, 4 ) ? gdxOpenWriteEx( g, path.c_str(), "mon", 1, &err ) : gdxOpenWrite( g, path.c_str(), "mon", &err );
   CHECK( ok && !err, "write", "cannot create file" );
   if( fixedOrder || r.chance( 1, 2 ) )
   {
      if( !fixedOrder ) r.shuffle( labels );
      gdxUELRegisterStrStart( g );
      int n;
      for( auto &l: labels ) CHECK( gdxUELRegisterStr( g, l.c_str(), &n ), "write", "label refused" );
      gdxUELRegisterDone( g );
   }
   std::vector<std::pair<Str, int>> decl;
   for( auto &x: t.acr ) if( !x.second.first.empty() ) decl.push_back( x.second );
   r.shuffle( decl );
   for( auto &x: decl ) CHECK( gdxAcronymAdd( g, x.first.c_str(), "", x.second ) > 0, "write", "acronym refused" );
   for( auto &s: t )
   {
      if( !s.aliasOf.empty() ) { CHECK( gdxAddAlias( g, s.aliasOf.c_str(), s.name.c_str() ), "write", "alias refused" ); continue; }
      std::map<Str, int> tx;
      for( auto &x: s.recs ) if( !x.second.text.empty() && !tx.count( x.second.text ) ) { int n = 0; CHECK( gdxAddSetText( g, x.second.text.c_str(), &n ), "write", "text refused" ); tx[x.second.text] = n; }
      CHECK( gdxDataWriteStrStart( g, s.name.c_str(), "text", s.dim, s.type, s.user ), "write", "symbol refused" );
      std::vector<const TRec *> o;
      for( auto &x: s.recs ) o.push_back( &x.second );
      r.shuffle( o );
      for( auto *x: o )
      {
         const char *k[20];
         std::vector<Str> hold = x->shown;
         for( auto &h: hold ) if( r.chance( 1, 8 ) ) h = flipCase( r, h );
         for( int d = 0; d < s.dim; d++ ) k[d] = hold[(size_t) d].c_str();
         double v[5] {};
         for( int f = 0; f < 5; f++ ) v[f] = t.val( x->v[f] );
         if( s.type == T_SET ) v[0] = x->text.empty() ? 0 : tx[x->text];
         CHECK( gdxDataWriteStr( g, k, v ), "write", "record refused" );
      }
      CHECK( gdxDataWriteDone( g ), "write", "symbol not finished" );
      if( !s.dom.empty() )
      {
         const char *d[20];
         for( int i = 0; i < s.dim; i++ ) d[i] = s.dom[(size_t) i].c_str();
         int nr;
         gdxSystemInfo( g, &nr, &err );
         CHECK( gdxSymbolSetDomainX( g, nr, d ), "write", "domain refused" );
      }
   }
   CHECK( gdxClose( g ) == 0, "write", "close failed" );
}
const TSym *find( const Tab &t, const Str &n )
{
   for( auto &s: t ) if( lower( s.name ) == lower( n ) ) return &s;
   return nullptr;
}
const TSym &data( const Tab &t, const TSym &s ) { return s.aliasOf.empty() ? s : data( t, *find( t, s.aliasOf ) ); }
struct Opt {
   double eps = 0, rel = 0;
   bool fldOnly = false, diffOnly = false, defaults = false, domains = false, ignore = false, desc = true;
   int field = -1;
   std::set<Str> ids, skip;
};
bool eq( double a, double b, const Opt &o )
{
   bool sa = special( a ), sb = special( b );
   if( sa && sb ) return a == b;
   if( sa || sb )
   {
      double n = sa ? b : a, s = sa ? a : b;
      return s == GMS_SV_EPS && o.eps > 0 && std::fabs( n ) <= o.eps;
   }
   if( a >= 1e301 && b >= 1e301 ) return a == b;// the same acronym by name
   double d = std::fabs( a - b );
   return d <= o.eps || ( o.rel > 0 && d / ( 1 + std::min( std::fabs( a ), std::fabs( b ) ) ) <= o.rel );
}
struct DSym {
   int dim, type;
   std::map<SKey, std::array<double, 5>> recs;
   std::map<SKey, Str> texts;
};
}// namespace

void runCase( u64 idx, Rng &r )
{
   Opt o;
   std::set<Str> names;
   if( r.chance( 1, 3 ) ) o.eps = r.pick( { 1e-9, 1e-3, 0.25, 2.0 } );
   if( r.chance( 1, 4 ) ) o.rel = r.pick( { 1e-9, 1e-3, 0.25 } );
   // labels
   int nl = (int) r.pick( { 3, 8, 20, 60, 300 } );
   std::vector<Str> labels = genLabels( r, nl );
   {
      std::set<Str> have;
      for( auto &l: labels ) have.insert( lower( l ) );
      for( const char *x: { "ins1", "ins2", "dif1", "dif2", "Level", "scale" } ) if( r.chance( 1, 4 ) && have.insert( lower( x ) ).second ) labels.push_back( x );
   }
   auto addRec = [&]( TSym &s ) {
      TRec x;
      SKey k;
      for( int d = 0; d < s.dim; d++ ) { x.shown.push_back( r.pick( labels ) ); k.push_back( lower( x.shown.back() ) ); }
      if( s.type == T_SET ) { if( r.chance( 1, 2 ) ) x.text = "t" + std::to_string( r.in( 0, 5 ) ); }
      else for( int f = 0; f < nvals( s.type ); f++ ) x.v[f] = genVal( r, o.eps > 0 ? o.eps : 1e-3 );
      if( s.type >= T_VAR && r.chance( 1, 3 ) ) { Rec d = defaultRec( s.type, s.user ); memcpy( x.v, d.v, sizeof x.v ); }
      s.recs.emplace( k, x );
   };
   Tab t1, t2;
   g_acr = r.chance( 1, 4 );
   if( g_acr )
   {
      std::vector<int> p1 { 1, 2, 3, 4 }, p2;
      if( r.chance( 1, 2 ) ) r.shuffle( p1 );
      p2 = p1;
      if( r.chance( 1, 2 ) ) { r.shuffle( p2 ); if( r.chance( 1, 2 ) ) for( auto &x: p2 ) x += 2; }
      for( int i = 0; i < 4; i++ )
      {
         Str n = fmt( "acr_%d", i + 1 );
         bool undeclared = p1[(size_t) i] == p2[(size_t) i] && r.chance( 1, 4 );// named after its number
         t1.acr[i + 1] = { undeclared ? "" : n, p1[(size_t) i] };
         t2.acr[i + 1] = { undeclared ? "" : r.chance( 1, 3 ) ? flipCase( r, n ) : n, p2[(size_t) i] };
      }
      names.insert( { "acr_1", "acr_2", "acr_3", "acr_4" } );
   }
   auto freshName = [&]() { for( ;; ) { Str n = r.chance( 1, 12 ) ? Str( r.pick( { "FilesCompared", "FilesCompared_1" } ) ) : genIdent( r ); if( n.size() <= 50 && names.insert( lower( n ) ).second ) return n; } };
   int ns = (int) r.in( 0, 6 );
   for( int i = 0; i < ns; i++ )
   {
      TSym s;
      s.name = freshName();
      s.dim = r.chance( 1, 6 ) ? (int) r.in( 17, 20 ) : (int) r.in( 0, 4 );
      s.type = (int) r.in( s.dim ? 0 : 1, 3 );
      s.user = s.type == T_EQU ? (int) r.in( 53, 59 ) : s.type == T_VAR ? (int) r.in( 0, 9 ) : 0;
      if( s.type >= T_VAR && r.chance( 1, 8 ) ) s.user = (int) r.pick( { -3, 10, 60, 1000000 } );
      int n = s.dim == 0 ? 1 : (int) r.pick( { 0, 1, 2, 5, 40 } );
      for( int k = 0; k < n; k++ ) addRec( s );
      if( s.dim && r.chance( 1, 4 ) ) for( int d = 0; d < s.dim; d++ ) s.dom.push_back( "dom" + std::to_string( r.in( 0, 2 ) ) );
      t1.push_back( s );
      if( s.type == T_SET && r.chance( 1, 4 ) )
      {
         TSym a;
         a.name = freshName();
         a.aliasOf = s.name;
         a.type = T_SET;
         a.dim = s.dim;
         t1.push_back( a );
      }
   }
   bool identical = r.chance( 1, 6 );
   int rate = identical ? 0 : (int) r.pick( { 1, 10, 60, 300 } );// per mille of records touched, and of symbols
   auto hit = [&]( int scale ) { return rate > 0 && r.in( 0, 999 ) < rate * scale; };
   for( auto &s0: t1 )
   {
      TSym s = s0;
      if( s.aliasOf.empty() )
      {
         if( hit( 1 ) ) { s.dim = s.dim == 20 ? 19 : s.dim + 1; s.recs.clear(); s.dom.clear(); for( int k = 0; k < ( s.dim ? 2 : 1 ); k++ ) addRec( s ); }
         else if( hit( 1 ) && s.dim ) { s.type = ( s.type + 1 ) % 4; s.recs.clear(); addRec( s ); }
         else
         {
            std::map<SKey, TRec> keep;
            for( auto &x: s.recs )
            {
               if( hit( 1 ) && s.dim ) continue;
               TRec y = x.second;
               if( hit( 2 ) )
               {
                  if( s.type == T_SET ) y.text = y.text.empty() ? "t1" : y.text + "x";
                  else
                  {
                     int f = (int) r.in( 0, nvals( s.type ) - 1 );
                     double e = o.eps > 0 ? o.eps : 1e-3;
                     if( special( y.v[f] ) || y.v[f] >= 1e301 || r.chance( 1, 3 ) ) y.v[f] = genVal( r, e );
                     else if( r.chance( 1, 2 ) ) y.v[f] += e * (double) r.in( -3, 3 ) / 2;
                     else y.v[f] *= 1 + ( o.rel > 0 ? o.rel : 1e-15 ) * (double) r.in( -3, 3 ) / 2;
                  }
               }
               keep[x.first] = y;
            }
            s.recs = keep;
            if( s.dim ) while( hit( 2 ) ) addRec( s );
         }
         if( s.dim && !s.dom.empty() && hit( 2 ) ) s.dom[(size_t) r.in( 0, s.dim - 1 )] = "other";
         if( hit( 1 ) && s.type != T_SET ) continue;
      }
      else
      {
         const TSym *p = find( t2, s.aliasOf );
         if( !p ) continue;
         if( p->type != T_SET ) continue;
         s.dim = p->dim;
      }
      if( r.chance( 1, 4 ) ) s.name = flipCase( r, s.name );
      t2.push_back( s );
   }
   if( hit( 3 ) ) { TSym s; s.name = freshName(); s.dim = 1; addRec( s ); t2.push_back( s ); }
   if( r.chance( 1, 3 ) )
   {// file order of symbols is irrelevant (aliases stay behind their sets)
      std::stable_sort( t2.begin(), t2.end(), []( const TSym &a, const TSym &b ) { return std::make_pair( !a.aliasOf.empty(), lower( a.name ) ) < std::make_pair( !b.aliasOf.empty(), lower( b.name ) ); } );
   }
   mkdir( scratchFile( "in.d" ).c_str(), 0755 );
   Str n1 = r.chance( 3, 4 ) ? "f1.gdx" : r.pick( { "my f1.gdx", "in.d/f1.gdx", "in.d/my f1.gdx" } );
   Str n2 = r.chance( 3, 4 ) ? "f2.gdx" : r.pick( { "f 2.gdx", "in.d/f2.gdx" } );
   // comparing by number: the same as by label if both files number the labels alike
   bool matrix = r.chance( 1, 8 );
   std::vector<Str> all = labels;
   for( const Tab *t: { &t1, &t2 } ) for( auto &s: *t ) for( auto &x: s.recs ) for( auto &l: x.second.shown ) all.push_back( l );
   write( r, g_scratch + "/" + n1, t1, matrix ? all : labels, matrix );
   write( r, g_scratch + "/" + n2, t2, matrix ? all : labels, matrix );
   // options
   std::vector<Str> a { r.chance( 1, 4 ) ? n1.substr( 0, n1.size() - 4 ) : n1, r.chance( 1, 6 ) ? n2.substr( 0, n2.size() - 4 ) : n2 };
   auto cs = [&]( Str s ) { return r.chance( 1, 3 ) ? flipCase( r, s ) : s; };
   auto opt = [&]( const Str &k, const Str &v ) {
      if( r.chance( 1, 3 ) ) { a.push_back( cs( k ) ); a.push_back( "=" ); a.push_back( v ); }
      else a.push_back( cs( k ) + "=" + v );
   };
   Str dif = "diffile.gdx";
   if( r.chance( 1, 2 ) ) { dif = "out.gdx"; if( r.chance( 1, 2 ) ) a.push_back( r.chance( 1, 2 ) ? "out" : "out.gdx" ); else opt( "Output", "out.gdx" ); }
   remove( scratchFile( "out.gdx" ).c_str() );
   remove( scratchFile( "diffile.gdx" ).c_str() );
   if( r.chance( 1, 5 ) ) writeFileBytes( scratchFile( dif ), "old" );
   if( o.eps > 0 ) opt( "Eps", fmt( "%.17g", o.eps ) );
   if( o.rel > 0 ) opt( "RelEps", fmt( "%.17g", o.rel ) );
   if( r.chance( 1, 4 ) )
   {
      static const char *F[] { "L", "M", "Lo", "Up", "Scale", "Prior", "All" };
      int f = (int) r.in( 0, 6 );
      opt( "Field", cs( F[f] ) );
      o.field = f == 5 ? 4 : f == 6 ? -1 : f;
      if( o.field >= 0 && r.chance( 1, 2 ) ) { o.fldOnly = true; a.push_back( cs( "FldOnly" ) ); }
   }
   if( !o.fldOnly && r.chance( 1, 4 ) ) { o.diffOnly = true; a.push_back( cs( "DiffOnly" ) ); }
   if( r.chance( 1, 4 ) ) { o.defaults = true; a.push_back( cs( "CmpDefaults" ) ); }
   if( r.chance( 1, 4 ) ) { o.domains = true; a.push_back( cs( "CmpDomains" ) ); }
   if( r.chance( 1, 4 ) ) { o.ignore = true; a.push_back( cs( "IgnoreOrder" ) ); }
   if( matrix ) { a.push_back( cs( "MatrixFile" ) ); count( "matrix_comparisons" ); }
   if( r.chance( 1, 4 ) ) { o.desc = r.chance( 1, 2 ); opt( "SetDesc", o.desc ? r.pick( { "Y", "1", "t" } ) : r.pick( { "N", "0", "f" } ) ); }
   for( int q = 0; q < 2; q++ ) if( r.chance( 1, 4 ) && !t1.empty() )
   {
      std::set<Str> &S = q ? o.skip : o.ids;
      Str v;
      int n = (int) r.in( 1, 3 );
      for( int i = 0; i < n; i++ )
      {
         Str s = r.chance( 1, 8 ) ? genIdent( r ) : r.pick( !t2.empty() && r.chance( 1, 2 ) ? t2 : t1 ).name;
         S.insert( lower( s ) );
         v += ( i ? Str( r.chance( 1, 2 ) ? "," : " " ) : Str() ) + cs( s );
      }
      if( r.chance( 1, 3 ) && n > 1 )
      {// several occurrences of the option
         size_t p = v.find_first_of( ", " );
         opt( q ? "SkipID" : "ID", v.substr( 0, p ) );
         v = v.substr( p + 1 );
      }
      a.push_back( cs( q ? "SkipID" : "ID" ) + "=" + v );
   }
   bool refuse = r.chance( 1, 25 );
   int e = 0;
   if( refuse )
   {
      e = (int) r.in( 0, 12 );
      if( e == 0 ) a[0] = "missing";
      else if( e == 1 ) a.push_back( "Eps=abc" );
      else if( e == 2 ) a.push_back( "Field=Q" );
      else if( e == 3 ) a = { "f1.gdx" };
      else if( e == 4 ) { a = { "f1.gdx", "bad.gdx" }; writeFileBytes( scratchFile( "bad.gdx" ), "garbage garbage" ); }
      else if( e == 6 ) a.push_back( "Eps=-0.5" );
      else if( e == 7 ) a.push_back( "RelEps=-1e-9" );
      else if( e == 8 ) a.push_back( "RelEps=1x" );
      else if( e == 9 ) { a.push_back( "SetDesc=maybe" ); }
      else if( e == 10 ) { a.push_back( "Field=L" ); a.push_back( "FldOnly" ); a.push_back( "DiffOnly" ); }
      else if( e == 11 ) a.push_back( "@nofile" );
      else if( e == 12 ) { a = { n1, n2, "nowhere/x.gdx" }; }
      else a.push_back( "ID=" + Str( (size_t) r.in( 200, 900 ), 'x' ) );
   }
   if( r.chance( 1, 12 ) ) opt( "IDE", r.pick( { "N", "0", "y", "1" } ) );
   if( r.chance( 1, 4 ) ) a = viaParamFile( r, a );
   ToolRun t = runTool( "gdxdiff", a, g_scratch );
   checkSane( t, "gdxdiff", a );
   Str cmd = "gdxdiff" + joinArgs( a );
   if( refuse )
   {
      if( e != 5 ) CHECK( t.rc > 1, "exitcode", "%s: exit code %d for a request that cannot be served", cmd.c_str(), t.rc );
      count( "refused" );
      if( e == 12 )
      {// the result stays under the temporary name, which is printed
         size_t p = t.out.find( "Output: " );
         CHECK( p != Str::npos, "leftover", "%s: no output named", cmd.c_str() );
         Str o2 = t.out.substr( p + 8, t.out.find( '\n', p ) - p - 8 );
         CHECK( o2.find( '/' ) == Str::npos && remove( scratchFile( o2 ).c_str() ) == 0, "leftover", "%s: output %s does not exist", cmd.c_str(), o2.c_str() );
      }
      for( int i = 1; i < 4; i++ ) CHECK( readFileBytes( scratchFile( fmt( "tmpdifffile%d.gdx", i ) ) ).empty(), "leftover", "%s leaves its temporary file", cmd.c_str() );
      return;
   }
   // expected
   std::map<Str, std::set<Str>> status;
   std::map<Str, DSym> diff;
   auto selected = [&]( const Str &n ) { return ( o.ids.empty() || o.ids.count( lower( n ) ) ) && !o.skip.count( lower( n ) ); };
   std::vector<int> fields;
   if( o.field >= 0 ) fields = { o.field };
   else fields = { 0, 1, 2, 3, 4 };
   for( auto &s1: t1 )
   {
      if( !selected( s1.name ) ) continue;
      const TSym *s2 = find( t2, s1.name );
      Str key = lower( s1.name );
      if( !s2 ) { status[key] = { "Symbol not found in file 2" }; continue; }
      if( s1.type != s2->type ) { status[key] = { "Types are different" }; continue; }
      if( s1.dim != s2->dim ) { status[key] = { "Dimensions are different" }; continue; }
      if( o.domains && s1.dim && s1.aliasOf.empty() )
      {
         bool d = false;
         for( int i = 0; i < s1.dim; i++ ) d = d || lower( s1.dom.empty() ? "*" : s1.dom[(size_t) i] ) != lower( s2->dom.empty() ? "*" : s2->dom[(size_t) i] );
         if( d ) { status[key] = { "Domains are different" }; count( "domain_differences" ); continue; }
      }
      const TSym &d1 = data( t1, s1 ), &d2 = data( t2, *s2 );
      int ty = s1.type;
      bool ev = ty >= T_VAR, asDiff = o.diffOnly && ev, asFld = o.fldOnly && ev;
      Rec def = ev ? defaultRec( ty, d1.user ) : Rec();
      DSym ds;
      ds.dim = s1.dim + ( asDiff ? 2 : 1 );
      ds.type = asDiff || asFld ? T_PAR : ty;
      bool data = false, keys = false;
      auto put = [&]( const SKey &k, const Str &act, const TRec &x, const TRec *other ) {
         const Tab &tb = act == "ins1" || act == "dif1" ? t1 : t2;
         SKey kk = k;
         std::array<double, 5> v {};
         if( asDiff )
         {
            for( int f: fields )
            {
               if( other && eq( x.v[f], other->v[f], o ) ) continue;
               SKey q = k;
               static const char *N[] { "level", "marginal", "lower", "upper", "scale" };
               q.push_back( N[f] );
               q.push_back( act );
               v[0] = tb.val( x.v[f] );
               ds.recs[q] = v;
            }
            return;
         }
         kk.push_back( act );
         if( asFld ) v[0] = tb.val( x.v[o.field] );
         else for( int f = 0; f < nvals( ty ); f++ ) v[(size_t) f] = tb.val( x.v[f] );
         ds.recs[kk] = v;
         if( ty == T_SET ) ds.texts[kk] = x.text;
      };
      auto insert = [&]( const SKey &k, const Str &act, const TRec &x ) {
         bool isDef = false;
         if( ty == T_PAR ) isDef = eq( x.v[0], 0, o );
         if( ev ) { isDef = true; for( int f: fields ) isDef = isDef && eq( x.v[f], def.v[f], o ); }
         if( isDef && !o.defaults ) { count( "default_records_ignored" ); return; }
         keys = true;
         put( k, act, x, nullptr );
         count( "inserts" );
      };
      for( auto &x: d1.recs ) if( !d2.recs.count( x.first ) ) insert( x.first, "ins1", x.second );
      for( auto &x: d2.recs ) if( !d1.recs.count( x.first ) ) insert( x.first, "ins2", x.second );
      for( auto &x: d1.recs )
      {
         auto y = d2.recs.find( x.first );
         if( y == d2.recs.end() ) continue;
         bool same = true;
         if( ty == T_SET ) same = !o.desc || x.second.text == y->second.text;
         else if( ty == T_PAR ) same = eq( x.second.v[0], y->second.v[0], o );
         else for( int f: fields ) same = same && eq( x.second.v[f], y->second.v[f], o );
         if( same ) { count( "equal_records" ); continue; }
         data = true;
         put( x.first, "dif1", x.second, &y->second );
         put( x.first, "dif2", y->second, &x.second );
         count( "changed_records" );
      }
      if( !data && !keys ) continue;
      if( ds.dim > 20 ) { status[key] = { "Dim >= maxdim & different" }; count( "too_many_dimensions" ); continue; }
      if( data ) status[key].insert( "Data are different" );
      if( keys ) status[key].insert( "Keys are different" );
      diff[key] = ds;
      nontrivial( ( hashStr( key ) * 31 + ds.recs.size() ) * 31 + (u64) ds.dim );
   }
   for( auto &s2: t2 ) if( selected( s2.name ) && !find( t1, s2.name ) ) status[lower( s2.name )] = { "Symbol not found in file 1" };
   // printed summary
   std::map<Str, Str> got;
   {
      size_t p = t.out.find( "Summary of differences:\n" );
      bool none = t.out.find( "No differences found" ) != Str::npos;
      CHECK( none == status.empty() && ( p != Str::npos ) == !status.empty(), "summary", "%s: %zu symbols differ, but the summary is: %s", cmd.c_str(), status.size(), t.out.substr( 0, 600 ).c_str() );
      if( p != Str::npos )
      {
         p = t.out.find( '\n', p ) + 1;
         while( p < t.out.size() )
         {
            size_t q = t.out.find( '\n', p );
            Str l = t.out.substr( p, q - p );
            if( l.compare( 0, 7, "Output:" ) == 0 ) break;
            size_t b = l.find_first_not_of( ' ' ), m = l.find( ' ', b );
            CHECK( b != Str::npos && m != Str::npos, "summary", "line '%s'", l.c_str() );
            Str st = l.substr( m );
            st = st.substr( st.find_first_not_of( ' ' ) );
            CHECK( got.emplace( lower( l.substr( b, m - b ) ), st ).second, "summary", "symbol listed twice: %s", l.c_str() );
            p = q + 1;
         }
      }
   }
   for( auto &x: status )
   {
      CHECK( got.count( x.first ), "summary", "%s: %s (%s) is not reported", cmd.c_str(), x.first.c_str(), x.second.begin()->c_str() );
      CHECK( x.second.count( got[x.first] ), "summary", "%s: %s is reported as '%s', expected '%s'", cmd.c_str(), x.first.c_str(), got[x.first].c_str(), x.second.begin()->c_str() );
   }
   for( auto &x: got ) CHECK( status.count( x.first ), "summary", "%s: %s reported as '%s' but is the same", cmd.c_str(), x.first.c_str(), x.second.c_str() );
   CHECK( t.rc == ( status.empty() ? 0 : 1 ), "exitcode", "%s exits with %d, %zu symbols differ", cmd.c_str(), t.rc, status.size() );
   count( status.empty() ? "equal_pairs" : "different_pairs" );
   count( "symbols_reported", status.size() );
   // difference file
   ReadOpts ro;
   ro.find = false;
   Content c;
   try { c = readFile( scratchFile( dif ), ro ); }
   catch( const Fail &f ) { fail( "diffile", "%s: difference file: %s", cmd.c_str(), f.msg.c_str() ); }
   size_t extra = 0;
   std::set<Str> seen;
   for( auto &s: c.syms )
   {
      Str key = lower( s.name );
      auto d = diff.find( key );
      if( d == diff.end() || seen.count( key ) )
      {
         CHECK( key.compare( 0, 13, "filescompared" ) == 0 && s.type == T_SET && s.dim == 1 && s.recs.size() == 2, "diffile", "%s: symbol %s does not belong in the difference file", cmd.c_str(), s.name.c_str() );
         CHECK( s.name == "FilesCompared" || s.name.compare( 0, 14, "FilesCompared_" ) == 0, "diffile-name", "%s: the list of files is named %s", cmd.c_str(), s.name.c_str() );
         for( int i = 0; i < 2; i++ ) CHECK( c.uels[(size_t) s.recs[(size_t) i].k[0] - 1] == fmt( "File%d", i + 1 ) && c.texts[(size_t) s.recs[(size_t) i].v[0]] == ( i ? n2 : n1 ), "diffile", "%s: compared files are recorded as '%s'", cmd.c_str(), c.texts[(size_t) s.recs[(size_t) i].v[0]].c_str() );
         extra++;
         continue;
      }
      seen.insert( key );
      const DSym &ds = d->second;
      CHECK( s.dim == ds.dim && s.type == ds.type, "diffile", "%s: %s has dimension %d type %d, expected %d and %d", cmd.c_str(), s.name.c_str(), s.dim, s.type, ds.dim, ds.type );
      CHECK( s.recs.size() == ds.recs.size(), "diffile", "%s: %s has %zu difference records, expected %zu", cmd.c_str(), s.name.c_str(), s.recs.size(), ds.recs.size() );
      if( matrix )
      {// the labels of the keys mean nothing in this mode; the kind of difference and the values do
         std::multiset<Str> w, h;
         size_t na = (size_t) s.dim - 1 - ( o.diffOnly && s.type == T_PAR && find( t1, s.name )->type >= T_VAR ? 1 : 0 );
         auto add = [&]( std::multiset<Str> &m, const SKey &k, const double *v, const Str &tx ) {
            Str q = tx;
            for( size_t i = na; i < k.size(); i++ ) q += "." + k[i];
            if( s.type != T_SET ) for( int f = 0; f < nvals( s.type ); f++ ) q += fmt( " %llx", (unsigned long long) bits( normVal( v[f] ) ) );
            m.insert( q );
         };
         for( auto &x: ds.recs ) add( w, x.first, x.second.data(), s.type == T_SET ? ds.texts.at( x.first ) : Str() );
         for( auto &x: s.recs )
         {
            SKey k;
            for( int i = 0; i < s.dim; i++ ) k.push_back( lower( c.uels[(size_t) x.k[i] - 1] ) );
            add( h, k, x.v, s.type == T_SET && x.v[0] != 0 ? c.texts[(size_t) x.v[0]] : Str() );
         }
         CHECK( w == h, "diffile", "%s: %s has other difference records than expected", cmd.c_str(), s.name.c_str() );
         count( "difference_records", s.recs.size() );
         continue;
      }
      for( auto &x: s.recs )
      {
         SKey k;
         for( int i = 0; i < s.dim; i++ ) k.push_back( lower( c.uels[(size_t) x.k[i] - 1] ) );
         auto y = ds.recs.find( k );
         Str ks;
         for( auto &q: k ) ks += "." + q;
         CHECK( y != ds.recs.end(), "diffile", "%s: %s has an unexpected record %s", cmd.c_str(), s.name.c_str(), ks.c_str() );
         if( s.type == T_SET )
         {
            Str tx = x.v[0] == 0 ? "" : c.texts[(size_t) x.v[0]];
            CHECK( tx == ds.texts.at( k ), "diffile", "%s: %s%s has text '%s', expected '%s'", cmd.c_str(), s.name.c_str(), ks.c_str(), tx.c_str(), ds.texts.at( k ).c_str() );
         }
         else for( int f = 0; f < nvals( s.type ); f++ )
            CHECK( bits( x.v[f] ) == bits( normVal( y->second[(size_t) f] ) ), "diffile", "%s: %s%s field %d is %.17g, expected %.17g", cmd.c_str(), s.name.c_str(), ks.c_str(), f, x.v[f], y->second[(size_t) f] );
      }
      count( "difference_records", s.recs.size() );
   }
   CHECK( seen.size() == diff.size() && extra == 1, "diffile", "%s: %zu of %zu differing symbols and %zu file lists in the difference file", cmd.c_str(), seen.size(), diff.size(), extra );
   for( int i = 1; i < 4; i++ ) CHECK( readFileBytes( scratchFile( fmt( "tmpdifffile%d.gdx", i ) ) ).empty(), "leftover", "%s leaves its temporary file", cmd.c_str() );
   note( "option_sets", (u64) o.fldOnly + 2 * o.diffOnly + 4 * o.defaults + 8 * o.domains + 16 * o.ignore + 32 * o.desc + 64 * ( o.eps > 0 ) + 128 * ( o.rel > 0 ) + 256 * (u64) ( o.field + 1 ) );
   if( idx < 5 ) sample( cmd );
}
