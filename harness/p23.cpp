// P23 gdxmerge: collections of files with known contents are merged by the tool; the expected merged
// symbols are computed from the tables (first occurrence defines a symbol, later ones must agree) and
// compared with the output file read back through the API, the messages and the exit code.
#include "tool.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
const char *MON_RULE = "collections of 1-5 generated files sharing symbols (with conflicting types, dimensions, subtypes and texts, aliases, acronyms, element texts) merged by gdxmerge in plain and big-symbol mode with symbol selection; result compared with the union computed independently";
void monInit() {}
void monDone() {}
namespace {
typedef std::vector<Str> SKey;// lower case
struct TRec {
   SKey shown;
   double v[5] {};
   Str acr[5];
   Str text;
};
struct TSym {
   Str name, text;
   int dim = 1, type = T_PAR, user = 0;
   std::map<SKey, TRec> recs;
   Str aliasOf;
};
struct TFile {
   Str path;// as given on the command line
   Str id;
   bool broken = false;
   std::vector<TSym> syms;
   std::vector<std::pair<Str, int>> acr;
};
double genVal( Rng &r )
{
   switch( (int) r.in( 0, 5 ) )
   {
      case 0: return r.pick( { (double) GMS_SV_EPS, (double) GMS_SV_NA, (double) GMS_SV_PINF, (double) GMS_SV_MINF, (double) GMS_SV_UNDEF } );
      case 1: return 0;
      case 2: return (double) r.in( -1000000, 1000000 );
      case 3: return std::ldexp( (double) r.in( 1, 1 << 30 ), (int) r.in( -80, 80 ) );
      default: return (double) r.in( -100, 100 ) / 8;
   }
}
void write( Rng &r, const Str &path, const TFile &f )
{
   remove( path.c_str() );
   Gdx g;
   gdxAutoConvert( g, 0 );
   int err = 0;
   bool ok = r.chance( 1, 4 ) ? gdxOpenWriteEx( g, path.c_str(), "mon", 1, &err ) : gdxOpenWrite( g, path.c_str(), "mon", &err );
   CHECK( ok && !err, "write", "cannot create file" );
   for( auto &a: f.acr ) if( a.first.compare( 0, 7, "Unknown" ) ) CHECK( gdxAcronymAdd( g, a.first.c_str(), ( "about " + lower( a.first ) ).c_str(), a.second ) > 0, "write", "acronym refused" );
   for( auto &s: f.syms )
   {
      if( !s.aliasOf.empty() ) { CHECK( gdxAddAlias( g, s.aliasOf.c_str(), s.name.c_str() ), "write", "alias refused" ); continue; }
      std::map<Str, int> tx;
      for( auto &x: s.recs ) if( !x.second.text.empty() && !tx.count( x.second.text ) ) { int n = 0; CHECK( gdxAddSetText( g, x.second.text.c_str(), &n ), "write", "text refused" ); tx[x.second.text] = n; }
      CHECK( gdxDataWriteStrStart( g, s.name.c_str(), s.text.c_str(), s.dim, s.type, s.user ), "write", "symbol refused" );
      std::vector<const TRec *> o;
      for( auto &x: s.recs ) o.push_back( &x.second );
      r.shuffle( o );
      for( auto *x: o )
      {
         const char *k[20];
         for( int d = 0; d < s.dim; d++ ) k[d] = x->shown[(size_t) d].c_str();
         double v[5] {};
         memcpy( v, x->v, sizeof v );
         if( s.type == T_SET ) v[0] = x->text.empty() ? 0 : tx[x->text];
         for( int i = 0; i < 5; i++ )
            if( !x->acr[i].empty() )
               for( auto &a: f.acr ) if( a.first == x->acr[i] ) v[i] = gdxAcronymValue( g, a.second );
         CHECK( gdxDataWriteStr( g, k, v ), "write", "record refused" );
      }
      CHECK( gdxDataWriteDone( g ), "write", "symbol not finished" );
   }
   CHECK( gdxClose( g ) == 0, "write", "close failed" );
}
struct MSym {
   Str name, text;
   int dim, type, user;
   std::map<SKey, TRec> recs;
};
}// namespace

void runCase( u64 idx, Rng &r )
{
   Str dir = scratchFile( "in" );
   mkdir( dir.c_str(), 0755 );
   if( DIR *d = opendir( dir.c_str() ) )
   {
      while( dirent *e = readdir( d ) ) if( e->d_name[0] != '.' ) unlink( ( dir + "/" + e->d_name ).c_str() );
      closedir( d );
   }
   // a pool of symbols all files draw from
   int nl = (int) r.pick( { 3, 8, 20, 200 } );
   std::vector<Str> labels = genLabels( r, nl );
   std::vector<TSym> pool;
   std::set<Str> names;
   int np = (int) r.in( 1, 8 );
   for( int i = 0; i < np; i++ )
   {
      TSym s;
      for( ;; ) { s.name = r.chance( 1, 10 ) ? Str( r.pick( { "Merged_set_1", "merged_SET_2" } ) ) : genIdent( r ); if( lower( s.name ).compare( 0, 4, "acr_" ) && lower( s.name ).compare( 0, 7, "unknown" ) && names.insert( lower( s.name ) ).second ) break; }
      s.dim = r.chance( 1, 6 ) ? (int) r.in( 18, 20 ) : (int) r.in( 0, 4 );
      s.type = (int) r.in( s.dim ? 0 : 1, 3 );
      s.user = s.type == T_EQU ? (int) r.in( 53, 59 ) : s.type == T_VAR ? (int) r.in( 0, 9 ) : 0;
      if( r.chance( 3, 4 ) ) s.text = "text of " + lower( s.name );
      pool.push_back( s );
   }
   std::vector<TFile> files;
   int nf = (int) r.in( 1, 5 );
   std::set<Str> ids;
   static const char *TX[] { "alpha", "Alpha", "ALPHA", "t with 'quotes'", "x", "X" };
   for( int i = 0; i < nf; i++ )
   {
      TFile f;
      Str base;
      for( ;; )
      {
         base = r.chance( 1, 5 ) ? r.pick( labels ) : r.chance( 1, 8 ) ? fmt( "my file %d", i ) : r.chance( 1, 12 ) ? fmt( "a.b%d", i ) : r.chance( 1, 12 ) ? Str( (size_t) r.in( 60, 70 ), (char) ( 'a' + i ) ) : fmt( "f%d", i );
         bool ok = !base.empty();
         for( char c: base ) ok = ok && ( isalnum( (unsigned char) c ) || strchr( "_ .-", c ) );
         if( !ok || base[0] == ' ' || base[0] == '.' || base[0] == '-' || base.back() == ' ' || lower( base ).compare( 0, 5, "file_" ) == 0 || lower( base ) == "merged" ) ok = false;
         if( ok && ids.insert( lower( base ) ).second ) break;
      }
      f.path = "in/" + base + ".gdx";
      f.id = base;
      f.broken = r.chance( 1, 25 );
      if( r.chance( 1, 3 ) )
      {
         std::set<int> used;
         std::set<Str> un;
         int na = (int) r.in( 1, 4 );
         for( int a = 0; a < na; a++ )
         {
            int v = (int) r.in( 1, r.chance( 1, 3 ) ? 1000 : 5 );
            Str n = r.chance( 1, 4 ) ? fmt( "UnknownACRO%d", v ) : fmt( "acr_%d", (int) r.in( 1, 5 ) );
            if( used.insert( v ).second && un.insert( n ).second ) f.acr.push_back( { r.chance( 1, 4 ) && n[0] == 'a' ? flipCase( r, n ) : n, v } );
         }
      }
      for( auto s: pool )
      {
         if( r.chance( 1, 4 ) ) continue;
         if( i && r.chance( 1, 3 ) ) s.name = flipCase( r, s.name );
         if( i && r.chance( 1, 12 ) ) { s.dim = s.dim == 20 ? 3 : s.dim + 1; }
         if( i && s.dim && r.chance( 1, 12 ) ) { s.type = (int) r.in( 0, 3 ); s.user = s.type == T_EQU ? 53 : s.type == T_VAR ? 5 : 0; }
         if( i && s.type >= T_VAR && r.chance( 1, 12 ) ) s.user = s.type == T_EQU ? (int) r.in( 53, 59 ) : (int) r.in( 0, 9 );
         if( r.chance( 1, 6 ) ) s.text = r.chance( 1, 2 ) ? "" : "another text";
         int n = s.dim == 0 ? 1 : (int) r.pick( { 0, 1, 3, 10, 60 } );
         std::vector<Str> before;
         for( int k = 0; k < n; k++ )
         {
            TRec x;
            SKey key;
            int common = k && s.dim > 1 && r.chance( 1, 2 ) ? (int) r.in( 1, s.dim - 1 ) : 0;
            for( int d = 0; d < s.dim; d++ ) { x.shown.push_back( d < common ? before[(size_t) d] : r.pick( labels ) ); key.push_back( lower( x.shown.back() ) ); }
            before = x.shown;
            if( s.type == T_SET )
            {
               if( r.chance( 1, 3 ) ) x.text = r.pick( std::vector<Str>( TX, TX + 6 ) );
               else if( r.chance( 1, 2 ) ) x.text = fmt( "%llx", (unsigned long long) r.in( 0, 1 << 20 ) );
            }
            else for( int q = 0; q < nvals( s.type ); q++ )
            {
               x.v[q] = genVal( r );
               if( !f.acr.empty() && r.chance( 1, 6 ) ) x.acr[q] = r.pick( f.acr ).first;
            }
            s.recs.emplace( key, x );
         }
         f.syms.push_back( s );
         if( s.type == T_SET && r.chance( 1, 4 ) )
         {
            TSym a = s;
            a.name = s.name + "_A";
            if( a.name.size() <= 63 && names.insert( lower( a.name ) + "#" + std::to_string( i ) ).second && !names.count( lower( a.name ) ) ) { a.aliasOf = s.name; a.text = ""; f.syms.push_back( a ); }
         }
      }
      if( r.chance( 1, 3 ) )
      {// aliases must stay behind their sets
         std::stable_partition( f.syms.begin(), f.syms.end(), []( const TSym &s ) { return s.aliasOf.empty(); } );
      }
      if( f.broken ) writeFileBytes( g_scratch + "/" + f.path, "garbage" );
      else write( r, g_scratch + "/" + f.path, f );
      files.push_back( f );
   }
   // command line
   auto cs = [&]( Str s ) { return r.chance( 1, 3 ) ? flipCase( r, s ) : s; };
   std::vector<Str> a;
   bool glob = r.chance( 1, 4 );
   if( glob ) a.push_back( "in/*.gdx" );
   else for( auto &f: files ) a.push_back( f.path );
   Str out = "merged.gdx";
   if( r.chance( 1, 2 ) ) { out = "res.gdx"; a.push_back( cs( r.chance( 1, 2 ) ? "Output" : "O" ) + "=" + ( r.chance( 1, 2 ) ? "res" : "res.gdx" ) ); }
   else if( glob && r.chance( 1, 3 ) )
   {// the output lies where the pattern finds it: it is not one of its own inputs
      out = "in/zz out.gdx";
      a.push_back( cs( "Output" ) + "=" + out );
   }
   bool self = out[0] == 'i';
   remove( scratchFile( "merged.gdx" ).c_str() );
   remove( scratchFile( "res.gdx" ).c_str() );
   std::set<Str> sel, excl;
   bool big = r.chance( 1, 2 );
   if( big ) a.push_back( cs( "big" ) + fmt( "=%d", (int) r.pick( { 0, 1, 5, 60, 1000000 } ) ) );
   if( r.chance( 1, 3 ) )
   {
      bool ex = r.chance( 1, 2 );
      Str v;
      int n = (int) r.in( 1, 3 );
      for( int i = 0; i < n; i++ )
      {
         Str s = r.chance( 1, 6 ) ? genIdent( r ) : r.pick( pool ).name;
         ( ex ? excl : sel ).insert( lower( s ) );
         v += ( i ? Str( r.pick( { ",", ", ", " " } ) ) : Str() ) + cs( s );
      }
      a.push_back( cs( ex ? "exclude" : "id" ) + "=" + v );
   }
   bool strict = r.chance( 1, 6 );
   if( strict ) a.push_back( cs( "strict" ) + "=true" );
   else if( r.chance( 1, 8 ) ) a.push_back( cs( "strict" ) + "=" + r.pick( { "false", "no", "tru" } ) );
   int refuse = r.chance( 1, 20 ) ? (int) r.in( 1, 4 ) : 0;
   if( refuse == 1 ) { a.push_back( "in/nothing*.gdx" ); a.push_back( "strict=true" ); }
   else if( refuse == 2 ) { a.push_back( "strict=true" ); writeFileBytes( scratchFile( out ), "precious" ); }
   else if( refuse == 3 ) { a.push_back( "id=x" ); a.push_back( "exclude=y" ); }
   else if( refuse == 4 ) { a.push_back( "output=nowhere/x/y.gdx" ); if( out != "merged.gdx" ) refuse = 5; }// the second output is refused
   else if( r.chance( 1, 6 ) ) writeFileBytes( scratchFile( out ), "old" ), strict = false, a.erase( std::remove_if( a.begin(), a.end(), []( const Str &s ) { return lower( s ) == "strict=true"; } ), a.end() );
   if( r.chance( 1, 3 ) ) a = viaParamFile( r, a );
   ToolRun t = runTool( "gdxmerge", a, g_scratch );
   Str cmd = "gdxmerge" + joinArgs( a );
   auto clean = [&] {};
   checkSane( t, "gdxmerge", a );
   if( refuse )
   {
      CHECK( t.rc == 1, "exitcode", "%s: exit code %d for a request that cannot be served (%s)", cmd.c_str(), t.rc, t.out.substr( 0, 300 ).c_str() );
      if( refuse == 2 ) CHECK( readFileBytes( scratchFile( out ) ) == "precious", "strict", "%s: existing output touched in strict mode", cmd.c_str() );
      count( "refused" );
      clean();
      return;
   }
   // the order in which the tool visits the files is only fixed when they are named one by one
   std::vector<const TFile *> order;
   if( !glob ) for( auto &f: files ) order.push_back( &f );
   else
   {
      Str p;
      for( size_t q = 0; ( q = t.out.find( "Reading file: ", q ) ) != Str::npos; )
      {
         q += 14;
         Str n = t.out.substr( q, t.out.find( '\n', q ) - q );
         for( auto &f: files ) if( f.path == n && std::find( order.begin(), order.end(), &f ) == order.end() ) order.push_back( &f );
      }
      if( !( self && strict ) ) CHECK( order.size() == files.size(), "glob", "%s: %zu of %zu files matched by the pattern were read", cmd.c_str(), order.size(), files.size() );
   }
   if( self )
   {
      CHECK( t.out.find( "Cannot use " + out + " as input file and output file" ) != Str::npos, "report", "%s: nothing is said about the output file among the inputs", cmd.c_str() );
      count( "output_among_inputs" );
      if( strict )
      {
         CHECK( t.rc == 1, "exitcode", "%s: exit code %d although one input cannot be used, in strict mode", cmd.c_str(), t.rc );
         return;
      }
   }
   size_t good = 0;
   for( auto *f: order ) good += !f->broken;
   if( !good && strict )
   {
      CHECK( t.rc == 1, "exitcode", "%s: no readable input in strict mode, exit code %d", cmd.c_str(), t.rc );
      clean();
      return;
   }
   CHECK( t.rc == 0, "exitcode", "%s: exit code %d (%s)", cmd.c_str(), t.rc, t.err.substr( 0, 300 ).c_str() );
   // expected result
   std::map<Str, MSym> want;
   std::vector<Str> msgs;
   std::map<const TFile *, Str> tag;
   {
      int n = 0;
      for( auto *f: order )
      {
         n++;
         tag[f] = f->id.size() > 63 ? fmt( "File_%d", n ) : f->id;
      }
   }
   Str all = t.out + t.err;
   for( auto *f: order )
   {
      if( f->broken ) { CHECK( all.find( "Error reading file" ) != Str::npos, "report", "%s: unreadable input not reported", cmd.c_str() ); count( "unreadable_inputs" ); continue; }
      for( auto &s: f->syms )
      {
         Str key = lower( s.name );
         if( s.dim >= 20 ) { msgs.push_back( "Dimension too large: " + s.name ); count( "too_many_dimensions" ); continue; }
         if( ( !sel.empty() && !sel.count( key ) ) || excl.count( key ) ) { count( "deselected" ); continue; }
         auto m = want.find( key );
         if( m == want.end() )
         {
            MSym x;
            x.name = s.name;
            x.dim = s.dim + 1;
            x.type = s.type;
            x.user = s.aliasOf.empty() ? s.user : 0;
            m = want.emplace( key, x ).first;
         }
         if( m->second.dim != s.dim + 1 ) { msgs.push_back( "Dimensions do not match: " + s.name ); count( "dimension_conflicts" ); continue; }
         if( m->second.type != s.type ) { msgs.push_back( "Types do not match: " + s.name ); count( "type_conflicts" ); continue; }
         if( s.type >= T_VAR && m->second.user != s.user ) { msgs.push_back( "subtypes do not match: " + s.name ); count( "subtype_conflicts" ); continue; }
         // aliases carry a generated text of their own
         if( s.aliasOf.empty() )
         {
            if( m->second.text.empty() ) m->second.text = s.text;
            else if( !s.text.empty() && s.text != m->second.text ) msgs.push_back( "Explanatory text is different: " + s.name );
         }
         else m->second.text = m->second.text.empty() ? Str( "\1" ) : m->second.text;
         for( auto &x: s.recs )
         {
            SKey k { lower( tag[f] ) };
            k.insert( k.end(), x.first.begin(), x.first.end() );
            m->second.recs[k] = x.second;
         }
         count( "merged_instances" );
      }
   }
   for( auto &m: msgs ) CHECK( all.find( m ) != Str::npos, "report", "%s: conflict is not reported: %s", cmd.c_str(), m.c_str() );
   if( good ) CHECK( t.out.find( fmt( "Merge complete, %zu input files merged", good ) ) != Str::npos, "report", "%s: %zu files merged, but the tool prints: %s", cmd.c_str(), good, t.out.substr( t.out.size() > 200 ? t.out.size() - 200 : 0 ).c_str() );
   ReadOpts ro;
   ro.find = false;
   Content c;
   try { c = readFile( scratchFile( out ), ro ); }
   catch( const Fail &f ) { fail( "merged", "%s: merged file: %s", cmd.c_str(), f.msg.c_str() ); }
   {
      std::set<Str> lab { "" };
      for( auto &l: labels ) lab.insert( lower( l ) );
      if( std::find( labels.begin(), labels.end(), Str() ) == labels.end() ) lab.erase( "" );
      for( auto &q: tag ) lab.insert( lower( q.second ) );
      for( auto &u: c.uels ) CHECK( lab.count( lower( u ) ), "label", "%s: label '%s' in the merged file comes from no input", cmd.c_str(), u.c_str() );
   }
   size_t extra = 0;
   std::set<Str> seen;
   for( auto &s: c.syms )
   {
      Str key = lower( s.name );
      auto w = want.find( key );
      if( w == want.end() )
      {
         CHECK( key.compare( 0, 11, "merged_set_" ) == 0 && s.type == T_SET && s.dim == 1, "merged", "%s: symbol %s does not belong in the merged file", cmd.c_str(), s.name.c_str() );
         std::map<Str, Str> fs;
         for( auto &x: s.recs ) fs[lower( c.uels[(size_t) x.k[0] - 1] )] = x.v[0] == 0 ? "" : c.texts[(size_t) x.v[0]];
         for( auto *f: order )
         {
            auto q = fs.find( lower( tag[f] ) );
            CHECK( q != fs.end(), "fileset", "%s: %s is not listed as %s", cmd.c_str(), f->path.c_str(), tag[f].c_str() );
            CHECK( q->second.size() >= f->path.size() && q->second.compare( q->second.size() - f->path.size(), Str::npos, f->path ) == 0, "fileset", "%s: %s is described as '%s'", cmd.c_str(), f->path.c_str(), q->second.c_str() );
         }
         CHECK( fs.size() == order.size(), "fileset", "%s: %zu files listed, expected %zu", cmd.c_str(), fs.size(), order.size() );
         extra++;
         continue;
      }
      CHECK( seen.insert( key ).second, "merged", "%s: symbol %s twice", cmd.c_str(), s.name.c_str() );
      const MSym &m = w->second;
      CHECK( s.name == m.name && s.dim == m.dim && s.type == m.type, "merged", "%s: %s has dimension %d type %d, expected %s %d %d", cmd.c_str(), s.name.c_str(), s.dim, s.type, m.name.c_str(), m.dim, m.type );
      if( m.type >= T_VAR ) CHECK( s.user == m.user, "merged", "%s: %s has subtype %d, expected %d", cmd.c_str(), s.name.c_str(), s.user, m.user );
      if( m.text != "\1" ) CHECK( s.text == m.text, "text", "%s: %s is described as '%s', expected '%s'", cmd.c_str(), s.name.c_str(), s.text.c_str(), m.text.c_str() );
      CHECK( s.recs.size() == m.recs.size(), "merged", "%s: %s has %zu records, expected %zu", cmd.c_str(), s.name.c_str(), s.recs.size(), m.recs.size() );
      for( auto &x: s.recs )
      {
         SKey k;
         Str ks;
         for( int i = 0; i < s.dim; i++ ) { k.push_back( lower( c.uels[(size_t) x.k[i] - 1] ) ); ks += "." + k.back(); }
         auto y = m.recs.find( k );
         CHECK( y != m.recs.end(), "merged", "%s: %s has an unexpected record %s", cmd.c_str(), s.name.c_str(), ks.c_str() );
         if( s.type == T_SET )
         {
            Str tx = x.v[0] == 0 ? "" : c.texts[(size_t) x.v[0]];
            CHECK( tx == y->second.text, "merged", "%s: %s%s has text '%s', expected '%s'", cmd.c_str(), s.name.c_str(), ks.c_str(), tx.c_str(), y->second.text.c_str() );
         }
         else for( int f = 0; f < nvals( s.type ); f++ )
         {
            if( !y->second.acr[f].empty() )
            {
               int n = x.v[f] >= 1e301 && std::isfinite( x.v[f] ) ? (int) std::lround( x.v[f] / 1e301 ) : 0;
               Str nm, tx;
               for( auto &q: c.acros ) if( q.idx == n ) { nm = q.name; tx = q.text; }
               CHECK( n && lower( nm ) == lower( y->second.acr[f] ), "acronym", "%s: %s%s field %d is %.17g (acronym '%s'), expected acronym %s", cmd.c_str(), s.name.c_str(), ks.c_str(), f, x.v[f], nm.c_str(), y->second.acr[f].c_str() );
               CHECK( tx == ( lower( nm ).compare( 0, 7, "unknown" ) ? "about " + lower( nm ) : "" ), "acronym", "%s: acronym %s has text '%s'", cmd.c_str(), nm.c_str(), tx.c_str() );
               count( "acronym_values" );
            }
            else CHECK( bits( x.v[f] ) == bits( normVal( y->second.v[f] ) ), "merged", "%s: %s%s field %d is %.17g, expected %.17g", cmd.c_str(), s.name.c_str(), ks.c_str(), f, x.v[f], y->second.v[f] );
         }
         count( "merged_records" );
      }
      nontrivial( ( hashStr( key ) * 31 + s.recs.size() ) * 31 + (u64) s.dim );
   }
   CHECK( seen.size() == want.size() && extra == 1, "merged", "%s: %zu of %zu symbols and %zu file lists in the merged file", cmd.c_str(), seen.size(), want.size(), extra );
   count( big ? "big_mode_merges" : "plain_merges" );
   clean();
   if( idx < 5 ) sample( cmd );
}
