// P08: set element texts
#include "duptext.hpp"
const char *MON_RULE = "a case registers texts (many duplicates, case variants, over-long, control characters, quotes, up to tens of thousands) before, between and during the writing of sets of dimension 1-20 in every write mode, attaches them to random elements, sets node numbers, and queries texts by number while writing, after reopening through raw and string reads, and optionally in append sessions; every element's text is compared with the text given for it; non-trivial = distinct case with at least one element with text";
struct T { Str text; int node = 0; };
static Str someText( Rng &r, std::vector<Str> &pool )
{
   if( !pool.empty() && r.chance( 1, 3 ) )
   {
      Str t = r.pick( pool );
      switch( r.in( 0, 4 ) )
      {
         case 0: return flipCase( r, t );
         case 1: return t + " ";
         case 2: return " " + t;
         default: return t;
      }
   }
   Str t = r.chance( 1, 4 ) ? fmt( "text %d", (int) r.in( 1, 100000 ) ) : r.chance( 1, 12 ) ? Str( (size_t) r.in( 253, 258 ), (char) r.in( 'a', 'c' ) ) : genText( r );
   pool.push_back( t );
   return t;
}
static void shared( u64 idx, Rng &r )
{
   Str path = scratchFile( "dup.gdx" );
   DupFile f = writeDupFile( path, r );
   Gdx g;
   int err = 0;
   for( int q = 0; q < 2; q++ )
   {
      CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "sharedopen", "a file with equal texts under two numbers is refused: %d", err );
      checkDupFile( g, f, r, "shared" );
      if( !q ) { gdxClose( g ); continue; }
      // texts added while reading get numbers of their own
      int nr = -1, node;
      char b[512];
      CHECK( gdxAddSetText( g, "a new one", &nr ) && gdxGetElemText( g, nr, b, &node ) && !strcmp( b, "a new one" ), "shared", "new text %d is '%s'", nr, b );
      checkDupFile( g, f, r, "shared" );
      gdxClose( g );
   }
   Str h;
   for( auto &s: f.stored ) h += s;
   nontrivial( hashStr( h, idx ) );
   count( "shared_text_files" );
}
void runCase( u64 idx, Rng &r )
{
   if( r.chance( 1, 12 ) ) return shared( idx, r );
   Str path = scratchFile( "txt.gdx" );
   std::vector<Str> pool;
   std::map<int, T> table;// number -> text
   table[0];
   std::map<Str, std::map<std::vector<int>, Str>> want;// set -> key -> text ("" = none)
   bool many = r.chance( 1, 60 );
   int nl = (int) r.in( 2, 60 );
   u64 h = idx;
   long withText = 0;
   Content c;
   {
      Gdx g;
      Writer w( g, r );
      w.open( path, (int) r.in( 0, 1 ) );
      w.registerLabels( genLabels( r, nl ), 'S' );
      auto add = [&]() {
         Str t = someText( r, pool );
         int nr = -5;
         CHECK( gdxAddSetText( g, t.c_str(), &nr ), "add", "text refused" );
         Str n = normText( t, false );
         CHECK( nr >= 0, "add", "text number %d", nr );
         auto it = table.find( nr );
         if( it != table.end() ) CHECK( it->second.text == n, "number", "number %d given to '%s' already stands for '%s'", nr, n.c_str(), it->second.text.c_str() );
         table[nr].text = n;
         count( "texts_registered" );
         return nr;
      };
      auto query = [&]( int nr ) {
         char b[512];
         int node = -9;
         auto it = table.find( nr );
         int rc = gdxGetElemText( g, nr, b, &node );
         if( it == table.end() ) { CHECK( !rc && node == 0, "unknown", "unknown text number %d accepted", nr ); return; }
         CHECK( rc, "query", "text number %d refused", nr );
         CHECK( it->second.text == b, "text", "text %d is '%s', expected '%s'", nr, b, it->second.text.c_str() );
         CHECK( node == it->second.node, "node", "node of text %d is %d, expected %d", nr, node, it->second.node );
         count( "texts_queried" );
      };
      auto setNode = [&]( int nr ) {
         int node = r.pick( { 1, 2, 77, 2147483647, -1, -100, 0 } );
         auto it = table.find( nr );
         int rc = gdxSetTextNodeNr( g, nr, node );
         if( it == table.end() ) { CHECK( !rc, "nodeset", "node number for unknown text %d accepted", nr ); return; }
         if( it->second.node ) CHECK( !rc, "nodeset", "node number of text %d replaced", nr );
         else { CHECK( rc, "nodeset", "node number for text %d refused", nr ); it->second.node = node; }
         count( "nodes_set" );
      };
      int sessions = r.chance( 1, 5 ) ? 2 : 1;
      for( int q = 0; q < sessions; q++ )
      {
         if( q )
         {
            w.close();
            int err;
            CHECK( gdxOpenAppend( g, path.c_str(), "app", &err ) && !err, "append", "append refused: %d", err );
            gdxAutoConvert( g, 0 );
            for( auto &x: table ) x.second.node = 0;
            w.uel2usr.clear(); w.usr2uel.clear(); w.highUsr = 0;
            w.registerLabels( w.c.uels, 'S' );
            for( auto &x: table ) query( x.first );
         }
         int nt = many ? 30000 : (int) r.in( 0, 40 );
         for( int i = 0; i < nt; i++ ) add();
         int ns = (int) r.in( 1, 4 );
         for( int k = 0; k < ns; k++ )
         {
            Sym s;
            do s.name = genIdent( r ); while( w.symIdx.count( lower( s.name ) ) );
            s.type = r.chance( 1, 8 ) ? T_PAR : T_SET;
            s.dim = r.chance( 1, 6 ) ? (int) r.in( 4, 20 ) : (int) r.in( 1, 3 );
            char mode = r.pick( { 'S', 'M', 'R', 'B' } );
            int mn[MAXD], mx[MAXD];
            for( int d = 0; d < MAXD; d++ ) { mn[d] = 1; mx[d] = nl; }
            int ok = mode == 'S' ? gdxDataWriteStrStart( g, s.name.c_str(), "", s.dim, s.type, 0 ) : mode == 'M' ? gdxDataWriteMapStart( g, s.name.c_str(), "", s.dim, s.type, 0 )
                      : mode == 'R' ? gdxDataWriteRawStart( g, s.name.c_str(), "", s.dim, s.type, 0 ) : gdxDataWriteRawStartKeyBounds( g, s.name.c_str(), "", s.dim, s.type, 0, mn, mx );
            CHECK( ok, "start", "start refused: %d", gdxGetLastError( g ) );
            KeyShape sh {};
            for( int d = 0; d < s.dim; d++ ) { sh.lo[d] = 1; sh.hi[d] = nl; }
            auto recs = genKeys( r, s.dim, many ? 2000 : (int) r.in( 0, 60 ), sh, 1 );
            if( mode == 'S' || mode == 'M' ) r.shuffle( recs );
            bool sparse = r.chance( 1, 2 ), none = r.chance( 1, 5 );
            bool any = false;
            for( auto &x: recs )
            {
               int nr = 0;
               if( s.type == T_SET && !none && ( !sparse || r.chance( 1, 10 ) ) )
               {
                  if( r.chance( 1, 3 ) ) nr = add();
                  else { auto it = table.begin(); std::advance( it, r.in( 0, std::min<int64_t>( 50, (int64_t) table.size() - 1 ) ) ); nr = it->first; }
               }
               std::vector<int> key( x.k, x.k + s.dim );
               double v[5] = { s.type == T_SET ? (double) nr : (double) r.in( 1, 50 ), 0, 0, 0, 0 };
               if( s.type == T_SET ) { want[s.name][key] = nr ? table[nr].text : Str(); if( nr ) { any = true; withText++; h = hashStr( table[nr].text, h ); } }
               const char *kp[MAXD];
               int um[MAXD];
               for( int d = 0; d < s.dim; d++ ) { kp[d] = w.c.uels[(size_t) x.k[d] - 1].c_str(); um[d] = w.uel2usr.count( x.k[d] ) ? w.uel2usr[x.k[d]] : 0; }
               CHECK( mode == 'S' ? gdxDataWriteStr( g, kp, v ) : mode == 'M' ? gdxDataWriteMap( g, um, v ) : gdxDataWriteRaw( g, x.k, v ), "write", "element refused: %d", gdxGetLastError( g ) );
               if( r.chance( 1, 12 ) ) { if( r.chance( 1, 2 ) ) query( (int) r.in( -2, 60 ) ); else setNode( (int) r.in( -1, 30 ) ); }
            }
            CHECK( gdxDataWriteDone( g ), "done", "done refused" );
            s.hasText = any;
            w.c.syms.push_back( s );
            w.symIdx[lower( s.name )] = (int) w.c.syms.size();
            CHECK( ( gdxSetHasText( g, (int) w.c.syms.size() ) != 0 ) == any, "hastextw", "set '%s' has texts: reported %d, is %d", s.name.c_str(), !any, any );
         }
         for( auto &x: table ) if( !many || r.chance( 1, 20 ) ) query( x.first );
         query( table.rbegin()->first + 1 );
         query( -1 );
      }
      int rc = gdxClose( g );
      CHECK( rc == 0, "close", "close returned %d", rc );
      c = w.c;
   }
   Gdx g;
   int err = 0, n, df, x;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "openread", "reopen refused: %d", err );
   char b[512];
   for( auto &t: table ) CHECK( gdxGetElemText( g, t.first, b, &x ) && t.second.text == b && x == 0, "reread", "after reopening text %d is '%s' node %d, expected '%s'", t.first, b, x, t.second.text.c_str() );
   for( int bad: { table.rbegin()->first + 1, -1, 2147483647, -2147483647 - 1 } ) CHECK( !gdxGetElemText( g, bad, b, &x ), "reread", "unknown text number %d accepted after reopening", bad );
   {
      int t = table.rbegin()->first;
      CHECK( gdxSetTextNodeNr( g, t, 5 ) && gdxGetElemText( g, t, b, &x ) && x == 5, "readnode", "node number in a file open for reading" );
      CHECK( !gdxSetTextNodeNr( g, t, 6 ) && gdxGetElemText( g, t, b, &x ) && x == 5, "readnode", "node number replaced" );
   }
   for( size_t i = 0; i < c.syms.size(); i++ )
   {
      const Sym &s = c.syms[i];
      CHECK( ( gdxSetHasText( g, (int) i + 1 ) != 0 ) == s.hasText, "hastext", "set '%s' has texts: reported %d, is %d", s.name.c_str(), !s.hasText, s.hasText );
      if( s.type != T_SET ) continue;
      auto &m = want[s.name];
      bool str = r.chance( 1, 2 );
      CHECK( str ? gdxDataReadStrStart( g, (int) i + 1, &n ) : gdxDataReadRawStart( g, (int) i + 1, &n ), "readstart", "cannot read" );
      size_t got = 0;
      int k[MAXD];
      double v[5];
      std::array<std::array<char, 256>, MAXD> kb;
      char *kp[MAXD];
      for( int d = 0; d < MAXD; d++ ) kp[d] = kb[(size_t) d].data();
      while( str ? gdxDataReadStr( g, kp, v, &df ) : gdxDataReadRaw( g, k, v, &df ) )
      {
         if( str ) for( int d = 0; d < s.dim; d++ ) { int mp; CHECK( gdxUMFindUEL( g, kp[d], &k[d], &mp ), "label", "label not found" ); }
         auto it = m.find( std::vector<int>( k, k + s.dim ) );
         CHECK( it != m.end(), "element", "unexpected element in '%s'", s.name.c_str() );
         got++;
         if( it->second.empty() )
         {
            // no text, or the registered empty text
            if( v[0] != 0 ) { CHECK( v[0] == std::floor( v[0] ) && gdxGetElemText( g, (int) v[0], b, &x ) && !b[0], "text0", "element without text carries %g", v[0] ); }
         }
         else
         {
            CHECK( v[0] > 0 && v[0] == std::floor( v[0] ), "textnr", "element with text '%s' carries %g", it->second.c_str(), v[0] );
            CHECK( gdxGetElemText( g, (int) v[0], b, &x ) && it->second == b, "textback", "element of '%s' has text '%s', written with '%s'", s.name.c_str(), b, it->second.c_str() );
         }
         count( "elements_checked" );
      }
      CHECK( got == m.size(), "elements", "set '%s': %zu of %zu elements", s.name.c_str(), got, m.size() );
      gdxDataReadDone( g );
   }
   // text bookkeeping functions of symbols that do not exist
   for( int bad: { 0, -1, (int) c.syms.size() + 1 } ) CHECK( !gdxSetHasText( g, bad ), "hastextbad", "symbol %d has texts", bad );
   gdxClose( g );
   count( "elements_with_text", (u64) withText );
   if( withText ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu texts, %zu symbols, %ld elements with text", (unsigned long long) idx, table.size(), c.syms.size(), withText ) );
}
