// P11: append sessions
#include "duptext.hpp"
const char *MON_RULE = "a case writes a random file and then performs 1-5 append sessions (possibly empty; new labels, texts, symbols of any kind, aliases and domains over old sets, comments and relaxed domains for old symbols, acronyms, attempts to reuse old names, old labels written again in any case), comparing the complete content read after each session, and the catalogue visible at the start of each append session, with a model; non-trivial = distinct history with at least one session that adds a symbol with records";
static void catalogue( Gdx &g, const Content &c )
{
   char a[512];
   int n, m, d, t, rc, u;
   CHECK( gdxSystemInfo( g, &n, &m ) && n == (int) c.syms.size() && m == (int) c.uels.size(), "catalogue", "appending sees %d symbols %d labels, expected %zu %zu", n, m, c.syms.size(), c.uels.size() );
   for( int i = 1; i <= n; i++ )
   {
      const Sym &s = c.syms[(size_t) i - 1];
      CHECK( gdxSymbolInfo( g, i, a, &d, &t ) && s.name == a && s.dim == d && s.type == t, "catalogue", "symbol %d is '%s' %d %d", i, a, d, t );
      CHECK( gdxSymbolInfoX( g, i, &rc, &u, a ) && s.text == a && s.user == u, "catalogue", "symbol %d text '%s' user %d", i, a, u );
   }
   for( size_t i = 0; i < c.uels.size(); i++ ) CHECK( gdxUMUelGet( g, (int) i + 1, a, &u ) && c.uels[i] == a, "catalogue", "label %zu is '%s'", i + 1, a );
   for( size_t i = 0; i < c.texts.size(); i++ ) CHECK( gdxGetElemText( g, (int) i, a, &u ) && c.texts[i] == a, "catalogue", "text %zu is '%s'", i, a );
}
// equal texts under several numbers, as older writers left them
static void shared( u64 idx, Rng &r )
{
   Str path = scratchFile( "dup.gdx" );
   DupFile f = writeDupFile( path, r );
   int sessions = (int) r.in( 1, 3 );
   std::vector<std::pair<Str, Str>> added;
   for( int q = 0; q < sessions; q++ )
   {
      Gdx g;
      int err = 0, nr = -1, node;
      CHECK( gdxOpenAppend( g, path.c_str(), "app", &err ) && !err, "sharedopen", "append refused: %d", err );
      gdxAutoConvert( g, 0 );
      Str t = r.chance( 1, 2 ) ? r.pick( f.stored ) : fmt( "added %d", q );
      CHECK( gdxAddSetText( g, t.c_str(), &nr ), "shared", "text refused" );
      char b[512] = "";
      CHECK( gdxGetElemText( g, nr, b, &node ) && t == b, "shared", "text %d is '%s', expected '%s'", nr, b, t.c_str() );
      Str nm = fmt( "added_set_%d", q );
      const char *k[1] = { "e1" };
      double v[5] = { (double) nr };
      CHECK( gdxDataWriteStrStart( g, nm.c_str(), "", 1, T_SET, 0 ) && gdxDataWriteStr( g, k, v ) && gdxDataWriteDone( g ), "shared", "set refused" );
      CHECK( gdxClose( g ) == 0, "shared", "close" );
      added.push_back( { nm, t } );
      Gdx h;
      CHECK( gdxOpenRead( h, path.c_str(), &err ) && !err, "sharedopen", "cannot be read after append: %d", err );
      checkDupFile( h, f, r, "shared" );
      for( auto &a: added )
      {
         int sy = 0, n, df, kk[20];
         CHECK( gdxFindSymbol( h, a.first.c_str(), &sy ) && gdxDataReadRawStart( h, sy, &n ) && gdxDataReadRaw( h, kk, v, &df ), "shared", "added set is lost" );
         CHECK( gdxGetElemText( h, (int) v[0], b, &node ) && a.second == b && ( v[0] != 0 || a.second.empty() ), "shared", "element added with text '%s' has text '%s'", a.second.c_str(), b );
         gdxDataReadDone( h );
      }
      gdxClose( h );
      count( "append_sessions" );
   }
   count( "shared_text_files" );
   Str h;
   for( auto &s: f.stored ) h += s;
   nontrivial( hashStr( h, idx ) );
}
void runCase( u64 idx, Rng &r )
{
   if( r.chance( 1, 12 ) ) return shared( idx, r );
   Str path = scratchFile( "app.gdx" );
   std::unique_ptr<Gdx> g( new Gdx );
   std::unique_ptr<Writer> w( new Writer( *g, r ) );
   int compr = (int) r.in( 0, 1 );
   w->open( path, compr );
   int size = idx % 53 == 7 ? 2 : idx % 6 == 1 ? 1 : 0;
   if( r.chance( 1, 10 ) ) count( "empty_first_session" );
   else genInto( r, *w, size );
   w->close();
   bool nont = false;
   int sessions = (int) r.in( 1, size == 2 ? 2 : 5 );
   u64 h = idx;
   for( int q = 0; q < sessions; q++ )
   {
      Str before = readFileBytes( path );
      if( r.chance( 1, 3 ) )
      {// another object continues
         Content c = w->c;
         auto ds = w->domStr;
         w.reset();
         g.reset( new Gdx );
         w.reset( new Writer( *g, r ) );
         w->c = c;
         w->domStr = ds;
         w->reindex();
         for( auto &a: w->c.acros ) w->symIdx[lower( a.name )] = -1;
      }
      if( r.chance( 1, 12 ) )
      {
         int e = 0;
         CHECK( !gdxOpenAppend( *g, scratchFile( "missing.gdx" ).c_str(), "x", &e ) && e != 0, "missing", "appending to a missing file: error %d", e );
         remove( scratchFile( "missing.gdx" ).c_str() );
      }
      w->append( path, r.chance( 1, 10 ) ? Str( 300, 'z' ) : Str( "app" ) );
      catalogue( *g, w->c );
      int err = 0;
      CHECK( !gdxOpenAppend( *g, path.c_str(), "again", &err ) && err == -100059, "twice", "second append on an open object: %d", err );
      int total = gdxErrorCount( *g );
      switch( r.in( 0, 6 ) )
      {
         case 0: break;// nothing added
         case 1: w->registerLabels( genLabels( r, (int) r.in( 1, 300 ) ), r.pick( { 'R', 'S', 'M' } ) ); w->addText( genText( r ) ); break;
         default:
         {
            size_t n0 = w->c.syms.size();
            int k = (int) r.in( 0, 2 );
            for( int i = 0; i < k && n0; i++ ) w->addComment( (int) r.in( 1, (int64_t) n0 ), genText( r ) );
            if( n0 && r.chance( 1, 5 ) )
            {
               int nr = (int) r.in( 1, (int64_t) n0 );
               std::vector<Str> ids;
               for( int d = 0; d < w->c.syms[(size_t) nr - 1].dim; d++ ) ids.push_back( r.chance( 1, 3 ) ? Str( "*" ) : genIdent( r ) );
               w->setDomainX( nr, ids );
            }
            if( n0 && r.chance( 1, 2 ) )
            {
               Str nm = flipCase( r, w->c.syms[(size_t) r.in( 1, (int64_t) n0 ) - 1].name );
               gdxGetLastError( *g );
               CHECK( !gdxDataWriteStrStart( *g, nm.c_str(), "", 1, T_PAR, 0 ), "unique", "old name '%s' accepted again", nm.c_str() );
               int e = gdxGetLastError( *g );
               CHECK( e == -100007, "unique", "old name '%s': error %d", nm.c_str(), e );
               total++;
               count( "old_names_refused" );
            }
            if( r.chance( 1, 4 ) && !w->c.uels.empty() )
            {// old labels again
               std::vector<Str> l;
               for( int i = 0; i < 5; i++ ) l.push_back( flipCase( r, r.pick( w->c.uels ) ) );
               w->registerLabels( l, 'S' );
            }
            genInto( r, *w, r.chance( 1, 5 ) ? 1 : 0 );
            for( size_t i = n0; i < w->c.syms.size(); i++ ) if( !w->c.syms[i].recs.empty() && w->c.syms[i].type != T_ALIAS ) nont = true;
         }
      }
      CHECK( gdxErrorCount( *g ) == total, "errors", "%d errors in an append session, expected %d", gdxErrorCount( *g ), total );
      w->close();
      Content d = readFile( path );
      Str df = diffContent( w->c, d );
      CHECK( df.empty(), "content", "after append session %d: %s", q + 1, df.c_str() );
      CHECK( d.compr == w->c.compr, "compr", "compression kind changed by appending" );
      CHECK( d.producer == w->c.producer || !d.producer.empty() || w->c.producer.empty(), "producer", "producer lost" );
      count( "append_sessions" );
      h = hashStr( fmt( "%zu/%zu/%zu", w->c.syms.size(), w->c.uels.size(), w->c.texts.size() ), h );
      note( "session_number", (u64) q );
   }
   if( nont ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %d sessions, %zu symbols, %zu labels", (unsigned long long) idx, sessions, w->c.syms.size(), w->c.uels.size() ) );
}
