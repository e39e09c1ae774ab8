// P13: files follow the documented layout; foreign and old variants are read
#include "codec.hpp"
#include "trans.hpp"
const char *MON_RULE = "a case generates random content; either the library writes it (also with append sessions) and an independent decoder of the layout must find exactly that content in the bytes, or an independent encoder produces a file (either byte order for words, integers and doubles separately; versions 3-7; any key bounds and therefore widths; data in any order; any split into stored or deflated blocks; duplicate texts) and the library must read exactly that content and answer a random reading session as it does for its own file; non-trivial = distinct content with records";
static u64 sigOf( const Content &c )
{
   u64 h = c.uels.size();
   for( auto &s: c.syms ) { h = hashStr( s.name, h ); for( auto &x: s.recs ) h = hashBytes( &x, sizeof x, h ); }
   return h;
}
static Content gen( Rng &r, const Str &path, int size, int sessions )
{
   Gdx g;
   Writer w( g, r );
   w.open( path, (int) r.in( 0, 1 ) );
   genInto( r, w, size );
   w.close();
   for( int i = 0; i < sessions; i++ )
   {
      w.append( path );
      if( !r.chance( 1, 4 ) ) genInto( r, w, 0 );
      w.close();
   }
   return w.c;
}
static void nativeCase( u64 idx, Rng &r, int size )
{
   Str path = scratchFile( "n.gdx" );
   int sessions = r.chance( 1, 3 ) ? (int) r.in( 1, 3 ) : 0;
   Content c = gen( r, path, size, sessions );
   Decoded d;
   Str bytes = readFileBytes( path );
   try { d = decodeGdx( bytes ); }
   catch( const BadFile &b ) { fail( "layout", "the written file does not follow the layout: %s", b.msg.c_str() ); }
   Str df = diffContent( c, d.c, !sessions );
   CHECK( df.empty(), "decode", "independent decoder: %s", df.c_str() );
   CHECK( d.c.compr == c.compr, "compr", "compression level %d, expected %d", d.c.compr, c.compr );
   CHECK( d.nextPos >= d.dataEnd, "next", "next write position %lld lies before the end of the data %lld", (long long) d.nextPos, (long long) d.dataEnd );
   CHECK( d.symbPos >= d.dataEnd && d.uelPos > d.symbPos && d.acroPos > d.uelPos && d.domPos > d.acroPos && d.textPos > d.symbPos && d.textPos < d.uelPos, "order", "sections are not in the documented order" );
   count( "files_decoded" );
   count( "blocks_decoded", d.blocks );
   count( "stored_blocks", d.stored );
   count( "byte_keys", d.wide[0] );
   count( "word_keys", d.wide[1] );
   count( "integer_keys", d.wide[2] );
   if( c.syms.size() ) nontrivial( sigOf( c ) );
   (void) idx;
}
static void foreignCase( u64 idx, Rng &r, int size )
{
   Str path = scratchFile( "own.gdx" ), fp = scratchFile( "foreign.gdx" );
   Content c = gen( r, path, size, 0 );
   EncOpts o;
   if( r.chance( 2, 3 ) ) { o.swWord = r.chance( 1, 2 ); o.swInt = r.chance( 1, 2 ); o.swDbl = r.chance( 1, 2 ); }
   if( r.chance( 1, 4 ) ) o.swWord = o.swInt = o.swDbl = true;
   o.version = r.chance( 1, 2 ) ? 7 : (int) r.pick( { 6, 6, 5, 5, 3 } );
   o.compr = o.version > 5 && r.chance( 1, 2 );
   o.y2001 = o.version <= 5 && r.chance( 1, 4 );
   Content e = c;
   e.compr = o.compr;
   bool same = true;
   if( o.version < 7 )
   {
      same = false;
      e.acros.clear();
      std::vector<Sym> keep;
      bool drop = false;
      for( auto &s: e.syms ) if( s.dim > 10 ) drop = true;
      for( auto &s: e.syms )
      {
         s.comments.clear();
         s.domKind = 1;
         s.domNrs.assign( (size_t) s.dim, 0 );
         s.domIds.assign( (size_t) s.dim, "*" );
         if( s.dim > 10 || ( drop && s.type == T_ALIAS ) ) continue;// old versions know ten dimensions
         keep.push_back( s );
      }
      e.syms = keep;
   }
   Content enc = e;
   if( enc.texts.size() > 1 && r.chance( 1, 3 ) )
   {// the file may hold one text several times
      same = false;
      std::vector<Str> t { "" };
      std::vector<std::vector<int>> where( e.texts.size() );
      where[0].push_back( 0 );
      // the first occurrences keep their order, so the reader's table equals e.texts
      for( size_t i = 1; i < e.texts.size(); i++ )
      {
         where[i].push_back( (int) t.size() );
         t.push_back( e.texts[i] );
         if( r.chance( 1, 2 ) ) { size_t k = (size_t) r.in( 0, (int64_t) i ); where[k].push_back( (int) t.size() ); t.push_back( e.texts[k] ); count( "duplicate_texts" ); }
      }
      enc.texts = t;
      for( auto &s: enc.syms )
         if( s.type == T_SET )
            for( auto &x: s.recs ) { int k = (int) x.v[0]; if( k && x.v[0] == k && k < (int) where.size() ) x.v[0] = r.pick( where[(size_t) k] ); }
   }
   Str bytes = encodeGdx( enc, o, r );
   writeFileBytes( fp, bytes );
   Content d = readFile( fp );
   Str df = diffContent( e, d, true );
   CHECK( df.empty(), "read", "version %d, swapped %d%d%d, compressed %d: %s", o.version, o.swWord, o.swInt, o.swDbl, o.compr, df.c_str() );
   CHECK( d.compr == e.compr, "compr", "compression level %d, expected %d", d.compr, e.compr );
   int fv = 0, cl = 0;
   {
      Gdx g;
      int er = 0;
      gdxOpenRead( g, fp.c_str(), &er );
      CHECK( gdxFileInfo( g, &fv, &cl ) && fv == o.version, "version", "file version reported %d, is %d", fv, o.version );
      gdxClose( g );
   }
   if( same )
   {
      u64 s = r.next();
      Log a, b;
      for( int pass = 0; pass < 2; pass++ )
      {
         a = Log(); b = Log();
         a.keep = b.keep = pass > 0;
         Rng x( s ), y( s );
         Gdx g1, g2;
         openReadLog( g1, path, a );
         openReadLog( g2, fp, b );
         readSession( g1, x, a, size == 2 ? 5 : 15 );
         readSession( g2, y, b, size == 2 ? 5 : 15 );
         if( a == b ) break;
         CHECK( !pass, "answers", "own and foreign file answer differently: %s", firstDifference( a, b ).c_str() );
      }
      count( "answers_compared", a.n );
   }
   if( r.chance( 1, 3 ) )
   {// appending to it: refused, or correct
      Gdx g;
      int er = 0;
      int ok = gdxOpenAppend( g, fp.c_str(), "later", &er );
      bool foreign = o.swWord || o.swInt || o.swDbl;
      if( o.version < 7 )
      {
         CHECK( !ok && ( er != 0 || gdxGetLastError( g ) != 0 ), "append", "appending to a version %d file: result %d error %d", o.version, ok, er );
         CHECK( readFileBytes( fp ) == bytes, "append", "a refused append changed the file" );
         count( "old_appends_refused" );
      }
      else if( !ok )
      {
         CHECK( foreign, "append", "appending to a good file refused: %d", er );
         CHECK( er != 0, "append", "append refused without an error" );
         CHECK( readFileBytes( fp ) == bytes, "append", "a refused append changed the file" );
         count( "foreign_appends_refused" );
      }
      else
      {
         gdxAutoConvert( g, 0 );
         Str nm = "z";
         while( std::any_of( e.syms.begin(), e.syms.end(), [&]( const Sym &q ) { return lower( q.name ) == nm; } ) || std::any_of( e.acros.begin(), e.acros.end(), [&]( const Acro &q ) { return lower( q.name ) == nm; } ) ) nm += "z";
         double v[5] = { 42.25 };
         CHECK( gdxDataWriteRawStart( g, nm.c_str(), "t", 0, T_PAR, 0 ) && gdxDataWriteRaw( g, nullptr, v ) && gdxDataWriteDone( g ), "append", "writing refused" );
         CHECK( gdxClose( g ) == 0, "append", "close failed" );
         Sym q;
         q.name = nm; q.text = "t"; q.dim = 0; q.type = T_PAR; q.user = 0;
         Rec x {};
         x.v[0] = 42.25;
         q.recs.push_back( x );
         Content f = e;
         f.syms.push_back( q );
         Content h = readFile( fp );
         df = diffContent( f, h );
         CHECK( df.empty(), "append", "after appending to an independently produced file: %s", df.c_str() );
         count( "foreign_appends" );
      }
   }
   count( "files_encoded" );
   note( "variant", (u64) ( o.version * 64 + o.swWord * 32 + o.swInt * 16 + o.swDbl * 8 + o.compr * 4 + o.y2001 ) );
   if( e.syms.size() ) nontrivial( sigOf( e ) + (u64) o.version * 3 );
   if( idx < 6 ) sample( fmt( "case %llu: version %d, swapped %d%d%d, compressed %d, %zu bytes, %zu symbols", (unsigned long long) idx, o.version, o.swWord, o.swInt, o.swDbl, o.compr, bytes.size(), e.syms.size() ) );
}
void runCase( u64 idx, Rng &r )
{
   int size = idx % 101 == 7 ? 2 : idx % 7 == 1 ? 1 : 0;
   if( idx % 2 ) foreignCase( idx, r, size );
   else nativeCase( idx, r, size );
}
