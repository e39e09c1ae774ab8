// P07: the symbol catalogue
#include "core.hpp"
const char *MON_RULE = "a case performs a random history of symbol starts (valid, duplicate, malformed name, bad dimension, bad type, all four start calls), aliases, comments, relaxed domains and acronyms, including while a symbol is being written, judging each return value and error code against a catalogue model and querying the catalogue while writing; then everything is reopened and every catalogue query (by number, by name in any case, out of range, maximum lengths) is compared; non-trivial = distinct catalogue with at least 2 symbols and one refused request";
static const int E_DUP = -100007, E_IDENT = -100012, E_DIM = -100003, E_TYPE = -100056, E_SET = -100055, E_NOSYM = -100057;
static Str badName( Rng &r )
{
   switch( r.in( 0, 6 ) )
   {
      case 0: return "";
      case 1: return "1abc";
      case 2: return "_abc";
      case 3: return Str( (size_t) r.in( 64, 300 ), 'q' );
      case 4: return "ab c";
      case 5: return Str( "ab" ) + r.pick( { '-', '.', '\t', '\xe4', '*', '(', '+' } );
      default: return " abc";
   }
}
static void queries( Rng &r, Gdx &g, const Content &c, bool reading )
{
   int n = (int) c.syms.size(), a, b, d, t, u;
   char s1[512], s2[512];
   CHECK( gdxSystemInfo( g, &a, &b ) && a == n, "count", "symbol count %d, expected %d", a, n );
   if( reading ) CHECK( b == (int) c.uels.size(), "uelcount", "label count %d, expected %zu", b, c.uels.size() );
   size_t mx = 0;
   for( auto &s: c.syms ) mx = std::max( mx, s.name.size() );
   CHECK( gdxSymbMaxLength( g ) == (int) mx, "symbmax", "longest name %d, expected %zu", gdxSymbMaxLength( g ), mx );
   CHECK( gdxSymbolInfo( g, 0, s1, &d, &t ) && !strcmp( s1, "*" ) && d == 1 && t == T_SET, "universe", "symbol 0 is '%s' dim %d type %d", s1, d, t );
   CHECK( gdxSymbolInfoX( g, 0, &a, &u, s2 ) && !strcmp( s2, "Universe" ) && u == 0, "universe", "symbol 0 text '%s'", s2 );
   if( reading ) CHECK( a == (int) c.uels.size(), "universe", "universe has %d records, expected %zu", a, c.uels.size() );
   CHECK( gdxSymbolDim( g, 0 ) == 1, "universe", "dimension of symbol 0" );
   a = -5;
   CHECK( gdxFindSymbol( g, "*", &a ) && a == 0, "universe", "'*' found as %d", a );
   for( int bad: { n + 1, -1, n + 1000, -2147483647, 2147483647 } )
   {
      CHECK( !gdxSymbolInfo( g, bad, s1, &d, &t ), "range", "gdxSymbolInfo(%d) of %d accepted", bad, n );
      CHECK( !gdxSymbolInfoX( g, bad, &a, &u, s2 ), "range", "gdxSymbolInfoX(%d) of %d accepted", bad, n );
      CHECK( gdxSymbolDim( g, bad ) == -1, "range", "gdxSymbolDim(%d) of %d accepted", bad, n );
      CHECK( !gdxSymbolGetComment( g, bad, 1, s1 ) && !s1[0], "range", "comment of symbol %d of %d", bad, n );
   }
   a = 0;
   CHECK( !gdxFindSymbol( g, "no_such_symbol_here", &a ), "find", "unknown name found as %d", a );
   for( int i = 1; i <= n; i++ )
   {
      if( n > 30 && !r.chance( 30, n ) ) continue;
      const Sym &s = c.syms[(size_t) i - 1];
      CHECK( gdxSymbolInfo( g, i, s1, &d, &t ), "info", "symbol %d refused", i );
      CHECK( s.name == s1 && d == s.dim && t == s.type, "info", "symbol %d is '%s' dim %d type %d, expected '%s' %d %d", i, s1, d, t, s.name.c_str(), s.dim, s.type );
      CHECK( gdxSymbolDim( g, i ) == s.dim, "dim", "symbol %d dimension", i );
      CHECK( gdxSymbolInfoX( g, i, &a, &u, s2 ), "infox", "symbol %d refused", i );
      CHECK( s.text == s2, "text", "symbol %d '%s' text '%s', expected '%s'", i, s1, s2, s.text.c_str() );
      CHECK( u == s.user, "user", "symbol %d '%s' user info %d, expected %d", i, s1, u, s.user );
      CHECK( s.type == T_ALIAS || a == ( s.dim ? (int) s.recs.size() : 1 ), "recs", "symbol %d '%s' has %d records, expected %zu", i, s1, a, s.recs.size() );
      Str f = flipCase( r, s.name );
      a = -1;
      CHECK( gdxFindSymbol( g, f.c_str(), &a ) && a == i, "find", "'%s' found as %d, expected %d", f.c_str(), a, i );
      CHECK( !gdxFindSymbol( g, ( f + "x_x_x" ).c_str(), &a ), "find", "extended name '%sx_x_x' found", f.c_str() );
      for( size_t q = 1; q <= s.comments.size(); q++ )
         CHECK( gdxSymbolGetComment( g, i, (int) q, s1 ) && s.comments[q - 1] == s1, "comment", "comment %zu of symbol %d is '%s', expected '%s'", q, i, s1, s.comments[q - 1].c_str() );
      for( int q: { (int) s.comments.size() + 1, 0, -1, 100000 } ) CHECK( !gdxSymbolGetComment( g, i, q, s1 ) && !s1[0], "comment", "comment %d of symbol %d exists", q, i );
      count( "catalogue_entries_checked" );
   }
}
void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "cat.gdx" );
   u64 h = idx;
   int refused = 0;
   Content c;
   {
      Gdx g;
      Writer w( g, r );
      if( r.chance( 1, 2 ) ) { int e; CHECK( gdxOpenWrite( g, path.c_str(), "cat", &e ) && !e, "open", "open refused" ); gdxAutoConvert( g, 0 ); }
      else w.open( path, (int) r.in( 0, 1 ) );
      std::vector<Str> lab = genLabels( r, (int) r.in( 1, 40 ) );
      w.registerLabels( lab, 'S' );
      int nl = (int) w.c.uels.size(), total = 0;
      auto refuse = [&]( int rc, int code, const char *what, const Str &arg ) {
         CHECK( !rc, "refuse", "%s (%s) accepted", what, arg.c_str() );
         total++;
         CHECK( gdxErrorCount( g ) == total, "errcount", "error count %d, expected %d after %s", gdxErrorCount( g ), total, what );
         int e = gdxGetLastError( g );
         CHECK( e == code, "errcode", "%s (%s): error %d, expected %d", what, arg.c_str(), e, code );
         e = gdxGetLastError( g );
         CHECK( e == 0, "errclear", "last error not cleared: %d", e );
         char m[512] = "";
         CHECK( gdxErrorStr( g, code, m ) && m[0], "errstr", "no text for error %d", code );
         refused++;
         count( "requests_refused" );
      };
      auto newName = [&]() { Str s; do s = genIdent( r ); while( w.symIdx.count( lower( s ) ) || std::any_of( w.c.acros.begin(), w.c.acros.end(), [&]( const Acro &a ) { return lower( a.name ) == lower( s ); } ) ); return s; };
      auto side = [&]( int writing ) {// calls allowed at any time of writing
         int n = (int) w.c.syms.size();
         switch( r.in( 0, 7 ) )
         {
            case 0: if( n ) w.addComment( (int) r.in( 1, n ), genText( r ) ); break;
            case 1: if( writing ) w.addComment( writing, genText( r ), true ); break;
            case 2:
            {
               int t = (int) r.in( 0, n );
               if( t == 0 || w.c.syms[(size_t) t - 1].type == T_SET || w.c.syms[(size_t) t - 1].type == T_ALIAS ) w.addAlias( newName(), t );
               else { Str nn = newName(), tn = w.c.syms[(size_t) t - 1].name; refuse( r.chance( 1, 2 ) ? gdxAddAlias( g, nn.c_str(), tn.c_str() ) : gdxAddAlias( g, tn.c_str(), nn.c_str() ), E_SET, "alias of something that is not a set", tn ); }
               break;
            }
            case 3: { Str a = newName(), b = newName() + "zz"; b = b.size() > 60 ? Str( "zz__y" ) : b; refuse( gdxAddAlias( g, a.c_str(), b.c_str() ), E_SET, "alias of two unknown names", a ); break; }
            case 4: if( n ) { Str a = w.c.syms[(size_t) r.in( 1, n ) - 1].name, b = w.c.syms[(size_t) r.in( 1, n ) - 1].name; refuse( gdxAddAlias( g, a.c_str(), r.chance( 1, 4 ) ? "*" : flipCase( r, b ).c_str() ), E_SET, "alias of two known names", a + "," + b ); } break;
            case 5: { Str b = badName( r ); refuse( r.chance( 1, 2 ) ? gdxAddAlias( g, "*", b.c_str() ) : gdxAddAlias( g, b.c_str(), "*" ), E_IDENT, "alias with malformed name", b ); break; }
            case 6: refuse( gdxSymbolAddComment( g, n + (int) r.in( 1, 100 ), "x" ), E_NOSYM, "comment for unknown symbol", "" ); break;
            default: break;
         }
      };
      int steps = (int) r.in( 3, r.chance( 1, 8 ) ? 300 : 20 );
      for( int q = 0; q < steps; q++ )
      {
         if( r.chance( 1, 3 ) ) { side( 0 ); continue; }
         if( r.chance( 1, 10 ) )
         {
            Str a = newName(), t = genText( r );
            int ix = (int) w.c.acros.size() + 1;
            int rc = gdxAcronymAdd( g, a.c_str(), t.substr( 0, 200 ).c_str(), ix );
            CHECK( rc >= 0, "acro", "acronym refused: %d", rc );
            w.c.acros.push_back( { a, normText( t.substr( 0, 200 ), false ), ix } );
            continue;
         }
         Str name = newName(), text = genText( r );
         int dim = r.chance( 1, 4 ) ? 0 : genDim( r ), type = (int) r.in( 0, 3 ), user = r.chance( 1, 10 ) ? (int) r.in( -100, 1000000 ) : (int) r.in( 0, 60 ), code = 0;
         if( type == T_SET && dim == 0 ) dim = 1;
         switch( r.in( 0, 9 ) )
         {
            case 0: name = badName( r ); code = E_IDENT; break;
            case 1: if( !w.c.syms.empty() ) { name = flipCase( r, r.pick( w.c.syms ).name ); code = E_DUP; } break;
            case 2: dim = r.pick( { -1, 21, 1000, -2147483647 } ); code = E_DIM; break;
            case 3: type = r.pick( { -1, 4, 5, 100 } ); code = E_TYPE; break;
            case 4: if( !w.c.acros.empty() ) { name = flipCase( r, r.pick( w.c.acros ).name ); code = E_DUP; } break;
            default: break;
         }
         int mode = (int) r.in( 0, 3 );
         int mn[MAXD], mxx[MAXD];
         for( int d = 0; d < MAXD; d++ ) { mn[d] = 1; mxx[d] = nl; }
         bool noText = r.chance( 1, 8 );
         if( noText ) text = "";
         int rc = mode == 0 ? gdxDataWriteStrStart( g, name.c_str(), text.c_str(), dim, type, user ) : mode == 1 ? gdxDataWriteMapStart( g, name.c_str(), text.c_str(), dim, type, user )
                     : mode == 2 ? gdxDataWriteRawStart( g, name.c_str(), text.c_str(), dim, type, user ) : gdxDataWriteRawStartKeyBounds( g, name.c_str(), text.c_str(), dim, type, user, mn, mxx );
         if( code )
         {
            refuse( rc, code, "symbol start", fmt( "%s dim %d type %d", name.c_str(), dim, type ) );
            continue;
         }
         CHECK( rc, "start", "symbol '%s' dim %d type %d refused: %d", name.c_str(), dim, type, gdxGetLastError( g ) );
         CHECK( gdxCurrentDim( g ) == dim, "curdim", "current dimension %d, expected %d", gdxCurrentDim( g ), dim );
         Sym s;
         s.name = name;
         s.text = normText( text, true );
         s.dim = dim; s.type = type; s.user = user;
         s.domNrs.assign( (size_t) dim, 0 );
         s.domIds.assign( (size_t) dim, "*" );
         w.c.syms.push_back( s );
         int nr = (int) w.c.syms.size();
         w.symIdx[lower( name )] = nr;
         while( r.chance( 1, 3 ) ) side( nr );
         int n = dim ? (int) r.in( 0, std::min( nl, 5 ) ) : (int) r.in( 0, 1 );
         for( int i = 1; i <= n; i++ )
         {
            Rec x {};
            const char *kp[MAXD];
            for( int d = 0; d < dim; d++ ) { x.k[d] = d == dim - 1 ? i : 1; kp[d] = w.c.uels[(size_t) x.k[d] - 1].c_str(); }
            for( int v = 0; v < 5; v++ ) x.v[v] = type == T_SET ? 0 : (double) r.in( -9, 9 );
            for( int v = nvals( type ); v < 5; v++ ) x.v[v] = 0;
            int k[MAXD];
            if( mode == 1 ) for( int d = 0; d < dim; d++ ) k[d] = w.uel2usr.at( x.k[d] );
            CHECK( mode == 0 ? gdxDataWriteStr( g, kp, x.v ) : mode == 1 ? gdxDataWriteMap( g, k, x.v ) : gdxDataWriteRaw( g, x.k, x.v ), "write", "record refused: %d", gdxGetLastError( g ) );
            w.c.syms[(size_t) nr - 1].recs.push_back( w.store( x, s ) );
            if( r.chance( 1, 6 ) ) side( nr );
         }
         CHECK( gdxDataWriteDone( g ), "done", "done refused" );
         if( !dim && !n ) { Rec x {}; if( type == T_VAR || type == T_EQU ) { x = Rec {}; } w.c.syms[(size_t) nr - 1].checkRecs = false; }
         if( r.chance( 1, 8 ) && dim ) { std::vector<Str> ids; for( int d = 0; d < dim; d++ ) ids.push_back( r.chance( 1, 2 ) ? Str( "*" ) : genIdent( r ) ); w.setDomainX( nr, ids ); }
         if( r.chance( 1, 10 ) ) queries( r, g, w.c, false );
      }
      queries( r, g, w.c, false );
      CHECK( gdxErrorCount( g ) == total, "errcount", "error count %d, expected %d", gdxErrorCount( g ), total );
      w.close();
      c = w.c;
   }
   Gdx g;
   int err = 0, a;
   CHECK( gdxOpenRead( g, path.c_str(), &err ) && !err, "openread", "reopen refused: %d", err );
   queries( r, g, c, true );
   CHECK( gdxAcronymCount( g ) == (int) c.acros.size(), "acros", "%d acronyms, expected %zu", gdxAcronymCount( g ), c.acros.size() );
   size_t ml = 0;
   for( auto &u: c.uels ) ml = std::max( ml, u.size() );
   CHECK( gdxUELMaxLength( g ) == (int) ml, "uelmax", "longest label %d, expected %zu", gdxUELMaxLength( g ), ml );
   for( size_t i = 0; i < c.syms.size(); i++ )
   {
      const Sym &s = c.syms[i];
      int info[MAXD], mx[MAXD] = {}, top = 0;
      for( auto &x: s.recs ) for( int d = 0; d < s.dim; d++ ) mx[d] = std::max( mx[d], (int) c.uels[(size_t) x.k[d] - 1].size() ), top = std::max( top, mx[d] );
      if( i % 4 && c.syms.size() > 30 ) continue;
      a = gdxSymbIndxMaxLength( g, (int) i + 1, info );
      CHECK( a == top, "indxmax", "longest label of symbol %zu is %d, expected %d", i + 1, a, top );
      for( int d = 0; d < MAXD; d++ ) CHECK( info[d] == mx[d], "indxmax", "symbol %zu position %d longest %d, expected %d", i + 1, d + 1, info[d], mx[d] );
      h = hashStr( s.name + "|" + s.text, h );
      for( auto &q: s.comments ) h = hashStr( q, h );
      note( "dim_type", (u64) s.dim * 8 + (u64) s.type );
   }
   // aliases share the records of their target
   for( size_t i = 0; i < c.syms.size(); i++ )
      if( c.syms[i].type == T_ALIAS )
      {
         CHECK( gdxDataReadRawStart( g, (int) i + 1, &a ), "aliasread", "alias cannot be read" );
         int k[MAXD], df, n = 0;
         double v[5];
         while( gdxDataReadRaw( g, k, v, &df ) ) { CHECK( (size_t) n < c.syms[i].recs.size() && !memcmp( k, c.syms[i].recs[(size_t) n].k, sizeof( int ) * (size_t) c.syms[i].dim ), "aliasrecs", "alias '%s' record %d differs from its target", c.syms[i].name.c_str(), n + 1 ); n++; }
         CHECK( n == (int) c.syms[i].recs.size(), "aliasrecs", "alias '%s' has %d records, target %zu", c.syms[i].name.c_str(), n, c.syms[i].recs.size() );
         gdxDataReadDone( g );
      }
   gdxClose( g );
   count( "symbols_in_catalogues", c.syms.size() );
   if( c.syms.size() >= 2 && refused ) nontrivial( h );
   if( idx < 3 ) sample( fmt( "case %llu: %zu symbols, %d refused requests", (unsigned long long) idx, c.syms.size(), refused ) );
}
