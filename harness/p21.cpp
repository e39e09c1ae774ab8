// P21 gdxdump: whatever is printed is parsed back, driven by the content read through the API; the
// parser accepts any amount of white space but demands every symbol, record, label, value and text
// exactly once and in order, quoted so that a reader of the dump gets the same strings back.
#include "tool.hpp"
const char *MON_RULE = "generated files dumped by gdxdump in every format and listing with random options; the printed text is parsed back and compared with the content read through the API; exit codes of refused requests";
void monInit() {}
void monDone() {}

namespace {
struct Opts {
   char delim = 0, dsep = 0;// 0: default
   bool hdr = true, data = true, filter = true, full = false, settext = false, cdim = false;
   int dfmt = 0;// 0 normal 1 hexBytes 2 hexponential
   int fmt = 0; // 0 normal 1 gamsbas 2 csv
   Str symb;
   bool has[6] {};
   Str rep[6];// eps na pinf minf undf zero
   bool hasHeader = false;
   Str header;
   Str uel;
};
struct View {
   Content c;
   std::map<double, Str> acro;// undeclared or declared acronym values by name
};
struct P {// cursor over the printed text
   const Str &s;
   size_t p = 0;
   std::vector<Str> comments, dirs, reports;
   explicit P( const Str &x ) : s( x ) {}
   [[noreturn]] void bad( const Str &what )
   {
      size_t a = p > 160 ? p - 160 : 0;
      fail( "dump", "expected %s, but the dump has: ...%s <HERE> %s...", what.c_str(), s.substr( a, p - a ).c_str(), s.substr( p, 200 ).c_str() );
   }
   // white space, comment lines and directive lines (both only at the start of a line)
   void ws()
   {
      for( ;; )
      {
         while( p < s.size() && ( s[p] == ' ' || s[p] == '\n' ) ) p++;
         if( s.compare( p, 5, "**** " ) == 0 )
         {
            size_t e = s.find( '\n', p );
            if( e == Str::npos ) e = s.size();
            reports.push_back( s.substr( p, e - p ) );
            p = e;
            continue;
         }
         if( p < s.size() && ( s[p] == '*' || s[p] == '$' ) && ( p == 0 || s[p - 1] == '\n' ) )
         {
            size_t e = s.find( '\n', p );
            if( e == Str::npos ) e = s.size();
            if( s[p] == '*' ) comments.push_back( s.substr( p + 1, e - p - 1 ) );
            else dirs.push_back( s.substr( p, e - p ) );
            p = e;
            continue;
         }
         return;
      }
   }
   bool peek( const Str &t ) { ws(); return s.compare( p, t.size(), t ) == 0; }
   void lit( const Str &t )
   {
      ws();
      if( s.compare( p, t.size(), t ) != 0 ) bad( "'" + t + "'" );
      p += t.size();
   }
   void word( const Str &t )// a whole word
   {
      lit( t );
      if( p < s.size() && ( isalnum( (unsigned char) s[p] ) || s[p] == '_' ) ) bad( "end of word after '" + t + "'" );
   }
   void label( const Str &t )
   {
      ws();
      if( p >= s.size() || ( s[p] != '\'' && s[p] != '"' ) ) bad( "quoted label '" + t + "'" );
      char q = s[p];
      size_t e = s.find( q, p + 1 );
      if( e == Str::npos || s.substr( p + 1, e - p - 1 ) != t ) bad( "label '" + t + "'" );
      p = e + 1;
      count( "labels" );
   }
   // explanatory or element text; stop characters may not occur in unquoted text
   void text( const Str &t, const Str &stop )
   {
      ws();
      Str tt = t;
      while( !tt.empty() && tt.back() == ' ' ) tt.pop_back();
      if( p < s.size() && ( s[p] == '\'' || s[p] == '"' ) )
      {
         char q = s[p];
         size_t e = s.find( q, p + 1 );
         if( e != Str::npos && s.substr( p + 1, e - p - 1 ) == t ) { p = e + 1; count( "texts_quoted" ); return; }
         bad( "text " + t );
      }
      size_t b = 0;
      while( b < tt.size() && tt[b] == ' ' ) b++;
      tt = tt.substr( b );
      if( s.compare( p, tt.size(), tt ) != 0 ) bad( "text " + t );
      if( tt.find_first_of( stop ) != Str::npos || ( !stop.empty() && tt.find( ".." ) != Str::npos ) ) { bad( "quotes around text " + t ); }
      p += tt.size();
      count( "texts_plain" );
   }
};
Str specialName( double v, const Opts &o )
{
   if( v == GMS_SV_EPS ) return o.has[0] ? o.rep[0] : "Eps";
   if( v == GMS_SV_NA ) return o.has[1] ? o.rep[1] : "NA";
   if( v == GMS_SV_PINF ) return o.has[2] ? o.rep[2] : "+Inf";
   if( v == GMS_SV_MINF ) return o.has[3] ? o.rep[3] : "-Inf";
   if( v == GMS_SV_UNDEF ) return o.has[4] ? o.rep[4] : "Undf";
   if( v == 0 && o.has[5] ) return o.rep[5];
   return "";
}
bool isNamed( double v, const Opts &o ) { return v == GMS_SV_EPS || v == GMS_SV_NA || v == GMS_SV_PINF || v == GMS_SV_MINF || v == GMS_SV_UNDEF || ( v == 0 && o.has[5] ); }
// "" when the printed token stands for v
Str numProblem( const Str &tok, double v, const Opts &o )
{
   char ds = o.dsep ? o.dsep : '.';
   if( o.dfmt == 1 )
   {
      Str e = fmt( "0x%016llx", (unsigned long long) bits( v ) );
      return lower( tok ) == e ? "" : "not " + e;
   }
   Str t = tok;
   if( o.dfmt == 0 )
   {
      int seps = 0;
      for( auto &ch: t ) { if( ch == ds ) { ch = '.'; seps++; } else if( ch == '.' || ch == ',' ) return "wrong decimal separator"; }
      if( seps > 1 ) return "more than one decimal separator";
   }
   char *end = nullptr;
   long double x = strtold( t.c_str(), &end );
   if( t.empty() || *end ) return "not a number";
   if( o.dfmt == 2 ) return (double) x == v && ( t.find( 'p' ) != Str::npos ) ? "" : fmt( "reads as %a", (double) x );
   long double d = x - (long double) v;
   if( d < 0 ) d = -d;
   // fifteen significant digits
   if( d > 5.05e-15L * fabsl( (long double) v ) ) return fmt( "reads as %.17Lg", x );
   return "";
}
void value( P &p, double v, const View &w, const Opts &o )
{
   p.ws();
   auto a = w.acro.find( v );
   if( a != w.acro.end() ) { p.word( a->second ); count( "acronym_values" ); return; }
   if( isNamed( v, o ) ) { p.lit( specialName( v, o ) ); count( "special_values" ); return; }
   char ds = o.dsep ? o.dsep : '.';
   size_t e = p.p;
   while( e < p.s.size() && ( isalnum( (unsigned char) p.s[e] ) || p.s[e] == '+' || p.s[e] == '-' || p.s[e] == '.' || ( p.s[e] == ds && e + 1 < p.s.size() && isdigit( (unsigned char) p.s[e + 1] ) ) ) ) e++;
   Str tok = p.s.substr( p.p, e - p.p ), why = numProblem( tok, v, o );
   if( !why.empty() ) p.bad( fmt( "value %.17g (token '%s' is %s)", v, tok.c_str(), why.c_str() ) );
   p.p = e;
   count( "values" );
   note( "value_formats", (u64) o.dfmt * 2 + ( ds == ',' ) );
}
const char *VARNAME[] { "", "binary", "integer", "positive", "negative", "free", "sos1", "sos2", "semicont", "semiint" };
const char *VALNAME[] { "L", "M", "LO", "UP", "SCALE" };
void items( P &p, const Sym &s, const View &w, const Opts &o, const std::vector<int> &fields, bool bas )
{
   int u = s.user;
   if( s.type == T_VAR && ( u < 0 || u > 9 ) ) u = 5;
   Rec def = s.type == T_VAR ? defaultRec( T_VAR, u ) : Rec();
   if( s.type == T_EQU ) def.v[4] = 1;
   bool first = true;
   char dl = o.delim ? o.delim : '.';
   for( auto &x: s.recs )
      for( int f: fields )
      {
         if( s.type != T_SET && !( s.type == T_PAR && !s.dim ) && o.filter && x.v[f] == def.v[f] && ( s.type != T_EQU || ( f != 2 && f != 3 ) ) ) continue;
         if( !first ) p.lit( bas ? ";" : "," );
         first = false;
         if( bas ) { p.word( s.name ); p.lit( "." ); p.word( VALNAME[f] ); }
         if( s.dim )
         {
            if( bas ) p.lit( "(" );
            for( int d = 0; d < s.dim; d++ )
            {
               int k = x.k[d];
               p.label( k <= (int) w.c.uels.size() ? w.c.uels[(size_t) k - 1] : fmt( "L__%d", k ) );
               if( d + 1 < s.dim ) { if( p.p >= p.s.size() || p.s[p.p] != dl ) p.bad( "delimiter" ); p.p++; }
            }
            if( bas ) p.lit( ")" );
         }
         if( s.type == T_SET )
         {
            if( x.v[0] != 0 )
            {
               const Str &t = w.c.texts[(size_t) x.v[0]];
               if( !t.empty() )
               {
                  p.ws();
                  if( t[0] == '\'' || t[0] == '"' ) CHECK( p.p + 1 < p.s.size() && ( p.s[p.p] == '\'' || p.s[p.p] == '"' ) && p.s.compare( p.p, t.size(), t ) != 0, "dump-quotes", "element text %s starts with a quote but is printed bare", t.c_str() );
                  p.text( t, " ,;/$=*'\"\n" );
               }
            }
         }
         else
         {
            if( s.type >= T_VAR )
            {
               if( bas ) p.lit( "=" );
               else
               {
                  if( s.dim ) { if( p.p >= p.s.size() || p.s[p.p] != dl ) p.bad( "delimiter" ); p.p++; }
                  p.word( VALNAME[f] );
               }
            }
            value( p, x.v[f], w, o );
         }
         count( "items" );
      }
}
void comments( P &p, const Sym &s )
{
   p.ws();
   bool same = p.comments.size() == s.comments.size();
   for( size_t i = 0; same && i < s.comments.size(); i++ ) same = p.comments[i] == " " + s.comments[i];
   if( !same ) p.bad( fmt( "%zu comments of %s, found %zu%s%s", s.comments.size(), s.name.c_str(), p.comments.size(), p.comments.empty() ? "" : ": ", p.comments.empty() ? "" : p.comments[0].c_str() ) );
   count( "comments", s.comments.size() );
   p.comments.clear();
}
void symbolHead( P &p, const Sym &s, const View &w )
{
   if( s.type == T_ALIAS )
   {
      p.word( "Alias" );
      p.lit( "(" );
      p.word( s.name );
      p.lit( "," );
      p.lit( s.user == 0 ? Str( "*" ) : w.c.syms[(size_t) s.user - 1].name );
      p.lit( ")" );
      p.lit( ";" );
      return;
   }
   if( s.type == T_PAR && !s.dim ) p.word( "Scalar" );
   else
   {
      if( s.type == T_SET && s.user == 1 ) p.word( "Singleton" );
      if( s.type == T_VAR )
      {
         int u = s.user < 0 || s.user > 9 ? 5 : s.user;
         if( u ) p.word( VARNAME[u] );
      }
      if( s.type == T_EQU && p.peek( "Logic" ) ) p.word( "Logic" );
      p.word( s.type == T_SET ? "Set" : s.type == T_PAR ? "Parameter" : s.type == T_VAR ? "Variable" : "Equation" );
   }
   p.word( s.name );
   if( s.dim )
   {
      p.lit( "(" );
      for( int d = 0; d < s.dim; d++ )
      {
         p.lit( s.domNrs[(size_t) d] <= 0 ? Str( "*" ) : w.c.syms[(size_t) s.domNrs[(size_t) d] - 1].name );
         p.lit( d + 1 < s.dim ? "," : ")" );
      }
   }
   if( s.text.find_first_not_of( ' ' ) != Str::npos ) p.text( s.text, ",;/$=\n'\"" );
}
void symbol( P &p, const Sym &s, const View &w, const Opts &o )
{
   if( o.fmt == 1 )
   {
      if( s.type < T_VAR || s.type == T_ALIAS ) return;
      if( s.recs.empty() && s.dim ) return;
      comments( p, s );
      items( p, s, w, o, s.type == T_EQU ? std::vector<int> { 1 } : std::vector<int> { 0, 1 }, true );
      p.lit( ";" );
      count( "symbols" );
      return;
   }
   if( o.hdr ) symbolHead( p, s, w );
   if( s.type == T_ALIAS ) return;
   if( !o.data )
   {
      p.ws();
      std::vector<Str> d = p.dirs;
      p.dirs.clear();
      p.lit( ";" );
      if( p.p < p.s.size() && p.s.compare( p.p, 9, " !!empty\n" ) == 0 )
      {
         if( !s.recs.empty() ) p.bad( "a symbol with data" );
         p.p += 8;
      }
      else if( s.recs.empty() ) p.bad( "an empty symbol" );
      comments( p, s );
      bool hit = !p.dirs.empty() && ( p.dirs[0] == "$loadDC " + s.name + ( s.recs.empty() ? " !!empty" : "" ) );
      if( !hit ) p.bad( "$loadDC " + s.name );
      p.dirs.erase( p.dirs.begin() );
      count( "symbols" );
      return;
   }
   if( o.hdr ) p.lit( "/" );
   items( p, s, w, o, s.type >= T_VAR ? std::vector<int> { 0, 1, 2, 3, 4 } : std::vector<int> { 0 }, false );
   if( o.hdr ) { p.lit( "/" ); p.lit( ";" ); }
   if( o.hdr || !s.recs.empty() ) comments( p, s );
   count( "symbols" );
}
void acronyms( P &p, const View &w )
{
   for( auto &a: w.c.acros )
   {
      p.word( "Acronym" );
      p.word( a.name );
      if( a.text.find_first_not_of( ' ' ) != Str::npos ) p.text( a.text, ",;/$=\n'\"" );
      p.lit( ";" );
      count( "acronyms" );
   }
}
void uelTable( P &p, const View &w, const Str &name )
{
   p.word( "Set" );
   p.word( name );
   if( p.peek( "(" ) ) p.lit( "(*)" );
   p.lit( "/" );
   for( size_t i = 0; i < w.c.uels.size(); i++ ) { if( i ) p.lit( "," ); p.label( w.c.uels[i] ); }
   p.lit( "/" );
   p.lit( ";" );
}
std::vector<std::vector<Str>> csvRows( const Str &out, char delim )
{
   std::vector<std::vector<Str>> rows;
   size_t i = 0;
   while( i < out.size() )
   {
      std::vector<Str> row;
      for( ;; )
      {
         Str cell;
         if( delim != '\t' && i < out.size() && out[i] == '"' )
         {
            cell = "Q";
            i++;
            for( ;; )
            {
               if( i >= out.size() ) fail( "csv", "unterminated quoted cell: %s", cell.c_str() );
               if( out[i] == '"' ) { if( i + 1 < out.size() && out[i + 1] == '"' ) { cell += '"'; i += 2; continue; } i++; break; }
               cell += out[i++];
            }
            if( i < out.size() && out[i] != delim && out[i] != '\n' ) fail( "csv", "text after the closing quote of cell %s: %s", cell.c_str(), out.substr( i, 40 ).c_str() );
         }
         else
         {
            cell = "U";
            while( i < out.size() && out[i] != delim && out[i] != '\n' ) cell += out[i++];
         }
         row.push_back( cell );
         if( i < out.size() && out[i] == delim ) { i++; continue; }
         break;
      }
      CHECK( i < out.size() && out[i] == '\n', "csv", "last line is not terminated" );
      i++;
      rows.push_back( row );
   }
   return rows;
}
void csvValue( const Str &cell, double v, const View &w, const Opts &o )
{
   CHECK( cell[0] == 'U', "csv", "value cell is quoted: %s", cell.c_str() );
   Str t = cell.substr( 1 );
   auto a = w.acro.find( v );
   if( a != w.acro.end() ) { CHECK( t == a->second, "csv", "acronym %s printed as %s", a->second.c_str(), t.c_str() ); return; }
   if( isNamed( v, o ) ) { CHECK( t == specialName( v, o ), "csv", "special value %s printed as '%s'", specialName( v, o ).c_str(), t.c_str() ); return; }
   Str why = numProblem( t, v, o );
   CHECK( why.empty(), "csv", "value %.17g printed as '%s': %s", v, t.c_str(), why.c_str() );
   count( "values" );
}
void csv( const Str &out, const Sym &s, const View &w, const Opts &o )
{
   char dl = o.delim ? o.delim : ',';
   std::vector<std::vector<Str>> rows;
   Str body = out;
   if( o.hasHeader && !o.header.empty() )
   {
      CHECK( body.compare( 0, o.header.size() + 1, o.header + "\n" ) == 0, "csv", "the requested header is not the first line" );
      body = body.substr( o.header.size() + 1 );
   }
   int bad = 0;
   int shown = o.cdim && s.dim >= 2 && ( o.hasHeader || !o.hdr ) ? s.dim - 1 : s.dim;
   for( auto &x: s.recs ) for( int d = 0; d < shown; d++ ) if( x.k[d] > (int) w.c.uels.size() ) bad++;
   if( bad )
   {
      size_t q = body.rfind( "**** " );
      CHECK( q != Str::npos, "csv", "labels without text are not reported" );
      body = body.substr( 0, q );
   }
   rows = csvRows( body, dl );
   bool cd = o.cdim && s.dim >= 2, isSet = s.type == T_SET || s.type == T_ALIAS, ev = s.type == T_VAR || s.type == T_EQU;
   size_t at = 0;
   char lq = dl == '\t' ? 'U' : 'Q';
   auto lab = [&]( int k ) { return Str( 1, lq ) + ( k <= (int) w.c.uels.size() ? w.c.uels[(size_t) k - 1] : fmt( "L__%d", k ) ); };
   std::set<int> cols;
   if( cd ) for( auto &x: s.recs ) cols.insert( x.k[s.dim - 1] );
   int keys = cd ? s.dim - 1 : s.dim;
   if( !o.hasHeader && o.hdr )
   {
      CHECK( !rows.empty(), "csv", "header missing" );
      std::vector<Str> h = rows[at++];
      CHECK( (int) h.size() >= keys, "csv", "header has %zu cells", h.size() );
      std::set<Str> used;
      for( int d = 0; d < s.dim; d++ )
      {
         Str n = s.domIds[(size_t) d];
         if( n == "*" ) n = fmt( "Dim%d", d + 1 );
         if( d < keys )
         {
            CHECK( h[(size_t) d][0] == lq, "csv", "header cell %s", h[(size_t) d].c_str() );
            Str got = h[(size_t) d].substr( 1 );
            CHECK( got == n || got.compare( 0, n.size() + 1, n + "_" ) == 0, "csv-header", "column %d is headed %s, domain is %s", d + 1, got.c_str(), n.c_str() );
            CHECK( used.insert( got ).second, "csv-header", "column name %s appears twice", got.c_str() );
            if( got != n ) CHECK( used.count( n ), "csv-header", "column %d is headed %s although %s was free", d + 1, got.c_str(), n.c_str() );
         }
      }
      std::vector<Str> rest( h.begin() + keys, h.end() ), want;
      if( cd ) { for( int k: cols ) want.push_back( lab( k ) ); if( want.empty() && rest.size() == 1 && rest[0] == "U" ) rest.clear(); }
      else
      {
         if( !isSet ) want.push_back( Str( 1, lq ) + "Val" );
         else if( o.settext ) want.push_back( Str( 1, lq ) + "Text" );
         if( ev && o.full ) for( const char *q: { "Marginal", "Lower", "Upper", "Scale" } ) want.push_back( Str( 1, lq ) + q );
      }
      if( !s.dim && !cd && rest.size() == want.size() + 1 ) rest.erase( rest.begin() );
      CHECK( rest == want, "csv-header", "value columns of %s are headed differently (%zu, expected %zu)", s.name.c_str(), rest.size(), want.size() );
   }
   if( cd )
   {
      size_t i = 0;
      while( i < s.recs.size() )
      {
         CHECK( at < rows.size(), "csv", "%zu rows are too few", rows.size() );
         auto &row = rows[at++];
         CHECK( row.size() == (size_t) keys + cols.size(), "csv", "row %zu has %zu cells, expected %zu", at, row.size(), (size_t) keys + cols.size() );
         const Rec &f = s.recs[i];
         for( int d = 0; d < keys; d++ ) CHECK( row[(size_t) d] == lab( f.k[d] ), "csv", "row %zu column %d is %s, expected %s", at, d + 1, row[(size_t) d].c_str(), lab( f.k[d] ).c_str() );
         size_t cpos = (size_t) keys;
         for( int k: cols )
         {
            bool here = i < s.recs.size() && s.recs[i].k[s.dim - 1] == k;
            if( here ) for( int d = 0; d < keys; d++ ) here = here && s.recs[i].k[d] == f.k[d];
            if( here )
            {
               if( isSet ) CHECK( row[cpos] == "UY", "csv", "element marked %s", row[cpos].c_str() );
               else csvValue( row[cpos], s.recs[i].v[0], w, o );
               i++;
            }
            else CHECK( row[cpos] == "U", "csv", "row %zu: cell %zu is %s but there is no record", at, cpos, row[cpos].c_str() );
            cpos++;
         }
      }
   }
   else
      for( auto &x: s.recs )
      {
         CHECK( at < rows.size(), "csv", "%zu rows are too few", rows.size() );
         auto &row = rows[at++];
         size_t n = (size_t) keys + ( isSet ? ( o.settext ? 1 : 0 ) : ev && o.full ? 5 : 1 );
         CHECK( row.size() == n, "csv", "row %zu has %zu cells, expected %zu", at, row.size(), n );
         for( int d = 0; d < keys; d++ ) CHECK( row[(size_t) d] == lab( x.k[d] ), "csv", "row %zu column %d is %s, expected %s", at, d + 1, row[(size_t) d].c_str(), lab( x.k[d] ).c_str() );
         if( isSet )
         {
            if( o.settext )
            {
               Str t = x.v[0] != 0 ? w.c.texts[(size_t) x.v[0]] : "";
               CHECK( row[(size_t) keys].substr( 1 ) == t, "csv", "row %zu has text '%s', expected '%s'", at, row[(size_t) keys].c_str(), t.c_str() );
            }
         }
         else for( int f = 0; f < ( ev && o.full ? 5 : 1 ); f++ ) csvValue( row[(size_t) ( keys + f )], x.v[f], w, o );
      }
   CHECK( at == rows.size(), "csv", "%zu surplus rows", rows.size() - at );
   count( "csv_rows", rows.size() );
   count( "csv_dumps" );
}
std::vector<Str> lines( const Str &s )
{
   std::vector<Str> v;
   size_t a = 0;
   while( a < s.size() ) { size_t e = s.find( '\n', a ); if( e == Str::npos ) e = s.size(); v.push_back( s.substr( a, e - a ) ); a = e + 1; }
   return v;
}
const char *TYPS[] { "Set", "Par", "Var", "Equ", "Alias" };
void listing( const Str &out, int kind, const View &w )
{
   std::vector<Str> l = lines( out );
   size_t n = w.c.syms.size();
   std::set<size_t> seen;
   if( kind == 0 || kind == 1 )
   {
      // acronyms come first
      size_t a = 0;
      P p( out );
      acronyms( p, w );
      l = lines( out.substr( p.p ) );
      while( a < l.size() && l[a].empty() ) a++;
      CHECK( l.size() - a == n + 1, "listing", "%zu lines for %zu symbols", l.size() - a, n );
      for( size_t i = a + 1; i < l.size(); i++ )
      {
         char nm[300], ty[300], dm[300];
         int nr, dim, cnt, off = 0;
         size_t id;
         if( kind == 0 )
         {
            CHECK( sscanf( l[i].c_str(), "%d %299s %d %299s %d%n", &nr, nm, &dim, ty, &cnt, &off ) == 5, "listing", "line %s", l[i].c_str() );
            for( id = 0; id < n && w.c.syms[id].name != nm; id++ ) {}
            CHECK( id < n && seen.insert( id ).second, "listing", "symbol %s is unknown or listed twice", nm );
            const Sym &s = w.c.syms[id];
            int rc = s.type == T_ALIAS ? cnt : (int) s.recs.size();
            CHECK( nr == (int) ( i - a ) && dim == s.dim && Str( ty ) == TYPS[s.type] && cnt == rc, "listing", "line '%s' does not describe %s: dimension %d type %s records %d", l[i].c_str(), s.name.c_str(), s.dim, TYPS[s.type], rc );
            CHECK( l[i].substr( (size_t) off ) == "  " + s.text, "listing", "line '%s' should end with text '%s'", l[i].c_str(), s.text.c_str() );
         }
         else
         {
            CHECK( sscanf( l[i].c_str(), "%d %299s %299s %n", &nr, ty, dm, &off ) == 3, "listing", "line %s", l[i].c_str() );
            CHECK( nr >= 1 && nr <= (int) n && seen.insert( (size_t) nr ).second, "listing", "line '%s': number unknown or listed twice", l[i].c_str() );
            const Sym &s = w.c.syms[(size_t) nr - 1];
            static const char *K[] { "N/A", "None", "Relaxed", "Regular" };
            Str e = s.name;
            if( s.dim ) { e += "("; for( int d = 0; d < s.dim; d++ ) e += ( d ? ", " : "" ) + s.domIds[(size_t) d]; e += ")"; }
            CHECK( Str( ty ) == TYPS[s.type] && Str( dm ) == K[s.domKind] && l[i].substr( (size_t) off ) == e, "listing", "line '%s' should read %s %s %s", l[i].c_str(), TYPS[s.type], K[s.domKind], e.c_str() );
         }
      }
      count( "listings" );
      return;
   }
   if( kind == 2 || kind == 3 )
   {
      P p( out );
      acronyms( p, w );
      p.lit( "alias (Symbol, Dim, Type," );
      size_t e = out.find( "/\n", p.p );
      if( e == Str::npos ) p.bad( "opening /" );
      p.p = e + 2;
      for( size_t i = 0; i < n; i++ )
      {
         const Sym &s = w.c.syms[i];
         if( i ) p.lit( "," );
         p.lit( "\"" + s.name + "\"." + std::to_string( s.dim ) + ".\"" + TYPS[s.type] + "\"" );
         if( kind == 3 )
         {
            Str d;
            for( int q = 0; q < s.dim; q++ ) d += ( q ? ", " : "" ) + s.domIds[(size_t) q];
            p.lit( d.size() > 63 ? Str( ".\"Domain exceeds 63 characters\"" ) : ".\"" + d + "\"" );
         }
         else if( !s.text.empty() ) p.text( s.text, "" );
      }
      p.lit( "/" );
      p.lit( ";" );
      p.ws();
      if( p.p != out.size() ) p.bad( "end" );
      count( "listings" );
      return;
   }
   if( kind == 4 )
   {
      P p( out );
      acronyms( p, w );
      l = lines( out.substr( p.p ) );
      while( !l.empty() && l[0].empty() ) l.erase( l.begin() );
      int mx = 0;
      for( auto &s: w.c.syms ) if( s.type == T_SET ) for( auto &x: s.recs ) mx = std::max( mx, (int) x.v[0] );
      CHECK( l.size() == w.c.texts.size() + 3, "settext", "%zu lines for %zu texts", l.size(), w.c.texts.size() );
      int a = -1, b = -1;
      CHECK( sscanf( l[0].c_str(), "Count of set text strings in GDX: %d", &a ) == 1 && a == (int) w.c.texts.size(), "settext", "'%s' but there are %zu texts", l[0].c_str(), w.c.texts.size() );
      CHECK( sscanf( l[1].c_str(), "max 0-based textIdx found in GDX: %d", &b ) == 1 && b == mx, "settext", "'%s' but the highest number used is %d", l[1].c_str(), mx );
      for( size_t i = 0; i < w.c.texts.size(); i++ )
      {
         int nr, off = 0;
         CHECK( sscanf( l[i + 3].c_str(), "%d %n", &nr, &off ) == 1 && nr == (int) i && l[i + 3].substr( (size_t) off ) == "\"" + ( i ? w.c.texts[i] : Str() ) + "\"", "settext", "line '%s' is not text %zu", l[i + 3].c_str(), i );
      }
      count( "settext_lists" );
      return;
   }
   // version
   int v = -1, cl = -1, ns = -1, nu = -1;
   for( auto &x: l )
   {
      size_t q = x.find( ':' );
      if( q == Str::npos ) continue;
      Str num;
      for( char ch: x.substr( q + 1 ) ) if( isdigit( (unsigned char) ch ) ) num += ch;
      if( x.find( "File format" ) != Str::npos ) v = atoi( num.c_str() );
      if( x.find( "Compression" ) != Str::npos ) cl = atoi( num.c_str() );
      if( x.find( "Symbols" ) != Str::npos ) ns = atoi( num.c_str() );
      if( x.find( "Unique Elements" ) != Str::npos ) nu = atoi( num.c_str() );
   }
   CHECK( v == 7 && cl == w.c.compr && ns == (int) n && nu == (int) w.c.uels.size(), "version", "printed format %d compression %d symbols %d labels %d, are 7 %d %zu %zu", v, cl, ns, nu, w.c.compr, n, w.c.uels.size() );
   count( "version_lists" );
}
Str optCase( Rng &r, Str s ) { return r.chance( 1, 3 ) ? flipCase( r, s ) : s; }
}// namespace

void runCase( u64 idx, Rng &r )
{
   Str path = scratchFile( "in.gdx" );
   remove( path.c_str() );
   int compr = r.chance( 1, 4 );
   View w;
   for( int tries = 0;; tries++ )
   {
      Gdx g;
      Writer wr( g, r );
      wr.open( path, compr );
      genInto( r, wr, r.chance( 1, 10 ) ? 1 : 0 );
      if( r.chance( 1, 15 ) )
      {// records naming labels that have no text
         Sym s;
         do s.name = genIdent( r ); while( wr.symIdx.count( lower( s.name ) ) );
         CHECK( gdxDataWriteRawStart( g, s.name.c_str(), "", 2, T_PAR, 0 ), "write", "raw start" );
         int n = (int) wr.c.uels.size();
         int k[20] {};
         double v[5] { 1.5 };
         for( int i = 0; i < 4; i++ ) { k[0] = 1 + i / 2; k[1] = n + 1 + i * 3; gdxDataWriteRaw( g, k, v ); }
         gdxDataWriteDone( g );
      }
      wr.close();
      bool zero = false;
      for( auto &s: wr.c.syms ) zero = zero || ( s.type == T_SET && !s.dim );
      if( !zero || tries > 20 ) break;
   }
   ReadOpts ro;
   ro.find = false;
   w.c = readFile( path, ro );
   w.c.compr = compr;
   size_t nrec = 0;
   {
      Gdx g;
      int err;
      gdxOpenRead( g, path.c_str(), &err );
      for( auto &s: w.c.syms )
      {
         nrec += s.recs.size();
         if( s.type != T_SET && s.type != T_ALIAS ) for( auto &x: s.recs ) for( int f = 0; f < nvals( s.type ); f++ ) if( x.v[f] >= 1e301 )
         {
            char b[256] = "";
            if( gdxAcronymName( g, x.v[f], b ) ) w.acro[x.v[f]] = b;
         }
      }
   }
   for( auto &s: w.c.syms )
   {
      if( s.type == T_SET && !s.dim ) return;
      for( auto &x: s.comments ) if( x.find( '\n' ) != Str::npos ) return;// cannot be shown on one line
   }
   int runs = 2;
   for( int q = 0; q < runs; q++ )
   {
      Opts o;
      std::vector<Str> a { r.chance( 1, 5 ) ? "in" : "in.gdx" };
      auto opt = [&]( const Str &k, const Str &v ) { if( r.chance( 1, 4 ) ) { a.push_back( optCase( r, k ) ); a.push_back( "=" + v ); } else a.push_back( optCase( r, k ) + "=" + v ); };
      int kind = (int) r.in( 0, 12 );// 0-4 normal 5 gamsbas 6-8 csv 9-10 listings 11 refused requests 12 labels as csv
      if( kind == 12 )
      {
         opt( "Format", "csv" );
         opt( "UelTable", r.pick( { "u", "all_uels" } ) );
         opt( "Symb", w.c.syms.empty() ? "x" : w.c.syms[0].name );
         bool ide = r.chance( 1, 2 );
         Str of;
         if( r.chance( 1, 2 ) ) { of = "uels.csv"; remove( scratchFile( of ).c_str() ); opt( "Output", of ); }
         if( ide ) opt( "IDE", r.pick( { "Y", "yes", "1" } ) );
         else if( r.chance( 1, 3 ) ) opt( "IDE", r.pick( { "N", "0" } ) );
         ToolRun t = runTool( "gdxdump", a, g_scratch );
         checkSane( t, "gdxdump", a );
         CHECK( t.rc == 0, "exitcode", "gdxdump%s exits with %d", joinArgs( a ).c_str(), t.rc );
         Str out = t.out;
         if( !of.empty() )
         {
            CHECK( ide ? t.out.find( of ) != Str::npos : t.out.empty(), "output", "gdxdump%s prints '%s'", joinArgs( a ).c_str(), t.out.substr( 0, 200 ).c_str() );
            out = readFileBytes( scratchFile( of ) );
         }
         P p( out );
         try
         {
            for( auto &u: w.c.uels ) p.label( u );
            p.ws();
            if( p.p != out.size() ) p.bad( "end of the labels" );
         }
         catch( const Fail &f ) { fail( f.key.c_str(), "gdxdump%s: %s", joinArgs( a ).c_str(), f.msg.c_str() ); }
         count( "uel_tables_csv" );
         if( w.c.uels.size() > 3 ) nontrivial( hashStr( out ) );
         continue;
      }
      if( kind == 11 )
      {
         int e = (int) r.in( 0, 12 ), want = 1;
         Str longs( (size_t) r.in( 250, 700 ), 'q' );
         if( e == 0 ) { a.push_back( "Symb=nosuchsymbol__9" ); want = 6; }
         else if( e == 1 ) { a[0] = "missing.gdx"; want = 2; }
         else if( e == 2 ) a.push_back( "NoSuchOption" );
         else if( e == 3 ) a.push_back( longs );
         else if( e == 4 ) { a.push_back( "Symb=" + longs ); want = 6; }
         else if( e == 5 ) a.push_back( r.pick( { Str( "Delim=colon" ), Str( "Format=xml" ), Str( "dFormat=octal" ), Str( "DecimalSep=tab" ), Str( "Format=csv" ), "Delim=" + longs } ) );
         else if( e <= 7 )
         {// an option given twice
            static const char *D[][2] { { "Symb", "x" }, { "UelTable", "u" }, { "Delim", "comma" }, { "DecimalSep", "comma" }, { "Format", "normal" }, { "dFormat", "hexBytes" }, { "Output", "q.txt" } };
            auto &d = D[r.in( 0, 6 )];
            for( int i = 0; i < 2; i++ ) a.push_back( optCase( r, d[0] ) + "=" + d[1] );
         }
         else if( e == 8 ) a.push_back( optCase( r, r.pick( { "Symb", "UelTable", "Output", "Delim", "DecimalSep", "Format", "dFormat", "IDE", "FilterDef", "CDim" } ) ) + r.pick( { "", "=" } ) );
         else if( e == 9 ) { opt( "Delim", "comma" ); opt( "DecimalSep", "comma" ); }
         else if( e == 10 ) { opt( "Output", "no such dir/x.txt" ); want = 6; }
         else if( e == 11 )
         {// a csv with its own separator as decimal point
            opt( "Format", "csv" );
            opt( "DecimalSep", "comma" );
            opt( "Symb", "x" );
         }
         else { writeFileBytes( scratchFile( "bad.gdx" ), "this is not a gdx file" ); a[0] = "bad.gdx"; want = 4; }
         ToolRun t = runTool( "gdxdump", a, g_scratch );
         checkSane( t, "gdxdump", a );
         CHECK( t.rc == want || ( want == 4 && t.rc == 5 ), "exitcode", "gdxdump%s exits with %d, expected %d", joinArgs( a ).c_str(), t.rc, want );
         count( "refused" );
         note( "refusals", (u64) e );
         continue;
      }
      Str outFile;
      bool ide = false;
      if( r.chance( 1, 4 ) ) { if( r.chance( 1, 4 ) ) { ide = true; opt( "IDE", r.pick( { "Y", "1" } ) ); } outFile = "dump out.txt"; remove( scratchFile( outFile ).c_str() ); opt( "Output", outFile ); }
      int lk = -1;
      const Sym *one = nullptr;
      if( kind >= 9 )
      {
         lk = (int) r.in( 0, 5 );
         static const char *N[] { "Symbols", "DomainInfo", "SymbolsAsSet", "SymbolsAsSetDI", "SetText", "-V" };
         a.push_back( optCase( r, N[lk] ) );
      }
      else
      {
         o.fmt = kind <= 4 ? 0 : kind == 5 ? 1 : 2;
         if( o.fmt || r.chance( 1, 3 ) ) { static const char *F[] { "normal", "gamsbas", "csv" }; opt( "Format", optCase( r, F[o.fmt] ) ); }
         if( o.fmt == 2 || r.chance( 1, 3 ) )
         {
            one = &w.c.syms[(size_t) r.in( 0, (int64_t) w.c.syms.size() - 1 )];
            o.symb = one->name;
            opt( "Symb", optCase( r, one->name ) );
         }
         if( r.chance( 1, 4 ) )
         {
            o.dfmt = (int) r.in( 0, 2 );
            static const char *F[] { "normal", "hexBytes", "hexponential" };
            opt( "dFormat", F[o.dfmt] );
         }
         if( r.chance( 1, 4 ) && o.fmt != 1 )
         {
            static const char *F[] { "period", "comma", "tab", "blank", "semicolon" };
            int d = (int) r.in( 0, 4 );
            if( o.fmt == 2 && d == 0 ) d = 1;
            o.delim = ".,\t ;"[d];
            opt( "Delim", F[d] );
         }
         if( r.chance( 1, 4 ) )
         {
            bool comma = r.chance( 1, 2 ) && o.fmt != 2;
            if( o.fmt == 2 && ( o.delim == '\t' || o.delim == ';' || o.delim == ' ' ) ) comma = r.chance( 1, 2 );
            if( comma && o.delim == ',' ) comma = false;
            o.dsep = comma ? ',' : '.';
            opt( "DecimalSep", comma ? "comma" : "period" );
         }
         if( r.chance( 1, 3 ) ) { o.filter = r.chance( 1, 2 ); opt( "FilterDef", o.filter ? r.pick( { "Y", "yes", "1" } ) : r.pick( { "N", "no", "0" } ) ); }
         if( r.chance( 1, 5 ) ) { a.push_back( optCase( r, "NoHeader" ) ); if( one ) o.hdr = false; }
         if( r.chance( 1, 6 ) && o.fmt == 0 ) { a.push_back( optCase( r, "NoData" ) ); o.data = false; }
         static const char *SP[] { "EpsOut", "NaOut", "PinfOut", "MinfOut", "UndfOut", "ZeroOut" };
         for( int i = 0; i < 6; i++ ) if( r.chance( 1, 8 ) ) { o.has[i] = true; o.rep[i] = r.pick( { "xx", "0", "1E-9", "inf9", "q1" } ); opt( SP[i], o.rep[i] ); }
         if( o.fmt == 2 )
         {
            if( r.chance( 1, 2 ) ) { a.push_back( optCase( r, "CSVAllFields" ) ); o.full = true; }
            if( r.chance( 1, 2 ) ) { a.push_back( optCase( r, "CSVSetText" ) ); o.settext = true; }
            if( r.chance( 1, 3 ) ) { o.cdim = true; opt( "CDim", "Y" ); }
            if( r.chance( 1, 8 ) ) { o.hasHeader = true; o.header = r.pick( { "My,Header", "", "x" } ); opt( "Header", o.header.empty() ? "''" : o.header ); }
         }
         else if( r.chance( 1, 5 ) ) { o.uel = "allUels"; opt( "UelTable", o.uel ); }
         if( o.fmt == 1 ) o.hdr = false, o.data = true;
         if( !one && o.fmt == 0 ) o.hdr = true;
      }
      ToolRun t = runTool( "gdxdump", a, g_scratch );
      checkSane( t, "gdxdump", a );
      Str out = t.out;
      if( !outFile.empty() && lk != 5 )
      {
         if( ide ) CHECK( out.find( outFile ) != Str::npos, "output", "gdxdump%s does not name its output", joinArgs( a ).c_str() );
         else CHECK( out.empty(), "output", "gdxdump%s prints although output goes to a file", joinArgs( a ).c_str() );
         out = readFileBytes( scratchFile( outFile ) );
      }
      CHECK( t.rc == 0, "exitcode", "gdxdump%s exits with %d: %s %s", joinArgs( a ).c_str(), t.rc, t.err.substr( 0, 300 ).c_str(), out.substr( 0, 200 ).c_str() );
      try
      {
         if( lk >= 0 ) { listing( out, lk, w ); note( "listing_kinds", (u64) lk ); continue; }
         if( o.fmt == 2 ) { csv( out, *one, w, o ); note( "csv_options", (u64) o.full + 2 * o.settext + 4 * o.cdim + 8 * o.hasHeader + 16 * o.hdr + 32u * (u64) o.delim ); if( one->recs.size() > 1 ) nontrivial( hashStr( out ) ); continue; }
         P p( out );
         p.ws();
         if( !o.data ) CHECK( !p.dirs.empty() && p.dirs[0] == "$gdxIn in.gdx", "dump", "the input file is not named" );
         acronyms( p, w );
         if( !o.uel.empty() ) uelTable( p, w, o.uel );
         int bad = 0;
         for( auto &s: w.c.syms ) if( !one || one == &s )
         {
            p.ws();
            symbol( p, s, w, o );
            int b = 0;
            for( auto &x: s.recs ) for( int d = 0; d < s.dim; d++ ) if( x.k[d] > (int) w.c.uels.size() ) b++;
            if( b && o.data && ( o.fmt == 0 || s.type >= T_VAR ) ) bad++;
         }
         p.ws();
         if( p.p != out.size() ) p.bad( "end of the dump" );
         CHECK( (int) p.reports.size() == bad, "dump", "%zu reports of labels without text, expected %d", p.reports.size(), bad );
         note( "normal_options", (u64) o.filter + 2 * o.data + 4 * o.hdr + 8 * ( one != nullptr ) + 16 * (u64) o.dfmt + 64 * (u64) o.fmt + 256u * (u64) o.delim );
         count( "dumps" );
         if( nrec > 3 ) nontrivial( hashStr( out ) );
      }
      catch( const Fail &f ) { fail( f.key.c_str(), "gdxdump%s: %s", joinArgs( a ).c_str(), f.msg.c_str() ); }
      if( idx < 6 && q == 0 ) sample( "gdxdump" + joinArgs( a ) );
   }
}
