// Independent decoder and encoder of the GDX file layout, written from the layout, sharing no code with
// the library.  Used to judge bytes the library writes and to synthesise files it has to read.
#pragma once
#include "core.hpp"
struct BadFile { Str msg; };
struct Decoded {
   Content c;
   int version = 0;
   int64_t symbPos = 0, uelPos = 0, textPos = 0, acroPos = 0, nextPos = 0, domPos = 0, indexPos = 0;
   int64_t dataEnd = 0;// end of the last byte used by data
   std::vector<int64_t> symPos;
   std::vector<int> declared;// record counter stored in the data section
   size_t blocks = 0, stored = 0, wide[3] = {};
};
// throws BadFile when the bytes do not follow the layout
Decoded decodeGdx( const Str &bytes );
struct EncOpts {
   bool swWord = false, swInt = false, swDbl = false;
   int version = 7;
   bool compr = false;
   bool keepOrder = true;
   std::function<void( Str & )> mutate;// called on every section before it is compressed
   bool y2001 = false;// pre-2002 writers counted one label too many
   Str system = "GDX Library      99.9.9 r00000000 Released 01Jan30 XX 64bit/independent encoder";
};
Str encodeGdx( const Content &c, const EncOpts &o, Rng &r );
