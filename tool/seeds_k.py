from seed import mk
B='#include "formats/BlockDecoder.inl"\n#include <cstring>\n'
mk('bc4_split','K01',[('formats/BlockDecoder.inl','alpha[((*data & 0x80) >> 7) | ((*(data + 1) & 3) << 1)]','alpha[((*data & 0x80) >> 7) | ((*(data + 1) & 1) << 1)]')],B+'int main() { unsigned char b[8] = {200, 100, 0, 0x80, 3, 0, 0, 0}; char o[16]{}; DecodeBC4Block((const char *)b, o, 0, 0, 1); return (unsigned char)o[5] != 114; }','an index above 3 at pixel 5 or 13','another palette entry is taken')
mk('bc4_equal','K01',[('formats/BlockDecoder.inl','if (*alpha > alpha[1]) {','if (*alpha >= alpha[1]) {')],B+'int main() { unsigned char b[8] = {100, 100, 7, 0, 0, 0, 0, 0}; char o[16]{}; DecodeBC4Block((const char *)b, o, 0, 0, 1); return (unsigned char)o[0] != 255; }','a block whose ends are equal','entries 6 and 7 are not 0 and 255')
mk('bc2_alpha_row','K01',[('formats/BlockDecoder.inl','''    reinterpret_cast<uint8 &>(
        *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) =
        ((*data & 0xf0) >> 4) * 17;''','''    reinterpret_cast<uint8 &>(
        *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) =
        (*data >> 4) * 17;''')],B+'int main() { unsigned char b[16] = {0, 0x90}; char o[64]{}; DecodeBC2Block((const char *)b, o, 0, 0, 1); return (unsigned char)o[15] != 153; }','alpha of the last pixel of a row above 7','a sign extended value is stored')
mk('bc1_w_overrun','K01',[('formats/BlockDecoder.inl','''  _DecodeBC4Block(data, obuffer + 3, w, h, width, 4);
  _DecodeBC1Block(data + 8, obuffer, w, h, width, 4);''','''  _DecodeBC4Block(data, obuffer + 3, w, h, width, 4);
  _DecodeBC1BlockA(data + 8, obuffer, w, h, width, 4);''')],B+'int main() { unsigned char b[16] = {128, 64, 0, 0, 0, 0, 0, 0, 0, 0x10, 0, 0x20, 0xff, 0, 0, 0}; char o[64]{}; DecodeBC3Block((const char *)b, o, 0, 0, 1); return (unsigned char)o[3] != 128; }','a BC3 block','its alpha is lost')
mk('morton_mask','K02',[('formats/addr_ps3.hpp','const size_t maskW = width - 1;','const size_t maskW = (width - 1) & 0xfff;')],'#include "formats/addr_ps3.hpp"\nint main() { MortonSettings s(8192, 16); return MortonAddr(4096, 0, s) != (4096 << 4); }','a texture wider than 4096','columns above 4095 overlap the others')
