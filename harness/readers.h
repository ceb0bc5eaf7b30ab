#ifndef VERIF_READERS_H
#define VERIF_READERS_H
#include "common.h"
#include <map>
struct PnmCase {
  std::vector<int> samples;
  Bytes file;
  Image want;
  int type = 0, np = 0, maxval = 0, trailing = 0;
};
struct BmpCase {
  Bytes file;
  Image want;
  int bpp = 0, hdr = 0, ncol = 0, gap = 0;
  bool bitfields = false, alpha = false, graypal = false, tail = false, rle = false, topdown = false;
};
struct TgaCase {
  Bytes file;
  Image want;
  int kind = 0;
  bool rle = false, right = false, top = false, cross = false, nofooter = false, alpha = false;
};
struct PngCase {
  Bytes file;
  Image want;
  int ct = 0, depth = 0;
  bool interlaced = false, trns = false;
};
struct GfCase {
  Bytes file;
  std::map<int, Image> glyph, full;
  bool specials = false;
  struct Place {
    int min_col, min_row;  // lower left corner of the ink
    int esc;               // advance in pixels
    size_t loc;            // where the locator lies in the file
  };
  std::map<int, Place> place;
  size_t post = 0;
};
PnmCase gen_pnm(Ctx &c);
BmpCase gen_bmp(Ctx &c);
TgaCase gen_tga(Ctx &c, int maxw, int maxh);
PngCase gen_png(Ctx &c, int maxw, int maxh);
GfCase gen_gf(Ctx &c);
Bytes base_file(Ctx &c, const std::string &suffix);           // a valid file of the format
void mutate(Ctx &c, Bytes &b, const std::string &suffix);       // one random damage
double declared_pixels(const std::string &suffix, const Bytes &b);
void compare(const Image &got, const Image &want, int tol, const char *what);
#endif
