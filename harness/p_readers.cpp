// R01..R05: valid files decode to the picture they encode.
#include "common.h"
#include <algorithm>
#include <png.h>
#include "readers.h"

static void put(Bytes &b, const std::string &s) { b.insert(b.end(), s.begin(), s.end()); }
static void le16(Bytes &b, unsigned v) {
  b.push_back(v);
  b.push_back(v >> 8);
}
static void le32(Bytes &b, uint32_t v) {
  le16(b, v);
  le16(b, v >> 16);
}
static void be32(Bytes &b, uint32_t v) {
  for (int s = 24; s >= 0; s -= 8) b.push_back(v >> s);
}

void compare(const Image &got, const Image &want, int tol, const char *what) {
  REQUIRE(got.w == want.w && got.h == want.h, "size", "%s: read as %dx%d, file says %dx%d", what, got.w, got.h, want.w, want.h);
  REQUIRE(got.np == want.np, "planes", "%s: read with %d planes, expected %d", what, got.np, want.np);
  for (int y = 0; y < want.h; y++)
    for (int x = 0; x < want.w; x++)
      for (int p = 0; p < want.np; p++)
        REQUIRE(abs(got.at(x, y)[p] - want.at(x, y)[p]) <= tol, "pixel", "%s: pixel (%d,%d) plane %d read as %d, encoded %d", what, x, y, p, got.at(x, y)[p], want.at(x, y)[p]);
}

// ------------------------------------------------------------------ PNM
static std::string ws(Ctx &c, bool may_comment) {
  std::string s;
  int n = c.weighted({6, 2, 1});
  static const std::vector<std::string> k = {" ", "\n", "\t", "\r", "\r\n", "\v", "\f"};
  s += c.pick(k);
  for (int i = 0; i < n; i++) {
    if (may_comment && c.chance(1, 3)) {
      static const std::vector<std::string> t = {"#\n", "# a comment\n", "#P6 1 1 255\n", "# # 12 34\n", "#\t\x80\xff\n"};
      s += c.pick(t);
    } else s += c.pick(k);
  }
  return s;
}

// Sizes at which counters of eight and sixteen bits, and products of sizes, run over.
static void big_size(Ctx &c, int &w, int &h, int most) {
  static const std::vector<int> edge = {255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65534, 65535};
  do w = c.coin() ? c.pick(edge) : (int)c.skewed(100, 5000);
  while (w > most);
  h = c.coin() ? c.range(1, 3) : c.range(1, std::max(1, std::min(300, most / w)));
  if (c.coin()) std::swap(w, h);
  c.label("big picture");
}
// Draws samples: single choices for small pictures, one drawn sequence for big ones.
struct Fill {
  Ctx &c;
  bool big;
  uint64_t s = 0;
  Fill(Ctx &c_, size_t n) : c(c_), big(n > 4000) {
    if (big) s = c.choose(1u << 31);
  }
  uint64_t operator()(uint64_t n) {
    if (!big) return c.choose(n);
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return (s >> 29) % n;
  }
  bool chance(int a, int b) { return big ? (int)(*this)(b) < a : c.chance(a, b); }
};

PnmCase gen_pnm(Ctx &c) {
  PnmCase r;
  int type = r.type = c.range(1, 6);
  bool ascii = type <= 3;
  int np = r.np = (type == 3 || type == 6) ? 3 : 1;
  bool bw = type == 1 || type == 4;
  int w, h;
  if (c.chance(1, 40)) {
    // large enough to cross every internal buffer boundary
    if (c.coin()) big_size(c, w, h, 100000);
    else w = c.range(30, 90), h = c.range(20, 60);
  } else if (c.chance(1, 30)) {
    w = c.chance(1, 2) ? c.range(1000, 65535) : 1;
    h = w == 1 ? c.range(1000, 65535) : 1;
  } else {
    w = c.skewed(1, 24);
    h = c.skewed(1, 12);
  }
  int maxval = 1;
  if (!bw) {
    static const std::vector<int> mv = {255, 1, 2, 3, 7, 15, 31, 100, 127, 128, 254};
    maxval = c.chance(1, 2) ? 255 : c.chance(1, 2) ? c.pick(mv) : (int)c.range(1, 255);
    if (ascii && c.chance(1, 8)) maxval = c.range(256, 65535);
  }
  r.maxval = maxval;
  Image &im = r.want;
  im = Image(w, h, np);
  std::string head = sfmt("P%d", type);
  bool comments = c.chance(1, 2);
  head += ws(c, comments);
  head += sfmt(c.chance(1, 8) ? "%05d" : "%d", w) + ws(c, comments);
  head += sfmt("%d", h);
  if (!bw) {
    head += ws(c, comments);
    head += sfmt(c.chance(1, 8) ? "%04d" : "%d", maxval);
  }
  Bytes &f = r.file;
  put(f, head);
  bool runs = (size_t)w * h > 3000;
  auto sample = [&](int prev) -> int {
    if (runs && prev >= 0 && !c.chance(1, 16)) return prev;
    return c.choose(maxval + 1);
  };
  std::vector<int> &v = r.samples;
  v.resize((size_t)w * h * np);
  if (runs) {
    // cheap but varied: linear congruential fill from one drawn seed
    uint32_t s = c.choose(1u << 31);
    for (auto &x : v) {
      s = s * 1664525u + 1013904223u;
      x = (s >> 8) % (maxval + 1);
    }
  } else
    for (auto &x : v) x = sample(-1);
  for (size_t i = 0; i < v.size(); i++) im.d[i] = bw ? (v[i] ? 0 : 255) : (int)lround(v[i] * 255.0 / maxval);
  if (ascii) {
    bool packed = type == 1 && c.coin();
    bool odd = !runs && c.chance(1, 3);
    put(f, ws(c, comments));
    for (size_t i = 0; i < v.size(); i++) {
      put(f, sfmt("%d", v[i]));
      bool last = i + 1 == v.size();
      if (last) break;
      if (packed && !c.chance(1, 9)) continue;
      if (odd) put(f, ws(c, comments));
      else put(f, (i + 1) % 17 == 0 ? "\n" : " ");
    }
    r.trailing = c.weighted({6, 2, 2});
    if (r.trailing == 0) put(f, "\n");
    else if (r.trailing == 1) put(f, ws(c, comments));
    // 2: the file ends with the last digit
  } else {
    static const std::vector<std::string> one = {"\n", " ", "\t", "\r"};
    put(f, c.pick(one));
    if (bw) {
      for (int y = 0; y < h; y++) {
        int nb = (w + 7) / 8;
        for (int k = 0; k < nb; k++) {
          uint8_t b = 0;
          for (int j = 0; j < 8; j++) {
            int x = k * 8 + j;
            int bit = x < w ? v[(size_t)y * w + x] : (int)c.choose(2);  // padding bits are arbitrary
            b |= bit << (7 - j);
          }
          f.push_back(b);
        }
      }
    } else
      for (int x : v) f.push_back(x);
    if (c.chance(1, 10)) put(f, "\n");
  }
  return r;
}

static void r01(Ctx &c) {
  PnmCase k = gen_pnm(c);
  static const std::vector<std::string> suf = {"pnm", "pbm", "pgm", "ppm"};
  std::string s = c.pick(suf);
  c.note(sfmt("suffix %s P%d maxval %d bytes %s", s.c_str(), k.type, k.maxval, hex(k.file, 300).c_str()));
  c.label(sfmt("P%d", k.type).c_str());
  if (k.maxval != 255 && k.np && k.type != 1 && k.type != 4) c.label("scaled maxval");
  if (k.want.w > 255 || k.want.h > 255) c.label("side above 255");
  Msgs m;
  at_bitmap *b = read_bytes(c, s.c_str(), k.file, m);
  REQUIRE(m.fatal == 0, "refused", "valid P%d file refused: %s", k.type, m.last.c_str());
  compare(from_bitmap(b), k.want, (k.type == 1 || k.type == 4 || k.maxval == 255) ? 0 : 1, "pnm");
  if (k.maxval != 255 && k.type != 1 && k.type != 4) {
    // the ends of the range are exact
    for (size_t i = 0; i < k.want.d.size(); i++)
      if (k.samples[i] == 0 || k.samples[i] == k.maxval) REQUIRE(b->bitmap[i] == k.want.d[i], "pixel", "sample %zu: range end %d read as %d", i, k.want.d[i], b->bitmap[i]);
  }
  at_bitmap_free(b);
  bool varied = std::any_of(k.want.d.begin(), k.want.d.end(), [&](uint8_t x) { return x != k.want.d[0]; });
  if (varied) c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size()));
}
static eng::Reg reg_r01({"R01", "valid P1..P6 files generated from a drawn picture, maxval, header layout and suffix; non-trivial: the picture has at least two different samples; distinct by file bytes", r01, 40000, 400000, 20, {"the encoder in the harness follows the published PNM grammar"}});

// ------------------------------------------------------------------ BMP
// Run-length encoding of one row of indices.
static void bmp_rle_row(Ctx &c, Bytes &f, const std::vector<uint32_t> &row, int bpp) {
  size_t i = 0, n = row.size();
  while (i < n) {
    size_t lim = std::min<size_t>(255, n - i);
    size_t zeros = 0;
    while (zeros < lim && row[i + zeros] == 0) zeros++;
    if (zeros && c.chance(1, 8)) {  // jump over pixels that keep the first colour
      size_t k = c.range(1, zeros);
      f.push_back(0);
      f.push_back(2);
      f.push_back(k);
      f.push_back(0);
      i += k;
      continue;
    }
    size_t run = 1;
    if (bpp == 8)
      while (run < lim && row[i + run] == row[i]) run++;
    else  // RLE4 alternates two values
      while (run < lim && row[i + run] == row[i + (run & 1)]) run++;
    if (lim >= 3 && (run < 3 ? !c.chance(1, 5) : c.chance(1, 5))) {
      size_t k = c.range(3, std::min<size_t>(lim, 40));
      f.push_back(0);
      f.push_back(k);
      size_t bytes = 0;
      if (bpp == 8)
        for (size_t j = 0; j < k; j++, bytes++) f.push_back(row[i + j]);
      else
        for (size_t j = 0; j < k; j += 2, bytes++) f.push_back(row[i + j] << 4 | (j + 1 < k ? row[i + j + 1] : 0));
      if (bytes & 1) f.push_back(0);
      i += k;
    } else {
      size_t k = c.chance(1, 4) ? c.range(1, run) : run;
      f.push_back(k);
      f.push_back(bpp == 8 ? row[i] : row[i] << 4 | (k > 1 ? row[i + 1] : 0));
      i += k;
    }
  }
}

BmpCase gen_bmp(Ctx &c) {
  BmpCase r;
  static const std::vector<int> bpps = {24, 8, 4, 1, 32, 16};
  int bpp = r.bpp = c.pick(bpps);
  static const int sizes[] = {40, 12, 108, 124, 64, 56};
  int hs = sizes[c.weighted({6, 2, 2, 2, 1, 1})];
  if (hs == 12 && (bpp == 16 || bpp == 32)) hs = 40;
  r.hdr = hs;
  int w = c.skewed(1, 20), h = c.skewed(1, 10);
  if (c.chance(1, 60)) big_size(c, w, h, 100000);
  int maps = hs == 12 ? 3 : 4;
  int ncol = 0;
  if (bpp <= 8) {
    ncol = 1 << bpp;
    if (hs != 12 && c.chance(1, 2)) ncol = c.range(1, 1 << bpp);
  }
  r.ncol = ncol;
  bool bitfields = (bpp == 16 || bpp == 32) && hs != 12 && hs != 64 && c.coin();
  r.bitfields = bitfields;
  bool rle = (bpp == 8 || bpp == 4) && hs != 12 && c.chance(1, 3);
  r.rle = rle;
  r.topdown = hs != 12 && !rle && c.chance(1, 5);
  uint32_t mask[4] = {0, 0, 0, 0};
  if (bpp == 32) mask[0] = 0xff0000, mask[1] = 0xff00, mask[2] = 0xff;
  if (bpp == 16) mask[0] = 0x7c00, mask[1] = 0x3e0, mask[2] = 0x1f;
  if (bitfields) {
    // contiguous, non-overlapping fields of 1..8 bits in any order
    int order[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) std::swap(order[i], order[c.choose(i + 1)]);
    int pos = 0, left = bpp;
    for (int i = 0; i < 3; i++) {
      int maxn = std::min(8, left - (2 - i));
      int n = c.chance(1, 2) ? std::min(maxn, bpp == 16 ? 5 + (i == 1) : 8) : (int)c.range(1, maxn);
      int gap = left - n - (2 - i) > 0 && c.chance(1, 4) ? (int)c.range(0, std::min(3, left - n - (2 - i))) : 0;
      pos += gap;
      left -= gap;
      mask[order[i]] = ((1u << n) - 1) << pos;
      pos += n;
      left -= n;
    }
  }
  // the 4th mask is present in the larger headers; alpha is ignored by contract
  bool alpha = bitfields && hs >= 56 && bpp == 32 && c.chance(1, 3);
  if (alpha) {
    uint32_t rest = ~(mask[0] | mask[1] | mask[2]);
    mask[3] = rest & -rest;  // one contiguous bit run
    while ((mask[3] << 1) & rest & ~mask[3]) mask[3] |= (mask[3] << 1) & rest;
  }
  r.alpha = alpha;
  std::vector<RGB> pal;
  bool gray = ncol && c.chance(1, 3);
  if (ncol) pal = gen_palette(c, ncol, gray, false);
  r.graypal = true;
  for (auto &p : pal)
    if (p.r != p.g || p.g != p.b) r.graypal = false;
  Image &im = r.want;
  im = Image(w, h, 3);
  std::vector<uint32_t> raw((size_t)w * h);
  Fill fill(c, raw.size());
  int stay = fill.big ? 9 : 4;
  for (size_t i = 0; i < raw.size(); i++) {
    if (rle && i && fill.chance(stay, 10)) raw[i] = raw[i - 1];
    else raw[i] = ncol ? fill(ncol) : bpp == 24 ? fill(1 << 24) : bpp == 16 ? fill(1 << 16) : fill(1ull << 32);
  }
  // rows or row ends a run-length file may leave out
  std::vector<int> keep(h, w);
  if (rle && c.chance(1, 3))
    for (int y = 0; y < h; y++)
      if (c.chance(1, 4)) {
        keep[y] = c.range(0, w);
        for (int x = keep[y]; x < w; x++) raw[(size_t)y * w + x] = 0;
      }
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      uint32_t v = raw[(size_t)y * w + x];
      RGB q;
      if (ncol) q = pal[v];
      else if (bpp == 24) q = {(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
      else {
        uint8_t o[3];
        for (int k = 0; k < 3; k++) {
          int sh = __builtin_ctz(mask[k]);
          uint32_t mx = mask[k] >> sh;
          o[k] = lround(((v & mask[k]) >> sh) * 255.0 / mx);
        }
        q = {o[0], o[1], o[2]};
      }
      im.set(x, y, q);
    }
  Bytes px;
  int rowbytes = (w * bpp + 31) / 32 * 4;
  if (rle) {
    for (int y = h - 1; y >= 0; y--) {
      std::vector<uint32_t> row(raw.begin() + (size_t)y * w, raw.begin() + (size_t)y * w + keep[y]);
      if (keep[y] == 0 && y > 0 && c.coin()) {  // a whole blank row by moving down
        px.insert(px.end(), {0, 2, 0, 1});
        continue;
      }
      bmp_rle_row(c, px, row, bpp);
      if (y == 0 && c.coin()) break;  // end of line before end of bitmap is optional
      px.push_back(0);
      px.push_back(0);
    }
    px.push_back(0);
    px.push_back(1);
  } else
    for (int k = 0; k < h; k++) {
      int y = r.topdown ? k : h - 1 - k;
      size_t start = px.size();
      if (bpp <= 8) {
        int per = 8 / bpp;
        for (int x = 0; x < w; x += per) {
          uint8_t b = 0;
          for (int j = 0; j < per; j++) {
            uint32_t v = x + j < w ? raw[(size_t)y * w + x + j] : 0;
            b |= v << (8 - bpp * (j + 1));
          }
          px.push_back(b);
        }
      } else
        for (int x = 0; x < w; x++) {
          uint32_t v = raw[(size_t)y * w + x];
          for (int j = 0; j < bpp / 8; j++) px.push_back(v >> (8 * j));
        }
      while (px.size() - start < (size_t)rowbytes) px.push_back(fill.chance(1, 4) ? fill(256) : 0);
    }
  bool masks_after = bitfields && hs == 40;
  int gapbytes = c.chance(1, 4) ? (int)c.range(1, 12) : 0;
  r.gap = gapbytes;
  uint32_t off = 14 + hs + (masks_after ? 12 : 0) + ncol * maps + gapbytes;
  Bytes &f = r.file;
  put(f, "BM");
  le32(f, off + px.size());
  le32(f, 0);
  le32(f, off);
  le32(f, hs);
  if (hs == 12) {
    le16(f, w);
    le16(f, h);
    le16(f, 1);
    le16(f, bpp);
  } else {
    le32(f, w);
    le32(f, r.topdown ? -h : h);
    le16(f, 1);
    le16(f, bpp);
    le32(f, bitfields ? 3 : rle ? (bpp == 8 ? 1 : 2) : 0);
    le32(f, !rle && c.coin() ? 0 : px.size());
    le32(f, 2835);
    le32(f, 2835);
    le32(f, ncol == (1 << bpp) && bpp <= 8 && c.coin() ? 0 : bpp <= 8 ? ncol : 0);
    le32(f, 0);
    if (hs >= 56) {
      for (int k = 0; k < 4; k++) le32(f, hs == 64 ? 0 : mask[k]);
      while ((int)f.size() < 14 + hs) f.push_back(c.chance(1, 8) ? c.byte() : 0);
    } else if (masks_after)
      for (int k = 0; k < 3; k++) le32(f, mask[k]);
  }
  for (int i = 0; i < ncol; i++) {
    f.push_back(pal[i].b);
    f.push_back(pal[i].g);
    f.push_back(pal[i].r);
    if (maps == 4) f.push_back(0);
  }
  for (int i = 0; i < gapbytes; i++) f.push_back(c.byte());
  f.insert(f.end(), px.begin(), px.end());
  if (c.chance(1, 6)) {  // data after the pixels (for example a colour profile)
    int n = c.range(1, 2 * rowbytes + 3);
    for (int i = 0; i < n; i++) f.push_back(c.byte());
    r.tail = true;
  }
  return r;
}

static void r02(Ctx &c) {
  BmpCase k = gen_bmp(c);
  c.note(sfmt("bmp %dx%d header %d bpp %d colours %d bitfields %d alpha %d gap %d rle %d topdown %d: %s", k.want.w, k.want.h, k.hdr, k.bpp, k.ncol, k.bitfields, k.alpha, k.gap, k.rle, k.topdown, hex(k.file, 300).c_str()));
  c.label(sfmt("bpp %d", k.bpp).c_str());
  c.label(sfmt("header %d", k.hdr).c_str());
  if (k.bitfields) c.label("bitfields");
  if (k.tail) c.label("trailing data");
  if (k.rle) c.label("run-length");
  if (k.topdown) c.label("top-down");
  Msgs m;
  at_bitmap *b = read_bytes(c, "bmp", k.file, m);
  REQUIRE(m.fatal == 0, "refused", "valid BMP refused: %s", m.last.c_str());
  Image got = from_bitmap(b);
  Image want = k.want;
  if (k.bpp <= 8 && k.graypal && got.np == 1) {
    Image g(want.w, want.h, 1);
    for (int y = 0; y < want.h; y++)
      for (int x = 0; x < want.w; x++) *g.at(x, y) = want.at(x, y)[0];
    want = g;
  }
  compare(got, want, (k.bpp == 16 || k.bpp == 32) ? 1 : 0, "bmp");
  at_bitmap_free(b);
  bool varied = std::any_of(k.want.d.begin(), k.want.d.end(), [&](uint8_t x) { return x != k.want.d[0]; });
  if (varied) c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size()));
}
static eng::Reg reg_r02({"R02", "valid BMP files generated from a drawn picture, depth, header version, palette, masks and layout; non-trivial: at least two different samples; distinct by file bytes", r02, 40000, 400000, 20, {"the encoder in the harness follows the published BMP layout", "2 bit files and embedded PNG/JPEG are outside this property; a pixel left out by a run-length file has the first palette colour"}});

// ------------------------------------------------------------------ TGA
TgaCase gen_tga(Ctx &c, int maxw, int maxh) {
  TgaCase r;
  int kind = r.kind = c.weighted({3, 2, 2});  // 0 true colour 1 grey 2 mapped
  bool rle = r.rle = c.coin();
  int w = c.skewed(1, maxw), h = c.skewed(1, maxh);
  if (maxw > 100 && c.chance(1, 3)) big_size(c, w, h, 70000);
  bool right = r.right = c.chance(1, 3), top = r.top = c.coin();
  int idlen = c.chance(1, 3) ? (int)c.range(1, 255) : 0;
  int start = 0, ncol = 0;
  std::vector<RGB> pal;
  if (kind == 2) {
    start = c.chance(1, 3) ? (int)c.range(1, 40) : 0;
    ncol = c.range(1, 256 - start);
    pal = gen_palette(c, ncol, false, false);
  }
  bool alpha = r.alpha = c.chance(1, 4);
  int es = kind == 0 ? 3 + alpha : kind == 1 ? 1 + alpha : 1;
  Image &im = r.want;
  im = Image(w, h, kind == 1 ? 1 : 3);
  // pixel values in file order
  std::vector<uint32_t> raw((size_t)w * h);
  Fill fill(c, raw.size());
  int stay = fill.big ? 9 : 4;
  for (size_t i = 0; i < raw.size(); i++) {
    if (i && fill.chance(stay, 10)) raw[i] = raw[i - 1];
    else raw[i] = kind == 0 ? fill(alpha ? 1ull << 32 : 1 << 24) : kind == 1 ? fill(alpha ? 65536 : 256) : start + fill(ncol);
  }
  for (size_t i = 0; i < raw.size(); i++) {
    int fx = i % w, fy = i / w;
    int x = right ? w - 1 - fx : fx, y = top ? fy : h - 1 - fy;
    uint32_t v = raw[i];
    RGB q = kind == 0 ? RGB{(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v} : kind == 1 ? RGB{(uint8_t)v, (uint8_t)v, (uint8_t)v} : pal[v - start];
    im.set(x, y, q);
  }
  Bytes &f = r.file;
  f.push_back(idlen);
  f.push_back(kind == 2);
  f.push_back((kind == 0 ? 2 : kind == 1 ? 3 : 1) + (rle ? 8 : 0));
  le16(f, start);
  le16(f, ncol);
  f.push_back(kind == 2 ? (alpha ? 32 : 24) : 0);
  le16(f, c.chance(1, 4) ? c.choose(65536) : 0);
  le16(f, c.chance(1, 4) ? c.choose(65536) : 0);
  le16(f, w);
  le16(f, h);
  f.push_back(8 * es);
  f.push_back((right ? 0x10 : 0) | (top ? 0x20 : 0) | (alpha && kind != 2 ? 8 : 0));
  for (int i = 0; i < idlen; i++) f.push_back(c.chance(1, 8) ? c.byte() : 'i');
  for (auto &p : pal) {
    f.push_back(p.b);
    f.push_back(p.g);
    f.push_back(p.r);
    if (alpha) f.push_back(c.byte());
  }
  auto elem = [&](uint32_t v) {
    for (int k = 0; k < es; k++) f.push_back(v >> (8 * k));
  };
  if (!rle)
    for (auto v : raw) elem(v);
  else {
    bool cross = c.coin();  // packets may cross scan lines
    r.cross = cross;
    size_t i = 0;
    while (i < raw.size()) {
      size_t lim = std::min<size_t>(128, raw.size() - i);
      if (!cross) lim = std::min<size_t>(lim, w - i % w);
      size_t run = 1;
      while (run < lim && raw[i + run] == raw[i]) run++;
      if (run > 1 ? !c.chance(1, 6) : c.chance(1, 6)) {
        size_t n = c.chance(1, 4) ? c.range(1, run) : run;
        f.push_back(0x80 | (n - 1));
        elem(raw[i]);
        i += n;
      } else {
        size_t n = c.range(1, lim);
        f.push_back(n - 1);
        for (size_t k = 0; k < n; k++) elem(raw[i + k]);
        i += n;
      }
    }
  }
  if (c.coin()) {  // new style footer
    le32(f, 0);
    le32(f, 0);
    put(f, "TRUEVISION-XFILE.");
    f.push_back(0);
  } else
    r.nofooter = true;
  return r;
}

static void r03(Ctx &c) {
  init_lib();
  int n = c.weighted({5, 2, 1}) + 1;
  uint64_t h = 0;
  bool varied = false;
  for (int i = 0; i < n; i++) {  // several files through one process
    TgaCase k = gen_tga(c, c.chance(1, 10) ? 200 : 16, 10);
    c.note(sfmt("tga %d: kind %d rle %d cross %d right %d top %d %s", i, k.kind, k.rle, k.cross, k.right, k.top, hex(k.file, 300).c_str()));
    c.label(sfmt("kind %d rle %d", k.kind, k.rle).c_str());
    if (k.alpha) c.label("with alpha");
    c.label(sfmt("origin right %d top %d", k.right, k.top).c_str());
    Msgs m;
    at_bitmap *b = read_bytes(c, "tga", k.file, m);
    REQUIRE(m.fatal == 0, "refused", "valid TGA refused: %s", m.last.c_str());
    Image got = from_bitmap(b), want = k.want;
    if (want.np == 1 && got.np == 3) {
      Image g(want.w, want.h, 3);
      for (int y = 0; y < want.h; y++)
        for (int x = 0; x < want.w; x++) g.set(x, y, want.get(x, y));
      want = g;
    }
    compare(got, want, 0, "tga");
    at_bitmap_free(b);
    h = eng::hash_bytes(k.file.data(), k.file.size(), h);
    varied |= std::any_of(k.want.d.begin(), k.want.d.end(), [&](uint8_t x) { return x != k.want.d[0]; });
  }
  if (varied) c.nontrivial(h);
}
static eng::Reg reg_r03({"R03", "sequences of one to three valid TGA files (grey, mapped, true colour; raw or run-length; four origins) read in one process; non-trivial: some picture has two different samples; distinct by file bytes", r03, 40000, 400000, 20, {"alpha values are ignored by contract; 15/16 bit pixels and palettes are outside this property"}});

// ------------------------------------------------------------------ PNG
static void png_put(png_structp p, png_bytep d, size_t n) {
  Bytes *b = (Bytes *)png_get_io_ptr(p);
  b->insert(b->end(), d, d + n);
}
static void png_flush_(png_structp) {}

PngCase gen_png(Ctx &c, int maxw, int maxh) {
  PngCase r;
  int ct;
  switch (c.weighted({4, 6, 4, 1, 1})) {
    case 0: ct = PNG_COLOR_TYPE_GRAY; break;
    case 1: ct = PNG_COLOR_TYPE_RGB; break;
    case 2: ct = PNG_COLOR_TYPE_PALETTE; break;
    case 3: ct = PNG_COLOR_TYPE_GRAY_ALPHA; break;
    default: ct = PNG_COLOR_TYPE_RGB_ALPHA; break;
  }
  static const std::vector<int> gd = {8, 1, 2, 4, 16}, rd = {8, 16}, pd = {8, 1, 2, 4};
  int depth = ct == PNG_COLOR_TYPE_GRAY ? c.pick(gd) : ct == PNG_COLOR_TYPE_PALETTE ? c.pick(pd) : c.pick(rd);
  int w = c.skewed(1, maxw), h = c.skewed(1, maxh);
  if (maxw > 100 && c.chance(1, 2)) big_size(c, w, h, 70000);
  Fill fill(c, (size_t)w * h);
  bool inter = c.chance(1, 3);
  r.ct = ct;
  r.depth = depth;
  r.interlaced = inter;
  int ns = ct == PNG_COLOR_TYPE_RGB ? 3 : ct == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
  Image &im = r.want;
  im = Image(w, h, ct == PNG_COLOR_TYPE_GRAY || ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 1 : 3);
  std::vector<RGB> pal;
  if (ct == PNG_COLOR_TYPE_PALETTE) pal = gen_palette(c, c.range(1, 1 << depth), false, false);
  std::vector<std::vector<uint8_t>> rows(h);
  size_t rb = ((size_t)w * ns * depth + 7) / 8;
  for (int y = 0; y < h; y++) {
    rows[y].assign(rb, 0);
    for (int x = 0; x < w; x++)
      for (int s = 0; s < ns; s++) {
        unsigned v = pal.empty() ? fill(1u << depth) : fill(pal.size());
        size_t k = (size_t)x * ns + s;
        if (depth == 16) {
          rows[y][2 * k] = v >> 8;
          rows[y][2 * k + 1] = v;
          if (s < im.np) im.at(x, y)[s] = v >> 8;
        } else if (depth == 8) {
          rows[y][k] = v;
          if (pal.empty() && s < im.np) im.at(x, y)[s] = v;
        } else {
          int per = 8 / depth;
          rows[y][k / per] |= v << (8 - depth * (k % per + 1));
          if (pal.empty()) im.at(x, y)[s] = v * 255 / ((1 << depth) - 1);
        }
        if (!pal.empty()) im.set(x, y, pal[v]);
      }
  }
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0);
  png_infop info = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) abort();
  png_set_write_fn(p, &r.file, png_put, png_flush_);
  png_set_IHDR(p, info, w, h, depth, ct, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  if (!pal.empty()) {
    std::vector<png_color> pc(pal.size());
    for (size_t i = 0; i < pal.size(); i++) pc[i] = {pal[i].r, pal[i].g, pal[i].b};
    png_set_PLTE(p, info, pc.data(), pc.size());
  }
  if (!(ct & PNG_COLOR_MASK_ALPHA) && c.chance(1, 8)) {
    // transparency given by a separate chunk
    r.trns = true;
    Bytes ta(pal.size());
    for (auto &v : ta) v = c.byte();
    png_color_16 tc;
    memset(&tc, 0, sizeof tc);
    tc.gray = tc.red = tc.green = tc.blue = c.choose(1u << depth);
    png_set_tRNS(p, info, ta.data(), pal.empty() ? 0 : c.range(1, ta.size()), pal.empty() ? &tc : nullptr);
  }
  if (c.chance(1, 4)) {
    png_text t;
    memset(&t, 0, sizeof t);
    t.compression = PNG_TEXT_COMPRESSION_NONE;
    t.key = (char *)"Comment";
    t.text = (char *)"generated";
    png_set_text(p, info, &t, 1);
  }
  if (c.chance(1, 6)) png_set_pHYs(p, info, c.range(1, 5000), c.range(1, 5000), PNG_RESOLUTION_METER);
  if (c.chance(1, 6)) png_set_gAMA(p, info, c.real(0.3, 1.0));
  if (c.chance(1, 6)) {
    png_color_16 bg;
    memset(&bg, 0, sizeof bg);
    bg.index = pal.empty() ? 0 : c.choose(pal.size());
    bg.gray = bg.red = bg.green = bg.blue = c.choose(1u << depth);
    png_set_bKGD(p, info, &bg);
  }
  static const std::vector<int> filt = {PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS};
  png_set_filter(p, 0, c.pick(filt));
  png_set_compression_level(p, c.range(0, 9));
  png_write_info(p, info);
  std::vector<png_bytep> rp(h);
  for (int y = 0; y < h; y++) rp[y] = rows[y].data();
  png_write_image(p, rp.data());
  png_write_end(p, info);
  png_destroy_write_struct(&p, &info);
  return r;
}

static void r04(Ctx &c) {
  PngCase k = gen_png(c, c.chance(1, 30) ? 300 : 20, 12);
  c.note(sfmt("png colour type %d depth %d interlaced %d %s\n%s", k.ct, k.depth, k.interlaced, k.want.dump().c_str(), hex(k.file, 300).c_str()));
  c.label(sfmt("type %d depth %d", k.ct, k.depth).c_str());
  if (k.interlaced) c.label("interlaced");
  if (k.trns) c.label("tRNS");
  Msgs m;
  at_bitmap *b = read_bytes(c, "png", k.file, m);
  REQUIRE(m.fatal == 0, "refused", "valid PNG refused: %s", m.last.c_str());
  compare(from_bitmap(b), k.want, 0, "png");
  at_bitmap_free(b);
  bool varied = std::any_of(k.want.d.begin(), k.want.d.end(), [&](uint8_t x) { return x != k.want.d[0]; });
  if (varied) c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size()));
}
static eng::Reg reg_r04({"R04", "valid PNG files written with libpng's encoder from drawn samples, colour type, depth, interlacing, filters and ancillary chunks; non-trivial: at least two different samples; distinct by file bytes", r04, 30000, 300000, 20, {"libpng's encoder is trusted", "transparency is ignored by contract"}});

// ------------------------------------------------------------------ GF
static void be16(Bytes &b, unsigned v) {
  b.push_back(v >> 8);
  b.push_back(v);
}
static void be24(Bytes &b, unsigned v) {
  b.push_back(v >> 16);
  be16(b, v);
}
static void gf_special(Ctx &c, Bytes &f) {
  switch (c.weighted({3, 3, 1, 1, 1, 2})) {
    case 0: f.push_back(244); break;
    case 1: {
      int n = c.range(0, 9);
      f.push_back(239);
      f.push_back(n);
      for (int i = 0; i < n; i++) f.push_back(c.byte());
      break;
    }
    case 2: {
      int n = c.range(0, 9);
      f.push_back(240);
      be16(f, n);
      for (int i = 0; i < n; i++) f.push_back(c.byte());
      break;
    }
    case 3: {
      int n = c.range(0, 9);
      f.push_back(241);
      be24(f, n);
      for (int i = 0; i < n; i++) f.push_back(c.byte());
      break;
    }
    case 4: {
      int n = c.range(0, 9);
      f.push_back(242);
      be32(f, n);
      for (int i = 0; i < n; i++) f.push_back(c.byte());
      break;
    }
    default:
      f.push_back(243);
      be32(f, c.choose(1ull << 32));
  }
}
static void gf_paint(Ctx &c, Bytes &f, unsigned n) {
  int enc = c.weighted({6, 1, 1, 1});
  if (enc == 0 && n > 63) enc = n < 256 ? 1 : 2;
  if (enc == 1 && n > 255) enc = 2;
  if (enc == 0) f.push_back(n);
  else if (enc == 1) {
    f.push_back(64);
    f.push_back(n);
  } else if (enc == 2) {
    f.push_back(65);
    be16(f, n);
  } else {
    f.push_back(66);
    be24(f, n);
  }
}

GfCase gen_gf(Ctx &c) {
  GfCase r;
  Bytes &f = r.file;
  f.push_back(247);
  f.push_back(131);
  std::string com = "METAFONT output";
  f.push_back(com.size());
  put(f, com);
  int n = c.weighted({4, 3, 2}) + 1;
  std::vector<int> used;
  struct Loc {
    int code, ptr, esc;
  };
  std::vector<Loc> locs;
  bool specials = c.chance(1, 3);
  for (int g = 0; g < n; g++) {
    int code = c.choose(256);
    while (std::find(used.begin(), used.end(), code) != used.end()) code = (code + 1) % 256;
    used.push_back(code);
    int w = c.chance(1, 12) ? c.range(60, 330) : c.skewed(1, 20), h = c.skewed(1, 12);
    if (c.chance(1, 40)) big_size(c, w, h, 33000);
    Image im(w, h, 1);
    Fill fill(c, (size_t)w * h * 8);
    int dens = c.range(1, 7), gap = fill.big && c.coin() ? c.range(1, 600) : 0;
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++) *im.at(x, y) = (!gap || y / gap % 2) && (fill.big && x ? fill.chance(1, 12) ? !*im.at(x - 1, y) : *im.at(x - 1, y) : fill.chance(dens, 8)) ? 255 : 0;
    // make the picture touch its bounding box, so that it is the glyph's own box
    bool tight = !c.chance(1, 4);
    if (tight) {
      *im.at(c.choose(w), 0) = 255;
      *im.at(c.choose(w), h - 1) = 255;
      *im.at(0, c.choose(h)) = 255;
      *im.at(w - 1, c.choose(h)) = 255;
    }
    int far = c.chance(1, 12) ? 3000 : 0;
    int min_col = far ? (int)c.range(-far, far) : c.chance(1, 3) ? (int)c.range(-40, -1) : (int)c.range(0, 20), min_row = far ? (int)c.range(-far, far) : c.chance(1, 3) ? (int)c.range(-40, -1) : (int)c.range(0, 20);
    int max_col = min_col + w, max_row = min_row + h - 1;
    Loc l{code, (int)f.size(), (int)c.range(0, 255)};
    if (specials && c.chance(1, 4)) {
      // specials before the character; the locator may point at them
      int op = 239;
      f.push_back(op);
      int k = c.range(0, 5);
      f.push_back(k);
      for (int i = 0; i < k; i++) f.push_back(c.byte());
    }
    bool small = w < 256 && max_col >= 0 && max_col < 256 && max_row >= 0 && max_row < 256 && h - 1 < 256;
    if (small && c.coin()) {
      f.push_back(68);
      f.push_back(code);
      f.push_back(w);
      f.push_back(max_col);
      f.push_back(h - 1);
      f.push_back(max_row);
    } else {
      f.push_back(67);
      be32(f, code);
      be32(f, (uint32_t)-1);
      be32(f, min_col);
      be32(f, max_col);
      be32(f, min_row);
      be32(f, max_row);
    }
    int y = 0;
    bool first = true;
    int lastrow = h - 1;
    auto blank = [&](int yy) {
      for (int x = 0; x < w; x++)
        if (*im.at(x, yy)) return false;
      return true;
    };
    while (lastrow >= 0 && blank(lastrow)) lastrow--;
    while (y <= lastrow) {
      bool painted_mode = false;  // colour of the next paint command
      int x = 0;
      if (!first) {
        // how to get here: skip or new_row
        int yy = y;
        int lead = 0;
        while (yy <= lastrow && blank(yy)) yy++;
        int skip = yy - y;
        y = yy;
        while (lead < w && !*im.at(lead, y)) lead++;
        if (skip == 0 && lead <= 164 && c.coin()) {
          f.push_back(74 + lead);
          x = lead;
          painted_mode = true;
        } else {
          int enc = skip == 0 ? c.weighted({4, 1, 1, 1}) : 1 + c.weighted({4, 1, 1});
          if (enc == 1 && skip > 255) enc = c.coin() ? 2 : 3;
          if (enc == 0) f.push_back(70);
          else if (enc == 1) {
            f.push_back(71);
            f.push_back(skip);
          } else if (enc == 2) {
            f.push_back(72);
            be16(f, skip);
          } else {
            f.push_back(73);
            be24(f, skip);
          }
        }
      } else if (blank(y)) {
        // the first row is blank: it needs no paint command at all
        first = false;
        y++;
        continue;
      }
      first = false;
      int end = w;
      while (end > 0 && !*im.at(end - 1, y)) end--;
      while (x < end) {
        if (specials && c.chance(1, 6)) gf_special(c, f), r.specials = true;
        int k = x;
        uint8_t want = painted_mode ? 255 : 0;
        while (k < end && *im.at(k, y) == want) k++;
        int len = k - x;
        if (len > 1 && c.chance(1, 10)) {  // split a run: paint, zero of the other colour, paint
          int a = c.range(1, len - 1);
          gf_paint(c, f, a);
          gf_paint(c, f, 0);
          gf_paint(c, f, len - a);
        } else
          gf_paint(c, f, len);
        x = k;
        painted_mode = !painted_mode;
      }
      if (!painted_mode && c.chance(1, 5)) gf_paint(c, f, c.range(0, w - end));  // white up to the right edge
      if (specials && c.chance(1, 6)) gf_special(c, f), r.specials = true;
      y++;
    }
    f.push_back(69);
    locs.push_back(l);
    // expected: trimmed to the ink
    int x0 = w, x1 = -1, y0 = h, y1 = -1;
    for (int yy = 0; yy < h; yy++)
      for (int xx = 0; xx < w; xx++)
        if (*im.at(xx, yy)) {
          x0 = std::min(x0, xx);
          x1 = std::max(x1, xx);
          y0 = std::min(y0, yy);
          y1 = std::max(y1, yy);
        }
    Image t;
    if (x1 >= x0) {
      t = Image(x1 - x0 + 1, y1 - y0 + 1, 1);
      for (int yy = y0; yy <= y1; yy++)
        for (int xx = x0; xx <= x1; xx++) *t.at(xx - x0, yy - y0) = *im.at(xx, yy);
    }
    r.glyph[code] = t;
    r.full[code] = im;
    r.place[code] = x1 >= x0 ? GfCase::Place{min_col + x0, max_row - y1, l.esc, 0} : GfCase::Place{0, 0, l.esc, 0};
  }
  uint32_t post = f.size();
  r.post = post;
  f.push_back(248);
  be32(f, 0);
  be32(f, 10 << 20);
  be32(f, 0x12345678);
  be32(f, 300 << 16);
  be32(f, 300 << 16);
  be32(f, 0);
  be32(f, 400);
  be32(f, 0);
  be32(f, 400);
  for (auto &l : locs) {
    r.place[l.code].loc = f.size();
    if (c.coin()) {
      f.push_back(246);
      f.push_back(l.code);
      f.push_back(l.esc);
    } else {
      f.push_back(245);
      f.push_back(l.code);
      be32(f, l.esc << 16);
      be32(f, 0);
    }
    be32(f, 0x1000);
    be32(f, l.ptr);
  }
  f.push_back(249);
  be32(f, post);
  f.push_back(131);
  for (int i = 0; i < 4 || f.size() % 4; i++) f.push_back(223);
  return r;
}

static void r05(Ctx &c) {
  GfCase k = gen_gf(c);
  int code, gone = 0;
  if (k.glyph.size() > 1 && c.chance(1, 8)) {  // a locator of -1: the character is not in the file
    auto it = k.glyph.begin();
    std::advance(it, c.choose(k.glyph.size()));
    gone = it->first;
    size_t at = k.place[gone].loc;
    std::fill_n(k.file.begin() + at + (k.file[at] == 245 ? 14 : 7), 4, 0xff);
    k.glyph.erase(gone);
    c.label("locator without a character");
  }
  bool known = !c.chance(1, 8);
  if (gone && c.coin()) {
    code = gone;
    known = false;
  } else if (known) {
    auto it = k.glyph.begin();
    std::advance(it, c.choose(k.glyph.size()));
    code = it->first;
  } else {
    code = c.range(1, 255);
    known = k.glyph.count(code);
  }
  if (code == 0 || c.chance(1, 12)) {  // 0 selects the first character
    code = 0;
    known = true;
    c.label("first character");
  }
  c.note(sfmt("gf glyphs %zu, reading character %d: %s", k.glyph.size(), code, hex(k.file, 600).c_str()));
  if (k.specials) c.label("specials inside a character");
  at_input_opts_type *o = at_input_opts_new();
  o->charcode = code;
  int expect_code = code;
  if (code == 0) expect_code = k.glyph.begin()->first;
  Msgs m;
  at_bitmap *b = read_bytes(c, "gf", k.file, m, o);
  Image got = from_bitmap(b);
  if (!known) {
    c.label("absent character");
    REQUIRE(m.fatal > 0, "accepted", "character %d is not in the font but no error was reported", code);
    REQUIRE(got.w * got.h == 0, "accepted", "character %d is not in the font but a %dx%d picture came back", code, got.w, got.h);
    c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size(), code));
  } else {
    const Image &t = k.glyph[expect_code];
    REQUIRE(m.fatal == 0, "refused", "valid character refused: %s", m.last.c_str());
    c.note("glyph " + k.full[expect_code].dump());
    if (t.w == 0) {
      c.label("blank glyph");
      REQUIRE(got.w * got.h == 0 || std::all_of(got.d.begin(), got.d.end(), [](uint8_t v) { return v == 0; }), "pixel", "blank glyph read with ink");
    } else {
      if (t.w != k.full[expect_code].w || t.h != k.full[expect_code].h) c.label("loose bounding box");
      compare(got, t, 0, "gf");
      c.nontrivial(eng::hash_bytes(k.file.data(), k.file.size(), code));
    }
  }
  at_bitmap_free(b);
  at_input_opts_free(o);
}
static eng::Reg reg_r05({"R05", "valid GF files with one to three drawn glyphs in drawn encodings, one character code read back; non-trivial: the glyph has ink or the code is absent; distinct by file bytes and code", r05, 40000, 400000, 20, {"the encoder in the harness follows the published GF format"}});
