// R06: arbitrary bytes never crash, hang or corrupt the reading process.
#include "readers.h"
#include <algorithm>
#include <dirent.h>

static int open_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

static uint32_t rd32(const Bytes &b, size_t o) { return o + 4 <= b.size() ? b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24 : 0; }
static uint32_t rb32(const Bytes &b, size_t o) { return o + 4 <= b.size() ? (uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3] : 0; }

// Number of pixels the file asks for, to keep memory and time bounded.
double declared_pixels(const std::string &suf, const Bytes &b) {
  if (suf == "tga") return b.size() < 18 ? 0 : (double)(b[12] | b[13] << 8) * (b[14] | b[15] << 8);
  if (suf == "png") return (double)rb32(b, 16) * rb32(b, 20);
  if (suf == "bmp") {
    size_t o = 0;
    while (o + 14 < b.size() && b[o] == 'B' && b[o + 1] == 'A') o += 14;
    double a = fabs((double)(int32_t)rd32(b, o + 18)), h = fabs((double)(int32_t)rd32(b, o + 22));
    if (rd32(b, o + 14) == 12) {
      a = (rd32(b, o + 18) & 0xffff);
      h = rd32(b, o + 18) >> 16;
    }
    return a * h;
  }
  if (suf == "gf") {
    double worst = 0;
    for (size_t i = 0; i + 25 <= b.size(); i++)
      if (b[i] == 67) {
        int w = (int)(rb32(b, i + 13) - rb32(b, i + 9)), h = (int)(rb32(b, i + 21) - rb32(b, i + 17) + 1);
        if (w > 0 && h > 0 && w <= 65535 && h <= 65535) worst = std::max(worst, (double)w * h);
      }
    return worst;
  }
  // pnm: the two numbers after the magic
  std::string t;
  std::vector<double> num;
  bool com = false;
  for (size_t i = 0; i <= b.size() && num.size() < 3; i++) {
    int ch = i < b.size() ? b[i] : ' ';
    if (com) {
      if (ch == '\n') com = false;
      continue;
    }
    if (ch == '#' || isspace(ch)) {
      if (ch == '#') com = true;
      if (!t.empty()) num.push_back(atof(t.c_str()));
      t.clear();
    } else t += ch;
  }
  return num.size() < 3 ? 0 : num[1] * num[2];
}

Bytes base_file(Ctx &c, const std::string &suf) {
  if (suf == "bmp") return gen_bmp(c).file;
  if (suf == "tga") return gen_tga(c, 16, 10).file;
  if (suf == "png") return gen_png(c, 16, 10).file;
  if (suf == "gf") return gen_gf(c).file;
  return gen_pnm(c).file;
}

void mutate(Ctx &c, Bytes &b, const std::string &suf) {
  size_t n = b.size();
  if (!n) {
    b.push_back(c.byte());
    return;
  }
  size_t head = std::min<size_t>(n, 70);
  auto pos = [&]() -> size_t { return c.coin() ? c.choose(head) : c.choose(n); };
  static const std::vector<uint32_t> magic = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xffff0000u};
  switch (c.weighted({4, 4, 3, 3, 2, 2, 2, 2, 2})) {
    case 0: b.resize(c.choose(n)); break;  // truncate
    case 1: b[pos()] = c.byte(); break;
    case 2: {  // overwrite a 32 bit field with an extreme value, either byte order
      size_t p = pos();
      uint32_t v = c.pick(magic);
      bool be = c.coin();
      for (int k = 0; k < 4; k++)
        if (p + k < n) b[p + k] = be ? v >> (24 - 8 * k) : v >> (8 * k);
      break;
    }
    case 3: {
      size_t p = pos();
      uint32_t v = c.pick(magic);
      for (int k = 0; k < 2; k++)
        if (p + k < n) b[p + k] = v >> (8 * k);
      break;
    }
    case 4: {  // delete a block
      size_t p = pos(), k = c.range(1, 12);
      b.erase(b.begin() + p, b.begin() + std::min(n, p + k));
      break;
    }
    case 5: {  // duplicate a block
      size_t p = pos(), k = std::min<size_t>(n - p, c.range(1, 40));
      Bytes t(b.begin() + p, b.begin() + p + k);
      b.insert(b.begin() + c.choose(n), t.begin(), t.end());
      break;
    }
    case 6: {  // insert random bytes
      size_t p = pos();
      int k = c.range(1, 8);
      Bytes t;
      for (int i = 0; i < k; i++) t.push_back(c.byte());
      b.insert(b.begin() + p, t.begin(), t.end());
      break;
    }
    case 7: {  // flip one bit
      size_t p = pos();
      b[p] ^= 1 << c.choose(8);
      break;
    }
    default: {  // text files: a very long token, a huge number, a stray sign
      static const std::vector<std::string> t = {"99999999999", "-1", "65536", "65535", "4294967297", "0", "#", "-", "x"};
      std::string s = c.chance(1, 4) ? std::string(c.range(500, 530), (char)('0' + c.choose(10))) : c.pick(t);
      size_t p = c.choose(std::min<size_t>(n, 30));
      b.insert(b.begin() + p, s.begin(), s.end());
    }
  }
}

static void r06(Ctx &c) {
  init_lib();
  std::string suf = c.pick(kReaders);
  Bytes b;
  int how = c.weighted({8, 1, 1});
  if (how == 0) {
    b = base_file(c, suf);
    int n = c.weighted({4, 3, 2, 1});
    for (int i = 0; i <= n; i++) mutate(c, b, suf);
    c.label(("mutated " + suf).c_str());
  } else if (how == 1) {
    // right magic, random rest
    static const std::vector<std::string> mg = {"P1 ", "P2 3 3 ", "P3 ", "P4 8 2 ", "P5 2 2 255 ", "P6 ", "P7", "P", "BM", "BA", "\x89PNG\r\n\x1a\n", "\xf7\x83", ""};
    std::string m = c.pick(mg);
    b.assign(m.begin(), m.end());
    int n = c.skewed(0, 200);
    for (int i = 0; i < n; i++) b.push_back(c.byte());
    c.label("random bytes");
  } else {
    // another format's file under this suffix
    b = base_file(c, c.pick(kReaders));
    c.label("foreign file");
  }
  c.note(suf + " " + hex(b, 3000));
  if (declared_pixels(suf, b) > 2e6) {
    c.label("skipped: declares more than 2M pixels");
    return;
  }
  std::string p = write_file(c, ("in." + suf).c_str(), b);
  at_bitmap_reader *r = at_input_get_handler((char *)p.c_str());
  REQUIRE(r, "no-reader", "no reader for %s", suf.c_str());
  at_input_opts_type *o = c.coin() ? at_input_opts_new() : nullptr;
  if (o) o->charcode = c.chance(1, 3) ? c.range(0, 255) : 0;
  bool cb = !c.chance(1, 5);
  Msgs m;
  for (int round = 0; round < 2; round++) {  // the second round measures without one-time allocations
    int fds = open_fds();
    long live = eng::live_blocks();
    at_bitmap *bm = at_bitmap_read(r, (char *)p.c_str(), o, cb ? msg_cb : nullptr, cb ? &m : nullptr);
    m.last.clear();
    m.last.shrink_to_fit();
    REQUIRE(bm, "null", "reader returned no bitmap object");
    int w = at_bitmap_get_width(bm), h = at_bitmap_get_height(bm), np = at_bitmap_get_planes(bm);
    if (w * h > 0) {
      REQUIRE(np == 1 || np == 3, "planes", "%dx%d bitmap with %d planes", w, h, np);
      REQUIRE(bm->bitmap, "null", "%dx%d bitmap without samples", w, h);
      uint64_t hsh = 0;
      {
        Image im = from_bitmap(bm);  // every sample must be readable
        hsh = im.hash();
      }
      c.digest(hsh);
      c.label("accepted");
    } else {
      c.label("refused");
      if (cb) REQUIRE(m.fatal + m.warning > 0 || suf == "gf" || suf == "tga", "silent", "an empty bitmap came back without any message");
    }
    at_bitmap_free(bm);
    long left = eng::live_blocks() - live;
    int fds2 = open_fds();
    REQUIRE(fds2 == fds, "fd-leak", "%d file descriptors open before reading, %d after", fds, fds2);
    if (round) REQUIRE(left <= 0, "leak", "%ld heap blocks remain allocated after reading and freeing", left);
  }
  if (o) at_input_opts_free(o);
  c.nontrivial(eng::hash_bytes(b.data(), b.size(), eng::hash_str(suf)));
}
static eng::Reg reg_r06({"R06", "valid files of every format damaged by one to four drawn mutations (truncation, extreme fields, inserted, deleted and duplicated blocks), files under a foreign suffix, and random bytes behind a magic number; non-trivial: the file was given to the reader (it does not declare more than 2M pixels); distinct by suffix and bytes", r06, 60000, 1500000, 20, {"files that declare more than 2 million pixels are not read (memory bound of the sandbox)", "memory safety is judged by AddressSanitizer and UBSan bounds checks"}});
