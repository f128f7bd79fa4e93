#include "space.hpp"
#include <map>
struct Shape { int r, n, c; Bytes ring, disk; }; // n x n masks centred at c
static Bytes draw(bool disk, u32 w, u32 h, u32 ch, const char *col, double r, double x, double y, const Bytes &bg) {
  In in(bg);
  size_t cl = strlen(col) + 1;
  std::unique_ptr<char[]> c(new char[cl]);
  memcpy(c.get(), col, cl);
  if (disk) fcv_draw_disk(w, h, ch, c.get(), r, x, y, in.p);
  else fcv_draw_circle(w, h, ch, c.get(), r, x, y, in.p);
  calls();
  return Bytes(in.p, in.p + bg.size());
}
static const Shape &shape(int r) {
  static std::map<int, Shape> memo;
  auto it = memo.find(r);
  if (it != memo.end()) return it->second;
  Shape s;
  s.r = r, s.n = 2 * r + 9, s.c = s.n / 2;
  Bytes bg((size_t)s.n * s.n, 0);
  s.ring = draw(false, s.n, s.n, 1, "FFFFFF", r, s.c, s.c, bg);
  s.disk = draw(true, s.n, s.n, 1, "FFFFFF", r, s.c, s.c, bg);
  for (auto &v : s.ring) v = v != 0;
  for (auto &v : s.disk) v = v != 0;
  if (memo.size() > 64) memo.clear();
  return memo[r] = s;
}
// geometric requirements on the unclipped shapes
static void geometry(int r) {
  const Shape &s = shape(r);
  int n = s.n, c = s.c;
  auto at = [&](int x, int y) { return s.ring[(size_t)(y + c) * n + x + c]; };
  compared();
  size_t count = 0;
  int sx = 0, sy = 0;
  for (int y = -c; y < n - c; y++)
    for (int x = -c; x < n - c; x++) {
      if (!at(x, y)) continue;
      count++, sx = x, sy = y;
      double d = hypot(x, y);
      if (fabs(d - r) > 1.5) fail("circle radius %d paints (%d,%d), %.2f away from the ideal circle", r, x, y, fabs(d - r));
      if (!at(-x, y) || !at(x, -y) || !at(y, x)) fail("circle radius %d is not symmetric at (%d,%d)", r, x, y);
    }
  if (!count) fail("circle radius %d paints nothing", r);
  // the documented algorithm: Bresenham's circle, mirrored into eight octants
  {
    Bytes ideal(s.ring.size(), 0);
    auto put = [&](long x, long y) {
      for (int k = 0; k < 4; k++) {
        long X = k & 1 ? -x : x, Y = k & 2 ? -y : y;
        ideal[(size_t)(Y + c) * n + X + c] = 1, ideal[(size_t)(X + c) * n + Y + c] = 1;
      }
    };
    long x = 0, y = r, e = 3 - 2l * r;
    put(x, y);
    while (x < y) {
      if (e > 0) e += 4 * (x + 1 - (y - 1)) + 10, y--;
      else e += 4 * (x + 1) + 6;
      put(++x, y);
    }
    for (size_t i = 0; i < ideal.size(); i++)
      if (ideal[i] != (s.ring[i] != 0)) fail("circle radius %d: pixel (%d,%d) is %spainted, unlike Bresenham's circle", r, (int)(i % n) - c, (int)(i / n) - c, s.ring[i] ? "" : "not ");
  }
  for (int k = 0; k < 4; k++)
    if (!at(k == 0 ? r : k == 1 ? -r : 0, k == 2 ? r : k == 3 ? -r : 0)) fail("circle radius %d misses its extreme point %d", r, k);
  // one 8-connected component
  std::vector<int> st = {(sy + c) * n + sx + c};
  Bytes vis(s.ring.size(), 0);
  vis[st[0]] = 1;
  size_t reached = 0;
  while (!st.empty()) {
    int p = st.back(); st.pop_back(); reached++;
    for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
      int q = p + dy * n + dx;
      if (s.ring[q] && !vis[q]) vis[q] = 1, st.push_back(q);
    }
  }
  if (reached != count) fail("circle radius %d is broken into pieces", r);
  // it encloses its centre: 4-connected flood from outside does not reach it
  if (r >= 1) {
    std::fill(vis.begin(), vis.end(), 0);
    st = {0}; vis[0] = 1;
    while (!st.empty()) {
      int p = st.back(); st.pop_back();
      int x = p % n, y = p / n;
      auto go = [&](int X, int Y) { if (X < 0 || Y < 0 || X >= n || Y >= n) return; int q = Y * n + X; if (!s.ring[q] && !vis[q]) vis[q] = 1, st.push_back(q); };
      go(x + 1, y), go(x - 1, y), go(x, y + 1), go(x, y - 1);
    }
    if (vis[(size_t)c * n + c]) fail("circle radius %d does not enclose its centre", r);
  }
  for (int y = 0; y < n; y++) {
    int lo = n, hi = -1;
    for (int x = 0; x < n; x++) if (s.ring[(size_t)y * n + x]) lo = std::min(lo, x), hi = std::max(hi, x);
    for (int x = 0; x < n; x++)
      if ((x >= lo && x <= hi) != (s.disk[(size_t)y * n + x] != 0)) fail("disk radius %d: pixel (%d,%d) is %spainted", r, x - c, y - c, s.disk[(size_t)y * n + x] ? "" : "not ");
  }
  seen(hash(s.ring.data(), s.ring.size(), r)), seen(hash(s.disk.data(), s.disk.size(), r + 1));
}
struct Col { const char *s; int r, g, b; };
static const Col COLS[] = {{"FF0000", 255, 0, 0}, {"#00ff7F", 0, 255, 127}, {"123456", 0x12, 0x34, 0x56}, {"#FFFFFF", 255, 255, 255}, {"000000", 0, 0, 0}, {"nope", 255, 255, 255}, {"abcdef", 0xab, 0xcd, 0xef}, {"", 255, 255, 255}, {"#12345", 255, 255, 255}, {"1234567", 255, 255, 255}};
static const int NC = 10;
static bool lum_ok(int v, const Col &c) {
  int e = 299 * c.r + 587 * c.g + 114 * c.b;
  return v == e / 1000 || (e % 1000 == 0 && v == e / 1000 - 1);
}
static void clipped(bool disk, u32 w, u32 h, u32 ch, const Col &col, double r, double x, double y, bool visible = true) {
  Bytes bg = fill(F_HASH, w, h, ch, 7), got = draw(disk, w, h, ch, col.s, r, x, y, bg);
  compared();
  if (!visible) {
    if (got != bg) fail("%s of radius %g at %g,%g changed the image", disk ? "disk" : "circle", r, x, y);
    return;
  }
  const Shape &s = shape((int)r);
  const Bytes &m = disk ? s.disk : s.ring;
  i64 X = (i64)x, Y = (i64)y;
  for (u32 py = 0; py < h; py++)
    for (u32 px_ = 0; px_ < w; px_++) {
      i64 dx = px_ - X + s.c, dy = py - Y + s.c;
      bool p = dx >= 0 && dy >= 0 && dx < s.n && dy < s.n && m[dy * s.n + dx];
      const u8 *g = &got[((size_t)py * w + px_) * ch], *b = &bg[((size_t)py * w + px_) * ch];
      bool ok;
      if (!p) ok = memcmp(g, b, ch) == 0;
      else if (ch == 1) ok = lum_ok(g[0], col);
      else ok = g[0] == col.r && g[1] == col.g && g[2] == col.b && (ch < 4 || g[3] == 255);
      if (!ok) fail("%s %s radius %g at %g,%g on %ux%ux%u: pixel (%u,%u) should be %s, is %u,%u,%u,%u", disk ? "disk" : "circle", col.s, r, x, y, w, h, ch, px_, py, p ? "painted" : "unchanged", g[0], ch > 1 ? g[1] : 0, ch > 2 ? g[2] : 0, ch > 3 ? g[3] : 0);
    }
  seen(hash(got.data(), got.size(), w * 7919 + h));
}
static void hexcase(const std::string &s, int r, int g, int b) {
  std::unique_ptr<char[]> c(new char[s.size() + 1]);
  memcpy(c.get(), s.c_str(), s.size() + 1);
  u8 R = 1, G = 2, B = 3;
  fcv_parse_hex_color(c.get(), &R, &G, &B);
  if (R != r || G != g || B != b) fail("colour '%s' parsed as %u,%u,%u, expected %d,%d,%d", s.c_str(), R, G, B, r, g, b);
}
static bool is_hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void hex_any(const std::string &s) {
  std::string t = !s.empty() && s[0] == '#' ? s.substr(1) : s;
  bool ok = t.size() == 6;
  for (char c : t) ok = ok && is_hex(c);
  if (ok) hexcase(s, hv(t[0]) * 16 + hv(t[1]), hv(t[2]) * 16 + hv(t[3]), hv(t[4]) * 16 + hv(t[5]));
  else hexcase(s, 255, 255, 255);
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    static u32 RM; RM = thorough ? 700 : 260;
    add_list(S, "geometry", "every radius 0..R: ring is Bresenham's circle, within 1.5 px of the ideal, symmetric, connected, enclosing; disk = its filled rows", RM + 1, [](u64 i) { geometry(i); }, [](u64 i) { return str("circle and disk of radius %d", (int)i); });
    S.back().chunk = 4;
    static const int GL[] = {300, 333, 400, 500, 501, 511, 512, 513, 600, 725, 800, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2500};
    add_list(S, "geometry-large", "the same for 19 radii up to 2500", 19, [](u64 i) { geometry(GL[i]); }, [](u64 i) { return str("circle and disk of radius %d", GL[i]); });
    S.back().chunk = 1;
    add_list(S, "wide", "6 images with lines longer than 2^16 or more than 2^20 pixels: shapes at both ends and in the middle, 1, 3 and 4 channels", 6ull * 3 * 2 * 5 * 2,
      [](u64 i) {
        Dec k(i);
        bool disk = k.take(2);
        u32 ch = "\1\3\4"[k.take(3)];
        double r = k.take(2) ? 13 : 2;
        u64 at = k.take(5);
        u32 w = WIDE[k.v].first, h = WIDE[k.v].second;
        clipped(disk, w, h, ch, COLS[1], r, at == 0 ? 0 : at == 1 ? w - 1 : at == 2 ? w / 2 : at == 3 ? w - 3 : 1, at == 0 ? 0 : at == 1 ? h - 1 : at == 2 ? h / 2 : at == 3 ? 1 : h - 2);
      },
      [](u64 i) { Dec k(i); bool d = k.take(2); k.take(6); int at = k.take(5); return str("%s at place %d of %ux%u", d ? "disk" : "circle", at, WIDE[k.v].first, WIDE[k.v].second); });
    S.back().chunk = 4;
    static const u32 ML[][2] = {{256, 3}, {512, 3}, {1024, 3}, {4096, 3}, {32768, 3}, {65536, 3}, {131072, 2}, {3, 256}, {3, 65536}, {2, 131072}, {65537, 2}, {2, 65537}};
    add_list(S, "round-widths", "lines of a power of two pixels: shapes at 7 places, 1, 3 and 4 channels", 12ull * 3 * 2 * 7,
      [](u64 i) {
        Dec k(i);
        bool disk = k.take(2);
        u32 ch = "\1\3\4"[k.take(3)], at = k.take(7), w = ML[k.v][0], h = ML[k.v][1];
        auto place = [&](u32 n) -> u32 { return at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : at == 3 ? n - 3 + (n == 2) : at == 4 ? 1 : at == 5 ? n / 3 : n - n / 5 - 1; };
        clipped(disk, w, h, ch, COLS[1], 1 + at % 3, place(w), place(h));
      },
      [](u64 i) { Dec k(i); bool d = k.take(2); k.take(3); int at = k.take(7); return str("%s at place %d of %ux%u", d ? "disk" : "circle", at, ML[k.v][0], ML[k.v][1]); });
    S.back().chunk = 8;
    add_list(S, "clipping", "circle and disk, radii 0..9, every centre from -12 to +16 around a 5x4 image, 1, 3 and 4 channels", 29ull * 29 * 10 * 2 * 3,
      [](u64 i) {
        Dec k(i);
        bool disk = k.take(2);
        u32 ch = "\1\3\4"[k.take(3)];
        int r = k.take(10), x = (int)k.take(29) - 12, y = (int)k.take(29) - 12;
        clipped(disk, 5, 4, ch, COLS[(i / 7) % NC], r, x, y);
      },
      [](u64 i) { Dec k(i); bool d = k.take(2); int ch = "\1\3\4"[k.take(3)]; int r = k.take(10), x = (int)k.take(29) - 12; return str("%s radius %d at %d,%d on 5x4x%d", d ? "disk" : "circle", r, x, (int)k.v - 12, ch); });
    static const u32 D[][2] = {{1, 1}, {1, 9}, {9, 1}, {16, 16}, {31, 7}, {40, 33}, {300, 5}, {5, 300}, {260, 250}};
    static const double RR[] = {0, 0.5, 0.99, 1, 1.5, 2.999, 7, 20, 64, 130.7, 257};
    add_list(S, "sizes", "9 sizes x 11 radii x 12 centres (inside, fractional, negative, far outside) x 3 channel counts x 10 colours", 9ull * 11 * 12 * 3 * NC * 2,
      [](u64 i) {
        Dec k(i);
        bool disk = k.take(2);
        const Col &c = COLS[k.take(NC)];
        u32 ch = "\1\3\4"[k.take(3)];
        double r = RR[k.take(11)];
        int p = k.take(12);
        u32 w = D[k.v][0], h = D[k.v][1];
        double P[12][2] = {{w / 2.0, h / 2.0}, {0, 0}, {w - 1.0, h - 1.0}, {0.9, h - 0.1}, {-0.5, -0.9}, {-1, -1}, {-3.7, h / 2.0}, {w + 5.5, h + 2.0}, {w / 3.0, -20}, {-1e6, 3}, {3, 1e8}, {w * 0.77, h * 0.33}};
        clipped(disk, w, h, ch, c, r, P[p][0], P[p][1]);
      },
      [](u64 i) { Dec k(i); bool d = k.take(2); int c = k.take(NC), ch = k.take(3), r = k.take(11), p = k.take(12); return str("%s colour '%s' radius %g centre #%d on %ux%u, channel mode %d", d ? "disk" : "circle", COLS[c].s, RR[r], p, D[k.v][0], D[k.v][1], ch); });
    static const double BADR[] = {-1, -0.001, -1e300, NAN, INFINITY, -INFINITY, 1e300};
    static const double BADC[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300};
    add_list(S, "nothing", "negative or non-finite radius or centre paints nothing", 7 * 2 * 3 + 5 * 2 * 3 * 2,
      [](u64 i) {
        bool disk = i & 1;
        i /= 2;
        u32 ch = "\1\3\4"[i % 3];
        i /= 3;
        if (i < 7) clipped(disk, 6, 5, ch, COLS[0], BADR[i], 2, 2, false);
        else { i -= 7; clipped(disk, 6, 5, ch, COLS[0], 3, i & 1 ? BADC[i / 2] : 2, i & 1 ? 2 : BADC[i / 2], false); }
      },
      [](u64 i) { return str("drawing with invalid radius/centre #%d", (int)i); });
    add_list(S, "bignear", "very large radii whose rim crosses the image: visible pixels follow the ideal circle, disks cover their inside", 6 * 4 * 2,
      [](u64 i) {
        static const double R[6] = {1000, 5000, 40000, 100000, 1000000, 3000000};
        Dec k(i);
        bool disk = k.take(2);
        int side = k.take(4);
        double r = R[k.v];
        u32 w = 40, h = 30;
        double cx = side == 0 ? 20 - r : side == 1 ? 20 + r : 17, cy = side == 2 ? 15 - r : side == 3 ? 15 + r : 12;
        Bytes bg((size_t)w * h, 0), g = draw(disk, w, h, 1, "FFFFFF", r, cx, cy, bg);
        compared();
        for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) {
          double d = hypot(x - cx, y - cy) - r;
          bool p = g[y * w + x];
          if (p && (disk ? d > 1.6 : fabs(d) > 1.6)) fail("%s radius %g paints (%u,%u), %.2f off", disk ? "disk" : "circle", r, x, y, d);
          if (!p && disk && d < -1.6) fail("disk radius %g leaves (%u,%u) unpainted", r, x, y);
        }
        bool any = false;
        for (u8 v : g) any |= v != 0;
        if (!any) fail("nothing painted");
      },
      [](u64 i) { return str("large shape #%d crossing the image", (int)i); });
    S.back().chunk = 2;
    add_list(S, "hex", "all 2^24 colours, upper/lower/mixed case, with and without #", 4096, [](u64 i) {
      static const char *F[] = {"%06X", "%06x", "#%06X", "#%06x"};
      for (u32 k = 0; k < 4096; k++) {
        u32 v = i * 4096 + k;
        char s[16];
        snprintf(s, sizeof s, F[(k + i) & 3], v);
        hexcase(s, v >> 16, v >> 8 & 255, v & 255);
        if (k % 8 == 0) for (int f = 0; f < 4; f++) { snprintf(s, sizeof s, F[f], v); hexcase(s, v >> 16, v >> 8 & 255, v & 255); }
      }
      compared(4096); calls(6144); seen(hash(&i, 8)); }, [](u64 i) { return str("colours %06llX..%06llX", (unsigned long long)i * 4096, (unsigned long long)i * 4096 + 4095); });
    add_list(S, "hex-bad", "every byte at every position of 6- and 7-character codes; every string up to length 3 over 9 characters; every length up to 20", 13ull * 255 + 820 + 3 * 21,
      [](u64 i) {
        compared(); calls();
        if (i < 13 * 255) {
          std::string s = i / 255 < 6 ? "1a2B3c" : "#1a2B3c";
          int pos = i / 255 < 6 ? i / 255 : i / 255 - 6;
          s[pos] = (char)(1 + i % 255);
          return hex_any(s);
        }
        i -= 13 * 255;
        static const char A[] = "#0aFgG x-";
        if (i < 820) {
          int len = i == 0 ? 0 : i < 10 ? 1 : i < 91 ? 2 : 3;
          u64 c = i == 0 ? 0 : i < 10 ? i - 1 : i < 91 ? i - 10 : i - 91;
          std::string s;
          for (int k = 0; k < len; k++) s += A[c % 9], c /= 9;
          return hex_any(s);
        }
        i -= 820;
        std::string s(i / 3, "0f#"[i % 3]);
        hex_any(s);
        hex_any("#" + s);
      },
      [](u64 i) { return str("colour text #%d", (int)i); });
    // convert_to_binary
    static const char *FG[] = {"FF0000", "#00ff00", "FFFFFF", "000000", "bad", "0102FE"};
    std::vector<Bytes> al = {px({255, 0, 0, 255}), px({0, 255, 0, 0}), px({255, 255, 255, 9}), px({0, 0, 0, 255}), px({1, 2, 254, 0}), px({255, 0, 1, 255}), px({254, 0, 0, 255})};
    auto conv = [](u64 v, u32 w, u32 h, const Bytes &b) {
      const char *fg = FG[v % 6], *bg = FG[v / 6];
      static const int RGB[6][3] = {{255, 0, 0}, {0, 255, 0}, {255, 255, 255}, {0, 0, 0}, {255, 255, 255}, {1, 2, 254}};
      In in(b);
      Out o(fcv_convert_to_binary(in.p, w, h, fg, bg));
      in.check();
      if (!o) fail("convert_to_binary failed");
      const int *f = RGB[v % 6];
      Bytes want((size_t)w * h);
      for (size_t i = 0; i < want.size(); i++) want[i] = b[4 * i] == f[0] && b[4 * i + 1] == f[1] && b[4 * i + 2] == f[2] ? 255 : 0;
      Bytes g = o.bytes(want.size());
      expect_equal(g, want, w, 1, "convert_to_binary");
      seen(hash(g.data(), g.size(), v));
    };
    auto cn = [](u64 v) { return str("convert_to_binary %s / %s", FG[v % 6], FG[v / 6]); };
    add_coded(S, "binary", "all images over 7 colours x 36 colour pairs", {{1, 1}, {2, 1}, {1, 3}, {2, 2}}, al, 36, conv, cn);
    add_dims(S, "binary-dims", "all sizes up to 16x16 and around powers of two x 36 colour pairs", [] { Dims d = dims_small(16); for (auto x : dims_large(POW2N, 5000)) d.push_back(x); return d; }(), {F_EXTREME}, 4, 36, conv, cn);
    add_list(S, "binary-near", "every value of every channel against the foreground colour", 3 * 256, [](u64 i) {
      Bytes b = px({0x40, 0x80, 0xC0, 3});
      b[i / 256] = i % 256;
      In in(b);
      Out o(fcv_convert_to_binary(in.p, 1, 1, "4080C0", "FFFFFF"));
      compared();
      bool m = b[0] == 0x40 && b[1] == 0x80 && b[2] == 0xC0;
      if (!o || o.p[0] != (m ? 255 : 0)) fail("pixel %02x%02x%02x wrong", b[0], b[1], b[2]); }, [](u64 i) { return str("convert_to_binary channel %d value %d", (int)(i / 256), (int)(i % 256)); });
    add_list(S, "binary-invalid", "NULL or empty arguments fail", 7, [](u64 i) {
      In in(Bytes(16, 1));
      compared();
      Out o(fcv_convert_to_binary(i == 0 ? nullptr : in.p, i == 1 ? 0 : i == 2 ? -1 : 2, i == 3 ? 0 : i == 4 ? -2 : 2, i == 5 ? nullptr : "FF0000", i == 6 ? nullptr : "000000"));
      if (o) fail("convert_to_binary accepted invalid arguments"); }, [](u64 i) { return str("convert_to_binary invalid #%d", (int)i); });
  });
}
