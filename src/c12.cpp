#include "space.hpp"
enum { DIL, ERO, CLO, OPN, NOP };
static const char *on[] = {"dilation", "erosion", "closing", "opening"};
static u8 *call(int op, const u8 *p, u32 w, u32 h, i32 r) {
  return op == DIL ? fcv_binary_dilation_disk(p, w, h, r) : op == ERO ? fcv_binary_erosion_disk(p, w, h, r) : op == CLO ? fcv_binary_closing_disk(p, w, h, r) : fcv_binary_opening_disk(p, w, h, r);
}
typedef std::vector<u8> Mask; // 0/1
static bool in_disk(i64 dx, i64 dy, i64 r) { return 4 * (dx * dx + dy * dy) <= (2 * r + 1) * (2 * r + 1); }
// exact squared distances via brute force over foreground (dilate) / background
static Mask dil(const Mask &m, int w, int h, int r) {
  Mask o(m.size(), 0);
  std::vector<int> half(r + 1);
  for (int dy = 0; dy <= r; dy++) { int dx = 0; while (in_disk(dx + 1, dy, r)) dx++; half[dy] = dx; }
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      if (m[y * w + x])
        for (int yy = std::max(0, y - r); yy <= std::min(h - 1, y + r); yy++) {
          int e = half[abs(yy - y)];
          for (int xx = std::max(0, x - e); xx <= std::min(w - 1, x + e); xx++) o[yy * w + xx] = 1;
        }
  return o;
}
// erosion: outside = background (pad 0) or replicated border
static Mask ero(const Mask &m, int w, int h, int r, bool rep) {
  Mask o(m.size(), 0);
  std::vector<int> half(r + 1);
  for (int dy = 0; dy <= r; dy++) { int dx = 0; while (in_disk(dx + 1, dy, r)) dx++; half[dy] = dx; }
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      bool ok = true;
      for (int dy = -r; dy <= r && ok; dy++) {
        int yy = y + dy, e = half[abs(dy)];
        if (yy < 0 || yy >= h) { if (!rep) { ok = false; break; } yy = yy < 0 ? 0 : h - 1; }
        if (!rep && (x - e < 0 || x + e >= w)) { ok = false; break; }
        for (int xx = std::max(0, x - e); xx <= std::min(w - 1, x + e); xx++)
          if (!m[yy * w + xx]) { ok = false; break; }
      }
      o[y * w + x] = ok;
    }
  return o;
}
static void morph(int op, i32 r, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(call(op, in.p, w, h, r));
  in.check();
  if (!o) fail("%s with radius %d failed on %ux%u", on[op], r, w, h);
  Mask m(b.size());
  for (size_t i = 0; i < b.size(); i++) m[i] = b[i] == 255;
  Mask q = op == DIL ? dil(m, w, h, r) : op == ERO ? ero(m, w, h, r, false) : op == CLO ? ero(dil(m, w, h, r), w, h, r, true) : dil(ero(m, w, h, r, false), w, h, r);
  Bytes want(b.size());
  for (size_t i = 0; i < b.size(); i++) want[i] = q[i] ? 255 : 0;
  Bytes got = o.bytes(b.size());
  expect_equal(got, want, w, 1, str("%s radius %d", on[op], r).c_str());
  // order properties, on the implementation's own output
  for (size_t i = 0; i < b.size(); i++) {
    if ((op == OPN || op == ERO) && got[i] && !m[i]) fail("%s radius %d added pixel %zu", on[op], r, i);
    if ((op == CLO || op == DIL) && !got[i] && m[i]) fail("%s radius %d removed pixel %zu", on[op], r, i);
  }
  seen(hash(got.data(), got.size(), (op * 100 + r) * 7919ull + w * 131 + h));
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    Dims d;
    for (u32 h = 1; h <= 5; h++) for (u32 w = 1; w <= 5; w++) if (w * h <= (thorough ? 16u : 12u)) d.push_back({w, h});
    d.push_back({14, 1}); d.push_back({1, 14});
    static const int NR = 6;
    auto vn = [](u64 v) { return str("%s radius %d", on[v % 4], (int)(v / 4)); };
    add_coded(S, "all", "all binary images x 4 operations x radii 0..5", d, {px({0}), px({255})}, 4 * NR, [](u64 v, u32 w, u32 h, const Bytes &b) { morph(v % 4, v / 4, w, h, b); }, vn);
    add_coded(S, "all-r", "all binary images x 4 operations x radii 0..2", thorough ? Dims{{5, 4}, {4, 5}} : Dims{{4, 4}}, {px({0}), px({255})}, 4 * 3, [](u64 v, u32 w, u32 h, const Bytes &b) { morph(v % 4, v / 4, w, h, b); }, vn);
    add_coded(S, "gray", "all images over 5 values (only 255 is foreground) x 4 operations x radii 0..2", {{3, 2}, {2, 3}, {6, 1}}, {px({0}), px({255}), px({254}), px({1}), px({128})}, 12, [](u64 v, u32 w, u32 h, const Bytes &b) { morph(v % 4, v / 4, w, h, b); }, vn);
    // one foreground (background) pixel at every position: observes the whole disk
    static u32 RM; RM = thorough ? 60 : 24;
    add_list(S, "disk", "a single foreground/background pixel in the middle, every radius 0..R, 4 operations", (u64)(RM + 1) * 8,
      [](u64 i) {
        Dec k(i);
        int op = k.take(4), inv = k.take(2), r = k.v;
        u32 n = 2 * r + 5;
        Bytes b((size_t)n * n, inv ? 255 : 0);
        b[(size_t)n * n / 2] = inv ? 0 : 255;
        morph(op, r, n, n, b);
      },
      [](u64 i) { Dec k(i); int op = k.take(4), inv = k.take(2); return str("%s radius %d of a single %s pixel", on[op], (int)k.v, inv ? "background" : "foreground"); });
    S.back().chunk = 8;
    add_list(S, "dots", "single foreground/background pixel at every position of all sizes up to 11x11 x radii 0..12 x 4 operations", 11ull * 11 * 13 * 4 * 2,
      [](u64 i) {
        Dec k(i);
        int op = k.take(4), inv = k.take(2), r = k.take(13);
        u32 w = 1 + k.take(11), h = 1 + k.take(11);
        for (u32 p = 0; p < w * h; p++) {
          Bytes b((size_t)w * h, inv ? 255 : 0);
          b[p] = inv ? 0 : 255;
          morph(op, r, w, h, b);
        }
      },
      [](u64 i) { Dec k(i); int op = k.take(4), inv = k.take(2), r = k.take(13); int w = 1 + k.take(11); return str("%s radius %d of single %s pixels on %dx%d", on[op], r, inv ? "background" : "foreground", w, (int)(1 + k.v)); });
    add_list(S, "dims", "all sizes up to 24x24 x radii 0..6 x 3 densities x 4 operations", 24ull * 24 * 7 * 3 * 4,
      [](u64 i) {
        Dec k(i);
        int op = k.take(4), den = k.take(3), r = k.take(7);
        u32 w = 1 + k.take(24), h = 1 + k.take(24);
        Bytes b = fill(F_HASH, w, h, 1, den);
        for (auto &v : b) v = den == 0 ? (v < 20 ? 255 : 0) : den == 1 ? (v < 128 ? 255 : 254) : (v < 8 ? 0 : 255);
        morph(op, r, w, h, b);
      },
      [](u64 i) { Dec k(i); int op = k.take(4), den = k.take(3), r = k.take(7); int w = 1 + k.take(24); return str("%s radius %d, density %d, %dx%d", on[op], r, den, w, (int)(1 + k.v)); });
    static const int BR[] = {25, 28, 31, 32, 33, 40, 48, 50, 63, 64, 65, 90, 100, 126, 127, 128, 129, 150, 181, 182, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1025};
    add_list(S, "long-reach", "32 radii from 25 to 1025 x a single foreground/background pixel near the start, middle or end of pictures 1 to 7 (from radius 101 on 1 or 2, from 401 on 1) pixels thick, both directions, 4 operations", 32ull * 8 * 4 * 3 * 2,
      [](u64 i) {
        Dec k(i);
        int op = k.take(4), inv = k.take(2), tr = k.take(2), at = k.take(3), r = BR[k.take(32)];
        if ((r > 100 && k.v > 1) || (r > 400 && (k.v > 0 || at == 0))) return;
        u32 t = "\1\2\4\7"[k.v], n = 2 * r + 7 + 2 * t;
        u32 w = tr ? t : n, h = tr ? n : t, p = at == 0 ? 3 : at == 1 ? n / 2 : n - 3, q = t / 2;
        Bytes b((size_t)w * h, inv ? 255 : 0);
        b[tr ? (size_t)p * w + q : (size_t)q * w + p] = inv ? 0 : 255;
        morph(op, r, w, h, b);
      },
      [](u64 i) { Dec k(i); int op = k.take(4), inv = k.take(2), tr = k.take(2), at = k.take(3), r = BR[k.take(32)]; return str("%s radius %d of a single %s pixel, thickness #%d, direction %d, place %d", on[op], r, inv ? "background" : "foreground", (int)k.v, tr, at); });
    S.back().chunk = 16;
    S.back().hang_s = 120;
    static u32 QD; QD = thorough ? 400 : 300;
    add_list(S, "quarter-disk", "dilation of a dot in each corner of a picture slightly larger than the radius, every radius 25..300 (thorough: 400): a quarter of the disk, pixel by pixel", (QD - 24) * 4,
      [](u64 i) {
        int c = i % 4, r = 25 + i / 4;
        u32 n = r + 3, x0 = c & 1 ? n - 1 : 0, y0 = c & 2 ? n - 1 : 0;
        Bytes b((size_t)n * n, 0), want(b.size());
        b[(size_t)y0 * n + x0] = 255;
        for (u32 y = 0; y < n; y++) for (u32 x = 0; x < n; x++) want[(size_t)y * n + x] = in_disk((i64)x - x0, (i64)y - y0, r) ? 255 : 0;
        In in(b);
        Out o(call(DIL, in.p, n, n, r));
        in.check();
        if (!o) fail("dilation failed");
        Bytes got = o.bytes(b.size());
        expect_equal(got, want, n, 1, str("dilation radius %d", r).c_str());
        seen(hash(got.data(), got.size(), i));
      },
      [](u64 i) { return str("dilation radius %d of a dot in corner %d", (int)(25 + i / 4), (int)(i % 4)); });
    S.back().chunk = 4, S.back().hang_s = 120;
    static const int ER[] = {25, 26, 27, 30, 31, 32, 33, 40, 50, 63, 64, 65, 90, 100, 127, 128, 129, 200};
    add_list(S, "rim", "erosion of a white picture that the disk just fills, black pixels just outside the whole rim (the centre stays) or one black pixel on the rim (it goes): 18 radii x 41 lines (radii above 50: 8, above 100: 2) x both sides", 18 * 41 * 2,
      [](u64 i) {
        Dec k(i);
        bool right = k.take(2);
        int line = k.take(41), r = ER[k.v];
        if (!thorough && (r > 100 ? (line + right) % 20 : r > 50 ? (line + right * 3) % 5 : 0)) return;
        int dy = line == 40 ? r + 1 : (int)((i64)(line - 20) * r / 20);
        u32 n = 2 * r + 1;
        Bytes b((size_t)n * n, 255);
        for (int y = -r; y <= r; y++) for (int x = -r; x <= r; x++) if (!in_disk(x, y, r)) b[(size_t)(y + r) * n + x + r] = 0;
        if (line < 40) { int e = 0; while (in_disk(e + 1, dy, r)) e++; b[(size_t)(dy + r) * n + (right ? r + e : r - e)] = 0; }
        In in(b);
        Out o(call(ERO, in.p, n, n, r));
        in.check();
        if (!o) fail("erosion failed");
        compared();
        for (size_t j = 0; j < b.size(); j++) {
          u8 want = line == 40 && j == b.size() / 2 ? 255 : 0;
          if (o.p[j] != want) fail("erosion radius %d, black rim pixel on line %d: pixel %zu is %u", r, dy, j, o.p[j]);
        }
        seen(hash(&i, 8));
      },
      [](u64 i) { Dec k(i); int right = k.take(2), line = k.take(41); return str("erosion radius %d of the disk, %s", ER[k.v], line == 40 ? "complete" : str("one rim pixel missing (line #%d, side %d)", line, right).c_str()); });
    S.back().chunk = 20, S.back().hang_s = 120;
    static const u32 LD[][2] = {{257, 40}, {40, 257}, {1030, 3}, {3, 1030}, {70000, 1}, {1, 70000}, {300, 300}, {5, 129}, {262150, 1}, {1, 262150}, {1048600, 1}, {1, 1048600}};
    add_list(S, "large", "12 large sizes x radii 0,1,2,5,9,33 (up to 2 beyond 100000 pixels) x 2 densities x 4 operations", 12ull * 6 * 2 * 4,
      [](u64 i) {
        static const int R[6] = {0, 1, 2, 5, 9, 33};
        Dec k(i);
        int op = k.take(4), den = k.take(2), r = R[k.take(6)];
        u32 w = LD[k.v][0], h = LD[k.v][1];
        if ((u64)w * h > 100000 && r > 2) return;
        Bytes b = fill(F_HASH, w, h, 1, den);
        for (size_t j = 0; j < b.size(); j++) b[j] = fw::mix(j * 3 + den) % (den ? 999 : 50) == 0 ? (den ? 0 : 255) : (den ? 255 : 0);
        morph(op, r, w, h, b);
      },
      [](u64 i) { Dec k(i); int op = k.take(4), den = k.take(2), r = k.take(6); return str("%s radius #%d on %ux%u, density %d", on[op], r, LD[k.v][0], LD[k.v][1], den); });
    S.back().chunk = 4;
    S.back().hang_s = 120;
    add_dims(S, "wide", WIDE_WHAT, WIDE, {F_HASH}, 1, 4 * 2 * 2,
      [](u64 v, u32 w, u32 h, const Bytes &b0) {
        bool dense = v / 4 % 2;
        Bytes b = b0;
        for (size_t j = 0; j < b.size(); j++) b[j] = (b0[j] * 7 + j) % 199 == 0 ? (dense ? 0 : 255) : (dense ? 255 : 0);
        morph(v % 4, v / 8 ? 4 : 1, w, h, b);
      },
      [](u64 v) { return str("%s radius %d, density %d", on[v % 4], v / 8 ? 4 : 1, (int)(v / 4 % 2)); });
    S.back().chunk = 1;
    S.back().hang_s = 120;
    add_list(S, "invalid", "negative radius, non-positive sizes, NULL fail", 4 * 6,
      [](u64 i) {
        int op = i % 4, m = i / 4;
        In in(Bytes(6, 255));
        compared();
        Out o(call(op, m == 0 ? nullptr : in.p, m == 1 ? 0 : m == 2 ? -3 : 3, m == 3 ? 0 : m == 4 ? -1 : 2, m == 5 ? -1 : 1));
        if (o) fail("%s accepted invalid arguments (mode %d)", on[op], m);
        in.check();
      },
      [](u64 i) { return str("%s with invalid arguments #%d", on[i % 4], (int)(i / 4)); });
  });
}
