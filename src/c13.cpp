#include "space.hpp"
static u8 luma(u8 r, u8 g, u8 b) { return (76u * r + 150u * g + 30u * b) / 256u; }
static void sobel(u32 ch, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(fcv_sobel_edge_detection(w, h, ch, in.p));
  in.check();
  if (!o) fail("sobel failed on a %ux%u image with %u channels", w, h, ch);
  size_t n = (size_t)w * h;
  Bytes g(n);
  for (size_t i = 0; i < n; i++) g[i] = ch == 1 ? b[i] : luma(b[i * ch], b[i * ch + 1], b[i * ch + 2]);
  std::vector<double> m(n);
  double lo = 1e300, hi = 0;
  auto at = [&](int x, int y) -> int { x = std::min(std::max(x, 0), (int)w - 1); y = std::min(std::max(y, 0), (int)h - 1); return g[(size_t)y * w + x]; };
  for (int y = 0; y < (int)h; y++)
    for (int x = 0; x < (int)w; x++) {
      int gx = at(x + 1, y - 1) + 2 * at(x + 1, y) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x - 1, y) - at(x - 1, y + 1);
      int gy = at(x - 1, y + 1) + 2 * at(x, y + 1) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x, y - 1) - at(x + 1, y - 1);
      double v = sqrt((double)gx * gx + (double)gy * gy);
      m[(size_t)y * w + x] = v;
      lo = std::min(lo, v), hi = std::max(hi, v);
    }
  compared();
  for (size_t i = 0; i < n; i++) {
    double want = hi > lo ? (m[i] - lo) / (hi - lo) * 255 : 0;
    bool exact = m[i] == lo || m[i] == hi; // extremes are exactly 0 and 255
    double tol = hi > lo ? (exact ? 0.0 : 1.0) : 0.0;
    if (fabs(o.p[i] - want) > tol + (exact ? (m[i] == hi && hi > lo ? 1 : 0) : 0)) fail("sobel (%u channels): pixel (%zu,%zu) is %u, expected %.3f", ch, i % w, i / w, o.p[i], want);
  }
  Bytes r = o.bytes(n);
  seen(hash(r.data(), n, w * 7919 + h));
}
// mirror / flip / transpose equivariance on the implementation itself (exact up to one level)
static void equi(u32 ch, u32 w, u32 h, const Bytes &b, int sym) {
  auto map = [&](u32 x, u32 y) -> size_t { return sym == 0 ? (size_t)y * w + (w - 1 - x) : sym == 1 ? (size_t)(h - 1 - y) * w + x : (size_t)x * h + y; };
  Bytes m(b.size());
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) for (u32 c = 0; c < ch; c++) m[map(x, y) * ch + c] = b[((size_t)y * w + x) * ch + c];
  In i1(b), i2(m);
  Out a(fcv_sobel_edge_detection(w, h, ch, i1.p)), q(fcv_sobel_edge_detection(sym == 2 ? h : w, sym == 2 ? w : h, ch, i2.p));
  if (!a || !q) fail("sobel failed");
  compared();
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++)
    if (abs((int)a.p[(size_t)y * w + x] - (int)q.p[map(x, y)]) > 1) fail("sobel: symmetry %d changes pixel (%u,%u) from %u to %u", sym, x, y, a.p[(size_t)y * w + x], q.p[map(x, y)]);
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    for (u32 ch : {1u, 3u, 4u}) {
      auto run = [ch](u64 v, u32 w, u32 h, const Bytes &b) { if (v == 0) sobel(ch, w, h, b); else equi(ch, w, h, b, v - 1); };
      auto vn = [](u64 v) { return std::string(v == 0 ? "sobel" : v == 1 ? "sobel of the mirrored image" : v == 2 ? "sobel of the flipped image" : "sobel of the transposed image"); };
      std::vector<Bytes> al, a2;
      for (int v : {0, 1, 128, 255}) al.push_back(ch == 1 ? px({v}) : ch == 3 ? px({v, 255 - v, v ^ 85}) : px({v, 255 - v, v ^ 85, v * 3}));
      a2 = {al[0], al[3]};
      add_coded(S, str("bin-%uch", ch), "all binary images", thorough ? Dims{{3, 3}, {4, 4}, {5, 3}, {3, 5}, {1, 12}, {12, 1}, {2, 7}, {7, 2}} : Dims{{3, 3}, {4, 3}, {3, 4}, {1, 10}, {10, 1}, {2, 5}, {5, 2}}, a2, 4, run, vn);
      add_coded(S, str("quad-%uch", ch), "all images over four values", {{1, 1}, {2, 2}, {1, 4}, {4, 1}, {3, 2}, {2, 3}}, al, 4, run, vn);
      add_dims(S, str("dims-%uch", ch), "all sizes up to NxN x 6 contents", dims_small(thorough ? 64 : 32), {F_HASH, F_EXTREME, F_SPARSE, F_GRAD, F_CHECK, F_GRAYHASH}, ch, 4, run, vn);
      add_dims(S, str("large-%uch", ch), "sizes around powers of two", dims_large(POW2N, thorough ? 300000 : 70000), {F_HASH, F_SPARSE}, ch, 1, run, vn);
      add_dims(S, str("wide-%uch", ch), WIDE_WHAT, WIDE, {F_HASH, F_SPARSE}, ch, 1, run, vn);
      S.back().chunk = 1;
      add_list(S, str("const-%uch", ch), "constant images of every level, all sizes up to 6x6: all zero", 256ull * 36,
        [ch](u64 i) {
          Dec k(i);
          u8 v = k.take(256);
          u32 w = 1 + k.take(6), h = 1 + k.take(6);
          Bytes b((size_t)w * h * ch, v);
          sobel(ch, w, h, b);
        },
        [](u64 i) { Dec k(i); int v = k.take(256), w = 1 + k.take(6); return str("sobel of a constant %dx%d image of level %d", w, (int)(1 + k.v), v); });
      add_list(S, str("steps-%uch", ch), "a step edge of every height 0..255 at every position of an 8-pixel axis, both axes", 256ull * 8 * 2,
        [ch](u64 i) {
          Dec k(i);
          int v = k.take(256), at = k.take(8), ax = k.take(2);
          Bytes b((size_t)8 * 5 * ch);
          u32 w = ax ? 5 : 8, h = ax ? 8 : 5;
          for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) for (u32 c = 0; c < ch; c++) b[((size_t)y * w + x) * ch + c] = (int)(ax ? y : x) >= at ? v : (x + y == 9 ? 3 : 0);
          sobel(ch, w, h, b);
        },
        [](u64 i) { Dec k(i); int v = k.take(256), at = k.take(8); return str("sobel of a step of height %d at %d, axis %d", v, at, (int)k.v); });
    }
    add_list(S, "invalid", "empty or NULL input fails", 4,
      [](u64 i) {
        In in(Bytes(16, 1));
        compared();
        Out o(fcv_sobel_edge_detection(i == 0 ? 0 : 2, i == 1 ? 0 : 2, i == 2 ? 0 : 1, i == 3 ? nullptr : in.p));
        if (o) fail("sobel accepted invalid arguments");
      },
      [](u64 i) { return str("sobel with invalid arguments #%d", (int)i); });
  });
}
