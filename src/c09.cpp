#include "space.hpp"
static u8 luma(u8 r, u8 g, u8 b) { return (76u * r + 150u * g + 30u * b) / 256u; }
static Bytes gray_of(const Bytes &b) {
  Bytes o(b.size() / 4);
  for (size_t i = 0; i < o.size(); i++) o[i] = luma(b[4 * i], b[4 * i + 1], b[4 * i + 2]);
  return o;
}
// exact between-class variance (times n^2 * n0 * n1 / (n0*n1)) as a long double ratio
struct Otsu {
  long double var[256], best = 0;
  Otsu(const Bytes &g) {
    u64 cnt[256] = {0}, n = g.size(), s = 0;
    for (u8 v : g) cnt[v]++;
    for (int i = 0; i < 256; i++) s += i * cnt[i];
    u64 n0 = 0, s0 = 0;
    for (int t = 0; t < 256; t++) {
      n0 += cnt[t], s0 += t * cnt[t];
      u64 n1 = n - n0;
      if (!n0 || !n1) { var[t] = 0; continue; }
      long double d = (long double)s0 * n1 - (long double)(s - s0) * n0; // n0*n1*(m0-m1)
      var[t] = d / n0 * d / n1 / n / n;
      if (var[t] > best) best = var[t];
    }
  }
  bool ok(int t) const { return var[t] >= best * (1 - 1e-6L); }
};
// does `out` equal thresholding of g at some admissible t?
static void check_otsu(const Bytes &g, const Bytes &out, bool dbl, const char *what) {
  for (size_t i = 0; i < g.size(); i++) {
    const u8 *p = &out[4 * i];
    if (p[0] != p[1] || p[0] != p[2] || p[3] != 255) fail("%s: pixel %zu is (%u,%u,%u,%u), not an opaque gray", what, i, p[0], p[1], p[2], p[3]);
    if (!dbl && p[0] != 0 && p[0] != 255) fail("%s: pixel %zu has value %u, neither black nor white", what, i, p[0]);
  }
  Otsu o(g);
  // value map
  int map[256];
  for (int &m : map) m = -1;
  for (size_t i = 0; i < g.size(); i++) {
    int v = out[4 * i];
    if (map[g[i]] >= 0 && map[g[i]] != v) fail("%s: luma %u becomes both %d and %d", what, g[i], map[g[i]], v);
    map[g[i]] = v;
  }
  compared();
  for (int t = 0; t < 256; t++) {
    if (!o.ok(t)) continue;
    bool match = true;
    int lo = std::max(0, t - 16), hi = std::min(255, t + 16);
    for (int v = 0; v < 256 && match; v++) {
      if (map[v] < 0) continue;
      if (!dbl) match = map[v] == (v > t ? 255 : 0);
      else if (v < lo) match = map[v] == 0;
      else if (v > hi) match = map[v] == 255;
      else {
        int num = (v - lo) * 255, d = hi - lo;
        match = map[v] == num / d || map[v] == (num + d - 1) / d;
      }
    }
    if (match) return;
  }
  int bt = 0;
  while (o.var[bt] < o.best) bt++;
  std::string m;
  int k = 0;
  for (int v = 0; v < 256; v++)
    if (map[v] >= 0 && k++ < 12) m += str(" %d->%d", v, map[v]);
  // best split actually used
  int used = -1;
  for (int v = 0; v < 256; v++) if (map[v] == 0) used = v;
  fail("%s: the output is no thresholding at an optimal threshold (best: %d, variance %.6Lg; darkest class ends at %d, variance %.6Lg); value map%s", what, bt, o.best, used, used >= 0 ? o.var[used] : 0.0L, m.c_str());
}
static void otsu_case(u64 dbl, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(fcv_otsu_threshold_rgba(w, h, dbl, in.p));
  in.check();
  if (!o) fail("otsu failed on a %ux%u image", w, h);
  Bytes r = o.bytes(b.size());
  check_otsu(gray_of(b), r, dbl, dbl ? "double Otsu" : "Otsu");
  seen(hash(r.data(), r.size(), w * 7919 + h + dbl));
}
static void smart_case(u64 dbl, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(fcv_bw_smart(w, h, dbl, in.p));
  in.check();
  if (!o) fail("bw_smart failed on a %ux%u image", w, h);
  Bytes g = gray_of(b), gi(b.size());
  for (size_t i = 0; i < g.size(); i++) gi[4 * i] = gi[4 * i + 1] = gi[4 * i + 2] = g[i], gi[4 * i + 3] = 255;
  In gin(gi);
  Out bl(fcv_apply_gaussian_blur(w, h, sqrt((double)w * (double)h) * 0.1, gin.p));
  if (!bl) fail("blur failed");
  Bytes hf(g.size());
  for (size_t i = 0; i < g.size(); i++) {
    int v = 127 + g[i] - bl.p[4 * i];
    hf[i] = v < 0 ? 0 : v > 255 ? 255 : v;
  }
  Bytes r = o.bytes(b.size());
  check_otsu(hf, r, dbl, dbl ? "bw_smooth" : "bw_smart");
  seen(hash(r.data(), r.size(), w * 7919 + h + 10 + dbl));
}
static Bytes counts_image(const std::vector<std::pair<int, u32>> &lc, u32 &n) {
  Bytes g;
  for (auto &p : lc) g.insert(g.end(), p.second, (u8)p.first);
  n = g.size();
  Bytes b((size_t)n * 4);
  u64 stride = 7919;
  while (std::__gcd<u64>(stride, n) != 1) stride += 2;
  for (u32 i = 0; i < n; i++) {
    u8 v = g[(u64)i * stride % n];
    b[4 * i] = b[4 * i + 1] = b[4 * i + 2] = v;
    b[4 * i + 3] = (u8)(i * 37);
  }
  return b;
}
static std::string vo(u64 v) { return v ? "double Otsu" : "Otsu"; }
static std::string vs(u64 v) { return v ? "bw_smooth" : "bw_smart"; }
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    add_list(S, "global", "global threshold: every t x every value, lengths 0..300", 256ull * 301,
      [](u64 i) {
        Dec k(i);
        u8 t = k.take(256);
        u32 n = k.take(301);
        Bytes b(n), want(n);
        for (u32 j = 0; j < n; j++) b[j] = j + n, want[j] = b[j] > t ? 255 : 0;
        In in(b);
        fcv_apply_global_threshold(n, in.p, t);
        calls();
        if (n) { Bytes r(in.p, in.p + n); expect_equal(r, want, n, 1, "global threshold"); seen(hash(r.data(), n, t)); }
      },
      [](u64 i) { return str("apply_global_threshold(t=%llu) on %llu values", (unsigned long long)(i % 256), (unsigned long long)(i / 256)); });
    static const u32 C[8][2] = {{1, 1}, {1, 3}, {3, 1}, {1, 40}, {40, 1}, {7, 8}, {1, 99}, {50, 50}};
    add_list(S, "pairs", "every pair of levels x 8 count ratios x single/double", 65536ull * 8 * 2,
      [](u64 i) {
        Dec k(i);
        u64 d = k.take(2);
        int m = k.take(8), a = k.take(256), b = k.take(256);
        u32 n;
        Bytes im = counts_image({{a, C[m][0]}, {b, C[m][1]}}, n);
        otsu_case(d, n, 1, im);
      },
      [](u64 i) { Dec k(i); auto d = k.take(2); int m = k.take(8), a = k.take(256); return str("%s on %u pixels of level %d and %u of level %d", vo(d).c_str(), C[m][0], a, C[m][1], (int)k.v); });
    static const int T[] = {0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 48, 64, 100, 127, 128, 129, 160, 200, 222, 223, 224, 237, 238, 239, 240, 247, 253, 254, 255};
    static const u32 NT = sizeof T / sizeof *T;
    add_list(S, "triples", "every triple from 29 levels (including the clamping edges) x 5 count patterns x single/double", (u64)NT * NT * NT * 5 * 2,
      [](u64 i) {
        Dec k(i);
        u64 d = k.take(2);
        static const u32 CC[5][3] = {{1, 1, 1}, {5, 1, 1}, {1, 5, 1}, {1, 1, 5}, {20, 3, 9}};
        int m = k.take(5), a = T[k.take(NT)], b = T[k.take(NT)], c = T[k.take(NT)];
        u32 n;
        Bytes im = counts_image({{a, CC[m][0]}, {b, CC[m][1]}, {c, CC[m][2]}}, n);
        otsu_case(d, 1, n, im);
      },
      [](u64 i) { Dec k(i); auto d = k.take(2); int m = k.take(5), a = T[k.take(NT)], b = T[k.take(NT)]; return str("%s on levels %d,%d,%d with count pattern %d", vo(d).c_str(), a, b, T[k.v], m); });
    Dims q = {{2, 2}, {4, 1}};
    if (thorough) q.push_back({5, 1});
    std::vector<Bytes> al;
    for (int v : {0, 1, 14, 30, 64, 127, 128, 190, 229, 240, 255}) al.push_back(px({v, v, v, (v * 3) & 255}));
    add_coded(S, "images", "all images over 11 gray levels", q, al, 2, otsu_case, vo);
    std::vector<Bytes> cl;
    for (int v = 0; v < 8; v++) cl.push_back(px({v & 1 ? 255 : 0, v & 2 ? 255 : 0, v & 4 ? 255 : 0, v * 30}));
    add_coded(S, "colours", "all images over the 8 corner colours", {{2, 2}, {3, 1}, {5, 1}}, cl, 2, otsu_case, vo);
    // every level present: single run of ramp with bumps
    add_list(S, "bimodal", "broad bimodal histograms: centres x widths x weights", 16ull * 16 * 4 * 4 * 2,
      [](u64 i) {
        Dec k(i);
        u64 d = k.take(2);
        int c1 = 8 + 16 * k.take(16), c2 = 8 + 16 * k.take(16), wd = 1 + 11 * k.take(4), wt = k.take(4);
        std::vector<std::pair<int, u32>> lc;
        for (int v = 0; v < 256; v++) {
          u32 c = 0;
          if (abs(v - c1) < wd) c += (wd - abs(v - c1)) * (1 + wt);
          if (abs(v - c2) < wd) c += (wd - abs(v - c2)) * 2;
          lc.push_back({v, c});
        }
        u32 n;
        Bytes im = counts_image(lc, n);
        otsu_case(d, n, 1, im);
      },
      [](u64 i) { Dec k(i); auto d = k.take(2); int a = k.take(16), b = k.take(16); return str("%s on a bimodal histogram centred %d and %d, shape %d", vo(d).c_str(), 8 + 16 * a, 8 + 16 * b, (int)k.v); });
    static const u32 NN[] = {64, 1000, 10000, 100000, 1000000};
    u64 nn = thorough ? 5 : 4;
    add_list(S, "nearly-flat", "nearly flat images: every base level x 1..3 odd pixels x difference -3..3 x sizes up to 10^5 (thorough: 10^6) pixels", 256ull * 3 * 6 * nn,
      [](u64 i) {
        Dec k(i);
        int base = k.take(256), odd = 1 + k.take(3), di = k.take(6);
        int lv = base + (di < 3 ? di - 3 : di - 2);
        u32 n0 = NN[k.v], n;
        if (lv < 0 || lv > 255) return;
        Bytes im((size_t)n0 * 4, (u8)base);
        for (int j = 0; j < odd; j++) { size_t p = (size_t)(n0 - 1) * (j + 1) / 4; im[4 * p] = im[4 * p + 1] = im[4 * p + 2] = lv; }
        otsu_case(0, n0 / 4, 4, im);
      },
      [](u64 i) { Dec k(i); int b = k.take(256), o = 1 + k.take(3), di = k.take(6); return str("Otsu on a flat image of level %d with %d pixels of level %d, %u pixels", b, o, b + (di < 3 ? di - 3 : di - 2), NN[k.v]); });
    S.back().chunk = 48;
    add_dims(S, "dims", "all sizes up to NxN x 6 contents x single/double", dims_small(thorough ? 60 : 32), {F_INDEX, F_HASH, F_GRAYHASH, F_SPARSE, F_EXTREME, F_GRAD}, 4, 2, otsu_case, vo);
    add_dims(S, "large", "sizes around powers of two", dims_large(POW2N, thorough ? 1000000 : 70000), {F_HASH, F_SPARSE}, 4, 2, otsu_case, vo);
    Dims huge = {{4097, 4099}};
    add_dims(S, "huge", "an image of more than 2^24 pixels", huge, {F_GRAYHASH, F_SPARSE}, 4, 2, otsu_case, vo);
    S.back().chunk = 1, S.back().hang_s = 120;
    add_dims(S, "wide", WIDE_WHAT, WIDE, {F_HASH}, 4, 2, otsu_case, vo);
    S.back().chunk = 1;
    add_dims(S, "smart-dims", "bw_smart/bw_smooth: all sizes up to NxN x 6 contents", dims_small(thorough ? 60 : 26), {F_INDEX, F_HASH, F_GRAYHASH, F_SPARSE, F_EXTREME, F_GRAD}, 4, 2, smart_case, vs);
    add_dims(S, "smart-thin", "bw_smart/bw_smooth: 1xN, Nx1, 2xN, Nx2 up to N=300", dims_thin(thorough ? 1200 : 300, 2), {F_HASH, F_SPARSE}, 4, 2, smart_case, vs);
    add_dims(S, "smart-large", "bw_smart/bw_smooth: larger sizes", thorough ? Dims{{100, 100}, {101, 99}, {257, 255}, {640, 480}, {1000, 7}, {5000, 3}, {1024, 1024}} : Dims{{100, 100}, {101, 99}, {257, 255}, {1000, 7}, {5000, 3}}, {F_HASH, F_SPARSE, F_GRAD}, 4, 2, smart_case, vs);
    S.back().chunk = 1, S.back().hang_s = 300;
    add_dims(S, "smart-wide", "bw_smart/bw_smooth: lines around 2^16 pixels", {{65535, 1}, {65536, 1}, {65537, 1}, {1, 65537}, {32769, 2}, {70000, 2}}, {F_HASH, F_SPARSE}, 4, 2, smart_case, vs);
    S.back().chunk = 1, S.back().hang_s = 300;
    add_coded(S, "smart-images", "bw_smart/bw_smooth: all binary images up to 9 pixels", {{3, 3}, {1, 8}, {9, 1}, {2, 4}}, {px({0, 0, 0, 0}), px({255, 255, 255, 255})}, 2, smart_case, vs);
    add_coded(S, "smart-rows", "bw_smart/bw_smooth: all binary 10x1 / 1x14 images (blur radius crosses 1 near 100 px)", {{1, 14}}, {px({30, 30, 30, 0}), px({220, 220, 220, 255})}, 2, smart_case, vs);
    add_list(S, "smart-dots", "bw_smart/bw_smooth: one or two dark dots at every position of 12x11 (radius > 1)", 132ull * 132 * 2,
      [](u64 i) {
        Dec k(i);
        u64 d = k.take(2);
        u32 a = k.take(132), c = k.take(132);
        Bytes b(132 * 4, 230);
        for (u32 p : {a, c}) b[4 * p] = b[4 * p + 1] = b[4 * p + 2] = 40;
        smart_case(d, 12, 11, b);
      },
      [](u64 i) { Dec k(i); auto d = k.take(2); int a = k.take(132); return str("%s on a 12x11 page with dots at %d and %d", vs(d).c_str(), a, (int)k.v); });
  });
}
