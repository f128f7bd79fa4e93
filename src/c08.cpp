#include "space.hpp"
static u8 luma(u8 r, u8 g, u8 b) { return (76u * r + 150u * g + 30u * b) / 256u; }
static Bytes ref_gray1(const Bytes &b) {
  Bytes o(b.size() / 4);
  for (size_t i = 0; i < o.size(); i++) o[i] = luma(b[4 * i], b[4 * i + 1], b[4 * i + 2]);
  return o;
}
static Bytes expand(const Bytes &g) {
  Bytes o(g.size() * 4);
  for (size_t i = 0; i < g.size(); i++) o[4 * i] = o[4 * i + 1] = o[4 * i + 2] = g[i], o[4 * i + 3] = 255;
  return o;
}
static Bytes ref_stretch(const Bytes &b) {
  Bytes g = ref_gray1(b), s = g;
  size_t n = g.size(), k = n / 64;
  std::nth_element(s.begin(), s.begin() + k, s.end());
  int lo = s[k];
  std::nth_element(s.begin(), s.begin() + (n - 1 - k), s.end());
  int hi = s[n - 1 - k];
  for (auto &v : g) {
    if (lo == hi) continue;
    v = v < lo ? 0 : v > hi ? 255 : (v - lo) * 255 / (hi - lo);
  }
  return expand(g);
}
enum { GRAY, GRAY1, STRETCH, MULTI, NV };
static const char *vname[] = {"grayscale", "rgba_to_grayscale", "grayscale_stretch", "single_to_multichannel"};
static void one(u64 v, u32 w, u32 h, const Bytes &b) {
  size_t n = (size_t)w * h;
  Bytes src = v == MULTI ? Bytes(b.begin(), b.begin() + n) : b;
  In in(src);
  Out o(v == GRAY ? fcv_grayscale(w, h, in.p) : v == GRAY1 ? fcv_rgba_to_grayscale(w, h, in.p) : v == STRETCH ? fcv_grayscale_stretch(w, h, in.p) : fcv_single_to_multichannel(w, h, in.p));
  in.check();
  if (!o) fail("%s failed on a %ux%u image", vname[v], w, h);
  Bytes want = v == GRAY ? expand(ref_gray1(b)) : v == GRAY1 ? ref_gray1(b) : v == STRETCH ? ref_stretch(b) : expand(src);
  Bytes r = o.bytes(want.size());
  expect_equal(r, want, w, v == GRAY1 ? 1 : 4, vname[v]);
  seen(hash(r.data(), r.size(), v * 1000003 + w * 7919 + h));
}
static std::string vn(u64 v) { return vname[v]; }
// gray-level image with given counts: level l[i] repeated c[i] times, order scrambled by a coprime stride
static Bytes counts_image(const std::vector<std::pair<int, u32>> &lc, u32 &n) {
  Bytes g;
  for (auto &p : lc) g.insert(g.end(), p.second, (u8)p.first);
  n = g.size();
  Bytes b(n * 4);
  u64 stride = 7919;
  while (std::__gcd<u64>(stride, n) != 1) stride += 2;
  for (u32 i = 0; i < n; i++) {
    u8 v = g[(u64)i * stride % n];
    b[4 * i] = b[4 * i + 1] = b[4 * i + 2] = v;
    b[4 * i + 3] = (u8)(i * 37);
  }
  return b;
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    // all 2^24 colours, in every function, alpha varying (three alpha patterns)
    add_list(S, "colours", "all 2^24 RGB colours x 3 alpha patterns x grayscale, rgba_to_grayscale, grayscale_stretch", 256ull * 3 * 3,
      [](u64 i) {
        Dec k(i);
        u64 v = k.take(3);
        int am = k.take(3);
        u8 r = k.v;
        Bytes b(65536 * 4);
        for (u32 p = 0; p < 65536; p++) {
          b[4 * p] = r, b[4 * p + 1] = p >> 8, b[4 * p + 2] = p & 255;
          b[4 * p + 3] = am == 0 ? 0 : am == 1 ? 255 : (u8)(p * 31 + r * 7);
        }
        one(v, 256, 256, b);
      },
      [](u64 i) { Dec k(i); auto v = k.take(3); int am = k.take(3); return str("%s on a 256x256 image holding every colour with R=%llu, alpha pattern %d", vname[v], (unsigned long long)k.v, am); });
    // every single pixel gray level alone and every alpha
    add_list(S, "alpha", "every (gray level, alpha) pair as a 1x1 image", 65536ull * 4, [](u64 i) { Dec k(i); u64 v = k.take(4); u8 g = k.take(256), a = k.take(256); one(v, 1, 1, px({g, (g * 7) & 255, (g * 13) & 255, a})); },
      [](u64 i) { Dec k(i); u64 v = k.take(4); int g = k.take(256); return str("%s on one pixel gray %d alpha %d", vname[v], g, (int)k.take(256)); });
    add_dims(S, "dims", "all sizes up to NxN x 4 functions x 5 contents", dims_small(thorough ? 80 : 40), {F_INDEX, F_HASH, F_GRAYHASH, F_SPARSE, F_EXTREME}, 4, 4, one, vn);
    add_dims(S, "thin", "1xN and Nx1 up to N=1200 x 4 functions", dims_thin(thorough ? 4200 : 1200, 1), {F_HASH, F_GRAYHASH}, 4, 4, one, vn);
    add_dims(S, "large", "sizes around powers of two", dims_large(POW2N, thorough ? 300000 : 70000), {F_HASH, F_SPARSE}, 4, 4, one, vn);
    Dims huge = {{4096, 4096}, {4097, 4099}, {65537, 257}, {2, 9000000}};
    if (!thorough) huge = {{4097, 4099}};
    add_dims(S, "huge", "images of more than 2^24 pixels", huge, {F_GRAYHASH, F_SPARSE}, 4, 4, one, vn);
    S.back().chunk = 1;
    S.back().hang_s = 120;
    // stretch: every pair of levels, several counts around the 1/64 rank boundary
    add_list(S, "stretch-pairs", "stretch: every pair of levels x counts around the 1/64 rank (two-level images)", 65536ull * 6,
      [](u64 i) {
        Dec k(i);
        int a = k.take(256), b = k.take(256), m = k.take(6);
        static const u32 C[6][2] = {{1, 1}, {1, 63}, {1, 62}, {63, 1}, {2, 126}, {2, 127}};
        u32 n;
        Bytes im = counts_image({{a, C[m][0]}, {b, C[m][1]}}, n);
        one(STRETCH, n, 1, im);
      },
      [](u64 i) { Dec k(i); int a = k.take(256), b = k.take(256); return str("grayscale_stretch of two levels %d,%d count pattern %d", a, b, (int)k.v); });
    // stretch: outlier counts: lo outliers, low level, middle, high level, hi outliers
    add_list(S, "stretch-ranks", "stretch: all (dark outliers 0..9) x (bright outliers 0..9) x n in 15 sizes around multiples of 64 x 8 level triples", 10ull * 10 * 15 * 8,
      [](u64 i) {
        Dec k(i);
        u32 d = k.take(10), u = k.take(10);
        static const u32 N[15] = {32, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 320, 383, 384, 512};
        static const int L[8][5] = {{0, 50, 100, 200, 255}, {0, 1, 2, 3, 4}, {10, 100, 101, 102, 250}, {0, 0, 128, 255, 255}, {5, 6, 130, 254, 255}, {0, 127, 127, 127, 255}, {100, 100, 100, 100, 101}, {7, 77, 78, 177, 178}};
        u32 n0 = N[k.take(15)];
        const int *l = L[k.take(8)];
        u32 rest = n0 - d - u, n;
        Bytes im = counts_image({{l[0], d}, {l[1], rest / 3}, {l[2], rest - 2 * (rest / 3)}, {l[3], rest / 3}, {l[4], u}}, n);
        one(STRETCH, 1, n, im);
      },
      [](u64 i) { Dec k(i); int d = k.take(10), u = k.take(10); return str("grayscale_stretch with %d dark and %d bright outliers, size/levels #%llu", d, u, (unsigned long long)k.v); });
    // all small multisets of levels
    Dims tiny = {{1, 1}, {2, 1}, {1, 3}, {2, 2}, {5, 1}, {3, 2}};
    if (thorough) tiny.push_back({7, 1});
    add_coded(S, "multiset", "all gray images over seven levels", tiny, {px({0, 0, 0, 9}), px({1, 1, 1, 0}), px({60, 60, 60, 255}), px({127, 127, 127, 1}), px({128, 128, 128, 254}), px({254, 254, 254, 3}), px({255, 255, 255, 128})}, 4, one, vn);
    // failures
    add_list(S, "invalid", "empty or NULL images fail", 4 * 3, [](u64 i) {
      Dec k(i); u64 v = k.take(4); int m = k.take(3);
      In in(Bytes(64, 9));
      u32 w = m == 1 ? 0 : 2, h = m == 2 ? 0 : 2;
      u8 *p = m == 0 ? nullptr : in.p;
      Out o(v == GRAY ? fcv_grayscale(w, h, p) : v == GRAY1 ? fcv_rgba_to_grayscale(w, h, p) : v == STRETCH ? fcv_grayscale_stretch(w, h, p) : fcv_single_to_multichannel(w, h, p));
      compared();
      if (o) fail("%s accepted an empty image", vname[v]); }, [](u64 i) { return str("%s on an empty image (mode %d)", vname[i % 4], (int)(i / 4)); });
  });
}
