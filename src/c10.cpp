#include "space.hpp"
// Real-valued separable Gaussian: horizontal pass, then vertical pass.
// mode 0: the specified kernel; mode 1: the kernel of known finding
// "fractional-radius" (sample offsets k are weighted as trunc(k + floor(r) - r)).
static std::vector<double> kernel(double r, int mode) {
  int R = (int)r;
  std::vector<double> k(2 * R + 1);
  double sigma = r / 3.0;
  for (int i = -R; i <= R; i++) {
    int x = mode ? (int)(i + R - r) : i;
    k[i + R] = R == 0 ? 1 : exp(-(double)x * x / (2 * sigma * sigma));
  }
  return k;
}
struct Ref { std::vector<double> v; };
// exact weighted mean, both passes without rounding
static std::vector<double> blur_ref(u32 w, u32 h, double r, const Bytes &b, int mode) {
  auto k = kernel(r, mode);
  int R = (int)r;
  std::vector<double> t((size_t)w * h * 3), o(t.size());
  for (u32 y = 0; y < h; y++)
    for (u32 x = 0; x < w; x++) {
      double s[3] = {0, 0, 0}, ws = 0;
      int lo = std::max(-R, -(int)x), hi = std::min(R, (int)(w - 1 - x));
      for (int i = lo; i <= hi; i++) {
        double q = k[i + R];
        ws += q;
        const u8 *p = &b[((size_t)y * w + x + i) * 4];
        for (int c = 0; c < 3; c++) s[c] += q * p[c];
      }
      for (int c = 0; c < 3; c++) t[((size_t)y * w + x) * 3 + c] = s[c] / ws;
    }
  for (u32 y = 0; y < h; y++)
    for (u32 x = 0; x < w; x++) {
      double s[3] = {0, 0, 0}, ws = 0;
      int lo = std::max(-R, -(int)y), hi = std::min(R, (int)(h - 1 - y));
      for (int i = lo; i <= hi; i++) {
        double q = k[i + R];
        ws += q;
        for (int c = 0; c < 3; c++) s[c] += q * t[(((size_t)y + i) * w + x) * 3 + c];
      }
      for (int c = 0; c < 3; c++) o[((size_t)y * w + x) * 3 + c] = s[c] / ws;
    }
  return o;
}
static size_t differs(const std::vector<double> &ref, const Bytes &out, double tol) {
  for (size_t i = 0; i < ref.size(); i++)
    if (fabs(ref[i] - out[i / 3 * 4 + i % 3]) > tol) return i;
  return ref.size();
}
static void blur_case(double r, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(fcv_apply_gaussian_blur(w, h, r, in.p));
  in.check();
  if (!o) fail("blur %g failed on a %ux%u image", r, w, h);
  Bytes out = o.bytes(b.size());
  compared();
  seen(hash(out.data(), out.size(), w * 7919 + h));
  if (r == 0) {
    expect_equal(out, b, w, 4, "blur 0");
    return;
  }
  for (size_t i = 3; i < out.size(); i += 4)
    if (out[i] != 255) fail("blur %g: alpha of pixel %zu is %u", r, i / 4, out[i]);
  // range: never outside the range of the values in the window
  // (checked through the reference: mean within tolerance, and exact for flat windows)
  const double tol = 2.02; // one level per pass
  auto ref = blur_ref(w, h, r, b, 0);
  size_t d = differs(ref, out, tol);
  if (d < ref.size()) {
    auto kf = blur_ref(w, h, r, b, 1);
    size_t d1 = differs(kf, out, tol);
    if (r != floor(r) && d1 == ref.size()) {
      known("fractional-radius", str("blur %g on %ux%u: pixel (%zu,%zu) is %u, the symmetric Gaussian mean is %.2f", r, w, h, d / 3 % w, d / 3 / w, out[d / 3 * 4 + d % 3], ref[d]));
      ref = kf;
    }
    else
      fail("blur %g: pixel (%zu,%zu) channel %zu is %u, the Gaussian-weighted mean is %.3f", r, d / 3 % w, d / 3 / w, d % 3, out[d / 3 * 4 + d % 3], ref[d]);
  }
  // locality and range, exactly: min/max over the square window
  int R = (int)r;
  if ((u64)w * h <= 400)
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++)
        for (int c = 0; c < 3; c++) {
          int lo = 255, hi = 0;
          for (int yy = std::max(0, (int)y - R); yy <= std::min((int)h - 1, (int)y + R); yy++)
            for (int xx = std::max(0, (int)x - R); xx <= std::min((int)w - 1, (int)x + R); xx++) {
              int v = b[((size_t)yy * w + xx) * 4 + c];
              lo = std::min(lo, v), hi = std::max(hi, v);
            }
          int v = out[((size_t)y * w + x) * 4 + c];
          // truncation after each pass may lose at most one level per pass
          if (v > hi || v < lo - 2) fail("blur %g: pixel (%u,%u) channel %d is %d, outside the window's range %d..%d", r, x, y, c, v, lo, hi);
        }
}
// responses of symmetric inputs stay symmetric: mirrored input gives mirrored output (+- 2)
static void sym_case(double r, u32 w, u32 h, const Bytes &b, int sym) {
  Bytes m(b.size());
  u32 mw = sym == 2 ? h : w, mh = sym == 2 ? w : h;
  auto map = [&](u32 x, u32 y) -> size_t { return sym == 0 ? (size_t)y * w + (w - 1 - x) : sym == 1 ? (size_t)(h - 1 - y) * w + x : (size_t)x * h + y; };
  for (u32 y = 0; y < h; y++)
    for (u32 x = 0; x < w; x++)
      for (int c = 0; c < 4; c++) m[map(x, y) * 4 + c] = b[((size_t)y * w + x) * 4 + c];
  In i1(b), i2(m);
  Out a(fcv_apply_gaussian_blur(w, h, r, i1.p)), q(fcv_apply_gaussian_blur(mw, mh, r, i2.p));
  if (!a || !q) fail("blur %g failed", r);
  compared();
  for (u32 y = 0; y < h; y++)
    for (u32 x = 0; x < w; x++)
      for (int c = 0; c < 3; c++) {
        int d = a.p[((size_t)y * w + x) * 4 + c] - q.p[map(x, y) * 4 + c];
        if (abs(d) > (sym == 2 ? 2 : 1)) fail("blur %g: %s input changes the result at (%u,%u) channel %d by %d", r, sym == 0 ? "mirroring" : sym == 1 ? "flipping" : "transposing", x, y, c, d);
      }
}
static std::vector<double> RS;
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    RS = {0, 1e-300, 1e-40, 1e-20, 1e-6, 0.01, 0.2, 0.5, 0.8, 0.999, 1, 1.2, 1.5, 1.9, 2, 2.5, 2.99, 3, 3.3, 4, 4.6, 5, 6, 7, 7.5, 8, 9, 10, 11.1, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63.5, 64, 100, 127, 128, 255, 256, 300.5, 500, 512, 999, 999.9, 1000};
    auto vn = [](u64 v) { return str("blur %g", RS[v]); };
    auto run = [](u64 v, u32 w, u32 h, const Bytes &b) { blur_case(RS[v], w, h, b); };
    add_dims(S, "dims", "all sizes up to NxN x 52 radii x 3 contents", dims_small(thorough ? 26 : 13), {F_HASH, F_EXTREME, F_SPARSE}, 4, RS.size(), run, vn);
    add_dims(S, "thin", "1xN and Nx1 up to 64 x 52 radii", dims_thin(thorough ? 300 : 64, 1), {F_HASH, F_EXTREME}, 4, RS.size(), run, vn);
    add_dims(S, "long", "long lines x 52 radii", thorough ? Dims{{2100, 1}, {1, 2100}, {1001, 2}, {2, 1001}, {4097, 1}, {1, 4097}, {300, 300}} : Dims{{2100, 1}, {1, 2100}, {100, 90}}, {F_EXTREME, F_SPARSE}, 4, RS.size(), run, vn);
    S.back().chunk = 2;
    S.back().hang_s = 120;
    add_dims(S, "wide", WIDE_WHAT, WIDE, {F_HASH}, 4, 3, [](u64 v, u32 w, u32 h, const Bytes &b) { blur_case(v == 0 ? 1 : v == 1 ? 2.5 : 7, w, h, b); }, [](u64 v) { return str("blur %g", v == 0 ? 1 : v == 1 ? 2.5 : 7); });
    S.back().chunk = 1;
    S.back().hang_s = 120;
    // every integer radius on impulse images: the complete kernel is observed
    add_list(S, "kernel", "every integer radius 0..1000 x step edges and impulse combs, horizontal and vertical", 1001ull * 4,
      [](u64 i) {
        Dec k(i);
        int m = k.take(4);
        int r = k.take(1001);
        u32 n = std::min(2 * r + 3, 2003), w = m & 1 ? 1 : n, h = m & 1 ? n : 1;
        Bytes b((size_t)n * 4);
        for (u32 j = 0; j < n; j++) {
          u8 v = m & 2 ? (j < n / 2 ? 255 : 0) : (j % 5 == 2 ? 255 : 0);
          b[4 * j] = v, b[4 * j + 1] = 255 - v, b[4 * j + 2] = j == n / 2 ? 255 : 0, b[4 * j + 3] = j;
        }
        blur_case(r, w, h, b);
      },
      [](u64 i) { return str("blur %llu on a %s %s line", (unsigned long long)(i / 4), i & 1 ? "vertical" : "horizontal", i & 2 ? "step edge" : "comb"); });
    S.back().chunk = 12;
    // every flat level stays flat
    add_list(S, "flat", "every gray level x 52 radii on flat 9x7 and 1x1 images", 256ull * RS.size() * 2,
      [](u64 i) {
        Dec k(i);
        u8 v = k.take(256);
        double r = RS[k.take(RS.size())];
        u32 w = k.v ? 1 : 9, h = k.v ? 1 : 7;
        Bytes b((size_t)w * h * 4);
        for (size_t j = 0; j < b.size(); j++) b[j] = (j & 3) == 3 ? (u8)j : (u8)(v + (j & 3));
        In in(b);
        Out o(fcv_apply_gaussian_blur(w, h, r, in.p));
        if (!o) fail("blur %g failed", r);
        compared();
        for (size_t j = 0; j < b.size(); j++)
          if ((j & 3) != 3 && abs((int)o.p[j] - (int)b[j]) > 2) fail("blur %g of a flat image: value %u became %u", r, b[j], o.p[j]);
      },
      [](u64 i) { Dec k(i); int v = k.take(256); return str("blur %g of a flat image of level %d", RS[k.take(RS.size())], v); });
    std::vector<Bytes> al = {px({0, 255, 10, 0}), px({255, 0, 20, 200})};
    static const double RI[] = {1, 2, 3, 1.5, 0.4};
    add_coded(S, "images", "all binary images x radii 1,2,3,1.5,0.4", {{2, 2}, {3, 2}, {3, 3}, {6, 1}, {1, 9}, {2, 5}}, al, 5, [](u64 v, u32 w, u32 h, const Bytes &b) { blur_case(RI[v], w, h, b); }, [](u64 v) { return str("blur %g", RI[v]); });
    // one impulse at every position of every size
    add_list(S, "impulse", "one bright pixel at every position of every size up to 10x10 x radii 1..8", 10ull * 10 * 8,
      [](u64 i) {
        Dec k(i);
        u32 w = 1 + k.take(10), h = 1 + k.take(10);
        int r = 1 + k.take(8);
        for (u32 p = 0; p < w * h; p++) {
          Bytes b((size_t)w * h * 4, 0);
          b[4 * p] = 255, b[4 * p + 1] = 128, b[4 * p + 2] = 255, b[4 * p + 3] = 7;
          blur_case(r, w, h, b);
        }
      },
      [](u64 i) { Dec k(i); int w = 1 + k.take(10), h = 1 + k.take(10); return str("blur %d of impulses on %dx%d", (int)(1 + k.v), w, h); });
    static const double RY[] = {1, 2, 3, 5, 8, 20};
    add_list(S, "symmetry", "mirror/flip/transpose commute with blur: all sizes up to 12x12 x 6 integer radii x 2 contents", 144ull * 6 * 2 * 3,
      [](u64 i) {
        Dec k(i);
        int sym = k.take(3);
        double r = RY[k.take(6)];
        int f = k.take(2) ? F_HASH : F_EXTREME;
        u32 w = 1 + k.take(12), h = 1 + k.take(12);
        sym_case(r, w, h, fill(f, w, h, 4, 3), sym);
      },
      [](u64 i) { Dec k(i); int s = k.take(3); double r = RY[k.take(6)]; k.take(2); int w = 1 + k.take(12); return str("blur %g, symmetry %d on %dx%d", r, s, w, (int)(1 + k.v)); });
    add_list(S, "locality", "pixels beyond floor(r) have no influence at all: 52 radii and every integer radius up to 120 x 3 base levels x 2 axes x both ends", (RS.size() + 120) * 3 * 4,
      [](u64 i) {
        Dec k(i);
        int m = k.take(4), lv = k.take(3);
        double r = k.v < RS.size() ? RS[k.v] : k.v - RS.size() + 1;
        int R = (int)r;
        u32 n = R + 1 + 40, w = m & 1 ? 1 : n, h = m & 1 ? n : 1;
        static const u8 A[3] = {255, 1, 128}, B[3] = {0, 255, 255};
        Bytes a((size_t)n * 4, A[lv]), b = a;
        for (u32 j = R + 1; j < n; j++)
          for (int c = 0; c < 4; c++) b[(m & 2 ? n - 1 - j : j) * 4 + c] = B[lv];
        In ia(a), ib(b);
        Out oa(fcv_apply_gaussian_blur(w, h, r, ia.p)), ob(fcv_apply_gaussian_blur(w, h, r, ib.p));
        if (!oa || !ob) fail("blur %g failed", r);
        compared();
        size_t q = (m & 2 ? n - 1 : 0) * 4;
        if (memcmp(oa.p + q, ob.p + q, 3)) fail("blur %g: pixels %d away change the result (%u -> %u)", r, R + 1, oa.p[q], ob.p[q]);
      },
      [](u64 i) { Dec k(i); int m = k.take(4), lv = k.take(3); return str("blur %g locality, axis/end %d, levels #%d", k.v < RS.size() ? RS[k.v] : k.v - RS.size() + 1.0, m, lv); });
    static const double BAD[] = {-1, -0.5, -1e-300, -1e300, NAN, INFINITY, -INFINITY, 1000.0001, 1001, 1e9, 1e300};
    add_list(S, "invalid", "invalid radii and empty images fail", 11 + 3,
      [](u64 i) {
        In in(Bytes(6 * 4, 3));
        compared();
        if (i < 11) {
          Out o(fcv_apply_gaussian_blur(3, 2, BAD[i], in.p));
          if (o) fail("blur %g did not fail", BAD[i]);
        }
        else {
          Out o(fcv_apply_gaussian_blur(i == 11 ? 0 : 3, i == 12 ? 0 : 2, 2, i == 13 ? nullptr : in.p));
          if (o) fail("blur accepted an empty image");
        }
        in.check();
      },
      [](u64 i) { return i < 11 ? str("blur %g", BAD[i]) : str("blur of empty image, mode %d", (int)i - 11); });
  });
}
