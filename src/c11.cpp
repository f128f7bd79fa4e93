#include "space.hpp"
// one-dimensional weights of the source samples for output index o
// kind 0: bilinear, centre aligned; 1: area; 2: area as in known finding "area-shift"
static void weights(u32 n, double f, u32 o, int kind, int &first, std::vector<double> &w) {
  w.clear();
  if (kind == 0) {
    double s = (o + 0.5) / f - 0.5;
    if (s < 0) s = 0;
    if (s > n - 1) s = n - 1;
    first = (int)floor(s);
    double d = s - first;
    w.push_back(1 - d);
    if (first + 1 < (int)n) w.push_back(d);
    return;
  }
  double sh = kind == 2 && f < 1 ? 0.5 : 0;
  double a = o / f - sh, b = (o + 1) / f - sh;
  a = std::max(a, 0.0), b = std::min(b, (double)n);
  first = (int)floor(a);
  if (first >= (int)n) first = n - 1;
  int last = std::min((int)ceil(b), (int)n);
  double tot = 0;
  for (int i = first; i < last; i++) {
    double q = std::min(b, i + 1.0) - std::max(a, (double)i);
    if (q < 0) q = 0;
    w.push_back(q), tot += q;
  }
  if (tot <= 0) { w.assign(1, 1); tot = 1; }
  for (double &q : w) q /= tot;
}
static std::vector<double> resize_ref(u32 w, u32 h, double fx, double fy, u32 W, u32 H, const Bytes &b, int kind) {
  std::vector<double> t((size_t)W * h * 3), o((size_t)W * H * 3);
  std::vector<double> k;
  int first;
  for (u32 x = 0; x < W; x++) {
    weights(w, fx, x, kind, first, k);
    for (u32 y = 0; y < h; y++)
      for (int c = 0; c < 3; c++) {
        double s = 0;
        for (size_t i = 0; i < k.size(); i++) s += k[i] * b[((size_t)y * w + first + i) * 4 + c];
        t[((size_t)y * W + x) * 3 + c] = s;
      }
  }
  for (u32 y = 0; y < H; y++) {
    weights(h, fy, y, kind, first, k);
    for (u32 x = 0; x < W; x++)
      for (int c = 0; c < 3; c++) {
        double s = 0;
        for (size_t i = 0; i < k.size(); i++) s += k[i] * t[(((size_t)first + i) * W + x) * 3 + c];
        o[((size_t)y * W + x) * 3 + c] = s;
      }
  }
  return o;
}
static size_t differs(const std::vector<double> &ref, const Bytes &out, double tol) {
  for (size_t i = 0; i < ref.size(); i++)
    if (!(fabs(ref[i] - out[i / 3 * 4 + i % 3]) <= tol)) return i;
  return ref.size();
}
// expected size; an index product within 1e-10 of an integer counts as that integer
static u32 size_of(u32 n, double f) { return (u32)floor(n * f * (1 + 1e-13) + 1e-13); }
static void resize_case(double fx, double fy, u32 w, u32 h, const Bytes &b, u32 W, u32 H) {
  In in(b);
  u32 ow = 777, oh = 777;
  Out o(fcv_resize(w, h, fx, fy, &ow, &oh, in.p));
  in.check();
  compared();
  if (W == 0 || H == 0) {
    if (o) fail("resize %gx%g of %ux%u did not fail although the result is empty", fx, fy, w, h);
    return;
  }
  if (!o) fail("resize %.17gx%.17g of %ux%u failed, expected %ux%u", fx, fy, w, h, W, H);
  if (ow != W || oh != H) fail("resize %.17gx%.17g of %ux%u gives %ux%u, expected %ux%u", fx, fy, w, h, ow, oh, W, H);
  Bytes out = o.bytes((size_t)W * H * 4);
  seen(hash(out.data(), out.size(), w * 7919 + h));
  for (size_t i = 3; i < out.size(); i += 4)
    if (out[i] != 255) fail("resize %gx%g: alpha of pixel %zu is %u", fx, fy, i / 4, out[i]);
  if (fx == 1 && fy == 1) {
    for (size_t i = 0; i < b.size(); i++)
      if ((i & 3) != 3 && out[i] != b[i]) fail("resize by 1 changed byte %zu from %u to %u", i, b[i], out[i]);
    return;
  }
  int kind = fx >= 1 && fy >= 1 ? 0 : 1;
  auto ref = resize_ref(w, h, fx, fy, W, H, b, kind);
  size_t d = differs(ref, out, 1.01);
  if (d < ref.size()) {
    if (kind == 1) {
      auto kf = resize_ref(w, h, fx, fy, W, H, b, 2);
      if (differs(kf, out, 1.01) == kf.size()) {
        known("area-shift", str("resize %gx%g of %ux%u: pixel (%zu,%zu) is %u, the mean of the area it covers is %.2f", fx, fy, w, h, d / 3 % W, d / 3 / W, out[d / 3 * 4 + d % 3], ref[d]));
        return;
      }
    }
    fail("resize %.10gx%.10g of %ux%u: pixel (%zu,%zu) channel %zu is %u, expected %.3f", fx, fy, w, h, d / 3 % W, d / 3 / W, d % 3, out[d / 3 * 4 + d % 3], ref[d]);
  }
}
static const double FS[] = {0.04, 0.1, 0.2, 0.25, 0.3, 1.0 / 3, 0.4, 0.5, 0.6, 2.0 / 3, 0.75, 0.8, 0.9, 0.99, 1, 1.01, 1.1, 1.25, 4.0 / 3, 1.5, 1.75, 2, 2.3, 2.5, 3, 4};
static const u64 NF = sizeof FS / sizeof *FS;
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    auto run = [](u64 v, u32 w, u32 h, const Bytes &b) { double fx = FS[v % NF], fy = FS[v / NF]; resize_case(fx, fy, w, h, b, size_of(w, fx), size_of(h, fy)); };
    auto vn = [](u64 v) { return str("resize %gx%g", FS[v % NF], FS[v / NF]); };
    add_dims(S, "factors", "all pairs of 26 factors x all sizes up to NxN x 2 contents", dims_small(thorough ? 16 : 9), {F_HASH, F_EXTREME}, 4, NF * NF, run, vn);
    add_dims(S, "factors-large", "all pairs of 26 factors x larger sizes", {{31, 17}, {16, 64}, {65, 33}, {100, 3}, {2, 130}, {1, 300}, {300, 1}}, {F_HASH, F_SPARSE}, 4, NF * NF, run, vn);
    S.back().chunk = 40;
    static const double FX[] = {0.0039, 0.008, 0.0125, 0.015, 0.02, 0.05, 1, 5, 7.5, 8, 10, 12.25, 16, 20, 33};
    static const u32 DX[][2] = {{300, 260}, {5, 4}, {130, 20}, {20, 300}, {2, 2}, {3, 515}};
    add_list(S, "extreme", "all pairs of 15 factors from 1/256 to 33 x 6 sizes (results up to 200000 pixels)", 15 * 15 * 6,
      [](u64 i) {
        Dec k(i);
        double fx = FX[k.take(15)], fy = FX[k.take(15)];
        u32 w = DX[k.v][0], h = DX[k.v][1], W = size_of(w, fx), H = size_of(h, fy);
        if ((u64)W * H > 200000 || (u64)W * h > 600000) return;
        resize_case(fx, fy, w, h, fill(F_HASH, w, h, 4, i & 1), W, H);
      },
      [](u64 i) { Dec k(i); double fx = FX[k.take(15)], fy = FX[k.take(15)]; return str("resize %gx%g of %ux%u", fx, fy, DX[k.v][0], DX[k.v][1]); });
    S.back().chunk = 20;
    S.back().hang_s = 120;
    static u32 M;
    M = thorough ? 80 : 44;
    add_list(S, "sizes", "every source length x every target length 1..N, both axes, exact size by division as the CLI computes it", (u64)M * M * 4,
      [](u64 i) {
        Dec k(i);
        int m = k.take(4);
        u32 n = 1 + k.take(M), N = 1 + k.take(M);
        double f = (double)N / n, g = m & 2 ? 1.0 : f;
        u32 w = m & 1 ? 3 : n, h = m & 1 ? n : 3;
        double fx = m & 1 ? (m & 2 ? 1.0 : 2.0) : f, fy = m & 1 ? f : (m & 2 ? 1.0 : 0.5);
        (void)g;
        resize_case(fx, fy, w, h, fill(F_HASH, w, h, 4, i & 3), size_of(w, fx), size_of(h, fy));
        u32 W = m & 1 ? 0 : N;
        if (W && size_of(w, fx) != N) fail("harness: %u*%u/%u", w, N, n);
      },
      [](u64 i) { Dec k(i); int m = k.take(4); int n = 1 + k.take(M); return str("resize length %d to %d, axis/mode %d", n, (int)(1 + k.v), m); });
    // result sizes only: exact rational expectation
    add_list(S, "percent", "every percentage 1..300 x every length 1..260: exact output length", 300ull * 260,
      [](u64 i) {
        Dec k(i);
        u32 p = 1 + k.take(300), n = 1 + k.take(260);
        u64 want = (u64)n * p / 100;
        Bytes b = fill(F_HASH, n, 1, 4, 0);
        double f = p / 100.0;
        resize_case(f, 1.0, n, 1, b, want, 1);
      },
      [](u64 i) { return str("resize %llu%% of a line of %llu pixels", (unsigned long long)(1 + i % 300), (unsigned long long)(1 + i / 300)); });
    static const u32 big[] = {1, 2, 3, 49, 100, 127, 255, 256, 257, 640, 1000, 1023, 1080, 1920, 2047, 4096, 4097, 10000, 65535, 65537, 100003};
    add_list(S, "targets", "21 lengths to 21 target lengths by exact division, 1 pixel thick, both axes", 21ull * 21 * 2,
      [](u64 i) {
        Dec k(i);
        int ax = k.take(2);
        u32 n = big[k.take(21)], N = big[k.take(21)];
        Bytes b = fill(F_SPARSE, n, 1, 4, 1);
        double f = (double)N / n;
        if (ax) resize_case(1.0, f, 1, n, b, 1, N);
        else resize_case(f, 1.0, n, 1, b, N, 1);
      },
      [](u64 i) { Dec k(i); int ax = k.take(2); u32 n = big[k.take(21)]; return str("resize a %s line of %u pixels to %u", ax ? "vertical" : "horizontal", n, big[k.v]); });
    add_list(S, "flat", "flat images of every level x all pairs of 26 factors", 256ull * NF * NF,
      [](u64 i) {
        Dec k(i);
        u8 v = k.take(256);
        double fx = FS[k.take(NF)], fy = FS[k.take(NF)];
        u32 w = 7, h = 5;
        Bytes b(w * h * 4);
        for (size_t j = 0; j < b.size(); j++) b[j] = (j & 3) == 3 ? j * 11 : (u8)(v + 5 * (j & 3));
        In in(b);
        u32 ow, oh;
        Out o(fcv_resize(w, h, fx, fy, &ow, &oh, in.p));
        compared();
        if (!o) { if (size_of(w, fx) && size_of(h, fy)) fail("resize failed"); return; }
        for (size_t j = 0; j < (size_t)ow * oh * 4; j++) {
          u8 want = (j & 3) == 3 ? 255 : (u8)(v + 5 * (j & 3));
          if (o.p[j] != want) fail("resize %gx%g of a flat image: pixel %zu channel %zu is %u, expected %u", fx, fy, j / 4, j & 3, o.p[j], want);
        }
      },
      [](u64 i) { Dec k(i); int v = k.take(256); double fx = FS[k.take(NF)]; return str("resize %gx%g of a flat 7x5 image of level %d", fx, FS[k.v], v); });
    static const double FW[][2] = {{1, 1}, {0.5, 0.34}, {1.3, 1.01}, {0.9, 1.2}, {1.1, 0.7}};
    add_dims(S, "wide", WIDE_WHAT, WIDE, {F_HASH}, 4, 5, [](u64 v, u32 w, u32 h, const Bytes &b) { resize_case(FW[v][0], FW[v][1], w, h, b, size_of(w, FW[v][0]), size_of(h, FW[v][1])); }, [](u64 v) { return str("resize %gx%g", FW[v][0], FW[v][1]); });
    S.back().chunk = 1;
    S.back().hang_s = 120;
    static const u32 HL[][2] = {{16777217, 1}, {1, 16777217}, {8388609, 1}, {1, 8388609}};
    add_list(S, "huge", "lines of more than 2^23 and 2^24 pixels by 1 and (the shorter) 2", 6,
      [](u64 i) {
        auto &z = HL[i < 4 ? i : i - 2];
        double fx = i >= 4 && z[0] > 1 ? 2 : 1, fy = i >= 4 && z[1] > 1 ? 2 : 1;
        resize_case(fx, fy, z[0], z[1], fill(F_HASH, z[0], z[1], 4), size_of(z[0], fx), size_of(z[1], fy));
      },
      [](u64 i) { auto &z = HL[i < 4 ? i : i - 2]; return str("resize of %ux%u by %d", z[0], z[1], i < 4 ? 1 : 2); });
    S.back().chunk = 1, S.back().hang_s = 300;
    std::vector<Bytes> al = {px({0, 255, 100, 0}), px({255, 0, 101, 255})};
    static const double FI[][2] = {{0.5, 0.5}, {2, 2}, {0.5, 2}, {2, 0.5}, {1.5, 1}, {1, 1}, {0.34, 0.34}, {3, 1}, {1, 0.67}, {1, 2}};
    add_coded(S, "images", "all binary images x 10 factor pairs", {{2, 2}, {3, 2}, {2, 3}, {3, 3}, {5, 2}, {1, 8}}, al, 10, [](u64 v, u32 w, u32 h, const Bytes &b) { resize_case(FI[v][0], FI[v][1], w, h, b, size_of(w, FI[v][0]), size_of(h, FI[v][1])); }, [](u64 v) { return str("resize %gx%g", FI[v][0], FI[v][1]); });
    static const double BAD[] = {0, -1, -0.5, -1e-300, NAN, INFINITY, -INFINITY, 1e-300, 1e-9, 1e300, 4.4e9};
    add_list(S, "invalid", "non-positive, non-finite, vanishing or absurd factors fail", 11 * 3 + 5,
      [](u64 i) {
        In in(Bytes(6 * 4, 3));
        u32 ow = 5, oh = 5;
        compared();
        if (i < 33) {
          double bad = BAD[i % 11], fx = i / 11 == 1 ? 1.0 : bad, fy = i / 11 == 0 ? 1.0 : bad;
          Out o(fcv_resize(3, 2, fx, fy, &ow, &oh, in.p));
          if (o) fail("resize %gx%g did not fail", fx, fy);
        }
        else {
          int m = i - 33;
          Out o(fcv_resize(m == 0 ? 0 : 3, m == 1 ? 0 : 2, 1, 1, m == 2 ? nullptr : &ow, m == 3 ? nullptr : &oh, m == 4 ? nullptr : in.p));
          if (o) fail("resize accepted invalid arguments");
        }
        in.check();
      },
      [](u64 i) { return i < 33 ? str("resize by %g (axis mode %d)", BAD[i % 11], (int)(i / 11)) : str("resize with invalid pointers/sizes %d", (int)i - 33); });
  });
}
