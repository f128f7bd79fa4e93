#include "space.hpp"
// ---- corner response: exact integer structure tensor
struct Ref {
  std::vector<long double> w, q;
  long double mw = 0, mq = 0;
};
static Ref reference(u32 W, u32 H, const Bytes &g, double sigma) {
  size_t n = (size_t)W * H;
  double k3 = 3 * sigma;
  i64 k = k3 < 0 ? 1 : k3 > 1e8 ? 100000001 : ((i64)k3 | 1);
  if (k < 3) k = 3;
  i64 hk = k / 2;
  std::vector<i64> xx((size_t)(W + 1) * (H + 1)), xy(xx), yy(xx); // integral images
  auto at = [&](u32 x, u32 y) { return (i64)g[(size_t)y * W + x]; };
  for (u32 y = 0; y < H; y++)
    for (u32 x = 0; x < W; x++) {
      i64 gx = 0, gy = 0;
      if (x && y && x + 1 < W && y + 1 < H) {
        gx = at(x + 1, y - 1) + 2 * at(x + 1, y) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x - 1, y) - at(x - 1, y + 1);
        gy = at(x - 1, y + 1) + 2 * at(x, y + 1) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x, y - 1) - at(x + 1, y - 1);
      }
      size_t a = (size_t)(y + 1) * (W + 1) + x + 1, b = a - 1, c = a - (W + 1), d = c - 1;
      xx[a] = xx[b] + xx[c] - xx[d] + gx * gx;
      xy[a] = xy[b] + xy[c] - xy[d] + gx * gy;
      yy[a] = yy[b] + yy[c] - yy[d] + gy * gy;
    }
  Ref r;
  r.w.assign(n, 0), r.q.assign(n, 0);
  for (i64 y = hk; y + hk < (i64)H; y++)
    for (i64 x = hk; x + hk < (i64)W; x++) {
      size_t a = (size_t)(y + hk + 1) * (W + 1) + x + hk + 1, b = (size_t)(y + hk + 1) * (W + 1) + x - hk, c = (size_t)(y - hk) * (W + 1) + x + hk + 1, d = (size_t)(y - hk) * (W + 1) + x - hk;
      i64 sxx = xx[a] - xx[b] - xx[c] + xx[d], sxy = xy[a] - xy[b] - xy[c] + xy[d], syy = yy[a] - yy[b] - yy[c] + yy[d];
      __int128 det = (__int128)sxx * syy - (__int128)sxy * sxy;
      i64 tr = sxx + syy;
      if (tr == 0) continue;
      size_t i = (size_t)y * W + x;
      r.w[i] = (long double)det / tr;
      r.q[i] = 4 * (long double)det / tr / tr;
      r.mw = std::max(r.mw, r.w[i]);
      r.mq = std::max(r.mq, r.q[i]);
    }
  return r;
}
static void foerstner(u32 W, u32 H, const Bytes &g, double sigma) {
  In in(g);
  Out o(fcv_foerstner_corner(W, H, in.p, sigma));
  in.check();
  if (!o) fail("no corner response for a %ux%u image, sigma %g", W, H, sigma);
  Ref r = reference(W, H, g, sigma);
  // a response below 1e-10 (relative to the gradient strength) may count as none
  for (size_t i = 0; i < r.w.size(); i++) if (r.q[i] > 0 && r.q[i] < 1e-10L) return;
  compared();
  for (size_t i = 0; i < r.w.size(); i++) {
    double w = r.mw > 0 ? (double)(255 * r.w[i] / r.mw) : 0, q = r.mq > 0 ? (double)(255 * r.q[i] / r.mq) : 0;
    if (fabs(o.p[2 * i] - w) > (r.w[i] == 0 ? 1e-3 : 1.001)) fail("sigma %g: w at (%zu,%zu) is %u, expected %.3f", sigma, i % W, i / W, o.p[2 * i], w);
    if (fabs(o.p[2 * i + 1] - q) > (r.q[i] == 0 ? 1e-3 : 1.001)) fail("sigma %g: q at (%zu,%zu) is %u, expected %.3f", sigma, i % W, i / W, o.p[2 * i + 1], q);
  }
  seen(hash(o.p, r.w.size() * 2, W * 7919 + H));
}
static const std::vector<double> SIG = {1.5, 0, 0.4, 1, 2, 2.4, 3, 5, -3, 9};

// ---- peaks
static void peaks(u32 W, u32 H, const Bytes &d, u32 dist, double acc, double rnd) {
  In in(d);
  CornerPeaks *p = fcv_corner_peaks(W, H, in.p, dist, acc, rnd);
  calls();
  struct Free { CornerPeaks *p; ~Free() { if (p) { free(p->points); free(p); } } } fr{p};
  in.check();
  if (!p) fail("no peak list");
  struct C { u32 x, y; u8 w; bool kept; };
  std::vector<C> c;
  for (u32 y = 1; y + 1 < H; y++)
    for (u32 x = 1; x + 1 < W; x++) {
      size_t i = ((size_t)y * W + x) * 2;
      if (!(d[i + 1] / 255.0 > rnd) || !(d[i] / 255.0 > acc) || d[i] == 0) continue;
      bool mx = true;
      for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) mx &= d[(((size_t)y + dy) * W + x + dx) * 2] <= d[i];
      if (mx) c.push_back({x, y, d[i], false});
    }
  compared();
  size_t k = 0;
  for (u32 i = 0; i < p->count; i++) {
    while (k < c.size() && !(p->points[i].x == c[k].x && p->points[i].y == c[k].y)) k++;
    if (k == c.size()) fail("peak %u (%g,%g) is not an admissible maximum in row order (%zu of them)", i, p->points[i].x, p->points[i].y, c.size());
    c[k++].kept = true;
  }
  auto close = [&](const C &a, const C &b) { double dx = (double)a.x - b.x, dy = (double)a.y - b.y; return sqrt(dx * dx + dy * dy) < dist; };
  // covered: kept, or close to a covered maximum at least as strong
  std::vector<char> cov(c.size());
  for (size_t i = 0; i < c.size(); i++) cov[i] = c[i].kept;
  for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++)
    if (c[i].kept && c[j].kept && close(c[i], c[j])) fail("peaks (%u,%u) and (%u,%u) are closer than %u", c[i].x, c[i].y, c[j].x, c[j].y, dist);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < c.size(); i++) if (!cov[i]) for (size_t j = 0; j < c.size(); j++)
      if (i != j && cov[j] && c[j].w >= c[i].w && close(c[i], c[j])) { cov[i] = 1; ch = true; break; }
  }
  for (size_t i = 0; i < c.size(); i++) if (!cov[i]) fail("maximum (%u,%u) of strength %u is missing although none at least as strong is closer than %u", c[i].x, c[i].y, c[i].w, dist);
  u64 h = hash(&p->count, 4);
  for (u32 i = 0; i < p->count; i++) h = hash(&p->points[i], sizeof(Point2D), h);
  seen(h);
}
static Bytes two(const Bytes &w, const Bytes &q) {
  Bytes b;
  for (size_t i = 0; i < w.size(); i++) b.push_back(w[i]), b.push_back(q[i]);
  return b;
}
struct PP { u32 dist; double acc, rnd; };
static const std::vector<PP> PPS = {{2, 0.1, 0.1}, {0, 0, 0}, {1, 0, 0}, {3, 0.01, 0.01}, {16, 0.4, 0.2}, {4, 0.5, 0}, {5, 0, 0.5}, {2, -1, -1}, {4294967295u, 0.1, 0.1}, {2, 1.0, 0}, {2, 0, 1.0}, {2, 0.99, 0.5}, {7, 100 / 255.0, 50 / 255.0}};

int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    auto run = [](u64 v, u32 w, u32 h, const Bytes &b) { foerstner(w, h, b, SIG[v]); };
    auto vn = [](u64 v) { return str("corner response, sigma %g", SIG[v]); };
    std::vector<Bytes> two_ = {px({0}), px({255})}, three = {px({0}), px({100}), px({255})};
    add_coded(S, "bin", "all binary images", thorough ? Dims{{3, 3}, {4, 4}, {5, 4}, {4, 5}, {5, 3}, {3, 6}} : Dims{{3, 3}, {4, 4}, {5, 3}, {3, 5}, {1, 5}, {5, 1}, {2, 4}}, two_, 3, run, vn);
    add_coded(S, "tri", "all images over three values", {{3, 3}, {4, 2}}, three, 2, run, vn);
    add_dims(S, "dims", "all sizes up to NxN x 6 contents x 10 scales", dims_small(thorough ? 40 : 24), {F_HASH, F_EXTREME, F_SPARSE, F_GRAD, F_CHECK, F_INDEX}, 1, SIG.size(), run, vn);
    add_dims(S, "large", "sizes around powers of two", dims_large(POW2N, thorough ? 300000 : 70000), {F_HASH, F_SPARSE}, 1, 1, run, vn);
    add_dims(S, "wide", WIDE_WHAT, WIDE, {F_SPARSE}, 1, 2, run, vn);
    S.back().chunk = 1, S.back().hang_s = 120;
    add_list(S, "scale", "every window size 3..41 on 5 sizes", 40 * 5, [](u64 i) {
        static const u32 D[5][2] = {{41, 41}, {40, 50}, {64, 33}, {20, 60}, {100, 90}};
        Dec k(i); double s = (k.take(40) + 0.5) / 3; u32 w = D[k.v][0], h = D[k.v][1];
        foerstner(w, h, fill(F_SPARSE, w, h, 1), s); },
      [](u64 i) { return str("window %d on size #%d", (int)(i % 40), (int)(i / 40)); });
    add_list(S, "huge", "huge scales: no response, no crash; non-finite: failure", 9, [](u64 i) {
        static const double X[] = {1e3, 1e8, 7e8, 1.5e9, 1e18, 1e308, NAN, INFINITY, -INFINITY};
        Bytes b = fill(F_HASH, 9, 7, 1);
        if (i < 6) { foerstner(9, 7, b, X[i]); return; }
        In in(b); Out o(fcv_foerstner_corner(9, 7, in.p, X[i])); compared(); in.check();
        if (o) fail("sigma %g accepted", X[i]); },
      [](u64 i) { return str("extreme sigma #%d", (int)i); });
    add_list(S, "rects", "one bright rectangle at every position and size of a 24x20 image (step 3)", 8ull * 7 * 8 * 7, [](u64 i) {
        Dec k(i); u32 x0 = k.take(8) * 3, y0 = k.take(7) * 3, w = 1 + k.take(8) * 3, h = 1 + k.take(7) * 3;
        Bytes b(24 * 20, 20);
        for (u32 y = y0; y < std::min(20u, y0 + h); y++) for (u32 x = x0; x < std::min(24u, x0 + w); x++) b[y * 24 + x] = 230;
        foerstner(24, 20, b, 1.5); },
      [](u64 i) { return str("rectangle #%llu", (unsigned long long)i); });

    auto runp = [](u64 v, u32 w, u32 h, const Bytes &b) { peaks(w, h, b, PPS[v].dist, PPS[v].acc, PPS[v].rnd); };
    auto vnp = [](u64 v) { return str("peaks, distance %u, thresholds %g %g", PPS[v].dist, PPS[v].acc, PPS[v].rnd); };
    std::vector<Bytes> al = {px({0, 255}), px({100, 50}), px({200, 255})};
    add_coded(S, "pk", "all response images over three values", thorough ? Dims{{3, 3}, {4, 3}, {3, 4}, {5, 3}} : Dims{{3, 3}, {4, 3}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {2, 2}}, al, PPS.size(), runp, vnp);
    std::vector<Bytes> al2 = {px({0, 255}), px({255, 51})};
    add_coded(S, "pkbin", "all two-valued response images", thorough ? Dims{{4, 4}, {5, 4}, {4, 5}, {3, 7}} : Dims{{4, 4}, {3, 5}, {5, 3}, {2, 6}, {6, 2}}, al2, 4, runp, vnp);
    // interior-only patterns: strengths of 9 spaced maxima
    add_list(S, "spaced", "every assignment of 4 strengths to 7 isolated maxima of a 13x9 image x 6 distances", ipow(4, 7) * 6, [](u64 i) {
        static const u32 P[7][2] = {{2, 2}, {5, 1}, {9, 2}, {3, 5}, {7, 5}, {11, 6}, {1, 7}};
        static const u32 D[6] = {3, 4, 5, 6, 8, 20};
        static const u8 L[4] = {0, 60, 61, 255};
        Dec k(i); u32 dist = D[k.take(6)];
        Bytes b(13 * 9 * 2);
        for (u32 j = 0; j < 13 * 9; j++) b[2 * j + 1] = 200;
        for (auto &p : P) b[(p[1] * 13 + p[0]) * 2] = L[k.take(4)];
        peaks(13, 9, b, dist, 0.05, 0.1); },
      [](u64 i) { return str("spaced maxima #%llu", (unsigned long long)i); });
    add_list(S, "pairs", "two maxima at every offset, every distance 0..14, stronger first or second or equal", 15ull * 13 * 13 * 3, [](u64 i) {
        Dec k(i); u32 dist = k.take(15); int dx = k.take(13), dy = (int)k.take(13) - 6, s = k.take(3);
        Bytes b(20 * 18 * 2, 128);
        for (u32 j = 0; j < 360; j++) b[2 * j] = 0;
        b[((8) * 20 + 3) * 2] = s == 0 ? 200 : 100;
        if (dx || dy) b[((8 + dy) * 20 + 3 + dx) * 2] = s == 1 ? 200 : 100;
        peaks(20, 18, b, dist, 0.1, 0.1); },
      [](u64 i) { return str("pair #%llu", (unsigned long long)i); });
    static const u32 FD[] = {15, 16, 17, 31, 33, 50, 63, 64, 65, 100, 127, 128, 129, 180, 181, 200, 254, 255, 256, 257, 300, 362, 511, 512, 513, 1000, 1024, 4097, 46340, 46341, 65535, 65536, 65537};
    add_list(S, "far-pairs", "two maxima 15..65537 apart in a row, a column or (up to 1000) diagonally x 6 distances around it, stronger first, second or equal", 33ull * 3 * 6 * 3, [](u64 i) {
        Dec k(i); u32 a = FD[k.take(33)]; int dir = k.take(3), dd = k.take(6), s = k.v;
        if (dir == 2 && a > 1000) return;
        u32 w = dir == 1 ? 3 : a + 3, h = dir == 0 ? 3 : a + 3;
        double e = dir == 2 ? a * sqrt(2.0) : a;
        u32 dist = dd == 0 ? (u32)e - 1 : dd == 1 ? (u32)e : dd == 2 ? (u32)e + 1 : dd == 3 ? a / 2 : dd == 4 ? 2 * a : 2;
        Bytes b((size_t)w * h * 2, 0);
        for (size_t j = 0; j < b.size(); j += 2) b[j + 1] = 128;
        b[((size_t)w + 1) * 2] = s == 0 ? 200 : 100;
        b[((size_t)(h - 2) * w + w - 2) * 2] = s == 1 ? 200 : 100;
        peaks(w, h, b, dist, 0.1, 0.1); },
      [](u64 i) { Dec k(i); u32 a = FD[k.take(33)]; int dir = k.take(3); return str("two maxima %u apart, direction %d, distance and strength #%d", a, dir, (int)k.v); });
    add_list(S, "many", "8 pictures with 1000 to 12000 maxima (lattices of isolated, touching and equally strong ones) x 7 distances", 8 * 7, [](u64 i) {
        static const u32 D[8][4] = {{200, 200, 2, 3}, {400, 100, 4, 4}, {90, 300, 2, 2}, {150, 150, 1, 1}, {250, 130, 3, 2}, {3000, 30, 2, 5}, {30, 3000, 5, 2}, {330, 330, 3, 3}};
        static const u32 R[7] = {0, 2, 3, 5, 9, 40, 5000};
        Dec k(i); u32 dist = R[k.take(7)]; auto &d = D[k.v]; u32 w = d[0], h = d[1];
        Bytes b((size_t)w * h * 2, 0);
        for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) {
          u8 *p = &b[((size_t)y * w + x) * 2];
          p[1] = 100 + (x + y) % 100;
          if (x % d[2] == 1 % d[2] && y % d[3] == 1 % d[3]) p[0] = d[2] == 1 ? 200 : 90 + fw::mix(y * 7919ull + x) % (k.v % 2 ? 3 : 160);
        }
        peaks(w, h, b, dist, 0.2, 0.2); },
      [](u64 i) { return str("many maxima, picture #%d, distance #%d", (int)(i / 7), (int)(i % 7)); });
    S.back().chunk = 1, S.back().hang_s = 120;
    add_list(S, "thresholds", "every value of w and q against every threshold n/255", 256ull * 256, [](u64 i) {
        Dec k(i); int t = k.take(256), v = k.v;
        Bytes b(18); b[8] = 255; b[9] = v; peaks(3, 3, b, 2, 0, t / 255.0);
        Bytes c(18); c[9] = 255; c[8] = v; peaks(3, 3, c, 2, t / 255.0, 0); },
      [](u64 i) { return str("threshold %d/255, value %d", (int)(i % 256), (int)(i / 256)); });
    add_dims(S, "pkdims", "all sizes up to NxN x contents x 13 parameter sets", dims_small(thorough ? 40 : 20), {F_HASH, F_SPARSE, F_GRAD, F_CHECK}, 2, PPS.size(), runp, vnp);
    add_dims(S, "pklarge", "sizes around powers of two", dims_large(POW2N, thorough ? 200000 : 40000), {F_SPARSE}, 2, 1, [](u64, u32 w, u32 h, const Bytes &b) { peaks(w, h, b, 16, 0.9, 0.9); }, [](u64) { return str("peaks, distance 16, thresholds 0.9"); });
    add_dims(S, "pkwide", WIDE_WHAT, WIDE, {F_HASH}, 2, 1, [](u64, u32 w, u32 h, const Bytes &b0) {
        // one strong peak per 16x16 block (or per 64 pixels of a line) over weak noise
        Bytes b = b0;
        for (size_t j = 0; j < b.size() / 2; j++) {
          u32 x = j % w, y = j / w;
          bool pk = std::min(w, h) > 40 ? (x % 61 == 40 && y % 53 == 20) : (x * 2 + y * 2) % 97 == (w > h ? 2 : 5);
          b[2 * j] = pk ? 200 + b0[2 * j] % 56 : b0[2 * j] % 100;
        }
        peaks(w, h, b, 16, 0.7, 0.5); }, [](u64) { return str("peaks, distance 16, thresholds 0.7 0.5"); });
    S.back().chunk = 1, S.back().hang_s = 120;
    add_list(S, "invalid", "NULL, empty or non-finite arguments fail", 7, [](u64 i) {
        In in(Bytes(32, 9)); compared(); calls();
        CornerPeaks *p = fcv_corner_peaks(i == 0 ? 0 : 4, i == 1 ? 0 : 4, i == 2 ? nullptr : in.p, 3, i == 3 ? NAN : i == 4 ? INFINITY : 0, i == 5 ? NAN : i == 6 ? -INFINITY : 0);
        if (p) fail("corner_peaks accepted invalid arguments"); },
      [](u64 i) { return str("invalid arguments #%d", (int)i); });
  });
}
