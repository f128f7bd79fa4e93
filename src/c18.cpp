#include "space.hpp"
struct Q { double x[4], y[4]; };
static Corners C(const Q &q) { return Corners{q.x[0], q.y[0], q.x[1], q.y[1], q.x[2], q.y[2], q.x[3], q.y[3]}; }
// exact singularity of the 8x8 system for integer corners, modulo a 61-bit prime
static const u64 MP = (1ull << 61) - 1;
static u64 mulm(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % MP); }
static u64 red(__int128 v) { __int128 r = v % (__int128)MP; return (u64)(r < 0 ? r + MP : r); }
static u64 powm(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulm(a, a)) if (e & 1) r = mulm(r, a); return r; }
static bool singular(const i64 (*s)[2], const i64 (*d)[2]) {
  u64 A[8][8] = {};
  for (int i = 0; i < 4; i++) {
    i64 x = s[i][0], y = s[i][1], X = d[i][0], Y = d[i][1];
    u64 a[8] = {red(x), red(y), 1, 0, 0, 0, red(-(__int128)x * X), red(-(__int128)y * X)}, b[8] = {0, 0, 0, red(x), red(y), 1, red(-(__int128)x * Y), red(-(__int128)y * Y)};
    memcpy(A[i], a, sizeof a);
    memcpy(A[i + 4], b, sizeof b);
  }
  for (int i = 0; i < 8; i++) {
    int p = i;
    while (p < 8 && !A[p][i]) p++;
    if (p == 8) return true;
    if (p != i) for (int k = 0; k < 8; k++) std::swap(A[p][k], A[i][k]);
    u64 inv = powm(A[i][i], MP - 2);
    for (int r = i + 1; r < 8; r++) if (A[r][i]) {
      u64 f = mulm(A[r][i], inv);
      for (int k = i; k < 8; k++) A[r][k] = (A[r][k] + MP - mulm(f, A[i][k])) % MP;
    }
  }
  return false;
}
// reference solution in extended precision with full pivoting; false if (nearly) singular
static bool solve(const Q &s, const Q &d, long double *x, long double *cond) {
  long double A[8][9] = {};
  for (int i = 0; i < 4; i++) {
    long double a[9] = {s.x[i], s.y[i], 1, 0, 0, 0, -(long double)s.x[i] * d.x[i], -(long double)s.y[i] * d.x[i], d.x[i]}, b[9] = {0, 0, 0, s.x[i], s.y[i], 1, -(long double)s.x[i] * d.y[i], -(long double)s.y[i] * d.y[i], d.y[i]};
    memcpy(A[i], a, sizeof a);
    memcpy(A[i + 4], b, sizeof b);
  }
  int col[8];
  for (int i = 0; i < 8; i++) col[i] = i;
  long double first = 0, last = 1e300L;
  for (int i = 0; i < 8; i++) {
    int pr = i, pc = i;
    for (int r = i; r < 8; r++) for (int c = i; c < 8; c++) if (fabsl(A[r][c]) > fabsl(A[pr][pc])) pr = r, pc = c;
    if (fabsl(A[pr][pc]) == 0) return false;
    for (int k = 0; k < 9; k++) std::swap(A[pr][k], A[i][k]);
    for (int r = 0; r < 8; r++) std::swap(A[r][pc], A[r][i]);
    std::swap(col[pc], col[i]);
    if (i == 0) first = fabsl(A[0][0]);
    last = std::min(last, fabsl(A[i][i]));
    for (int r = i + 1; r < 8; r++) {
      long double f = A[r][i] / A[i][i];
      for (int k = i; k < 9; k++) A[r][k] -= f * A[i][k];
    }
  }
  *cond = first / last;
  long double y[8];
  for (int i = 7; i >= 0; i--) {
    y[i] = A[i][8];
    for (int k = i + 1; k < 8; k++) y[i] -= A[i][k] * y[k];
    y[i] /= A[i][i];
  }
  for (int i = 0; i < 8; i++) x[col[i]] = y[i];
  return true;
}
static bool is_id(const Matrix3x3 *m) { return m->m00 == 1 && m->m01 == 0 && m->m02 == 0 && m->m10 == 0 && m->m11 == 1 && m->m12 == 0 && m->m20 == 0 && m->m21 == 0 && m->m22 == 1; }
static std::string qs(const Q &q) { return str("(%g,%g)(%g,%g)(%g,%g)(%g,%g)", q.x[0], q.y[0], q.x[1], q.y[1], q.x[2], q.y[2], q.x[3], q.y[3]); }
// known: 0 unknown, 1 certainly singular
static void homography(const Q &s, const Q &d, int sing) {
  Corners cs = C(s), cd = C(d), ks = cs, kd = cd;
  Matrix3x3 *m = fcv_calculate_perspective_transform(&cs, &cd);
  calls();
  if (!m) fail("no matrix");
  Matrix3x3 v = *m;
  free(m); // the caller owns it
  if (memcmp(&cs, &ks, sizeof cs) || memcmp(&cd, &kd, sizeof cd)) fail("corner arguments were changed");
  compared();
  seen(hash(&v, sizeof v));
  if (sing) {
    if (!is_id(&v)) fail("degenerate corners %s -> %s gave a matrix other than the identity (m00 %g m20 %g)", qs(s).c_str(), qs(d).c_str(), v.m00, v.m20);
    return;
  }
  long double x[8], cond, mx = 0;
  bool ok = solve(s, d, x, &cond);
  long double scale = 1, wmin = 1e300L;
  if (ok) {
    for (int i = 0; i < 8; i++) mx = std::max(mx, fabsl(x[i]));
    for (int i = 0; i < 4; i++) wmin = std::min(wmin, fabsl(x[6] * s.x[i] + x[7] * s.y[i] + 1));
  }
  for (int i = 0; i < 4; i++) scale = std::max(scale, std::max(fabsl((long double)d.x[i]), fabsl((long double)d.y[i])));
  bool good = ok && mx < 0.99e6L && cond < 1e9L && wmin > 1e-3L;
  if (!good) return; // nearly degenerate: nothing promised but an owned matrix
  nontrivial();
  long double y[9] = {v.m00, v.m01, v.m02, v.m10, v.m11, v.m12, v.m20, v.m21, v.m22};
  for (int i = 0; i < 4; i++) {
    long double w = y[6] * s.x[i] + y[7] * s.y[i] + y[8], X = (y[0] * s.x[i] + y[1] * s.y[i] + y[2]) / w, Y = (y[3] * s.x[i] + y[4] * s.y[i] + y[5]) / w;
    if (!(fabsl(X - d.x[i]) <= 1e-6L * scale && fabsl(Y - d.y[i]) <= 1e-6L * scale)) fail("%s -> %s: corner %d maps to (%.9Lg,%.9Lg) instead of (%g,%g)%s", qs(s).c_str(), qs(d).c_str(), i, X, Y, d.x[i], d.y[i], is_id(&v) ? " (identity returned)" : "");
  }
}
static const i64 DST[6][4][2] = {{{0, 0}, {3, 0}, {3, 3}, {0, 3}}, {{0, 0}, {5, 0}, {5, 2}, {0, 2}}, {{1, 0}, {7, 1}, {6, 9}, {0, 5}}, {{2, 2}, {2, 7}, {8, 8}, {9, 1}}, {{0, 0}, {4, 0}, {8, 0}, {3, 3}}, {{5, 5}, {5, 5}, {5, 5}, {5, 5}}};
static void grid(u64 i, int g, double sc, bool swap) {
  Dec k(i);
  int dj = k.take(6);
  i64 s[4][2], d[4][2];
  for (int j = 0; j < 4; j++) s[j][0] = k.take(g), s[j][1] = k.take(g);
  memcpy(d, DST[dj], sizeof d);
  if (swap) std::swap(s, d);
  Q a, b;
  for (int j = 0; j < 4; j++) a.x[j] = s[j][0] * sc, a.y[j] = s[j][1] * sc, b.x[j] = d[j][0] * sc, b.y[j] = d[j][1] * sc;
  homography(a, b, singular(s, d));
}
// ---- warping
struct M { const char *n; Matrix3x3 m; };
static std::vector<M> matrices() {
  std::vector<M> v = {{"identity", {1, 0, 0, 0, 1, 0, 0, 0, 1}}, {"double flip", {-1, 0, 0, 0, -1, 0, 0, 0, 1}}, {"half", {2, 0, 0, 0, 2, 0, 0, 0, 1}}, {"double", {.5, 0, 0, 0, .5, 0, 0, 0, 1}}, {"shift", {1, 0, 1.25, 0, 1, -0.75, 0, 0, 1}}, {"negative shift", {1, 0, -2.5, 0, 1, 3, 0, 0, 1}}, {"rotation", {.8, -.6, 1.3, .6, .8, -.7, 0, 0, 1}}, {"perspective", {1.1, .1, .3, .05, .9, .2, .01, -.02, 1}}, {"strong perspective", {1, 0, 0, 0, 1, 0, .2, .15, 1}}, {"horizon", {1, 0, 0, 0, 1, 0, -.25, 0, 1}}, {"transpose", {0, 1, 0, 1, 0, 0, 0, 0, 1}}, {"x flip", {-1, 0, 3, 0, 1, 0, 0, 0, 1}}, {"zero", {0, 0, 0, 0, 0, 0, 0, 0, 0}}, {"constant", {0, 0, 1.5, 0, 0, 0.5, 0, 0, 1}}, {"scaled", {3, 0, 1.5, 0, 3, .3, 0, 0, 3}}, {"shear", {1, .37, 0, -.21, 1, 1.7, 0, 0, 1}}, {"negative w", {-1, 0, -1, 0, -1, -1, 0, 0, -1}}, {"tiny steps", {.01, .02, .995, .03, .01, .995, 0, 0, 1}}, {"flip with shift", {-1, 0, 2, 0, -1, 0, 0, 0, 1}}, {"huge", {1e9, 0, 0, 0, 1e12, 0, 0, 0, 1}}, {"far", {1, 0, 1e300, 0, 1, -1e300, 0, 0, 1}}, {"int edge", {1, 0, 2147483647.0, 0, 1, 2147483648.0, 0, 0, 1}}, {"nan", {NAN, 0, 0, 0, 1, 0, 0, 0, 1}}, {"inf", {1, 0, INFINITY, 0, 1, 0, 0, 0, 1}}};
  return v;
}
static const std::vector<M> MS = matrices();
static void warp(u32 w, u32 h, const Bytes &b, u32 ow, u32 oh, const M &mm) {
  In in(b);
  Matrix3x3 *m = (Matrix3x3 *)malloc(sizeof(Matrix3x3));
  *m = mm.m;
  Out o(fcv_apply_matrix_3x3(w, h, in.p, ow, oh, m));
  bool same = !memcmp(m, &mm.m, sizeof *m);
  free(m);
  in.check();
  if (!same) fail("the matrix was changed");
  if (!o) fail("no result");
  Matrix3x3 t = mm.m;
  if (t.m00 == -1 && t.m11 == -1 && t.m02 == 0 && t.m12 == 0) t.m02 = w - 1, t.m12 = h - 1; // plain double flip means: about the image centre
  compared();
  for (u32 y = 0; y < oh; y++)
    for (u32 x = 0; x < ow; x++) {
      long double W = (long double)t.m20 * x + (long double)t.m21 * y + t.m22;
      const u8 *g = o.p + ((size_t)y * ow + x) * 4;
      long double X = 0, Y = 0;
      bool outside = fabsl(W) < 0.9e-10L, edge = fabsl(W) < 1.1e-10L;
      if (!outside) {
        X = ((long double)t.m00 * x + (long double)t.m01 * y + t.m02) / W;
        Y = ((long double)t.m10 * x + (long double)t.m11 * y + t.m12) / W;
        long double e = 1e-9L;
        outside = !(X > -e && X < w + e && Y > -e && Y < h + e);
        edge |= !outside && !(X >= e && X < w - e && Y >= e && Y < h - e);
        if (X >= 0 && Y >= 0 && X < w - e && Y < h - e && W == floorl(W) && X == floorl(X) && Y == floorl(Y)) edge = false; // exact arithmetic
      }
      bool zero = !g[0] && !g[1] && !g[2] && !g[3];
      if (outside) {
        if (!zero) fail("%s: (%u,%u) maps outside the source but is %u,%u,%u,%u", mm.n, x, y, g[0], g[1], g[2], g[3]);
        continue;
      }
      if (edge && zero) continue;
      X = std::min(std::max(X, 0.0L), (long double)w - 1), Y = std::min(std::max(Y, 0.0L), (long double)h - 1);
      u32 x0 = (u32)X, y0 = (u32)Y, x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1);
      long double fx = X - x0, fy = Y - y0;
      for (int c = 0; c < 4; c++) {
        auto p = [&](u32 a, u32 d) { return (long double)b[((size_t)d * w + a) * 4 + c]; };
        long double e = (p(x0, y0) * (1 - fx) + p(x1, y0) * fx) * (1 - fy) + (p(x0, y1) * (1 - fx) + p(x1, y1) * fx) * fy;
        if (fabsl(g[c] - e) > 1.001L) fail("%s: (%u,%u) channel %d is %u, expected %.3Lf (source position %.4Lf,%.4Lf)", mm.n, x, y, c, g[c], e, X, Y);
      }
    }
  seen(hash(o.p, (size_t)ow * oh * 4, ow * 7919 + oh));
}
// ---- sorting
static void sorting(const std::vector<Point2D> &p, u32 W, u32 H, u32 ow, u32 oh) {
  size_t n = p.size(), room = n == 3 ? 4 : n;
  Point2D *in = (Point2D *)malloc(n * sizeof *in), *r = (Point2D *)malloc(room * sizeof *r);
  memcpy(in, p.data(), n * sizeof *in);
  Corners c = sort_corners(W, H, ow, oh, in, n, r);
  calls();
  std::vector<Point2D> o(r, r + room);
  bool same = !memcmp(in, p.data(), n * sizeof *in);
  free(in), free(r);
  if (!same) fail("the corner list was changed");
  compared();
  std::string d;
  for (auto &q : p) d += str("(%g,%g)", q.x, q.y);
  auto less = [](const Point2D &a, const Point2D &b) { return a.x < b.x || (a.x == b.x && a.y < b.y); };
  auto a = p, b = o;
  std::sort(a.begin(), a.end(), less), std::sort(b.begin(), b.end(), less);
  size_t extra = 0;
  if (n != 3) {
    for (size_t i = 0; i < n; i++) if (a[i].x != b[i].x || a[i].y != b[i].y) fail("%s: the result is no permutation", d.c_str());
  } else { // the three and a fourth
    for (auto &q : p) { bool f = false; for (auto &z : o) f |= z.x == q.x && z.y == q.y; if (!f) fail("%s: corner (%g,%g) is missing", d.c_str(), q.x, q.y); }
  }
  double sx = (double)W / ow, sy = (double)H / oh;
  double got[8] = {c.tl_x, c.tl_y, c.tr_x, c.tr_y, c.br_x, c.br_y, c.bl_x, c.bl_y};
  for (int i = 0; i < 4; i++) if (fabs(got[2 * i] - o[i].x * sx) > 1e-9 * (1 + fabs(got[2 * i])) || fabs(got[2 * i + 1] - o[i].y * sy) > 1e-9 * (1 + fabs(got[2 * i + 1]))) fail("%s: returned corner %d is not the scaled sorted one", d.c_str(), i);
  u64 hh = 7;
  for (auto &q : o) hh = hash(&q, sizeof q, hh);
  seen(hh);
  if (n == 3) return;
  // strictly convex position?
  double cx = 0, cy = 0;
  for (auto &q : p) cx += q.x / n, cy += q.y / n;
  std::vector<std::pair<double, size_t>> ang;
  for (size_t i = 0; i < n; i++) ang.push_back({atan2(p[i].y - cy, p[i].x - cx), i});
  std::sort(ang.begin(), ang.end());
  auto cross = [](const Point2D &u, const Point2D &v, const Point2D &w) { return (v.x - u.x) * (w.y - v.y) - (v.y - u.y) * (w.x - v.x); };
  bool convex = true;
  for (size_t i = 0; i < n; i++) convex &= cross(p[ang[i].second], p[ang[(i + 1) % n].second], p[ang[(i + 2) % n].second]) > 1e-9;
  if (!convex) return;
  nontrivial();
  // all turns to the right (y grows downwards, so a positive cross product), once around
  double turn = 0;
  for (size_t i = 0; i < n; i++) {
    auto &u = o[i], &v = o[(i + 1) % n], &w = o[(i + 2) % n];
    if (!(cross(u, v, w) > 0)) fail("%s: sorted corners %zu.. do not turn clockwise", d.c_str(), i);
    turn += atan2(cross(u, v, w), (v.x - u.x) * (w.x - v.x) + (v.y - u.y) * (w.y - v.y));
  }
  if (fabs(turn - 2 * M_PI) > 1e-6) fail("%s: sorted corners wind %.2f times", d.c_str(), turn / 2 / M_PI);
  for (auto &q : o) if (q.x + q.y < o[0].x + o[0].y - 1e-12) fail("%s: starts at (%g,%g), but (%g,%g) has the smaller x+y", d.c_str(), o[0].x, o[0].y, q.x, q.y);
}

int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    auto qd = [](int g, double sc, bool sw) { return [=](u64 i) { Dec k(i); int dj = k.take(6); std::string s; for (int j = 0; j < 4; j++) { int a = k.take(g), b = k.take(g); s += str("(%d,%d)", a, b); } return str("%s grid corners %s x%g, counterpart #%d", sw ? "to" : "from", s.c_str(), sc, dj); }; };
    int g = thorough ? 5 : 4;
    for (double sc : {1.0, 97.0, 1024.0}) {
      if (sc == 97 && !thorough) continue;
      add_list(S, str("hom-from-%g", sc), "every quadruple of grid points as source x 6 destinations", ipow(g * g, 4) * 6, [=](u64 i) { grid(i, g, sc, false); }, qd(g, sc, false));
      add_list(S, str("hom-to-%g", sc), "every quadruple of grid points as destination of 6 sources", ipow(g * g, 4) * 6, [=](u64 i) { grid(i, g, sc, true); }, qd(g, sc, true));
    }
    // rectangle -> page, all moderate page corners
    add_list(S, "hom-page", "output rectangles of 8 sizes to every page quadrilateral with corners at 6 positions each in a 4000x3000 image", 8ull * 1296, [](u64 i) {
        static const double R[8][2] = {{100, 100}, {99, 499}, {640, 480}, {2000, 3000}, {1, 1}, {9999, 20}, {1234.5, 877.25}, {5000, 5000}};
        Dec k(i); auto &r = R[k.take(8)];
        Q s = {{0, r[0], r[0], 0}, {0, 0, r[1], r[1]}}, d;
        static const double B[4][2] = {{200, 300}, {3500, 250}, {3600, 2700}, {150, 2600}};
        for (int j = 0; j < 4; j++) { int t = k.take(6); d.x[j] = B[j][0] + (t % 3) * 140.25 - 90; d.y[j] = B[j][1] + (t / 3) * 211.5 - 100; }
        homography(s, d, 0); homography(d, s, 0); },
      [](u64 i) { return str("rectangle/page pair #%llu", (unsigned long long)i); });
    add_list(S, "hom-bad", "each coordinate NaN or infinite, NULL corners: an owned identity", 16 * 3 + 3, [](u64 i) {
        double v[16] = {0, 0, 9, 0, 9, 7, 0, 7, 1, 1, 5, 2, 6, 8, 0, 9};
        static const double B[3] = {NAN, INFINITY, -INFINITY};
        Corners s, d;
        if (i < 48) v[i / 3] = B[i % 3];
        memcpy(&s, v, sizeof s), memcpy(&d, v + 8, sizeof d);
        Matrix3x3 *m = fcv_calculate_perspective_transform(i == 48 || i == 50 ? nullptr : &s, i == 49 || i == 50 ? nullptr : &d);
        calls(); compared();
        if (!m || !is_id(m)) fail("expected the identity");
        m->m00 = 5; // ours
        free(m);
        m = fcv_calculate_perspective_transform(nullptr, nullptr);
        if (!m || !is_id(m)) fail("expected the identity again");
        free(m); },
      [](u64 i) { return str("invalid corner value #%llu", (unsigned long long)i); });
    u64 nm = MS.size();
    add_list(S, "warp-sizes", "24 matrices x all source sizes up to 6x6 x 6 output sizes x 2 contents", nm * 36 * 6 * 2, [=](u64 i) {
        static const u32 O[6][2] = {{1, 1}, {4, 4}, {7, 3}, {2, 9}, {11, 8}, {6, 6}};
        Dec k(i); auto &m = MS[k.take(nm)]; auto &o = O[k.take(6)]; int f = k.take(2) ? F_EXTREME : F_HASH; u32 w = 1 + k.take(6), h = 1 + k.take(6);
        warp(w, h, fill(f, w, h, 4), o[0], o[1], m); },
      [=](u64 i) { Dec k(i); auto n = MS[k.take(nm)].n; k.take(12); u32 w = 1 + k.take(6); return str("%s matrix on a %ux%u image", n, w, (u32)(1 + k.take(6))); });
    add_list(S, "warp-large", "24 matrices x 8 larger sizes", nm * 8, [=](u64 i) {
        static const u32 D[8][4] = {{64, 64, 64, 64}, {100, 1, 50, 2}, {1, 100, 3, 120}, {257, 63, 128, 128}, {33, 200, 65, 17}, {300, 200, 40, 30}, {20, 20, 500, 300}, {513, 511, 1, 1}};
        Dec k(i); auto &m = MS[k.take(nm)]; auto &d = D[k.v];
        warp(d[0], d[1], fill(F_HASH, d[0], d[1], 4), d[2], d[3], m); },
      [=](u64 i) { return str("%s matrix, large size #%d", MS[i % nm].n, (int)(i / nm)); });
    add_dims(S, "warp-wide", WIDE_WHAT, WIDE, {F_HASH}, 4, 8, [](u64 v, u32 w, u32 h, const Bytes &b) {
        M m = MS[v == 7 ? 15 : v]; // identity, flip, half, double, shifts, rotation, shear
        u32 ow = w, oh = h;
        if (v == 3 && w < 60000 && h < 60000) ow = w / 2, oh = h / 2;
        warp(w, h, b, ow, oh, m); },
      [](u64 v) { return str("%s matrix", MS[v == 7 ? 15 : v].n); });
    S.back().chunk = 1, S.back().hang_s = 120;
    add_list(S, "warp-lattice", "every affine matrix with entries from {-1,-0.5,0,0.5,1} and shifts {0,1,2.25} on a 4x3 image", 625ull * 9, [](u64 i) {
        Dec k(i); double e[4]; for (auto &x : e) x = (int)k.take(5) * 0.5 - 1; double s[3] = {0, 1, 2.25}; double a = s[k.take(3)], b = s[k.take(3)];
        warp(4, 3, fill(F_HASH, 4, 3, 4), 5, 4, M{"lattice", {e[0], e[1], a, e[2], e[3], b, 0, 0, 1}}); },
      [](u64 i) { return str("lattice matrix #%llu", (unsigned long long)i); });
    add_list(S, "warp-persp", "perspective rows {-0.3..0.3}^2 x 4 shifts on a 5x5 image", 49ull * 4, [](u64 i) {
        Dec k(i); double p = ((int)k.take(7) - 3) * 0.1, q = ((int)k.take(7) - 3) * 0.1; double t = k.v * 0.7;
        warp(5, 5, fill(F_HASH, 5, 5, 4), 9, 9, M{"perspective lattice", {1, 0.1, t, 0.2, 1, t / 2, p, q, 1}}); },
      [](u64 i) { return str("perspective #%llu", (unsigned long long)i); });
    static const double ND[] = {1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3, 0.004, -0.004, 0.03, -0.03};
    add_list(S, "warp-near", "6 special matrices (identity, flips, quarter turns) with every entry, or both diagonal entries, off by 10 small amounts x 3 sizes", 6 * 10 * 10 * 3, [](u64 i) {
        static const double B[6][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}, {-1, 0, 9, 0, 1, 0, 0, 0, 1}, {1, 0, 0, 0, -1, 9, 0, 0, 1}, {0, 1, 0, -1, 0, 9, 0, 0, 1}, {0, -1, 9, 1, 0, 0, 0, 0, 1}};
        Dec k(i); double v[9]; memcpy(v, B[k.take(6)], sizeof v); double d = ND[k.take(10)]; int e = k.take(10);
        if (e == 9) v[0] += d, v[4] += d; else v[e] += d;
        u32 w = k.v == 0 ? 5 : k.v == 1 ? 40 : 200, h = k.v == 0 ? 4 : k.v == 1 ? 31 : 150;
        warp(w, h, fill(F_HASH, w, h, 4), w + 1, h, M{"near-special", {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}}); },
      [](u64 i) { Dec k(i); int b = k.take(6); double d = ND[k.take(10)]; int e = k.take(10); return str("special matrix #%d, entry %d off by %g, size #%d", b, e, d, (int)k.v); });
    static const double SF[] = {1e-8, 1e-6, 1e-4, 0.01, 0.3, 7, 100, 65536, 1e8, -1e-8, -1e-4, -0.5, -2, -3, -1e6};
    add_list(S, "warp-homogeneous", "14 matrices times 15 factors (also negative): the same warp", 15ull * 14 * 3, [](u64 i) {
        static const int W[] = {0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17};
        Dec k(i); double s = SF[k.take(15)]; Matrix3x3 m = MS[W[k.take(14)]].m; u32 n = k.v == 0 ? 5 : k.v == 1 ? 17 : 40;
        warp(n, n + 1, fill(F_HASH, n, n + 1, 4), n + 3, n, M{"scaled matrix", {m.m00 * s, m.m01 * s, m.m02 * s, m.m10 * s, m.m11 * s, m.m12 * s, m.m20 * s, m.m21 * s, m.m22 * s}}); },
      [](u64 i) { Dec k(i); double s = SF[k.take(15)]; int m = k.take(14); return str("matrix #%d times %g, size #%d", m, s, (int)k.v); });
    add_list(S, "warp-round", "warping with a computed homography and its counterpart: page landmarks land where they belong", 81, [](u64 i) {
        Dec k(i); Q d; static const double B[4][2] = {{6, 5}, {52, 7}, {50, 40}, {8, 43}};
        for (int j = 0; j < 4; j++) { int t = k.take(3); d.x[j] = B[j][0] + (t - 1) * 3; d.y[j] = B[j][1] - (t - 1) * 2; }
        Q s = {{0, 39, 39, 0}, {0, 0, 29, 29}};
        Corners cs = C(s), cd = C(d);
        Matrix3x3 *m = fcv_calculate_perspective_transform(&cs, &cd); calls();
        if (!m) fail("no matrix");
        M mm{"homography", *m}; free(m);
        warp(60, 48, fill(F_HASH, 60, 48, 4), 40, 30, mm); },
      [](u64 i) { return str("homography warp #%llu", (unsigned long long)i); });
    add_list(S, "warp-invalid", "empty sizes and NULL fail", 6, [](u64 i) {
        In in(Bytes(64, 7)); Matrix3x3 m = MS[0].m; compared();
        Out o(fcv_apply_matrix_3x3(i == 0 ? 0 : 4, i == 1 ? -1 : 4, i == 2 ? nullptr : in.p, i == 3 ? 0 : 4, i == 4 ? -4 : 4, i == 5 ? nullptr : &m));
        if (o) fail("invalid arguments accepted"); },
      [](u64 i) { return str("invalid warp #%d", (int)i); });

    add_list(S, "sort4", "every list of four points on a 4x4 grid", ipow(16, 4), [](u64 i) {
        Dec k(i); std::vector<Point2D> p; for (int j = 0; j < 4; j++) { int t = k.take(16); p.push_back({(double)(t % 4), (double)(t / 4)}); }
        sorting(p, 256, 256, 256, 256); },
      [](u64 i) { return str("grid points %04llx", (unsigned long long)i); });
    add_list(S, "sort4wide", "every order of 4 of 12 spread points", 12ull * 12 * 12 * 12, [](u64 i) {
        static const double P[12][2] = {{10, 20}, {240, 15}, {250, 230}, {5, 245}, {128, 3}, {130, 250}, {3, 128}, {252, 127}, {60, 90}, {200, 60}, {190, 180}, {70.5, 200.25}};
        Dec k(i); std::vector<Point2D> p; for (int j = 0; j < 4; j++) { auto &t = P[k.take(12)]; p.push_back({t[0], t[1]}); }
        sorting(p, 1024, 768, 256, 256); },
      [](u64 i) { return str("spread points #%llu", (unsigned long long)i); });
    add_list(S, "sortn", "every permutation of 5 and 6 points around an ellipse, 4 rotations", (120 + 720) * 4, [](u64 i) {
        Dec k(i); int rot = k.take(4); int n = k.v < 120 ? 5 : 6; u64 c = n == 5 ? k.v : k.v - 120;
        std::vector<int> ix; for (int j = 0; j < n; j++) ix.push_back(j);
        for (u64 t = 0; t < c; t++) std::next_permutation(ix.begin(), ix.end());
        std::vector<Point2D> p; for (int j : ix) { double a = 2 * M_PI * (j + rot * 0.23) / n; p.push_back({120 + 90 * cos(a), 110 + 60 * sin(a)}); }
        sorting(p, 256, 256, 256, 256); },
      [](u64 i) { return str("ellipse permutation #%llu", (unsigned long long)i); });
    static const int MANY[] = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000};
    add_list(S, "sortmany", "7 to 40 points and 14 counts up to 1000 around an ellipse x 40 rotations x 8 orders (forward, backward, strides, zigzag)", (40 - 7 + 1 + 14) * 40 * 8, [](u64 i) {
        Dec k(i); int ord = k.take(8), rot = k.take(40), n = k.v >= 34 ? MANY[k.v - 34] : 7 + (int)k.v; if (rot >= n) return;
        std::vector<int> ix; for (int j = 0; j < n; j++) ix.push_back(j);
        if (ord == 1) std::reverse(ix.begin(), ix.end());
        else if (ord >= 2 && ord <= 5) { int st = ord == 2 ? 2 : ord == 3 ? 3 : ord == 4 ? n / 2 : n - 2; std::vector<int> o, used(n); for (int s = 0; s < n; s++) for (int j = s; !used[j]; j = (j + (st ? st : 1)) % n) { used[j] = 1; o.push_back(j); } ix = o; }
        else if (ord == 6) { std::vector<int> o; for (int a = 0, b = n - 1; a <= b; a++, b--) { o.push_back(a); if (a < b) o.push_back(b); } ix = o; }
        else if (ord == 7) std::swap(ix[0], ix[n - 1]);
        std::vector<Point2D> p; for (int j = 0; j < n; j++) { double a = 2 * M_PI * (ix[(j + rot) % n] + 0.37) / n; p.push_back({120 + 90 * cos(a), 110 + 60 * sin(a)}); }
        sorting(p, 256, 256, 256, 256); },
      [](u64 i) { return str("many ellipse points #%llu", (unsigned long long)i); });
    add_list(S, "sort3", "every list of three points on a 5x5 grid (scaled by 10): the fourth is added", ipow(25, 3), [](u64 i) {
        Dec k(i); std::vector<Point2D> p; for (int j = 0; j < 3; j++) { int t = k.take(25); p.push_back({(t % 5) * 10.0, (t / 5) * 10.0}); }
        sorting(p, 500, 400, 250, 200); },
      [](u64 i) { return str("three points #%llu", (unsigned long long)i); });
    static const u32 SC[][4] = {{2000, 1000, 256, 256}, {1000, 4000, 256, 256}, {100, 90, 256, 256}, {256, 10000, 256, 256}, {4097, 1, 256, 256}, {1, 1, 256, 256}, {70000, 65536, 256, 256}, {640, 480, 300, 200}, {3000, 3000, 1, 2}, {4294967295u, 3, 4294967295u, 1}};
    add_list(S, "sort-scales", "10 pairs of image and map sizes x 3 to 8 points in 8 orders: the corners in image coordinates", 10 * 6 * 8, [](u64 i) {
        Dec k(i); int ord = k.take(8), n = 3 + (int)k.take(6); auto &z = SC[k.v];
        std::vector<Point2D> p; for (int j = 0; j < n; j++) { int q = (j * (ord % 2 ? n - 1 : 1) + ord) % n; double a = 2 * M_PI * (q + 0.37 + ord * 0.03) / n; p.push_back({120 + 90 * cos(a), 110 + 60 * sin(a)}); }
        sorting(p, z[0], z[1], z[2], z[3]); },
      [](u64 i) { Dec k(i); k.take(8); int n = 3 + (int)k.take(6); return str("%d points, size pair #%d", n, (int)k.v); });
    add_list(S, "sort-few", "fewer than three points: all zero", 3, [](u64 i) {
        Point2D p[2] = {{1, 2}, {3, 4}}, r[4] = {}; Corners c = sort_corners(9, 9, 9, 9, p, i, r), z = {}; calls(); compared();
        if (memcmp(&c, &z, sizeof c)) fail("non-zero corners for %d points", (int)i); },
      [](u64 i) { return str("%d points", (int)i); });
  });
}
