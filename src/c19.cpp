#include "space.hpp"
struct P { double x, y; };
struct Size { u32 w, h; };
struct Tone { int f[3], b[3]; const char *n; };
static const std::vector<Size> SZ = {{300, 300}, {400, 300}, {300, 500}, {256, 256}, {1000, 700}, {640, 640}, {200, 150}, {257, 389}, {120, 120}, {1500, 1000}};
static const std::vector<Tone> TN = {{{220, 220, 220}, {60, 60, 60}, "bright on dark"}, {{50, 50, 50}, {200, 200, 200}, "dark on bright"}, {{150, 150, 150}, {100, 100, 100}, "low contrast"}, {{250, 240, 200}, {20, 60, 120}, "coloured"}, {{255, 255, 255}, {0, 0, 0}, "white on black"}};
static const double HX[3] = {.26, .34, .42}, HY[3] = {.26, .34, .42}, PX[3] = {0, -.1, .1}, OX[3] = {0, -.05, .05}, OY[3] = {0, -.05, .05};
struct Pose { P q[4]; bool ok; std::string d; };
static Pose pose(Size s, int ihx, int ihy, int deg, int ip, int io, double side = 0) {
  Pose r;
  r.ok = true;
  double cx = s.w * (.5 + OX[io % 3]), cy = s.h * (.5 + OY[io / 3]), A = deg * M_PI / 180;
  static const int sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1};
  // the rotation acts on a square frame, so that the page stays a mild perspective view
  for (int i = 0; i < 4; i++) {
    double X = sx[i] * HX[ihx] * (1 + (sy[i] < 0 ? PX[ip] : -PX[ip])), Y = sy[i] * HY[ihy] * (1 + sx[i] * side);
    r.q[i] = {cx + s.w * (X * cos(A) - Y * sin(A)), cy + s.h * (X * sin(A) + Y * cos(A))};
    if (r.q[i].x < s.w * .04 || r.q[i].x > s.w * .96 || r.q[i].y < s.h * .04 || r.q[i].y > s.h * .96) r.ok = false;
  }
  r.d = str("%ux%u image, page half size %.2f x %.2f, rotation %d deg, taper %.1f/%.1f, offset (%.2f,%.2f)", s.w, s.h, HX[ihx], HY[ihy], deg, PX[ip], side, OX[io % 3], OY[io / 3]);
  return r;
}
// homography unit square -> quad (closed form)
struct H { double a, b, c, d, e, f, g, h; };
static H square_to_quad(const P *q) {
  double dx1 = q[1].x - q[2].x, dx2 = q[3].x - q[2].x, dx3 = q[0].x - q[1].x + q[2].x - q[3].x, dy1 = q[1].y - q[2].y, dy2 = q[3].y - q[2].y, dy3 = q[0].y - q[1].y + q[2].y - q[3].y;
  double den = dx1 * dy2 - dx2 * dy1, g = (dx3 * dy2 - dx2 * dy3) / den, h = (dx1 * dy3 - dx3 * dy1) / den;
  return {q[1].x - q[0].x + g * q[1].x, q[3].x - q[0].x + h * q[3].x, q[0].x, q[1].y - q[0].y + g * q[1].y, q[3].y - q[0].y + h * q[3].y, q[0].y, g, h};
}
static void quad_to_square(const H &m, double x, double y, double &u, double &v) {
  // solve (a-gx)u+(b-hx)v = x-c ; (d-gy)u+(e-hy)v = y-f
  double A = m.a - m.g * x, B = m.b - m.h * x, C = m.d - m.g * y, D = m.e - m.h * y, X = x - m.c, Y = y - m.f, det = A * D - B * C;
  u = (X * D - B * Y) / det, v = (A * Y - X * C) / det;
}
static bool inside(const P *q, int n, double X, double Y) {
  for (int i = 0; i < n; i++) {
    const P &a = q[i], &c = q[(i + 1) % n];
    if ((c.x - a.x) * (Y - a.y) - (c.y - a.y) * (X - a.x) < 0) return false;
  }
  return true;
}
// page with a smooth position code: red encodes u, green encodes v (amplitude amp)
static Bytes draw(Size s, const P *q, int n, const Tone &t, int amp) {
  Bytes b((size_t)s.w * s.h * 4);
  H m = amp ? square_to_quad(q) : H{};
  for (u32 y = 0; y < s.h; y++)
    for (u32 x = 0; x < s.w; x++) {
      int k = 0;
      for (int j = 0; j < 16; j++) k += inside(q, n, x + (j % 4 + .5) / 4 - .5, y + (j / 4 + .5) / 4 - .5);
      double f[3] = {(double)t.f[0], (double)t.f[1], (double)t.f[2]};
      if (amp && k) {
        double u, v;
        quad_to_square(m, x, y, u, v);
        f[0] += amp * (u - 1), f[1] += amp * (v - 1);
      }
      u8 *p = &b[((size_t)y * s.w + x) * 4];
      for (int c = 0; c < 3; c++) p[c] = (u8)std::min(255.0, std::max(0.0, (f[c] * k + t.b[c] * (16 - k)) / 16 + .5));
      p[3] = 255;
    }
  return b;
}
static const double TOL = 0.04;
static void cornercheck(const Corners &r, Size s, const P *q, double TOL = ::TOL) {
  double g[8] = {r.tl_x, r.tl_y, r.tr_x, r.tr_y, r.br_x, r.br_y, r.bl_x, r.bl_y};
  static const char *N[4] = {"top-left", "top-right", "bottom-right", "bottom-left"};
  for (int i = 0; i < 4; i++) if (!(fabs(g[2 * i] - q[i].x) <= TOL * s.w && fabs(g[2 * i + 1] - q[i].y) <= TOL * s.h)) fail("%s corner found at (%.1f,%.1f), page corner is at (%.1f,%.1f)", N[i], g[2 * i], g[2 * i + 1], q[i].x, q[i].y);
}
static void bounds(const Corners &r, u32 w, u32 h) {
  double g[8] = {r.tl_x, r.tl_y, r.tr_x, r.tr_y, r.br_x, r.br_y, r.bl_x, r.bl_y};
  for (int i = 0; i < 4; i++) if (!(g[2 * i] >= 0 && g[2 * i] < w && g[2 * i + 1] >= 0 && g[2 * i + 1] < h)) fail("corner %d (%g,%g) is outside the %ux%u image", i, g[2 * i], g[2 * i + 1], w, h);
  seen(hash(g, sizeof g, w * 31 + h));
}
static void detect(Size s, const P *q, const Tone &t) {
  In in(draw(s, q, 4, t, 0));
  Corners r = fcv_detect_corners(in.p, s.w, s.h);
  calls();
  in.check();
  compared();
  bounds(r, s.w, s.h);
  cornercheck(r, s, q);
}
// the rectified picture must show the position code
static void landmarks(const u8 *o, u32 ow, u32 oh, int amp, const Tone &t) {
  for (int j = 1; j < 8; j++)
    for (int i = 1; i < 8; i++) {
      u32 x = (u32)((ow - 1) * i / 8.0 + .5), y = (u32)((oh - 1) * j / 8.0 + .5);
      const u8 *p = o + ((size_t)y * ow + x) * 4;
      double u = (p[0] - t.f[0]) / (double)amp + 1, v = (p[1] - t.f[1]) / (double)amp + 1;
      if (fabs(u - i / 8.0) > 0.13 || fabs(v - j / 8.0) > 0.13 || p[3] < 254) fail("output %ux%u at (%u,%u) shows page position (%.2f,%.2f), expected (%.2f,%.2f)", ow, oh, x, y, u, v, i / 8.0, j / 8.0);
    }
}
static void extract(Size s, const P *q, u32 ow, u32 oh) {
  Tone t = {{230, 230, 230}, {40, 40, 40}, ""};
  int amp = 70;
  In in(draw(s, q, 4, t, amp));
  Corners r = fcv_detect_corners(in.p, s.w, s.h);
  calls();
  cornercheck(r, s, q);
  if (ow) {
    Out o(fcv_extract_document(s.w, s.h, in.p, ow, oh));
    in.check();
    if (!o) fail("extraction failed");
    compared();
    landmarks(o.p, ow, oh, amp, t);
    seen(hash(o.p, (size_t)ow * oh * 4));
    return;
  }
  u32 aw = 0, ah = 0;
  Out o(fcv_extract_document_auto(s.w, s.h, in.p, &aw, &ah));
  in.check();
  if (!o) fail("automatic extraction failed");
  auto len = [](double a, double b, double c, double d) { return hypot(a - c, b - d); };
  double W = std::max(len(r.tl_x, r.tl_y, r.tr_x, r.tr_y), len(r.bl_x, r.bl_y, r.br_x, r.br_y)), Hh = std::max(len(r.tl_x, r.tl_y, r.bl_x, r.bl_y), len(r.tr_x, r.tr_y, r.br_x, r.br_y));
  W = std::max(W, 100.0), Hh = std::max(Hh, 100.0);
  compared();
  if (fabs(aw - W) > 1 || fabs(ah - Hh) > 1) fail("automatic output size %ux%u, expected %.1fx%.1f", aw, ah, W, Hh);
  landmarks(o.p, aw, ah, amp, t);
  seen(hash(o.p, (size_t)aw * ah * 4));
}
// anything at all: corners inside, extraction works, process survives
static void survive(u32 w, u32 h, const Bytes &b) {
  In in(b);
  Corners r = fcv_detect_corners(in.p, w, h);
  calls();
  in.check();
  compared();
  bounds(r, w, h);
  Corners *p = fcv_detect_corners_ptr(in.p, w, h);
  calls();
  if (!p) fail("no corners");
  bool same = !memcmp(p, &r, sizeof r);
  free(p);
  if (!same) fail("the two detection functions disagree");
}
static void survive_extract(u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(fcv_extract_document(w, h, in.p, 13, 9));
  in.check();
  if (!o) fail("no extraction");
  u8 x = 0;
  for (int i = 0; i < 13 * 9 * 4; i++) x ^= o.p[i];
  u32 aw = 0, ah = 0;
  Out a(fcv_extract_document_auto(w, h, in.p, &aw, &ah));
  if (!a) fail("no automatic extraction");
  if (aw < 100 || ah < 100 || aw > 2 * (w + h) + 100 || ah > 2 * (w + h) + 100) fail("automatic size %ux%u for a %ux%u image", aw, ah, w, h);
  for (size_t i = 0; i < (size_t)aw * ah * 4; i++) x ^= a.p[i];
  compared();
  seen(x + aw * 256ull + ah * 65536ull);
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    // poses: half sizes 3x3, rotation list, 3 tapers, 9 offsets
    std::vector<int> deg = thorough ? std::vector<int>{-15, -12, -9, -6, -3, 0, 3, 6, 9, 12, 15} : std::vector<int>{0, -12, 7};
    std::vector<int> offs = thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{0, 5, 7};
    struct V { Size s; int a, b, d, p, o, t; };
    auto vs = std::make_shared<std::vector<V>>();
    for (size_t si = 0; si < SZ.size(); si++)
      for (int t = 0; t < (int)TN.size(); t++) {
        if (!thorough && t != (int)(si % TN.size()) && !(si == 0)) continue;
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d : deg) for (int p = 0; p < 3; p++) for (int o : offs) {
          if (!thorough && (a * 7 + b * 5 + p * 3 + o + d + 24 + (int)si) % 2) continue;
          if (!pose(SZ[si], a, b, d, p, o).ok) continue;
          vs->push_back({SZ[si], a, b, d, p, o, t});
        }
      }
    add_list(S, "pose", "every pose of the lattice (3x3 page sizes x rotations x 3 tapers x offsets), 10 image sizes, 5 tones (quick: half of the lattice)", vs->size(),
      [=](u64 i) { V v = (*vs)[i]; Pose p = pose(v.s, v.a, v.b, v.d, v.p, v.o); detect(v.s, p.q, TN[v.t]); },
      [=](u64 i) { V v = (*vs)[i]; return pose(v.s, v.a, v.b, v.d, v.p, v.o).d + ", " + TN[v.t].n; });
    static const Size ZS[] = {{3000, 2000}, {2100, 600}, {600, 2100}, {4000, 300}, {64, 48}, {2000, 2000}, {513, 100}, {5000, 64}, {70, 3000}};
    struct Z { Size s; int a, b, d, p, o, t; };
    auto zs = std::make_shared<std::vector<Z>>();
    for (int z = 0; z < 9; z++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d : {0, -12, 7}) for (int p = 0; p < 3; p++) {
      if (!thorough && (a * 5 + b * 3 + p + d + 12 + z) % ((u64)ZS[z].w * ZS[z].h > 2000000 ? 9 : 4)) continue;
      int o = (a + 2 * b + p) % 9;
      if (pose(ZS[z], a, b, d, p, o).ok) zs->push_back({ZS[z], a, b, d, p, o, (a + b + p) % 5});
    }
    add_list(S, "pose-sizes", "poses of the lattice on 9 further image sizes from 64x48 to 3000x2000 and 5000x64 (quick: a part of the lattice)", zs->size(),
      [=](u64 i) { Z v = (*zs)[i]; Pose p = pose(v.s, v.a, v.b, v.d, v.p, v.o); detect(v.s, p.q, TN[v.t]); },
      [=](u64 i) { Z v = (*zs)[i]; return pose(v.s, v.a, v.b, v.d, v.p, v.o).d + ", " + TN[v.t].n; });
    // pages whose sides bulge outwards a little: more than four peaks
    struct B { int a, b, d, p, e; double f; };
    auto bs = std::make_shared<std::vector<B>>();
    for (double f : {0.01, 0.02, 0.03}) for (int e : {5, 10, 15}) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d : {0, -12, 7}) for (int p = 0; p < 3; p++) {
      if (!thorough && ((a + b + d + p + 24) % 2 || f < 0.02)) continue;
      if (pose({320, 256}, a, b, d, p, 0).ok) bs->push_back({a, b, d, p, e, f});
    }
    add_list(S, "bulging", "pages whose opposite or all sides bulge outwards by up to 3 percent: the four corners are still found (within 5 percent)", bs->size(),
      [=](u64 i) {
        B v = (*bs)[i]; Size s = {320, 256}; Pose po = pose(s, v.a, v.b, v.d, v.p, 0);
        std::vector<P> pg;
        for (int j = 0; j < 4; j++) {
          const P &u = po.q[j], &w = po.q[(j + 1) % 4]; double nx = w.y - u.y, ny = u.x - w.x, l = hypot(nx, ny);
          pg.push_back(u);
          if (v.e >> j & 1) pg.push_back({(u.x + w.x) / 2 + nx / l * v.f * 256, (u.y + w.y) / 2 + ny / l * v.f * 256});
        }
        In in(draw(s, pg.data(), pg.size(), TN[0], 0));
        Corners r = fcv_detect_corners(in.p, s.w, s.h); calls(); in.check(); compared(); bounds(r, s.w, s.h); cornercheck(r, s, po.q, 0.05); },
      [=](u64 i) { B v = (*bs)[i]; return pose({320, 256}, v.a, v.b, v.d, v.p, 0).d + str(", sides %x bulging by %g", v.e, v.f); });
    auto es = std::make_shared<std::vector<V>>();
    for (size_t si = 0; si < SZ.size(); si++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d : {0, -10, 6}) for (int p = 0; p < 3; p++) {
      if (!thorough && (a + b + p + d + (int)si) % 3) continue;
      int o = (int)((a + 3 * b + p + si) % 9);
      if (pose(SZ[si], a, b, d, p, o).ok) es->push_back({SZ[si], a, b, d, p, o, (int)((a + b + si) % 4)});
    }
    add_list(S, "extract", "pages with a position code: fixed output sizes and automatic size show the code at the rectified place", es->size(),
      [=](u64 i) { static const u32 O[4][2] = {{0, 0}, {100, 80}, {0, 0}, {211, 333}}; V v = (*es)[i]; Pose p = pose(v.s, v.a, v.b, v.d, v.p, v.o); extract(v.s, p.q, O[v.t][0], O[v.t][1]); },
      [=](u64 i) { V v = (*es)[i]; return "extraction: " + pose(v.s, v.a, v.b, v.d, v.p, v.o).d + str(", variant %d", v.t); });
    // pages whose left and right sides differ, on small and large pictures
    static const Size XS[] = {{300, 300}, {400, 300}, {300, 500}, {2600, 2200}, {2100, 700}, {700, 2300}, {90, 150}, {128, 64}};
    struct W { Size s; int a, b, d, p, o; double side; int v; };
    auto ws = std::make_shared<std::vector<W>>();
    for (int z = 0; z < 8; z++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d : {0, -9, 6}) for (int p = 0; p < 3; p++) for (double side : {-.1, .1}) {
      bool big = (u64)XS[z].w * XS[z].h > 1000000;
      if (!thorough && (a * 5 + b * 3 + p + d + 12 + z + (side > 0)) % (big ? 9 : 3)) continue;
      int o = (a + 2 * b + p) % 9;
      if (pose(XS[z], a, b, d, p, o, side).ok) ws->push_back({XS[z], a, b, d, p, o, side, (a + b + p) % 3});
    }
    add_list(S, "sides", "pages with unequal left and right sides and extraction on pictures from 90x150 to 2600x2200 (automatic, 100x80 and 2300x500 output)", ws->size(),
      [=](u64 i) { static const u32 O[3][2] = {{0, 0}, {2300, 500}, {100, 80}}; W v = (*ws)[i]; Pose p = pose(v.s, v.a, v.b, v.d, v.p, v.o, v.side); detect(v.s, p.q, TN[v.v]); if (v.s.w >= 300) extract(v.s, p.q, O[v.v][0], O[v.v][1]); },
      [=](u64 i) { W v = (*ws)[i]; return pose(v.s, v.a, v.b, v.d, v.p, v.o, v.side).d + str(", output variant %d", v.v); });
    S.back().chunk = 2, S.back().hang_s = 120;
    // arbitrary images
    Dims d = {{1, 1}, {2, 1}, {1, 2}, {3, 3}, {5, 4}, {16, 16}, {17, 40}, {100, 3}, {3, 100}, {255, 256}, {257, 255}, {300, 200}, {1, 700}, {900, 1}, {513, 511}};
    add_dims(S, "any", "arbitrary contents on 15 sizes", d, {F_HASH, F_EXTREME, F_SPARSE, F_GRAD, F_CHECK, F_RAMP}, 4, 1, [](u64, u32 w, u32 h, const Bytes &b) { survive(w, h, b); }, [](u64) { return str("detection"); });
    add_dims(S, "anyx", "extraction of arbitrary contents on 15 sizes", d, {F_HASH, F_SPARSE, F_GRAD}, 4, 1, [](u64, u32 w, u32 h, const Bytes &b) { survive_extract(w, h, b); }, [](u64) { return str("extraction"); });
    std::vector<Bytes> bw = {px({0, 0, 0, 255}), px({255, 255, 255, 255})};
    add_coded(S, "tiny", "every binary image", thorough ? Dims{{2, 2}, {3, 2}, {3, 3}, {1, 4}} : Dims{{2, 2}, {3, 2}, {1, 3}}, bw, 1, [](u64, u32 w, u32 h, const Bytes &b) { survive(w, h, b); }, [](u64) { return str("detection"); });
    int na = thorough ? 24 : 8;
    add_list(S, "shapes", "triangles, disks, half planes, stripes and slivers at several angles and sizes (0-3 peaks)", na * 3 * 5, [=](u64 i) {
        Dec k(i); double A = 2 * M_PI * k.take(na) / na; double R = (k.take(3) + 1) * 22; int kind = k.v;
        Size s = {200, 160}; Bytes b((size_t)s.w * s.h * 4, 255);
        for (u32 y = 0; y < s.h; y++) for (u32 x = 0; x < s.w; x++) {
          double X = (x - 100.) * cos(A) + (y - 80.) * sin(A), Y = -(x - 100.) * sin(A) + (y - 80.) * cos(A);
          bool in = kind == 0 ? (Y < R * .8 && Y + 1.7 * fabs(X) > -0.2 * R + 1.7 * 0 && fabs(X) * 1.7 < R + Y + 20) : kind == 1 ? X * X + Y * Y < R * R : kind == 2 ? X > R - 44 : kind == 3 ? fabs(X) < R : fabs(X) < R * .3 && fabs(Y) < R * 1.1;
          u8 v = in ? 210 : 70; u8 *p = &b[(y * s.w + x) * 4]; p[0] = p[1] = p[2] = v; }
        survive(s.w, s.h, b); if (i % 4 == 0) survive_extract(s.w, s.h, b); },
      [=](u64 i) { Dec k(i); int a = k.take(na), r = k.take(3); return str("shape %d at angle step %d, size %d", (int)k.v, a, r); });
    add_list(S, "const", "flat images of 6 levels x 3 sizes: corners inside the image", 18, [](u64 i) { static const u32 D[3][2] = {{1, 1}, {64, 48}, {300, 301}}; u32 w = D[i % 3][0], h = D[i % 3][1]; survive(w, h, Bytes((size_t)w * h * 4, (u8)(i / 3 * 51))); survive_extract(w, h, Bytes((size_t)w * h * 4, (u8)(i / 3 * 51))); },
      [](u64 i) { return str("flat image #%d", (int)i); });
    for (auto &s : S) s.chunk = 4, s.hang_s = 60;
  });
}
