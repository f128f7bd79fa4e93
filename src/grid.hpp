// Parameter settings of library calls beyond the operation table, used by the
// checks on build configurations (C24) and schedules (C03).
#pragma once
#include "ops.hpp"

static std::vector<OpCall> GRID;  // small parameters, finely spaced
static std::vector<OpCall> LARGE; // beyond bytes and words

static void grid() {
  auto add = [](const std::string &n, std::function<void(const Api &, const Bufs &, Result &)> f) { GRID.push_back({n, false, f}); };
#define W b.pic->w
#define H b.pic->h
  for (int i = 0; i <= 80; i++) {
    double v = i * 0.25;
    add(fw::str("blur %g", v), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_apply_gaussian_blur(W, H, v, b.rgba), W, H); });
  }
  for (int i = 1; i <= 14; i++) {
    for (int j = 1; j <= 14; j++) {
      double x = i * 0.23, y = j * 0.23;
      add(fw::str("resize %gx%g", x, y), [x, y](const Api &a, const Bufs &b, Result &r) {
        u32 ow = 0, oh = 0;
        u8 *p = (u8 *)a.fcv_resize(W, H, x, y, &ow, &oh, b.rgba);
        img(r, p, ow, oh);
      });
    }
  }
  for (int t = 0; t <= 100; t += 2) {
    add(fw::str("trim %d%%", t), [t](const Api &a, const Bufs &b, Result &r) {
      i32 w = (i32)W, h = (i32)H;
      u8 *p = (u8 *)a.fcv_trim_threshold(&w, &h, 4, b.rgba, t);
      img(r, p, (u64)w, (u64)h, 4);
    });
  }
  for (int rad = 0; rad <= 12; rad++) {
    for (int k = 0; k < 4; k++) {
      add(fw::str("morphology %d radius %d", k, rad), [rad, k](const Api &a, const Bufs &b, Result &r) { img(r, (k == 0 ? a.fcv_binary_dilation_disk : k == 1 ? a.fcv_binary_erosion_disk : k == 2 ? a.fcv_binary_closing_disk : a.fcv_binary_opening_disk)(b.gray, (i32)W, (i32)H, rad), W, H, 1); });
    }
    for (int disk = 0; disk < 2; disk++) {
      for (int ch : {1, 3, 4}) {
        add(fw::str("%s radius %d %d channels", disk ? "disk" : "circle", rad, ch), [=](const Api &a, const Bufs &b, Result &r) {
          u8 *p = Bufs::dup(ch == 4 ? b.pic->rgba : ch == 3 ? b.pic->rgb : b.pic->gray);
          (disk ? a.fcv_draw_disk : a.fcv_draw_circle)(W, H, (u32)ch, "37A0F1", rad, rad / 2, rad / 3 + 1, p);
          r.in_place = true;
          img(r, p, W, H, ch);
        });
      }
    }
  }
  for (int i = 0; i <= 24; i++) {
    double s = i * 0.25;
    add(fw::str("foerstner %g", s), [s](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_foerstner_corner(W, H, b.gray, s), W, H, 2); });
  }
  for (int d = 0; d <= 8; d++) {
    for (int t = 0; t <= 4; t++) {
      add(fw::str("corner_peaks %d %g", d, t * .2), [d, t](const Api &a, const Bufs &b, Result &r) {
        CornerPeaks *p = a.fcv_corner_peaks(W, H, b.resp, (u32)d, t * .2, .1 * t);
        r.ok = p != nullptr;
        if (p) {
          r.m(p->count);
          if (p->points) {
            r.b(p->points, p->count * sizeof(Point2D));
          }
          r.extra = p;
        }
      });
    }
  }
  for (u32 n = 1; n <= 24; n++) {
    for (int bd = 0; bd < 2; bd++) {
      add(fw::str("watershed %u markers %d", n, bd), [n, bd](const Api &a, const Bufs &b, Result &r) {
        Point2D p[32];
        for (u32 k = 0; k < n; k++) {
          p[k] = {(double)(fw::mix(k + 1) % W), (double)(fw::mix(k + 77) % H)};
        }
        img(r, (u8 *)a.fcv_watershed_segmentation(W, H, b.gray, p, n, bd), W, H);
      });
    }
  }
  for (int k = 0; k < 60; k++) {
    add(fw::str("perspective and warp %d", k), [k](const Api &a, const Bufs &b, Result &r) {
      auto v = [&](int j, double base) { return base + (double)(fw::mix(k * 100 + j) % 2000) / 100.0; };
      Corners s = {v(0, 0), v(1, 0), v(2, 70), v(3, 0), v(4, 70), v(5, 60), v(6, 0), v(7, 60)}, d = {0, 0, W * 1.0, 0, W * 1.0, H * 1.0, 0, H * 1.0};
      Matrix3x3 *m = k % 2 ? a.fcv_calculate_perspective_transform(&s, &d) : a.fcv_calculate_perspective_transform(&d, &s);
      if (!m) {
        return;
      }
      img(r, a.fcv_apply_matrix_3x3((i32)W, (i32)H, b.rgba, 12, 11, m), 12, 11);
      r.b(m, sizeof *m);
    });
  }
  for (u32 n = 3; n <= 9; n++) {
    for (int k = 0; k < 12; k++) {
      add(fw::str("sort_corners %u set %d", n, k), [n, k](const Api &a, const Bufs &b, Result &r) {
        Point2D p[16], res[16];
        memset(res, 0, sizeof res);
        for (u32 i = 0; i < n; i++) {
          double an = (double)((i * 5 + k) % n) / n * 6.283185307 + k * 0.3;
          p[i] = {50 + 40 * cos(an), 45 + 35 * sin(an)};
        }
        corners(r, a.sort_corners(100, 90, W * 10, H * 10, p, n, res));
        for (u32 i = 0; i < n; i++) {
          r.md(res[i].x);
          r.md(res[i].y);
        }
      });
    }
  }
  for (u32 i = 0; i < 64; i++) {
    add(fw::str("parse_hex_color set %u", i), [i](const Api &a, const Bufs &b, Result &r) {
      static const char al[] = "09afAFgG#x";
      std::string s;
      u64 m = fw::mix(i * 1000 + W * 31 + H);
      for (u64 k = 0; k < 5 + i % 4; k++, m /= 7) {
        s += al[m % (i % 2 ? 6 : 10)];
      }
      u8 c[3] = {1, 2, 3};
      a.fcv_parse_hex_color(s.c_str(), c, c + 1, c + 2);
      r.ok = true;
      r.m(c[0] << 16 | c[1] << 8 | c[2]);
    });
  }
  // scales far from one, where constants and shared names of the two builds would show
  for (int k = -16; k <= 16; k++) {
    for (int j = 0; j < 8; j++) {
      add(fw::str("warp scale 1e%d form %d", k, j), [k, j](const Api &a, const Bufs &b, Result &r) {
        double s = pow(10, k), e = W * .3;
        static const int F[8][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 0, 1, 0, 1, 1, 0, 0, 1}, {0, 1, 0, 1, 0, 0, 0, 0, 1}, {-1, 0, 3, 0, -1, 3, 0, 0, 1}, {1, 0, 0, 0, 1, 0, 1, 0, 1}, {1, 0, 0, 0, 1, 0, 0, 1, 1}, {1, 0, 0, 0, 1, 0, 1, -1, 0}, {2, 1, 0, 1, 2, 0, 0, 0, 1}};
        double v[9];
        for (int q = 0; q < 9; q++) {
          v[q] = F[j][q] * s;
        }
        if (j >= 4) { // only the last row (or all others) scaled
          for (int q = 0; q < 6; q++) {
            v[q] = F[j][q] * (j == 7 ? 1 : s * e);
          }
        }
        Matrix3x3 m = {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]};
        img(r, a.fcv_apply_matrix_3x3((i32)W, (i32)H, b.rgba, 9, 7, &m), 9, 7);
      });
      add(fw::str("perspective scale 1e%d form %d", k, j), [k, j](const Api &a, const Bufs &b, Result &r) {
        double s = pow(10, k), t = j & 4 ? s : 1, g = j & 2 ? s : 0;
        // a quadrilateral of size t, one corner moved by g towards a degenerate one
        Corners q = {0, 0, t, 0, j & 2 ? t / 2 + g : t, j & 2 ? g : t, 0, t}, d = {0, 0, W * 1.0, 0, W * 1.0, H * 1.0, 0, H * 1.0};
        Matrix3x3 *m = j & 1 ? a.fcv_calculate_perspective_transform(&q, &d) : a.fcv_calculate_perspective_transform(&d, &q);
        r.ok = m != nullptr;
        if (m) {
          img(r, a.fcv_apply_matrix_3x3((i32)W, (i32)H, b.rgba, 9, 7, m), 9, 7);
          r.b(m, sizeof *m);
        }
      });
    }
    double v = pow(10, k);
    add(fw::str("blur 1e%d", k), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_apply_gaussian_blur(W, H, v, b.rgba), W, H); });
    add(fw::str("foerstner 1e%d", k), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_foerstner_corner(W, H, b.gray, v), W, H, 2); });
    for (int sg = -1; sg <= 1; sg += 2) {
      for (int base = 1; base <= 3; base++) {
        add(fw::str("resize %d%+de%d", base, sg, k), [v, sg, base](const Api &a, const Bufs &b, Result &r) {
          double f = base + sg * v;
          if (f > 8) {
            f = 8;
          }
          u32 ow = 0, oh = 0;
          u8 *p = (u8 *)a.fcv_resize(W, H, f, base == 2 ? 1 : f, &ow, &oh, b.rgba);
          img(r, p, ow, oh);
        });
      }
    }
    add(fw::str("trim 1e%d%%", k), [v](const Api &a, const Bufs &b, Result &r) {
      i32 w = (i32)W, h = (i32)H;
      u8 *p = (u8 *)a.fcv_trim_threshold(&w, &h, 4, b.rgba, v);
      img(r, p, (u64)w, (u64)h, 4);
    });
  }
  for (int rad = -2; rad <= 26; rad++) {
    for (int c = -3; c <= 6; c++) {
      for (int disk = 0; disk < 2; disk++) {
        add(fw::str("%s radius %g centre %g %g", disk ? "disk" : "circle", rad * .5, c * .75, c * 1.3 + 1), [=](const Api &a, const Bufs &b, Result &r) {
          u8 *p = Bufs::dup(b.pic->rgba);
          (disk ? a.fcv_draw_disk : a.fcv_draw_circle)(W, H, 4, "#12Fe9d", rad * .5, c * .75, c * 1.3 + 1, p);
          r.in_place = true;
          img(r, p, W, H, 4);
        });
      }
    }
  }
  for (int t = -1; t <= 41; t++) {
    add(fw::str("trim %g%%", t * .3), [t](const Api &a, const Bufs &b, Result &r) {
      i32 w = (i32)W, h = (i32)H;
      u8 *p = (u8 *)a.fcv_trim_threshold(&w, &h, 4, b.rgba, t * .3);
      img(r, p, (u64)w, (u64)h, 4);
    });
  }
  for (int k = 0; k <= 40; k++) {
    for (int ch : {1, 3, 4}) {
      add(fw::str("border %d, %d channels", k, ch), [k, ch](const Api &a, const Bufs &b, Result &r) {
        u32 ow = 0, oh = 0;
        u8 *p = (u8 *)a.fcv_add_border(W, H, (u32)ch, "b0c1A2", (u32)k, ch == 4 ? b.rgba : ch == 3 ? b.rgb : b.gray, &ow, &oh);
        img(r, p, ow, oh, ch);
      });
    }
    for (int j = 0; j <= 3; j++) {
      add(fw::str("corner_peaks distance %d thresholds %g %g", k, .05 * j, .3 * j), [k, j](const Api &a, const Bufs &b, Result &r) {
        CornerPeaks *p = a.fcv_corner_peaks(W, H, b.resp, (u32)k, .05 * j, .3 * j);
        r.ok = p != nullptr;
        if (p) {
          r.m(p->count);
          if (p->points) {
            r.b(p->points, p->count * sizeof(Point2D));
          }
          r.extra = p;
        }
      });
    }
  }
  for (int t = 0; t < 256; t += 3) {
    add(fw::str("global threshold %d", t), [t](const Api &a, const Bufs &b, Result &r) {
      u8 *p = Bufs::dup(b.pic->gray);
      a.fcv_apply_global_threshold((size_t)W * H, p, (u8)t);
      r.in_place = true;
      img(r, p, W, H, 1);
    });
  }
#undef W
#undef H
}

static void grid_large() {
  auto add = [](const std::string &n, std::function<void(const Api &, const Bufs &, Result &)> f) { LARGE.push_back({n, false, f}); };
#define W b.pic->w
#define H b.pic->h
  for (double v : {20.5, 33.0, 50.5, 61.0, 64.0, 99.75, 127.5, 128.0, 200.25, 255.0, 256.0, 513.5, 1000.0}) {
    add(fw::str("blur %g", v), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_apply_gaussian_blur(W, H, v, b.rgba), W, H); });
  }
  for (double x : {0.004, 0.01, 0.124, 0.5, 1.0, 2.0, 4.75, 12.5, 31.0}) {
    for (double y : {0.004, 0.01, 0.124, 0.5, 1.0, 2.0, 4.75, 12.5, 31.0}) {
      add(fw::str("resize %gx%g", x, y), [x, y](const Api &a, const Bufs &b, Result &r) {
        u32 ow = 0, oh = 0;
        if (W * x * H * y > 3e5) {
          r.ok = true;
          return;
        }
        u8 *p = (u8 *)a.fcv_resize(W, H, x, y, &ow, &oh, b.rgba);
        img(r, p, ow, oh);
      });
    }
  }
  for (int rad : {13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 1000, 65535, 65536, 2147483647}) {
    for (int k = 0; k < 4; k++) {
      add(fw::str("morphology %d radius %d", k, rad), [rad, k](const Api &a, const Bufs &b, Result &r) {
        if ((k >= 2 && rad > 1000) || (rad > 40 && W > 600 && H > 40)) { // (closing pads the picture)
          r.ok = true;
          return;
        }
        img(r, (k == 0 ? a.fcv_binary_dilation_disk : k == 1 ? a.fcv_binary_erosion_disk : k == 2 ? a.fcv_binary_closing_disk : a.fcv_binary_opening_disk)(b.gray, (i32)W, (i32)H, rad), W, H, 1);
      });
    }
  }
  for (double rad : {15.5, 31., 63., 64., 100., 127., 128., 255., 256., 300.5, 700., 5000., 46341., 65536.}) {
    for (int disk = 0; disk < 2; disk++) {
      for (int ch : {1, 3, 4}) {
        for (int at = 0; at < 4; at++) {
          add(fw::str("%s radius %g %d channels place %d", disk ? "disk" : "circle", rad, ch, at), [=](const Api &a, const Bufs &b, Result &r) {
            u8 *p = Bufs::dup(ch == 4 ? b.pic->rgba : ch == 3 ? b.pic->rgb : b.pic->gray);
            double x = at == 0 ? W / 2 : at == 1 ? rad + W / 3 : at == 2 ? -rad + 3 : 300.25, y = at == 0 ? H / 2 : at == 3 ? rad + H / 2 : -2.5;
            (disk ? a.fcv_draw_disk : a.fcv_draw_circle)(W, H, (u32)ch, "37A0F1", disk ? std::min(rad, 5000.) : rad, x, y, p);
            r.in_place = true;
            img(r, p, W, H, ch);
          });
        }
      }
    }
  }
  for (double s : {6.5, 8.0, 12.25, 20.0, 50.0, 130.0, 300.0}) {
    add(fw::str("foerstner %g", s), [s](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_foerstner_corner(W, H, b.gray, s), W, H, 2); });
  }
  for (u32 d : {50u, 127u, 128u, 254u, 255u, 256u, 257u, 258u, 300u, 65535u, 65536u, 65537u, 65538u, 1000000u, 2147483648u, 4294967295u}) {
    for (double t : {0., .05, .4, .9}) {
      add(fw::str("corner_peaks %u %g", d, t), [d, t](const Api &a, const Bufs &b, Result &r) {
        if (t < .4 && (u64)W * H > 20000) {
          r.ok = true;
          return;
        }
        CornerPeaks *p = a.fcv_corner_peaks(W, H, b.resp, d, t, t);
        r.ok = p != nullptr;
        if (p) {
          r.m(p->count);
          if (p->points) {
            r.b(p->points, p->count * sizeof(Point2D));
          }
          r.extra = p;
        }
      });
    }
  }
  for (u32 n : {25u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 258u, 300u, 520u, 1000u, 3000u}) {
    for (int bd = 0; bd < 2; bd++) {
      add(fw::str("watershed %u markers %d", n, bd), [n, bd](const Api &a, const Bufs &b, Result &r) {
        if ((u64)W * H > 20000) {
          r.ok = true;
          return;
        }
        std::vector<Point2D> p(n);
        for (u32 k = 0; k < n; k++) {
          p[k] = {(double)(fw::mix(k + 1) % W), (double)(fw::mix(k + 77) % H)};
        }
        img(r, (u8 *)a.fcv_watershed_segmentation(W, H, b.gray, p.data(), n, bd), W, H);
      });
    }
  }
  for (u32 n : {3u, 10u, 16u, 17u, 32u, 33u, 40u, 64u, 65u, 100u, 128u, 129u, 256u, 257u, 300u, 1000u}) {
    for (int k = 0; k < 5; k++) {
      add(fw::str("sort_corners %u set %d", n, k), [n, k](const Api &a, const Bufs &b, Result &r) {
        std::vector<Point2D> p(n), res(std::max(4u, n));
        memset((void *)res.data(), 0, res.size() * sizeof(Point2D));
        for (u32 i = 0; i < n; i++) {
          double an = (double)((i * 7 + k) % n) / n * 6.283185307 + k * 0.3;
          p[i] = n == 3 ? Point2D{i == (u32)k % 3 ? 80. + k : 5., i == 1 ? 3. : 60. + k} : Point2D{5000 + 4000 * cos(an), 4500 + 3500 * sin(an)};
        }
        corners(r, a.sort_corners(100, 90, W * 10, H * 10, p.data(), n, res.data()));
        r.m(fw::hash((u8 *)res.data(), res.size() * sizeof(Point2D)));
      });
    }
  }
  for (u32 k : {41u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 301u, 400u}) {
    for (int ch : {1, 3, 4}) {
      add(fw::str("border %u, %d channels", k, ch), [k, ch](const Api &a, const Bufs &b, Result &r) {
        u32 ow = 0, oh = 0;
        if ((double)(W + 2 * k) * (H + 2 * k) > 1.5e6) {
          r.ok = true;
          return;
        }
        u8 *p = (u8 *)a.fcv_add_border(W, H, (u32)ch, "b0c1A2", k, ch == 4 ? b.rgba : ch == 3 ? b.rgb : b.gray, &ow, &oh);
        img(r, p, ow, oh, ch);
      });
    }
  }
  for (int k = 0; k < 8; k++) {
    add(fw::str("perspective to a larger picture %d", k), [k](const Api &a, const Bufs &b, Result &r) {
      double w = W, h = H;
      Corners s = {0, 0, 700, 0, 700, 300, 0, 300}, d = {k * .5, k * .25, w - k, k * 1., w - 1.5 * k, h - 1, 0, h - .5 * k};
      Matrix3x3 *m = a.fcv_calculate_perspective_transform(&s, &d);
      if (m) {
        img(r, a.fcv_apply_matrix_3x3((i32)W, (i32)H, b.rgba, k % 2 ? 700 : 3, k % 2 ? 30 : 4200, m), k % 2 ? 700 : 3, k % 2 ? 30 : 4200);
        r.b(m, sizeof *m);
      }
    });
  }
  for (double v : {(double)NAN, (double)INFINITY, -1., 1e300}) { // what is refused
    add(fw::str("perspective of corners with %g", v), [v](const Api &a, const Bufs &b, Result &r) {
      Corners s = {0, 0, W * 1.0, 0, W * 1.0, H * 1.0, 0, v}, d = {0, 0, W * 1.0, 0, W * 1.0, H * 1.0, 0, H * 1.0};
      for (int i = 0; i < 2; i++) {
        Matrix3x3 *m = i ? a.fcv_calculate_perspective_transform(&s, &d) : a.fcv_calculate_perspective_transform(&d, &s);
        r.ok = m != nullptr;
        if (m) {
          r.b(m, sizeof *m);
        }
      }
    });
    add(fw::str("blur %g", v), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_apply_gaussian_blur(W, H, v, b.rgba), W, H); });
    add(fw::str("trim %g%%", v), [v](const Api &a, const Bufs &b, Result &r) {
      i32 w = (i32)W, h = (i32)H;
      u8 *p = (u8 *)a.fcv_trim_threshold(&w, &h, 4, b.rgba, v);
      img(r, p, (u64)w, (u64)h, 4);
    });
    add(fw::str("circle and disk %g", v), [v](const Api &a, const Bufs &b, Result &r) {
      u8 *p = Bufs::dup(b.pic->rgba);
      a.fcv_draw_circle(W, H, 4, "112233", v, 3, 3, p);
      a.fcv_draw_disk(W, H, 4, "112233", 3, v, 3, p);
      a.fcv_draw_circle(W, H, 4, "112233", 3, 3, v, p);
      r.in_place = true;
      img(r, p, W, H, 4);
    });
  }
#undef W
#undef H
}
