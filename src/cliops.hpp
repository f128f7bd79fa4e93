// The documented meaning of every CLI operation in terms of the library.
#pragma once
#include "cli.hpp"

namespace cli {
struct Env { // what the tool prints for the corner operations
  std::vector<Corners> json, text;
};

inline bool take(Img &m, u8 *p, u32 w, u32 h) {
  fw::calls();
  if (!p) {
    return false;
  }
  m.px.assign(p, p + (size_t)w * h * 4);
  m.w = w;
  m.h = h;
  free(p);
  return true;
}
inline bool gray(Img &m) { return take(m, (u8 *)fcv_grayscale(m.w, m.h, m.px.data()), m.w, m.h); }
inline bool blur(Img &m, double r) { return take(m, (u8 *)fcv_apply_gaussian_blur(m.w, m.h, r, m.px.data()), m.w, m.h); }
inline bool resize(Img &m, double fx, double fy) {
  u32 ow = 0, oh = 0;
  u8 *p = (u8 *)fcv_resize(m.w, m.h, fx, fy, &ow, &oh, m.px.data());
  return take(m, p, ow, oh);
}
inline bool resize_to(Img &m, u32 w, u32 h) { // must give exactly w x h
  Img n = m;
  if (!resize(n, (double)w / m.w, (double)h / m.h)) {
    return false;
  }
  if (n.w != w || n.h != h) {
    fw::fail("library resize of %ux%u to %ux%u gives %ux%u", m.w, m.h, w, h, n.w, n.h);
  }
  m = n;
  return true;
}
inline bool threshold(Img &m) { return take(m, (u8 *)fcv_otsu_threshold_rgba(m.w, m.h, false, m.px.data()), m.w, m.h); }
inline bool bw(Img &m, bool smooth) { return take(m, (u8 *)fcv_bw_smart(m.w, m.h, smooth, m.px.data()), m.w, m.h); }
inline bool expand(Img &m, u8 *g) {
  fw::calls();
  if (!g) {
    return false;
  }
  bool ok = take(m, (u8 *)fcv_single_to_multichannel(m.w, m.h, g), m.w, m.h);
  free(g);
  return ok;
}
inline bool sobel(Img &m) { return expand(m, (u8 *)fcv_sobel_edge_detection(m.w, m.h, 4, m.px.data())); }
inline bool circle(Img &m, const char *hex, double r, double x, double y) {
  fw::calls();
  fcv_draw_circle(m.w, m.h, 4, hex, r, x, y, m.px.data());
  return true;
}
inline bool disk(Img &m, const char *hex, double r, double x, double y) {
  fw::calls();
  fcv_draw_disk(m.w, m.h, 4, hex, r, x, y, m.px.data());
  return true;
}
inline bool watershed(Img &m, std::vector<Point2D> pts) {
  u8 *g = (u8 *)fcv_rgba_to_grayscale(m.w, m.h, m.px.data());
  if (!g) {
    return false;
  }
  u8 *p = (u8 *)fcv_watershed_segmentation(m.w, m.h, g, pts.data(), (u32)pts.size(), false);
  free(g);
  return take(m, p, m.w, m.h);
}
// window clamped to the image, negative offsets mean 0
inline bool crop(Img &m, i64 w, i64 h, i64 x, i64 y) {
  x = std::max<i64>(0, x);
  y = std::max<i64>(0, y);
  if (w <= 0 || h <= 0 || x >= m.w || y >= m.h) {
    return false;
  }
  w = std::min<i64>(w, m.w - x);
  h = std::min<i64>(h, m.h - y);
  u8 *p = (u8 *)fcv_crop(m.w, m.h, 4, m.px.data(), (u32)x, (u32)y, (u32)w, (u32)h);
  return take(m, p, (u32)w, (u32)h);
}
inline bool flip_x(Img &m) { return take(m, (u8 *)fcv_flip_x(m.w, m.h, m.px.data()), m.w, m.h); }
inline bool flip_y(Img &m) { return take(m, (u8 *)fcv_flip_y(m.w, m.h, m.px.data()), m.w, m.h); }
inline bool rotate(Img &m, int deg) {
  int q = (((deg / 90) % 4) + 4) % 4;
  if (q == 1) {
    return take(m, (u8 *)fcv_rotate_90_cw(m.w, m.h, m.px.data()), m.h, m.w);
  }
  if (q == 2) {
    return take(m, (u8 *)fcv_rotate_180(m.w, m.h, m.px.data()), m.w, m.h);
  }
  if (q == 3) {
    return take(m, (u8 *)fcv_rotate_270_cw(m.w, m.h, m.px.data()), m.h, m.w);
  }
  return true;
}
inline bool trim(Img &m) {
  i32 w = (i32)m.w, h = (i32)m.h;
  u8 *p = (u8 *)fcv_trim(&w, &h, 4, m.px.data());
  return take(m, p, (u32)w, (u32)h);
}
inline bool trim_pct(Img &m, double pct) {
  i32 w = (i32)m.w, h = (i32)m.h;
  u8 *p = (u8 *)fcv_trim_threshold(&w, &h, 4, m.px.data(), pct);
  return take(m, p, (u32)w, (u32)h);
}
inline bool histogram(Img &m) {
  u32 w = 0, h = 0;
  u8 *p = (u8 *)fcv_generate_histogram(m.w, m.h, 4, m.px.data(), &w, &h);
  return take(m, p, w, h);
}
inline bool border(Img &m, const char *hex, u32 b) {
  u32 w = 0, h = 0;
  u8 *p = (u8 *)fcv_add_border(m.w, m.h, 4, hex, b, m.px.data(), &w, &h);
  return take(m, p, w, h);
}
inline bool morph(Img &m, int kind, int r) {
  u8 *g = (u8 *)fcv_rgba_to_grayscale(m.w, m.h, m.px.data());
  if (!g) {
    return false;
  }
  u8 *p = kind == 0 ? fcv_binary_erosion_disk(g, m.w, m.h, r) : kind == 1 ? fcv_binary_dilation_disk(g, m.w, m.h, r)
                                                            : kind == 2   ? fcv_binary_closing_disk(g, m.w, m.h, r)
                                                                          : fcv_binary_opening_disk(g, m.w, m.h, r);
  free(g);
  return expand(m, p);
}
inline bool extract(Img &m) {
  u32 w = 0, h = 0;
  u8 *p = fcv_extract_document_auto(m.w, m.h, m.px.data(), &w, &h);
  return take(m, p, w, h);
}
inline bool extract_to(Img &m, u32 w, u32 h) {
  u8 *p = fcv_extract_document(m.w, m.h, m.px.data(), w, h);
  return take(m, p, w, h);
}
inline bool detect(Img &m, Env *e) {
  fw::calls();
  Corners *c = fcv_detect_corners_ptr(m.px.data(), (i32)m.w, (i32)m.h);
  if (!c) {
    return false;
  }
  if (e) {
    e->json.push_back(*c);
  }
  free(c);
  return true;
}
inline bool draw_corners(Img &m, Env *e) {
  fw::calls();
  Corners *c = fcv_detect_corners_ptr(m.px.data(), (i32)m.w, (i32)m.h);
  if (!c) {
    return false;
  }
  double r = std::min(m.w, m.h) * 0.02;
  fcv_draw_disk(m.w, m.h, 4, "FF0000", r, c->tl_x, c->tl_y, m.px.data());
  fcv_draw_disk(m.w, m.h, 4, "FF0000", r, c->tr_x, c->tr_y, m.px.data());
  fcv_draw_disk(m.w, m.h, 4, "FF0000", r, c->br_x, c->br_y, m.px.data());
  fcv_draw_disk(m.w, m.h, 4, "FF0000", r, c->bl_x, c->bl_y, m.px.data());
  if (e) {
    e->text.push_back(*c);
  }
  free(c);
  return true;
}

struct Op {
  std::string text;
  std::function<bool(Img &, Env *)> f;
};

// numbers in a text, in order
inline std::vector<double> numbers(const std::string &s) {
  std::vector<double> v;
  const char *p = s.c_str();
  while (*p) {
    if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) {
      char *e;
      v.push_back(strtod(p, &e));
      p = e;
    }
    else {
      p++;
    }
  }
  return v;
}

// the corners printed on standard output, in pipeline order
inline void expect_corners(const Args &a, const std::string &out, const std::vector<Corners> &want) {
  std::vector<double> v = numbers(out);
  if (v.size() != want.size() * 8) {
    fw::fail("%s: prints %zu coordinates instead of %zu: %.300s", show(a).c_str(), v.size(), want.size() * 8, out.c_str());
  }
  for (size_t i = 0; i < want.size(); i++) {
    const Corners &c = want[i];
    double w[8] = {c.tl_x, c.tl_y, c.tr_x, c.tr_y, c.br_x, c.br_y, c.bl_x, c.bl_y};
    for (int k = 0; k < 8; k++) {
      if (!(fabs(v[i * 8 + k] - w[k]) <= 0.501)) {
        fw::fail("%s: printed coordinate %d is %g instead of %g", show(a).c_str(), k, v[i * 8 + k], w[k]);
      }
    }
  }
}

inline Img image(u32 w, u32 h, int kind, u64 seed = 0) {
  Img m;
  m.w = w;
  m.h = h;
  m.px = fill(kind, w, h, 4, seed);
  return m;
}
// a bright page on a dark ground with a few marks, for the corner operations
inline Img page(u32 w, u32 h) {
  Img m;
  m.w = w;
  m.h = h;
  m.px.resize((size_t)w * h * 4);
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) {
      u8 *p = &m.px[((size_t)y * w + x) * 4];
      bool in = x > w * 0.15 + y * 0.03 && x < w * 0.85 && y > h * 0.12 + x * 0.02 && y < h * 0.88;
      p[0] = in ? 235 : 30;
      p[1] = in ? 232 : 40;
      p[2] = in ? 225 : 35;
      p[3] = 255;
    }
  }
  return m;
}

// run `args` (input in.*, output outname) and compare with ops applied to img
inline void judge(const Args &a, const Res &r, const Img &img, const std::vector<const Op *> &ops, const std::string &outname, bool jpeg = false, const std::string *before = nullptr) {
  Img m = img;
  Env e;
  bool ok = true;
  for (auto *o : ops) {
    ok = o->f(m, &e);
    if (!ok) {
      break;
    }
  }
  if (!ok) {
    expect_refused(a, r, outname, before);
    return;
  }
  sane(a, r);
  if (r.status != 0) {
    fw::fail("%s: exit status %d for a valid pipeline; stderr: %.400s", show(a).c_str(), r.status, r.err.c_str());
  }
  std::string file;
  if (!read_file(path(outname), file)) {
    fw::fail("%s: exit status 0 but no output file", show(a).c_str());
  }
  if (jpeg) {
    expect_similar(a, file, m);
  }
  else {
    if (file.size() < 8 || memcmp(file.data(), "\x89PNG\r\n\x1a\n", 8) != 0) {
      fw::fail("%s: the output is not a PNG", show(a).c_str());
    }
    expect_same(a, file, m);
  }
  if (!e.json.empty() && !e.text.empty()) {
    return; // order of the two kinds is checked by pairs of one kind only
  }
  if (!e.json.empty()) {
    expect_corners(a, r.out, e.json);
  }
  if (!e.text.empty()) {
    expect_corners(a, r.out, e.text);
  }
}
} // namespace cli
