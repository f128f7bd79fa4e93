// Registry of library calls with concrete parameters, used by the checks on
// histories (C02), schedules (C03), allocation faults (C04) and build
// configurations (C24). Calls go through a function table, so that the same
// registry drives several builds of the library.
#pragma once
#include "lib.hpp"
#include <sys/mman.h>
#include <unistd.h>

#define API_LIST(X)                                                                                                                                                                                     \
  X(fcv_apply_gaussian_blur) X(fcv_grayscale) X(fcv_grayscale_stretch) X(fcv_apply_global_threshold) X(fcv_otsu_threshold_rgba) X(fcv_bw_smart) X(fcv_resize) X(fcv_convert_to_binary)                  \
    X(fcv_corner_peaks) X(fcv_crop) X(fcv_draw_circle) X(fcv_draw_disk) X(fcv_set_circle_pixel) X(fcv_draw_circle_points) X(fcv_fill_disk_lines) X(fcv_add_border) X(fcv_get_exif_orientation)         \
      X(fcv_extract_document) X(fcv_extract_document_auto) X(fcv_flip_x) X(fcv_flip_y) X(fcv_transpose) X(fcv_transverse) X(fcv_foerstner_corner) X(fcv_generate_histogram) X(fcv_parse_hex_color)     \
        X(fcv_calculate_perspective_transform) X(fcv_apply_matrix_3x3) X(fcv_detect_corners) X(fcv_detect_corners_ptr) X(fcv_rgba_to_grayscale) X(fcv_rotate_90_cw) X(fcv_rotate_180)                   \
          X(fcv_rotate_270_cw) X(fcv_single_to_multichannel) X(fcv_sobel_edge_detection) X(sort_corners) X(fcv_trim) X(fcv_trim_threshold) X(fcv_watershed_segmentation)                              \
            X(fcv_binary_dilation_disk) X(fcv_binary_erosion_disk) X(fcv_binary_closing_disk) X(fcv_binary_opening_disk)

struct Api {
#define X(f) decltype(&::f) f;
  API_LIST(X)
#undef X
};
#ifndef OPS_NO_DIRECT
static Api direct_api() {
  Api a;
#define X(f) a.f = &::f;
  API_LIST(X)
#undef X
  return a;
}
#endif

static void (*lib_free)(void *) = free;
// memory of the caller that in-place operations work on
static void *(*own_alloc)(size_t) = malloc;
static void (*own_free)(void *) = free;

struct Pic {
  std::string name;
  u32 w, h;
  Bytes rgba, gray, rgb, resp; // resp: two channels
};

static Pic make_pic(const std::string &name, u32 w, u32 h, const Bytes &rgba) {
  Pic p;
  p.name = name;
  p.w = w;
  p.h = h;
  p.rgba = rgba;
  for (size_t i = 0; i < (size_t)w * h; i++) {
    for (int c = 0; c < 3; c++) {
      p.rgb.push_back(rgba[i * 4 + c]);
    }
    p.gray.push_back(rgba[i * 4 + 1]);
    p.resp.push_back(rgba[i * 4]);
    p.resp.push_back(rgba[i * 4 + 2]);
  }
  return p;
}
static Pic filled_pic(u32 w, u32 h, int kind, u64 seed) { return make_pic(fw::str("%ux%u %s", w, h, fill_name[kind]), w, h, fill(kind, w, h, 4, seed)); }
// black and white blobs, so that morphology and segmentation do something
static Pic blob_pic(u32 w, u32 h, u64 seed) {
  Bytes b((size_t)w * h * 4);
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) {
      u64 m = fw::mix((x / 3) * 7919 + (y / 2) * 104729 + seed * 31 + 5);
      u8 v = m & 1 ? 255 : 0;
      u8 *p = &b[((size_t)y * w + x) * 4];
      p[0] = v;
      p[1] = v;
      p[2] = (m & 6) ? v : 128;
      p[3] = m & 8 ? 255 : 90;
    }
  }
  return make_pic(fw::str("%ux%u blobs", w, h), w, h, b);
}
static Pic page_pic(u32 w, u32 h) {
  Bytes b((size_t)w * h * 4);
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) {
      u8 *p = &b[((size_t)y * w + x) * 4];
      bool in = x > w * 0.15 + y * 0.03 && x < w * 0.85 && y > h * 0.12 + x * 0.02 && y < h * 0.88;
      p[0] = in ? 235 : 30;
      p[1] = in ? 232 : 40;
      p[2] = in ? 225 : 35;
      p[3] = 255;
    }
  }
  return make_pic(fw::str("%ux%u page", w, h), w, h, b);
}

// exact-size copies of a picture, handed to the library
struct Bufs {
  const Pic *pic;
  u8 *rgba, *gray, *rgb, *resp;
  static u8 *dup(const Bytes &b) {
    u8 *p = (u8 *)own_alloc(b.size() ? b.size() : 1);
    memcpy(p, b.data(), b.size());
    return p;
  }
  explicit Bufs(const Pic &p) : pic(&p), rgba(dup(p.rgba)), gray(dup(p.gray)), rgb(dup(p.rgb)), resp(dup(p.resp)) {}
  Bufs(const Bufs &) = delete;
  ~Bufs() {
    own_free(rgba);
    own_free(gray);
    own_free(rgb);
    own_free(resp);
  }
  void load(const Pic &p) { // new contents in the same memory (same size)
    pic = &p;
    memcpy(rgba, p.rgba.data(), p.rgba.size());
    memcpy(gray, p.gray.data(), p.gray.size());
    memcpy(rgb, p.rgb.data(), p.rgb.size());
    memcpy(resp, p.resp.data(), p.resp.size());
  }
  const char *intact() const { // nullptr, or the buffer that was changed
    return memcmp(rgba, pic->rgba.data(), pic->rgba.size()) ? "RGBA image" : memcmp(gray, pic->gray.data(), pic->gray.size()) ? "gray image" : memcmp(rgb, pic->rgb.data(), pic->rgb.size()) ? "RGB image" : memcmp(resp, pic->resp.data(), pic->resp.size()) ? "response image" : nullptr;
  }
};

struct Result {
  bool ok = false;
  const char *modified = nullptr; // argument that was changed
  int nmeta = 0, nblocks = 0;
  u64 meta[40];
  u8 *block[2];
  size_t len[2];
  void *extra = nullptr; // only to be freed
  bool in_place = false; // block 0 is the caller's own
  u64 digest = 0;
  void m(u64 v) { meta[nmeta++] = v; }
  void md(double v) {
    if (v != v) {
      v = NAN;
    }
    u64 u;
    memcpy(&u, &v, 8);
    m(u);
  }
  void b(void *p, size_t n) {
    block[nblocks] = (u8 *)p;
    len[nblocks++] = n;
  }
  u64 compute() const {
    u64 h = ok ? 7 : 3;
    for (int i = 0; i < nmeta; i++) {
      h = fw::mix(h ^ meta[i]) + i;
    }
    for (int i = 0; i < nblocks; i++) {
      h = fw::hash(block[i], len[i], h);
    }
    return h;
  }
  void release() {
    for (int i = 0; i < nblocks; i++) {
      if (in_place && i == 0) {
        own_free(block[0]);
      }
      else {
        lib_free(block[i]);
      }
    }
    if (extra) {
      lib_free(extra);
    }
    nblocks = 0;
    extra = nullptr;
  }
};

struct OpCall {
  std::string name;
  bool heavy; // runs the whole document detection
  std::function<void(const Api &, const Bufs &, Result &)> f;
};

static std::vector<OpCall> OPS;

// picture-sized results
static void img(Result &r, u8 *p, u64 w, u64 h, int ch = 4) {
  r.ok = p != nullptr;
  if (p) {
    r.m(w);
    r.m(h);
    r.b(p, (size_t)w * h * ch);
  }
}
static void corners(Result &r, const Corners &c) {
  r.ok = true;
  for (double v : {c.tl_x, c.tl_y, c.tr_x, c.tr_y, c.br_x, c.br_y, c.bl_x, c.bl_y}) {
    r.md(v);
  }
}

static void register_ops() {
  if (!OPS.empty()) {
    return;
  }
  auto add = [](const std::string &n, std::function<void(const Api &, const Bufs &, Result &)> f, bool heavy = false) { OPS.push_back({n, heavy, f}); };
#define W b.pic->w
#define H b.pic->h
#define SIMPLE(fn) add(#fn, [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_##fn(W, H, b.rgba), W, H); })
  SIMPLE(grayscale);
  SIMPLE(grayscale_stretch);
  SIMPLE(flip_x);
  SIMPLE(flip_y);
  SIMPLE(rotate_180);
#define SWAPPED(fn) add(#fn, [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_##fn(W, H, b.rgba), H, W); })
  SWAPPED(transpose);
  SWAPPED(transverse);
  SWAPPED(rotate_90_cw);
  SWAPPED(rotate_270_cw);
  add("rgba_to_grayscale", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_rgba_to_grayscale(W, H, b.rgba), W, H, 1); });
  add("single_to_multichannel", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_single_to_multichannel(W, H, b.gray), W, H); });
  for (int t : {0, 127, 254}) {
    add(fw::str("global_threshold %d", t), [t](const Api &a, const Bufs &b, Result &r) {
      u8 *p = Bufs::dup(b.pic->gray);
      a.fcv_apply_global_threshold(W * H, p, (u8)t);
      r.in_place = true;
      img(r, p, W, H, 1);
    });
  }
  for (bool d : {false, true}) {
    add(fw::str("otsu %d", d), [d](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_otsu_threshold_rgba(W, H, d, b.rgba), W, H); });
    add(fw::str("bw_smart %d", d), [d](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_bw_smart(W, H, d, b.rgba), W, H); });
  }
  for (double v : {0.0, 0.6, 1.0, 2.0, 2.4, 2.7, 5.0, 12.0, -1.0}) {
    add(fw::str("blur %g", v), [v](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_apply_gaussian_blur(W, H, v, b.rgba), W, H); });
  }
  for (auto f : {std::pair<double, double>{.5, .5}, {.52, .5}, {2, 2}, {1.5, .7}, {.3, 2.2}, {1, 1}, {0, 1}}) {
    add(fw::str("resize %gx%g", f.first, f.second), [f](const Api &a, const Bufs &b, Result &r) {
      u32 ow = 0, oh = 0;
      u8 *p = (u8 *)a.fcv_resize(W, H, f.first, f.second, &ow, &oh, b.rgba);
      img(r, p, ow, oh);
    });
  }
  add("crop corner", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_crop(W, H, 4, b.rgba, 0, 0, (W + 1) / 2, (H + 1) / 2), (W + 1) / 2, (H + 1) / 2); });
  add("crop rgb inner", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_crop(W, H, 3, b.rgb, W / 3, H / 3, 1, H - H / 3), 1, H - H / 3, 3); });
  add("crop gray all", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_crop(W, H, 1, b.gray, 0, 0, W, H), W, H, 1); });
  add("crop outside", [](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_crop(W, H, 4, b.rgba, 1, 0, W, H), W, H); });
  add("trim", [](const Api &a, const Bufs &b, Result &r) {
    i32 w = (i32)W, h = (i32)H;
    u8 *p = (u8 *)a.fcv_trim(&w, &h, 4, b.rgba);
    img(r, p, (u64)w, (u64)h);
  });
  for (double t : {10., 45.}) {
    add(fw::str("trim %g%%", t), [t](const Api &a, const Bufs &b, Result &r) {
      i32 w = (i32)W, h = (i32)H;
      u8 *p = (u8 *)a.fcv_trim_threshold(&w, &h, 3, b.rgb, t);
      img(r, p, (u64)w, (u64)h, 3);
    });
  }
  struct D {
    int ch;
    const char *hex;
    double rad, x, y;
  };
  for (auto d : {D{4, "FF8000", 2, 3, 2}, D{4, "0080FF", 2, 3, 2}, D{3, "#00ff7f", 3.5, 1, 4}, D{1, "123456", 9, -2, 3}, D{4, "nonsense", 1, 0, 0}}) {
    for (int disk = 0; disk < 2; disk++) {
      add(fw::str("%s %s %g %d channels", disk ? "disk" : "circle", d.hex, d.rad, d.ch), [d, disk](const Api &a, const Bufs &b, Result &r) {
        u8 *p = Bufs::dup(d.ch == 4 ? b.pic->rgba : d.ch == 3 ? b.pic->rgb : b.pic->gray);
        (disk ? a.fcv_draw_disk : a.fcv_draw_circle)(W, H, (u32)d.ch, d.hex, d.rad, d.x, d.y, p);
        r.in_place = true;
        img(r, p, W, H, d.ch);
      });
    }
  }
  for (auto d : {D{4, "FF8000", 2, 0, 0}, D{3, "#0000ff", 1, 0, 0}, D{1, "ffffff", 5, 0, 0}}) {
    add(fw::str("border %s %g %d channels", d.hex, d.rad, d.ch), [d](const Api &a, const Bufs &b, Result &r) {
      u32 ow = 0, oh = 0;
      u8 *p = (u8 *)a.fcv_add_border(W, H, (u32)d.ch, d.hex, (u32)d.rad, d.ch == 4 ? b.rgba : d.ch == 3 ? b.rgb : b.gray, &ow, &oh);
      img(r, p, ow, oh, d.ch);
    });
  }
  for (int ch : {1, 3, 4}) {
    add(fw::str("histogram %d channels", ch), [ch](const Api &a, const Bufs &b, Result &r) {
      u32 ow = 0, oh = 0;
      u8 *p = (u8 *)a.fcv_generate_histogram(W, H, (u32)ch, ch == 4 ? b.rgba : ch == 3 ? b.rgb : b.gray, &ow, &oh);
      img(r, p, ow, oh);
    });
    add(fw::str("sobel %d channels", ch), [ch](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_sobel_edge_detection(W, H, (u32)ch, ch == 4 ? b.rgba : ch == 3 ? b.rgb : b.gray), W, H, 1); });
  }
  for (auto c : {std::pair<const char *, const char *>{"FFFFFF", "000000"}, {"#000000", "#FFFFFF"}}) {
    add(fw::str("to_binary %s", c.first), [c](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_convert_to_binary(b.rgba, (i32)W, (i32)H, c.first, c.second), W, H, 1); });
  }
  for (int rad : {0, 1, 3}) {
    add(fw::str("dilate %d", rad), [rad](const Api &a, const Bufs &b, Result &r) { img(r, a.fcv_binary_dilation_disk(b.gray, (i32)W, (i32)H, rad), W, H, 1); });
    add(fw::str("erode %d", rad), [rad](const Api &a, const Bufs &b, Result &r) { img(r, a.fcv_binary_erosion_disk(b.gray, (i32)W, (i32)H, rad), W, H, 1); });
    add(fw::str("close %d", rad), [rad](const Api &a, const Bufs &b, Result &r) { img(r, a.fcv_binary_closing_disk(b.gray, (i32)W, (i32)H, rad), W, H, 1); });
    add(fw::str("open %d", rad), [rad](const Api &a, const Bufs &b, Result &r) { img(r, a.fcv_binary_opening_disk(b.gray, (i32)W, (i32)H, rad), W, H, 1); });
  }
  add("watershed 4 other markers", [](const Api &a, const Bufs &b, Result &r) {
    Point2D p[4] = {{W / 2.0, H / 2.0}, {(double)(W - 1), 0}, {0, (double)(H - 1)}, {W / 3.0, 0}};
    img(r, (u8 *)a.fcv_watershed_segmentation(W, H, b.gray, p, 4, false), W, H);
  });
  for (int k = 0; k < 4; k++) {
    add(fw::str("watershed %d markers%s", k < 2 ? 1 : 4, k & 1 ? " boundaries" : ""), [k](const Api &a, const Bufs &b, Result &r) {
      Point2D p[4] = {{0, 0}, {(double)(W - 1), (double)(H - 1)}, {W / 2.0, 0}, {0, H / 2.0}}, q[4];
      memcpy(q, p, sizeof p);
      img(r, (u8 *)a.fcv_watershed_segmentation(W, H, b.gray, p, k < 2 ? 1 : 4, k & 1), W, H);
      if (memcmp(q, p, sizeof p)) {
        r.modified = "marker list";
      }
    });
  }
  for (double s : {0.5, 1.5}) {
    add(fw::str("foerstner %g", s), [s](const Api &a, const Bufs &b, Result &r) { img(r, (u8 *)a.fcv_foerstner_corner(W, H, b.gray, s), W, H, 2); });
  }
  for (int d : {1, 4}) {
    add(fw::str("corner_peaks %d", d), [d](const Api &a, const Bufs &b, Result &r) {
      CornerPeaks *p = a.fcv_corner_peaks(W, H, b.resp, (u32)d, 0.2, 0.2);
      r.ok = p != nullptr;
      if (p) {
        r.m(p->count);
        if (p->points) {
          r.b(p->points, p->count * sizeof(Point2D));
        }
        r.extra = p;
      }
    });
  }
  for (int n : {3, 4}) {
    add(fw::str("sort_corners %d", n), [n](const Api &a, const Bufs &b, Result &r) {
      Point2D p[4] = {{10, 12}, {90, 8}, {95.5, 70}, {7, 64}}, q[4], res[8];
      std::swap(p[0], p[W % 3]);
      memcpy(q, p, sizeof p);
      memset(res, 0, sizeof res);
      Corners c = a.sort_corners(100, 80, W * 10, H * 10, p, (u32)n, res);
      corners(r, c);
      for (int k = 0; k < 4; k++) {
        r.md(res[k].x);
        r.md(res[k].y);
      }
      if (memcmp(q, p, sizeof p)) {
        r.modified = "corner list";
      }
    });
  }
  for (int k = 0; k < 3; k++) {
    static const char *nm[] = {"general", "degenerate", "not finite"};
    add(fw::str("perspective %s", nm[k]), [k](const Api &a, const Bufs &b, Result &r) {
      Corners s = {1, 2, 90, 5, 95, 80, 3, 77}, d = {0, 0, W * 1.0, 0, W * 1.0, H * 1.0, 0, H * 1.0};
      if (k == 1) {
        s = {1, 1, 2, 2, 3, 3, 4, 4};
      }
      if (k == 2) {
        s.tl_x = NAN;
      }
      Corners s2 = s, d2 = d;
      Matrix3x3 *m = a.fcv_calculate_perspective_transform(&s, &d);
      r.ok = m != nullptr;
      if (m) {
        r.b(m, sizeof *m);
      }
      if (memcmp(&s, &s2, sizeof s) || memcmp(&d, &d2, sizeof d)) {
        r.modified = "corner set";
      }
    });
  }
  static const Matrix3x3 mats[] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {-1, 0, 7, 0, 1, 0, 0, 0, 1}, {0.8, 0.1, 0.3, -0.2, 1.1, 1, 0.001, 0.002, 1}, {1, 0, 0, 0, 1, 0, 0, 0, 0}};
  for (int k = 0; k < 4; k++) {
    add(fw::str("apply_matrix %d", k), [k](const Api &a, const Bufs &b, Result &r) {
      Matrix3x3 m = mats[k];
      img(r, a.fcv_apply_matrix_3x3((i32)W, (i32)H, b.rgba, 9, 6, &m), 9, 6);
      if (memcmp(&m, &mats[k], sizeof m)) {
        r.modified = "matrix";
      }
    });
  }
  for (const char *hex : {"FF8040", "#0a0b0c", "xyz", ""}) {
    add(fw::str("parse_hex_color '%s'", hex), [hex](const Api &a, const Bufs &b, Result &r) {
      u8 c[3] = {1, 2, 3};
      a.fcv_parse_hex_color(hex, c, c + 1, c + 2);
      r.ok = true;
      r.m(c[0] << 16 | c[1] << 8 | c[2]);
    });
  }
  add("set_circle_pixel", [](const Api &a, const Bufs &b, Result &r) {
    u8 *p = Bufs::dup(b.pic->rgba);
    a.fcv_set_circle_pixel(p, W, H, 4, (i32)W - 1, 0, 9, 8, 7);
    a.fcv_set_circle_pixel(p, W, H, 4, (i32)W, -1, 9, 8, 7);
    a.fcv_draw_circle_points(p, W, H, 4, 2, 1, 1, 2, 1, 2, 3);
    a.fcv_fill_disk_lines(p, W, H, 4, 1, 2, 2, 1, 4, 5, 6);
    r.in_place = true;
    img(r, p, W, H);
  });
  add("exif missing", [](const Api &a, const Bufs &b, Result &r) {
    r.ok = true;
    r.m((u64)a.fcv_get_exif_orientation("/nonexistent/x.jpg"));
  });
  add("exif no jpeg", [](const Api &a, const Bufs &b, Result &r) {
    r.ok = true;
    r.m((u64)a.fcv_get_exif_orientation("/proc/self/exe"));
  });
  // JPEG headers in anonymous memory files, which forked workers inherit
  struct E {
    const char *name;
    bool motorola;
    int tag, value;
  };
  for (auto e : {E{"II 6", false, 0x112, 6}, E{"MM 3", true, 0x112, 3}, E{"II 8 behind others", false, 0x112, 8}, E{"MM without the tag", true, 0x11A, 5}, E{"II value 9", false, 0x112, 9}}) {
    Bytes t;
    auto n2 = [&](int v) {
      t.push_back((u8)(e.motorola ? v >> 8 : v));
      t.push_back((u8)(e.motorola ? v : v >> 8));
    };
    auto n4 = [&](int v) {
      if (e.motorola) {
        n2(v >> 16), n2(v & 0xFFFF);
      } else {
        n2(v & 0xFFFF), n2(v >> 16);
      }
    };
    t.push_back(e.motorola ? 'M' : 'I');
    t.push_back(e.motorola ? 'M' : 'I');
    n2(42), n4(8);
    bool more = strstr(e.name, "others");
    n2(more ? 2 : 1);
    if (more) {
      n2(0x10F), n2(3), n4(1), n2(2), n2(0);
    }
    n2(e.tag), n2(3), n4(1), n2(e.value), n2(0);
    n4(0);
    Bytes f = {0xFF, 0xD8};
    if (more) {
      const u8 app0[] = {0xFF, 0xE0, 0, 7, 'J', 'F', 'I', 'F', 0};
      f.insert(f.end(), app0, app0 + sizeof app0);
    }
    const u8 app1[] = {0xFF, 0xE1, 0, (u8)(8 + t.size()), 'E', 'x', 'i', 'f', 0, 0};
    f.insert(f.end(), app1, app1 + sizeof app1);
    f.insert(f.end(), t.begin(), t.end());
    f.push_back(0xFF);
    f.push_back(0xD9);
    int fd = memfd_create("exif", 0);
    if (fd < 0 || write(fd, f.data(), f.size()) != (ssize_t)f.size()) {
      perror("memfd");
      _exit(3);
    }
    add(fw::str("exif %s", e.name), [fd](const Api &a, const Bufs &b, Result &r) {
      r.ok = true;
      r.m((u64)a.fcv_get_exif_orientation(fw::str("/proc/self/fd/%d", fd).c_str()));
    });
  }
  add(
    "detect_corners", [](const Api &a, const Bufs &b, Result &r) { corners(r, a.fcv_detect_corners(b.rgba, (i32)W, (i32)H)); }, true
  );
  add(
    "detect_corners_ptr",
    [](const Api &a, const Bufs &b, Result &r) {
      Corners *c = a.fcv_detect_corners_ptr(b.rgba, (i32)W, (i32)H);
      r.ok = c != nullptr;
      if (c) {
        r.b(c, sizeof *c);
      }
    },
    true
  );
  add(
    "extract_document", [](const Api &a, const Bufs &b, Result &r) { img(r, a.fcv_extract_document(W, H, b.rgba, 21, 13), 21, 13); }, true
  );
  add(
    "extract_document_auto",
    [](const Api &a, const Bufs &b, Result &r) {
      u32 ow = 0, oh = 0;
      u8 *p = a.fcv_extract_document_auto(W, H, b.rgba, &ow, &oh);
      img(r, p, ow, oh);
    },
    true
  );
#undef W
#undef H
}

static void call(const Api &a, const OpCall &o, const Bufs &b, Result &r) {
  fw::calls();
  o.f(a, b, r);
  r.digest = r.compute();
}
