// C01: every public function on every combination of sizes, channel counts and
// ordinary and extreme parameters, under AddressSanitizer and UBSan (including
// out-of-range float-to-integer conversions). Every byte of a result is read.
#include "lib.hpp"
#include <array>
#include <limits>

typedef std::vector<double> VD;
typedef std::vector<i64> VI;
static const double INF = std::numeric_limits<double>::infinity(), NN = std::numeric_limits<double>::quiet_NaN();

// ---- mixed-radix case spaces, described by their axes
struct Axis {
  std::string name;
  std::vector<std::string> label;
};
template <class T> static Axis axis(const std::string &n, const std::vector<T> &v) {
  Axis a{n, {}};
  for (auto x : v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", (double)x);
    a.label.push_back(b);
  }
  return a;
}
static Axis names(const std::string &n, const std::vector<std::string> &v) { return Axis{n, v}; }

static std::vector<fw::Suite> *SU;
typedef std::function<void(const std::vector<size_t> &)> Body;
static void space(const std::string &name, const std::vector<Axis> &ax, Body f, double hang = 20) {
  fw::Suite s;
  s.name = name;
  s.count = 1;
  s.what = "all combinations of";
  for (auto &a : ax) {
    s.count *= a.label.size();
    s.what += " " + std::to_string(a.label.size()) + " " + a.name + ",";
  }
  s.what.pop_back();
  s.hang_s = hang;
  auto dec = [ax](u64 i) {
    std::vector<size_t> k;
    for (auto &a : ax) {
      k.push_back(i % a.label.size());
      i /= a.label.size();
    }
    return k;
  };
  s.describe = [=](u64 i) {
    auto k = dec(i);
    std::string d;
    for (size_t j = 0; j < ax.size(); j++) {
      d += (j ? ", " : "") + ax[j].name + " " + ax[j].label[k[j]];
    }
    return d;
  };
  s.run = [=](u64 i) { f(dec(i)); };
  SU->push_back(s);
}

// ---- buffers
struct Buf { // exactly n bytes, nothing readable around them
  u8 *p = nullptr;
  size_t n;
  Bytes orig;
  Buf(size_t n_, bool null = false, int kind = 1) : n(n_) {
    if (!null) {
      p = (u8 *)malloc(n);
      for (size_t i = 0; i < n; i++) {
        p[i] = kind == 1 ? (u8)(fw::mix(i / 4 * 4 + 1) >> (8 * (i & 3))) : kind == 2 ? (u8)((fw::mix(i) & 1) * 255) : 0;
      }
      orig.assign(p, p + n);
    }
  }
  Buf(const Buf &) = delete;
  ~Buf() { free(p); }
  void intact(const char *w) {
    if (p && n && memcmp(p, orig.data(), n)) {
      fw::fail("%s", w);
    }
  }
};
static volatile u64 sink;
// checks a returned image: failure expected / allowed, all bytes readable
enum Want { SUCCEED, FAIL, EITHER };
static void result(u8 *p, size_t n, Want w) {
  fw::calls();
  fw::compared();
  if (p) {
    fw::nontrivial();
    u64 s = 0;
    for (size_t i = 0; i < n; i++) {
      s += p[i];
    }
    sink = s;
    fw::seen(fw::hash(p, n));
  }
  else {
    fw::seen(7);
  }
  bool got = p != nullptr;
  free(p);
  if (w == FAIL && got) {
    fw::fail("invalid arguments, but the call returned an image");
  }
  if (w == SUCCEED && !got) {
    fw::fail("valid arguments, but the call failed");
  }
}

static std::vector<std::pair<u32, u32>> DIM, SMALL, TINY;
static Axis dims(const std::vector<std::pair<u32, u32>> &d, const char *n = "sizes") {
  Axis a{n, {}};
  for (auto &x : d) {
    a.label.push_back(fw::str("%ux%u", x.first, x.second));
  }
  return a;
}

typedef u8 *(*Unary)(u32, u32, const u8 *const);
static u8 *otsu1(u32 w, u32 h, const u8 *const d) { return fcv_otsu_threshold_rgba(w, h, false, d); }
static u8 *otsu2(u32 w, u32 h, const u8 *const d) { return fcv_otsu_threshold_rgba(w, h, true, d); }
static u8 *bw1(u32 w, u32 h, const u8 *const d) { return fcv_bw_smart(w, h, false, d); }
static u8 *bw2(u32 w, u32 h, const u8 *const d) { return fcv_bw_smart(w, h, true, d); }
struct U {
  const char *name;
  Unary f;
  int in, out;
};
static const U UN[] = {{"grayscale", fcv_grayscale, 4, 4}, {"grayscale_stretch", fcv_grayscale_stretch, 4, 4}, {"otsu", otsu1, 4, 4}, {"otsu double", otsu2, 4, 4}, {"bw_smart", bw1, 4, 4}, {"bw_smart double", bw2, 4, 4}, {"flip_x", fcv_flip_x, 4, 4}, {"flip_y", fcv_flip_y, 4, 4}, {"transpose", fcv_transpose, 4, 4}, {"transverse", fcv_transverse, 4, 4}, {"rotate_90", fcv_rotate_90_cw, 4, 4}, {"rotate_180", fcv_rotate_180, 4, 4}, {"rotate_270", fcv_rotate_270_cw, 4, 4}, {"rgba_to_grayscale", fcv_rgba_to_grayscale, 4, 1}, {"single_to_multichannel", fcv_single_to_multichannel, 1, 4}};

static void spaces() {
  for (u32 w = 0; w <= 18; w++) {
    for (u32 h = 0; h <= 18; h++) {
      DIM.push_back({w, h});
    }
  }
  for (u32 n : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4099}) {
    for (u32 t : {1, 2, 3, 4, 17}) {
      DIM.push_back({n, t});
      DIM.push_back({t, n});
    }
  }
  for (auto d : std::vector<std::pair<u32, u32>>{{70000, 1}, {1, 70000}, {66000, 2}, {2, 66000}, {300, 257}, {256, 256}, {0, 100000}, {100000, 0}}) {
    DIM.push_back(d);
  }
  for (u32 w : {0, 1, 2, 3, 4, 5, 7, 8, 12}) {
    for (u32 h : {0, 1, 2, 3, 4, 5, 7, 8, 12}) {
      SMALL.push_back({w, h});
    }
  }
  SMALL.push_back({300, 2});
  SMALL.push_back({2, 300});
  TINY = {{0, 1}, {1, 0}, {1, 1}, {1, 2}, {2, 1}, {3, 2}, {4, 5}, {7, 1}, {1, 9}, {8, 6}};
  std::vector<std::string> un;
  for (auto &u : UN) {
    un.push_back(u.name);
  }
  Axis null = names("data", {"given", "NULL"});
  Axis content = names("contents", {"zero", "hash", "black and white"});

  space("pixel-maps", {dims(DIM), names("functions", un), content, null}, [](const std::vector<size_t> &k) {
    auto [w, h] = DIM[k[0]];
    const U &u = UN[k[1]];
    Buf b((size_t)w * h * u.in, k[3], (int)k[2]);
    result(u.f(w, h, b.p), (size_t)w * h * u.out, k[3] || !w || !h ? FAIL : SUCCEED);
    b.intact("the input image was changed");
  });

  // images so large that size computations in 32 bits wrap around; the caller's
  // buffer is a read-only mapping of zero pages, the result exceeds the memory limit
  static const std::vector<std::pair<u32, u32>> HUGE_ = {{65536, 65536}, {65537, 65537}, {46341, 46341}, {32768, 32769}, {32768, 32768}, {0x80000000u, 1}, {1, 0x80000000u}, {0xFFFFFFFFu, 1}, {1, 0xFFFFFFFFu}, {0x40000001u, 1}, {1, 0x40000001u}, {0x10000001u, 16}, {16, 0x10000001u}, {3, 0x55555556u}, {0x55555556u, 3}};
  space("huge-images", {dims(HUGE_), names("functions", un)}, [](const std::vector<size_t> &k) {
    auto [w, h] = HUGE_[k[0]];
    const U &u = UN[k[1]];
    size_t n = (size_t)w * h * u.in;
    u8 *p = (u8 *)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      return;
    }
    result(u.f(w, h, p), (size_t)w * h * u.out, FAIL);
    munmap(p, n);
  }, 60);

  static const VD radii = {-INF, -1e300, -1, -1e-300, -0.0, 0, 1e-300, 1e-9, 0.3, 0.5, 0.99, 1, 1.5, 2.5, 9, 33.3, 999, 1000, 1000.5, 1e5, 1e6, 2147483647, 4294967296.0, 1e18, 1e300, INF, NN};
  space("blur", {dims(SMALL), axis("radii", radii), null}, [](const std::vector<size_t> &k) {
    auto [w, h] = SMALL[k[0]];
    double r = radii[k[1]];
    Buf b((size_t)w * h * 4, k[2]);
    result(fcv_apply_gaussian_blur(w, h, r, b.p), (size_t)w * h * 4, k[2] || !w || !h || !(r >= 0) || r == INF ? FAIL : r <= 100 ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });

  static const VD sc = {-INF, -1, -1e-300, -0.0, 0, 1e-300, 1e-9, 1e-3, 0.1, 0.34, 0.5, 0.999, 1, 1.001, 1.5, 2, 7.3, 100, 1e5, 1e9, 4294967295.0, 4294967296.0, 1e18, 1e300, INF, NN};
  space("resize", {dims(TINY), axis("scales", sc), axis("vertical scales", sc), names("data", {"given", "NULL", "no size pointers"})}, [](const std::vector<size_t> &k) {
    auto [w, h] = TINY[k[0]];
    double x = sc[k[1]], y = sc[k[2]];
    if (x * y > 1e6 && x < 1e7 && y < 1e7 && x * y * w * h * 4 < 7e8) {
      return; // a large image that fits into memory: not needed here
    }
    Buf b((size_t)w * h * 4, k[3] == 1);
    u32 ow = 0, oh = 0;
    u8 *p = fcv_resize(w, h, x, y, k[3] == 2 ? nullptr : &ow, k[3] == 2 ? nullptr : &oh, b.p);
    bool bad = k[3] || !w || !h || !(x > 0) || !(y > 0) || x == INF || y == INF || x * w >= 4294967296.0 || y * h >= 4294967296.0;
    result(p, k[3] == 2 ? 0 : (size_t)ow * oh * 4, bad ? FAIL : x * w >= 1 && y * h >= 1 && x * w * y * h < 1e6 ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });

  static const VI ch = {0, 1, 2, 3, 4, 5};
  static const VI cr = {0, 1, 2, 3, 5, 7, 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFEll, 0xFFFFFFFFll};
  space("crop", {dims(TINY), axis("channels", ch), axis("x", cr), axis("y", cr), axis("widths", cr), axis("heights", cr)}, [](const std::vector<size_t> &k) {
    auto [w, h] = TINY[k[0]];
    u32 c = (u32)ch[k[1]], x = (u32)cr[k[2]], y = (u32)cr[k[3]], nw = (u32)cr[k[4]], nh = (u32)cr[k[5]];
    Buf b((size_t)w * h * c);
    bool ok = c && nw && nh && (u64)x + nw <= w && (u64)y + nh <= h;
    result(fcv_crop(w, h, c, b.p, x, y, nw, nh), (size_t)nw * nh * c, ok ? SUCCEED : FAIL);
  });

  static const VI sd = {-2147483648ll, -7, -1, 0, 1, 2, 3, 5, 12};
  static const VD tt = {-INF, -1e300, -5, -0.0, 0, 1e-300, 0.2, 10, 49.9, 100, 101, 1e300, INF, NN};
  space("trim", {axis("widths", sd), axis("heights", sd), axis("channels", ch), axis("thresholds", tt), content, names("pointers", {"given", "no data", "no width", "no height"})}, [](const std::vector<size_t> &k) {
    i32 w = (i32)sd[k[0]], h = (i32)sd[k[1]];
    u32 c = (u32)ch[k[2]];
    bool bad = w <= 0 || h <= 0 || !c || k[5];
    Buf b(w > 0 && h > 0 ? (size_t)w * h * c : 0, k[5] == 1, (int)k[4]);
    i32 w2 = w, h2 = h;
    i32 *pw = k[5] == 2 ? nullptr : &w2, *ph = k[5] == 3 ? nullptr : &h2;
    u8 *p = k[3] == 4 ? fcv_trim(pw, ph, c, b.p) : fcv_trim_threshold(pw, ph, c, b.p, tt[k[3]]);
    if (p && !bad && (w2 < 1 || h2 < 1 || w2 > w || h2 > h)) {
      fw::fail("reported size %dx%d", w2, h2);
    }
    result(p, bad ? 0 : (size_t)w2 * h2 * c, bad ? FAIL : std::isfinite(tt[k[3]]) ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });

  static const VD dr = {-INF, -1e300, -2147483649.0, -5, -1, -0.0, 0, 0.5, 1, 3, 50, 40000, 1e6, INF, NN};
  static const VD dr_big = {46340, 46341, 65536, 1e7, 1073741823, 1073741824, 2147483646, 2147483647, 2147483648.0, 4294967295.0, 4294967296.0, 1e18, 1e300};
  static const VD dc = {-INF, -1e300, -2147483648.0, -2147483649.0, -40000, -3, -0.5, 0, 1, 2.7, 1000, 1e6, 2147483647, 2147483648.0, 1e300, INF, NN};
  static const std::vector<std::string> hex = {"FF8000", "", "NULL"};
  static const std::vector<std::pair<u32, u32>> D3 = {{0, 3}, {1, 1}, {3, 2}, {8, 6}};
  for (int disk = 0; disk < 2; disk++) {
    for (int big = 0; big < 2; big++) {
      const VD &rr = big ? dr_big : dr;
      space(fw::str("%s%s", disk ? "disk" : "circle", big ? "-big" : ""), {dims(big ? std::vector<std::pair<u32, u32>>{{8, 6}} : D3), axis("channels", big ? VI{4} : ch), names("colours", big ? std::vector<std::string>{"FF8000"} : hex), axis("radii", rr), axis("x", dc), axis("y", dc), big ? names("data", {"given"}) : null}, [=, &rr](const std::vector<size_t> &k) {
        auto [w, h] = big ? std::pair<u32, u32>{8, 6} : D3[k[0]];
        u32 c = big ? 4 : (u32)ch[k[1]];
        double r = rr[k[3]], x = dc[k[4]], y = dc[k[5]];
        Buf b((size_t)w * h * c, k[6]);
        (disk ? fcv_draw_disk : fcv_draw_circle)(w, h, c, k[2] == 2 ? nullptr : hex[k[2]].c_str(), r, x, y, b.p);
        fw::calls();
        fw::compared();
        fw::seen(fw::hash(b.p, k[6] ? 0 : b.n));
        if (!std::isfinite(r) || !std::isfinite(x) || !std::isfinite(y) || r < 0 || (c != 1 && c != 3 && c != 4 && c != 2 && c != 5)) {
          b.intact("invalid arguments, but the image was painted");
        }
      }, 60);
    }
  }
  static const VI px = {-2147483648ll, -2147483647, -9, -1, 0, 1, 2, 7, 2147483640, 2147483647};
  space("draw-helpers", {names("functions", {"set_circle_pixel", "draw_circle_points", "fill_disk_lines"}), dims(D3), axis("channels", ch), axis("cx", px), axis("cy", px), axis("x", VI{0, 1, 2, 9, 2147483647}), axis("y", VI{0, 1, 2, 9, 2147483647})}, [](const std::vector<size_t> &k) {
    static const i32 o[] = {0, 1, 2, 9, 2147483647};
    auto [w, h] = D3[k[1]];
    u32 c = (u32)ch[k[2]];
    i32 cx = (i32)px[k[3]], cy = (i32)px[k[4]], x = o[k[5]], y = o[k[6]];
    i64 far = std::max(x, y);
    if (k[0] && (cx + far > INT32_MAX || cy + far > INT32_MAX || cx - far < INT32_MIN || cy - far < INT32_MIN)) {
      return; // helpers: the points themselves have to be representable
    }
    Buf b((size_t)w * h * c);
    if (k[0] == 0) {
      if (k[5] || k[6]) {
        return;
      }
      fcv_set_circle_pixel(b.p, w, h, c, cx, cy, 1, 2, 3);
    }
    else if (k[0] == 1) {
      fcv_draw_circle_points(b.p, w, h, c, cx, cy, x, y, 1, 2, 3);
    }
    else {
      fcv_fill_disk_lines(b.p, w, h, c, cx, cy, x, y, 1, 2, 3);
    }
    fw::calls();
    fw::compared();
    fw::seen(fw::hash(b.p, b.n));
  }, 60);

  static const VI bw = {0, 1, 3, 1000, 32767, 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFFll};
  space("border", {dims(TINY), axis("channels", ch), names("colours", hex), axis("widths", bw), names("pointers", {"given", "no data", "no output size"})}, [](const std::vector<size_t> &k) {
    auto [w, h] = TINY[k[0]];
    u32 c = (u32)ch[k[1]], bd = (u32)bw[k[3]];
    if (c >= 2 && bd == 32767 && false) {
      return;
    }
    Buf b((size_t)w * h * c, k[4] == 1);
    u32 ow = 0, oh = 0;
    u8 *p = fcv_add_border(w, h, c, k[2] == 2 ? nullptr : hex[k[2]].c_str(), bd, b.p, k[4] == 2 ? nullptr : &ow, k[4] == 2 ? nullptr : &oh);
    bool bad = k[4] || !w || !h || !c;
    result(p, k[4] == 2 ? 0 : (size_t)ow * oh * c, bad || bd >= 0x7FFFFFFF ? FAIL : EITHER);
    b.intact("the input image was changed");
  });

  space("histogram", {dims(DIM), axis("channels", ch), content, names("pointers", {"given", "no data", "no output size"})}, [](const std::vector<size_t> &k) {
    auto [w, h] = DIM[k[0]];
    u32 c = (u32)ch[k[1]];
    Buf b((size_t)w * h * c, k[3] == 1, (int)k[2]);
    u32 ow = 0, oh = 0;
    u8 *p = fcv_generate_histogram(w, h, c, b.p, k[3] == 2 ? nullptr : &ow, k[3] == 2 ? nullptr : &oh);
    result(p, k[3] == 2 ? 0 : (size_t)ow * oh * 4, !w || !h || !c || k[3] ? FAIL : c == 1 || c == 3 || c == 4 ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });
  space("sobel", {dims(DIM), axis("channels", ch), content, null}, [](const std::vector<size_t> &k) {
    auto [w, h] = DIM[k[0]];
    u32 c = (u32)ch[k[1]];
    Buf b((size_t)w * h * c, k[3], (int)k[2]);
    result(fcv_sobel_edge_detection(w, h, c, b.p), (size_t)w * h, !w || !h || !c || k[3] ? FAIL : c == 1 || c == 4 ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });
  static const std::vector<std::string> hx = {"FF8000", "#000000", "", "zz", "NULL"};
  space("to-binary", {axis("widths", sd), axis("heights", sd), names("foregrounds", hx), names("backgrounds", hx), null}, [](const std::vector<size_t> &k) {
    i32 w = (i32)sd[k[0]], h = (i32)sd[k[1]];
    bool bad = w <= 0 || h <= 0 || k[4];
    Buf b(w > 0 && h > 0 ? (size_t)w * h * 4 : 0, k[4]);
    result(fcv_convert_to_binary(b.p, w, h, k[2] == 4 ? nullptr : hx[k[2]].c_str(), k[3] == 4 ? nullptr : hx[k[3]].c_str()), bad ? 0 : (size_t)w * h, bad ? FAIL : k[2] == 4 || k[3] == 4 ? EITHER : SUCCEED);
    b.intact("the input image was changed");
  });
  static const VI mr = {-2147483648ll, -1, 0, 1, 2, 3, 5, 16, 100, 1000, 32767, 46340, 46341, 65536, 1000000, 1073741824, 2147483646, 2147483647};
  space("morphology", {names("functions", {"dilation", "erosion", "closing", "opening"}), axis("widths", sd), axis("heights", sd), axis("radii", mr), content, null}, [](const std::vector<size_t> &k) {
    i32 w = (i32)sd[k[1]], h = (i32)sd[k[2]], r = (i32)mr[k[3]];
    bool bad = w <= 0 || h <= 0 || r < 0 || k[5];
    Buf b(w > 0 && h > 0 ? (size_t)w * h : 0, k[5], (int)k[4]);
    u8 *p = (k[0] == 0 ? fcv_binary_dilation_disk : k[0] == 1 ? fcv_binary_erosion_disk : k[0] == 2 ? fcv_binary_closing_disk : fcv_binary_opening_disk)(b.p, w, h, r);
    result(p, bad ? 0 : (size_t)w * h, bad ? FAIL : SUCCEED);
    b.intact("the input image was changed");
  });

  static const VD mk = {-INF, -1e300, -2147483649.0, -1, -1e-9, 0, 0.5, 0.99, 1, 2.5, 3, 3.99, 4, 1e6, 4294967296.0, 1e300, INF, NN};
  space("watershed", {dims({{1, 1}, {4, 3}, {3, 4}, {4, 4}, {1, 8}, {0, 4}, {4, 0}}), axis("x", mk), axis("y", mk), names("lists", {"1", "2", "300 times", "none", "NULL"}), names("boundaries", {"off", "on"}), null}, [](const std::vector<size_t> &k) {
    static const std::vector<std::pair<u32, u32>> D = {{1, 1}, {4, 3}, {3, 4}, {4, 4}, {1, 8}, {0, 4}, {4, 0}};
    auto [w, h] = D[k[0]];
    double x = mk[k[1]], y = mk[k[2]];
    size_t n = k[3] == 1 ? 2 : k[3] == 2 ? 300 : k[3] == 3 ? 0 : 1;
    Point2D *m = (Point2D *)malloc(std::max((size_t)1, n * sizeof(Point2D)));
    for (size_t i = 0; i < n; i++) {
      m[i] = {x, y};
    }
    if (n == 2) {
      m[0] = {0, 0};
    }
    Buf b((size_t)w * h, k[5]);
    u8 *p = fcv_watershed_segmentation(w, h, b.p, k[3] == 4 ? nullptr : m, (u32)n, k[4]);
    free(m);
    bool in = x >= 0 && y >= 0 && x < w && y < h;
    bool edge = (x > -1 && x < 0) || (y > -1 && y < 0);
    result(p, (size_t)w * h * 4, !w || !h || k[5] || k[3] >= 3 ? FAIL : in ? SUCCEED : edge ? EITHER : FAIL);
    b.intact("the input image was changed");
  });

  static const VD sg = {-INF, -1e300, -1, -0.0, 0, 1e-300, 0.1, 0.5, 1, 1.5, 3, 10, 100, 1e6, 1e9, 1e18, 1e300, INF, NN};
  space("foerstner", {dims(DIM), axis("scales", sg), content, null}, [](const std::vector<size_t> &k) {
    auto [w, h] = DIM[k[0]];
    if ((size_t)w * h > 20000 && k[1] % 4) {
      return;
    }
    double s = sg[k[1]];
    Buf b((size_t)w * h, k[3], (int)k[2]);
    result(fcv_foerstner_corner(w, h, b.p, s), (size_t)w * h * 2, !w || !h || k[3] ? FAIL : EITHER);
    b.intact("the input image was changed");
  });
  static const VI md = {0, 1, 2, 3, 17, 65536, 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFFll};
  static const VD th = {-INF, -1, 0, 0.3, 1, 1e300, INF, NN};
  space("corner-peaks", {dims(SMALL), axis("distances", md), axis("accuracy thresholds", th), axis("roundness thresholds", th), content, null}, [](const std::vector<size_t> &k) {
    auto [w, h] = SMALL[k[0]];
    Buf b((size_t)w * h * 2, k[5], (int)k[4]);
    CornerPeaks *p = fcv_corner_peaks(w, h, b.p, (u32)md[k[1]], th[k[2]], th[k[3]]);
    fw::calls();
    fw::compared();
    if (p) {
      fw::seen(p->count);
      for (u32 i = 0; i < p->count; i++) {
        Point2D q = p->points[i];
        if (!(q.x >= 0 && q.y >= 0 && q.x < w && q.y < h)) {
          fw::fail("corner (%g, %g) outside the image", q.x, q.y);
        }
      }
      free(p->points);
      free(p);
    }
    if (p && (!w || !h || k[5])) {
      fw::fail("invalid arguments, but the call returned a list");
    }
    if (!p && w && h && !k[5] && std::isfinite(th[k[2]]) && std::isfinite(th[k[3]])) {
      fw::fail("valid arguments, but the call failed");
    }
    b.intact("the input image was changed");
  });

  static const VD pc = {-INF, -1e300, -1, 0, 1, 100.5, 1e154, 1e300, INF, NN};
  space("sort-corners", {axis("numbers of points", VI{0, 1, 2, 3, 4, 5, 9, 40}), axis("x of one point", pc), axis("y of one point", pc), axis("its position", VI{0, 1, 2, 3}), axis("widths", VI{0, 1, 100, 0xFFFFFFFFll}), axis("output widths", VI{0, 1, 100, 0xFFFFFFFFll}), names("points", {"spread", "all equal"})}, [](const std::vector<size_t> &k) {
    static const u32 nn[] = {0, 1, 2, 3, 4, 5, 9, 40}, ww[] = {0, 1, 100, 0xFFFFFFFFu};
    u32 n = nn[k[0]];
    Point2D *p = (Point2D *)malloc(std::max((size_t)1, n * sizeof(Point2D)));
    Point2D *r = (Point2D *)malloc(std::max(4u, n) * sizeof(Point2D));
    memset(r, 0, std::max(4u, n) * sizeof(Point2D));
    for (u32 i = 0; i < n; i++) {
      p[i] = k[6] == 1 ? Point2D{3, 4} : Point2D{50 + 40 * cos(i * 6.28 / n), 50 + 30 * sin(i * 6.28 / n)};
      if (i == k[3]) {
        p[i] = {pc[k[1]], pc[k[2]]};
      }
    }
    Corners c = sort_corners(ww[k[4]], 80, ww[k[5]], 90, p, n, r);
    fw::calls();
    fw::compared();
    sink = (u64)(c.tl_x == 1);
    free(p);
    free(r);
  });

  static const VD cv = {-INF, -1e308, -1, -0.0, 0, 1e-308, 1, 77, 1e154, 1e308, INF, NN};
  space("perspective", {axis("coordinates", VI{0, 1, 2, 3, 4, 5, 6, 7}), axis("second coordinates", VI{0, 1, 2, 3, 4, 5, 6, 7}), axis("values", cv), axis("second values", cv), names("sides", {"source", "destination", "both", "no source", "no destination", "all source"})}, [](const std::vector<size_t> &k) {
    double s[8] = {1, 2, 90, 5, 95, 80, 3, 77}, d[8] = {0, 0, 100, 0, 100, 80, 0, 80};
    double *a = k[4] == 1 ? d : s;
    a[k[0]] = cv[k[2]];
    (k[4] == 2 ? d : a)[k[1]] = cv[k[3]];
    for (int i = 0; i < 8 && k[4] == 5; i++) {
      s[i] = cv[k[2]];
    }
    Corners S, D;
    memcpy(&S, s, sizeof S);
    memcpy(&D, d, sizeof D);
    Matrix3x3 *m = fcv_calculate_perspective_transform(k[4] == 3 ? nullptr : &S, k[4] == 4 ? nullptr : &D);
    fw::calls();
    fw::compared();
    if (!m) {
      fw::fail("no matrix returned");
    }
    for (double v : {m->m00, m->m01, m->m02, m->m10, m->m11, m->m12, m->m20, m->m21, m->m22}) {
      if (!std::isfinite(v)) {
        fw::fail("the matrix contains %g", v);
      }
    }
    // and it can be used
    Buf b(4 * 3 * 4);
    result(fcv_apply_matrix_3x3(4, 3, b.p, 5, 4, m), 5 * 4 * 4, SUCCEED);
    free(m);
  });
  static const VD me = {-INF, -1e308, -1e9, -1, -1e-300, 0, 1e-300, 0.5, 1, 3, 1e9, 2147483648.0, 1e308, INF, NN};
  static const VI od = {-2147483648ll, -1, 0, 1, 5, 46341, 65536, 2147483647};
  space("warp-entries", {dims({{1, 1}, {4, 3}, {1, 6}, {6, 1}}), axis("entries", VI{0, 1, 2, 3, 4, 5, 6, 7, 8}), axis("second entries", VI{0, 1, 2, 3, 4, 5, 6, 7, 8}), axis("values", me), axis("second values", me)}, [](const std::vector<size_t> &k) {
    static const std::vector<std::pair<u32, u32>> D = {{1, 1}, {4, 3}, {1, 6}, {6, 1}};
    auto [w, h] = D[k[0]];
    double v[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    v[k[1]] = me[k[3]];
    v[k[2]] = me[k[4]];
    Matrix3x3 m, m2;
    memcpy(&m, v, sizeof m);
    m2 = m;
    Buf b((size_t)w * h * 4);
    result(fcv_apply_matrix_3x3((i32)w, (i32)h, b.p, 5, 4, &m), 5 * 4 * 4, EITHER);
    b.intact("the input image was changed");
    if (memcmp(&m, &m2, sizeof m)) {
      fw::fail("the matrix was changed");
    }
  });
  space("warp-sizes", {axis("widths", sd), axis("heights", sd), axis("output widths", od), axis("output heights", od), names("pointers", {"given", "no data", "no matrix"})}, [](const std::vector<size_t> &k) {
    i32 w = (i32)sd[k[0]], h = (i32)sd[k[1]], ow = (i32)od[k[2]], oh = (i32)od[k[3]];
    if (w > 0 && h > 0 && ow > 0 && oh > 0 && (u64)ow * oh > 100000 && (u64)ow * oh * 4 < 700000000ull) {
      return;
    }
    Matrix3x3 m = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    Buf b(w > 0 && h > 0 ? (size_t)w * h * 4 : 0, k[4] == 1);
    bool bad = w <= 0 || h <= 0 || ow <= 0 || oh <= 0 || k[4];
    result(fcv_apply_matrix_3x3(w, h, b.p, ow, oh, k[4] == 2 ? nullptr : &m), bad ? 0 : (size_t)ow * oh * 4, bad ? FAIL : (u64)ow * oh < 100000 ? SUCCEED : EITHER);
    b.intact("the input image was changed");
  });

  space("document-invalid", {names("functions", {"detect_corners", "detect_corners_ptr", "extract", "extract_auto"}), axis("widths", sd), axis("heights", sd), null, axis("output sizes", VI{0, 1, 7, 0x80000000ll, 0xFFFFFFFFll})}, [](const std::vector<size_t> &k) {
    static const u32 os[] = {0, 1, 7, 0x80000000u, 0xFFFFFFFFu};
    i32 w = (i32)sd[k[1]], h = (i32)sd[k[2]];
    bool bad = w <= 0 || h <= 0 || k[3];
    if ((k[0] != 2 && k[4]) || (k[0] >= 2 && (w < 0 || h < 0)) || (k[0] < 2 && !bad)) {
      return; // (valid detections: C19)
    }
    Buf b(w > 0 && h > 0 ? (size_t)w * h * 4 : 0, k[3]);
    if (k[0] == 0) {
      Corners c = fcv_detect_corners(b.p, w, h);
      fw::calls();
      fw::compared();
      sink = c.tl_x == 1;
    }
    else if (k[0] == 1) {
      Corners *c = fcv_detect_corners_ptr(b.p, w, h);
      result((u8 *)c, 0, FAIL);
    }
    else if (k[0] == 2) {
      if (!bad && k[4] < 3 && k[4] > 0) {
        return;
      }
      result(fcv_extract_document((u32)w, (u32)h, b.p, os[k[4]], os[k[4]]), 0, FAIL);
    }
    else if (bad) {
      u32 ow, oh;
      result(fcv_extract_document_auto((u32)w, (u32)h, b.p, &ow, &oh), 0, FAIL);
    }
    b.intact("the input image was changed");
  }, 60);
  space("document-sizes", {dims({{1, 1}, {1, 5}, {5, 1}, {2, 2}, {3, 2}, {4, 9}, {17, 16}, {255, 256}, {257, 300}, {600, 3}, {3, 600}, {1000, 20}}), axis("contents", VI{1, 2}), axis("output sizes", VI{1, 7})}, [](const std::vector<size_t> &k) {
    static const std::vector<std::pair<u32, u32>> D = {{1, 1}, {1, 5}, {5, 1}, {2, 2}, {3, 2}, {4, 9}, {17, 16}, {255, 256}, {257, 300}, {600, 3}, {3, 600}, {1000, 20}};
    auto [w, h] = D[k[0]];
    u32 o = k[2] == 0 ? 1 : 7;
    Buf b((size_t)w * h * 4, false, (int)k[1] + 1);
    if (k[2] == 0) {
      Corners *c = fcv_detect_corners_ptr(b.p, (i32)w, (i32)h);
      result((u8 *)c, sizeof *c, EITHER);
    }
    result(fcv_extract_document(w, h, b.p, o, 8 - o), (size_t)o * (8 - o) * 4, EITHER);
    b.intact("the input image was changed");
  }, 120);

  static const VI gl = {0, 1, 2, 3, 7, 8, 255, 256, 65537};
  space("global-threshold", {axis("lengths", gl), axis("thresholds", VI{0, 1, 127, 254, 255}), null}, [](const std::vector<size_t> &k) {
    static const u8 t[] = {0, 1, 127, 254, 255};
    Buf b((size_t)gl[k[0]], k[2]);
    if (k[2] && gl[k[0]]) {
      return;
    }
    fcv_apply_global_threshold((u32)gl[k[0]], b.p, t[k[1]]);
    fw::calls();
    fw::compared();
  });

  // colour strings in exactly sized memory
  static const std::string alpha = std::string("#0aFgG ") + '\xff';
  u64 strings = 0;
  for (u64 n = 0, p = 1; n <= 8; n++, p *= alpha.size()) {
    strings += n <= 6 ? p : 0;
  }
  fw::Suite s;
  s.name = "colour-strings";
  s.what = "every string of up to 6 of 8 characters and every 7-character string starting with '#'";
  s.count = strings + 262144;
  auto text = [strings](u64 i) {
    std::string t;
    if (i >= strings) {
      i -= strings;
      t = "#";
      for (int k = 0; k < 6; k++, i /= 8) {
        t += alpha[i % 8];
      }
      return t;
    }
    u64 n = 0, p = 1;
    while (i >= p) {
      i -= p;
      p *= 8;
      n++;
    }
    for (u64 k = 0; k < n; k++, i /= 8) {
      t += alpha[i % 8];
    }
    return t;
  };
  s.describe = text;
  s.run = [text](u64 i) {
    std::string t = text(i);
    char *p = (char *)malloc(t.size() + 1);
    memcpy(p, t.c_str(), t.size() + 1);
    u8 c[3] = {1, 2, 3};
    fcv_parse_hex_color(p, c, c + 1, c + 2);
    free(p);
    fw::calls();
    fw::compared();
    fw::seen(c[0] << 16 | c[1] << 8 | c[2]);
  };
  SU->push_back(s);

  // EXIF reader on damaged files
  static std::vector<Bytes> files;
  if (files.empty()) {
    for (int be = 0; be < 2; be++) {
      for (int n : {1, 3}) {
        Bytes f = {0xFF, 0xD8, 0xFF, 0xE0, 0, 4, 1, 2, 0xFF, 0xE1, 0, 0, 'E', 'x', 'i', 'f', 0, 0};
        auto p2 = [&](int v) { be ? f.push_back((u8)(v >> 8)), f.push_back((u8)v) : (f.push_back((u8)v), f.push_back((u8)(v >> 8))); };
        auto p4 = [&](u32 v) {
          for (int k = 0; k < 4; k++) {
            f.push_back((u8)(v >> (8 * (be ? 3 - k : k))));
          }
        };
        f.push_back(be ? 'M' : 'I');
        f.push_back(be ? 'M' : 'I');
        p2(42);
        p4(8);
        p2(n);
        for (int k = 0; k < n; k++) {
          p2(k == n - 1 ? 0x112 : 0x100 + k);
          p2(3);
          p4(1);
          p2(6);
          p2(0);
        }
        p4(0);
        size_t seg = f.size() - 10;
        f[10] = (u8)(seg >> 8);
        f[11] = (u8)seg;
        f.push_back(0xFF);
        f.push_back(0xD9);
        files.push_back(f);
      }
    }
  }
  auto read_exif = [](const Bytes &f) {
    std::string p = fw::scratch + fw::str("/exif%d.jpg", (int)getpid());
    FILE *o = fopen(p.c_str(), "wb");
    if (!o || fwrite(f.data(), 1, f.size(), o) != f.size() || fclose(o) != 0) {
      fprintf(stderr, "cannot write %s\n", p.c_str());
      _exit(3);
    }
    i32 v = fcv_get_exif_orientation(p.c_str());
    unlink(p.c_str());
    fw::calls();
    fw::compared();
    fw::seen((u64)v + 100);
    if (v < 1 || v > 8) {
      fw::fail("orientation %d", v);
    }
  };
  static std::vector<std::array<u32, 3>> mut; // file, position, value (256: cut here; 257: two bytes FF FF; 258: 7F FF FF FF)
  if (mut.empty()) {
    for (u32 k = 0; k < files.size(); k++) {
      for (u32 p = 0; p < files[k].size(); p++) {
        for (u32 v : {0u, 1u, 2u, 8u, 0x12u, 0x7Fu, 0x80u, 0xE1u, 0xFFu, 256u, 257u, 258u, 259u}) {
          mut.push_back({k, p, v});
        }
      }
    }
  }
  fw::Suite e;
  e.name = "exif-damaged";
  e.what = "four files x every position x 9 byte values, truncation and three multi-byte extremes, alone and with the next Exif length at its maximum";
  e.count = mut.size() * 2;
  e.describe = [](u64 i) { return fw::str("file %u, position %u, value %u, variant %d", mut[i / 2][0], mut[i / 2][1], mut[i / 2][2], (int)(i & 1)); };
  e.run = [read_exif](u64 i) {
    auto m = mut[i / 2];
    Bytes f = files[m[0]];
    if (i & 1) {
      f[10] = f[11] = 0xFF;
    }
    u32 p = m[1];
    if (m[2] < 256) {
      f[p] = (u8)m[2];
    }
    else if (m[2] == 256) {
      f.resize(p);
    }
    else {
      static const u8 x[3][4] = {{0xFF, 0xFF, 0xFF, 0xFF}, {0x7F, 0xFF, 0xFF, 0xFF}, {0xFF, 0xFF, 0xFF, 0x7F}};
      for (u32 k = 0; k < 4 && p + k < f.size(); k++) {
        f[p + k] = x[m[2] - 257][k];
      }
    }
    read_exif(f);
  };
  SU->push_back(e);
}

int main(int argc, char **argv) {
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    SU = &S;
    spaces();
  });
}
