// C26: images of more than 2^30, 2^31 and 2^32 pixels. An input is a mapping of
// zero pages in which only the corners are written. A block that the library
// allocates is real memory at its ends and at every eighth of its length; all
// that lies between shares the same few pages (the pictures are uniform
// there), so that every pixel is processed in little memory. What comes out at the corners
// has to be what the same corners give in a small picture; nothing before or
// after a block may be touched (there are no accessible pages).
#include "lib.hpp"
#include <map>

typedef uint64_t sz;
static const sz PG = 4096, MB = 1 << 20, BIG = 256 * MB, STEP = 64 * MB;
struct Block {
  char *base;
  sz map, len;
  std::vector<std::pair<sz, sz>> real; // offsets from base
};
static std::map<void *, Block> blocks;
static long live_small = 0;

static std::vector<std::pair<sz, sz>> windows(sz n) {
  std::vector<std::pair<sz, sz>> r;
  for (int k = 0; k <= 8; k++) {
    sz c = n / 8 * k, d = k == 0 || k == 8 ? 16 * MB : 4 * MB;
    sz a = c > d ? (c - d) / PG * PG : 0, b = k == 8 ? n : (c + d) / PG * PG;
    if (!r.empty() && a < r.back().second) {
      a = r.back().second;
    }
    r.push_back({a, b < n ? b : n});
  }
  return r;
}
static void *big(sz n, bool zero) {
  sz map = (n + 15) / 16 * 16;
  map = (map + PG - 1) / PG * PG;
  char *res = (char *)mmap(nullptr, map + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (res == MAP_FAILED) {
    return nullptr;
  }
  Block b{res + PG, map, n, windows(map)};
  int fd = memfd_create("alias", 0);
  if (fd < 0 || ftruncate(fd, STEP)) {
    return nullptr;
  }
  sz at = 0;
  auto fixed = [&](sz a, sz l, int f, int fl) {
    if (mmap(b.base + a, l, PROT_READ | PROT_WRITE, fl | MAP_FIXED | MAP_NORESERVE, f, 0) == MAP_FAILED) {
      fprintf(stderr, "mmap failed\n");
      _exit(3);
    }
  };
  for (auto [a, e] : b.real) {
    while (at < a) {
      sz l = a - at < STEP ? a - at : STEP;
      fixed(at, l, fd, MAP_SHARED);
      at += l;
    }
    fixed(a, e - a, -1, MAP_PRIVATE | MAP_ANONYMOUS);
    if (!zero) {
      memset(b.base + a, 0xA5, e - a);
    }
    at = e;
  }
  close(fd);
  void *p = b.base + (map - (n + 15) / 16 * 16);
  blocks[p] = b;
  return p;
}
static bool is_real(const void *p) {
  auto i = blocks.upper_bound((void *)p);
  if (i == blocks.begin()) {
    return true;
  }
  --i;
  Block &b = i->second;
  sz o = (char *)p - b.base;
  if ((char *)p < b.base || o >= b.map) {
    return true;
  }
  for (auto [a, e] : b.real) {
    if (o >= a && o < e) {
      return true;
    }
  }
  return false;
}
extern "C" {
void *vf_malloc(size_t n) {
  if (n >= BIG) {
    return big(n, false);
  }
  live_small++;
  return malloc(n);
}
void *vf_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    return nullptr;
  }
  if (n >= BIG) {
    return big(n, true);
  }
  live_small++;
  return calloc(a, b);
}
void vf_free(void *p) {
  auto i = blocks.find(p);
  if (i != blocks.end()) {
    munmap(i->second.base - PG, i->second.map + 2 * PG);
    blocks.erase(i);
    return;
  }
  live_small -= p != nullptr;
  free(p);
}
void *vf_realloc(void *p, size_t n) {
  auto i = blocks.find(p);
  if (i == blocks.end() && n < BIG) {
    live_small += p == nullptr;
    return realloc(p, n);
  }
  size_t old = i == blocks.end() ? (p ? n : 0) : i->second.len;
  if (i != blocks.end() && n <= old) {
    return p; // keep it
  }
  if (p && i == blocks.end()) {
    return nullptr;
  }
  char *q = (char *)vf_malloc(n);
  if (q && p) {
    memcpy(q, p, old);
    vf_free(p);
  }
  return q;
}
void *vf_reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  return __builtin_mul_overflow(a, b, &n) ? nullptr : vf_realloc(p, n);
}
void *vf_aligned_alloc(size_t, size_t n) { return vf_malloc(n); }
int vf_posix_memalign(void **o, size_t, size_t n) { return (*o = vf_malloc(n)) ? 0 : ENOMEM; }
char *vf_strdup(const char *s) {
  live_small++;
  return strdup(s);
}
char *vf_strndup(const char *s, size_t n) {
  live_small++;
  return strndup(s, n);
}
FILE *vf_fopen(const char *p, const char *m) { return fopen(p, m); }
int vf_fclose(FILE *f) { return fclose(f); }
}

// ---- pictures
static const u32 K = 16; // side of the written corners
enum Kind { COLOUR, TWO, WHITE };
struct Pic {
  u32 w, h, ch;
  u8 *p, *base;
  sz map;
  Pic(u32 w_, u32 h_, u32 ch_) : w(w_), h(h_), ch(ch_) {
    sz n = (sz)w * h * ch;
    map = (n + PG - 1) / PG * PG;
    base = (u8 *)mmap(nullptr, map + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || mmap(base + PG, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) {
      fprintf(stderr, "mmap failed\n");
      _exit(3);
    }
    madvise(base + PG, map, MADV_NOHUGEPAGE);
    p = base + PG + (map - n); // ends at the guard
  }
  Pic(const Pic &) = delete;
  ~Pic() { munmap(base, map + 2 * PG); }
  u8 *px(u32 x, u32 y) { return p + ((sz)y * w + x) * ch; }
  void corners(Kind kind) {
    u32 kx = w < 2 * K ? w / 2 : K, ky = h < 2 * K ? h / 2 : K;
    if (!kx) {
      kx = 1;
    }
    if (!ky) {
      ky = 1;
    }
    for (int c = 0; c < 4; c++) {
      for (u32 j = 0; j < ky; j++) {
        for (u32 i = 0; i < kx; i++) {
          u8 *q = px(c & 1 ? w - 1 - i : i, c & 2 ? h - 1 - j : j);
          u64 m = fw::mix(c * 1000 + j * 40 + i + 1);
          for (u32 b = 0; b < ch; b++) {
            q[b] = kind == COLOUR ? (u8)(m >> (8 * b)) : kind == TWO ? (m & 1) * 200 : (m & 3 ? 255 : 0);
          }
        }
      }
    }
  }
};

typedef std::function<u8 *(u32, u32, u8 *, u32 &, u32 &)> F;
struct Op {
  const char *name;
  u32 in, out;
  Kind kind;
  F f;
  int shape; // 0 same, 1 swapped, 2 half, 3 double
  int cost;  // 0 row-wise, 1 column-wise: slow on large square pictures
  bool i32;  // sizes are int32_t
};
static F un(u8 *(*g)(u32, u32, const u8 *const)) {
  return [g](u32 w, u32 h, u8 *p, u32 &, u32 &) { return g(w, h, p); };
}
static F mo(u8 *(*g)(const u8 *, i32, i32, i32), int r) {
  return [g, r](u32 w, u32 h, u8 *p, u32 &, u32 &) { return g(p, w, h, r); };
}
static std::vector<Op> OP = {
  {"grayscale", 4, 4, COLOUR, un(fcv_grayscale)},
  {"grayscale_stretch", 4, 4, COLOUR, un(fcv_grayscale_stretch)},
  {"rgba_to_grayscale", 4, 1, COLOUR, un(fcv_rgba_to_grayscale)},
  {"single_to_multichannel", 1, 4, COLOUR, un(fcv_single_to_multichannel)},
  {"otsu", 4, 4, TWO, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_otsu_threshold_rgba(w, h, false, p); }},
  {"otsu, two thresholds", 4, 4, TWO, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_otsu_threshold_rgba(w, h, true, p); }},
  {"flip_x", 4, 4, COLOUR, un(fcv_flip_x)},
  {"flip_y", 4, 4, COLOUR, un(fcv_flip_y)},
  {"rotate_180", 4, 4, COLOUR, un(fcv_rotate_180)},
  {"transpose", 4, 4, COLOUR, un(fcv_transpose), 1, 1},
  {"transverse", 4, 4, COLOUR, un(fcv_transverse), 1, 1},
  {"rotate_90", 4, 4, COLOUR, un(fcv_rotate_90_cw), 1, 1},
  {"rotate_270", 4, 4, COLOUR, un(fcv_rotate_270_cw), 1, 1},
  {"blur, radius 0", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_apply_gaussian_blur(w, h, 0, p); }},
  {"blur, radius 1", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_apply_gaussian_blur(w, h, 1, p); }, 0, 1},
  {"resize to one half", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) { return fcv_resize(w, h, 0.5, 0.5, &a, &b, p); }, 2, 2},
  {"resize to the double", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) { return fcv_resize(w, h, 2, 2, &a, &b, p); }, 3, 2},
  {"convert_to_binary", 4, 1, TWO, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_convert_to_binary(p, w, h, "c8c8c8", "000000"); }, 0, 0, true},
  {"sobel of RGBA", 4, 1, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_sobel_edge_detection(w, h, 4, p); }, 0, 2},
  {"sobel of RGB", 3, 1, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_sobel_edge_detection(w, h, 3, p); }, 0, 2},
  {"sobel of gray", 1, 1, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_sobel_edge_detection(w, h, 1, p); }, 0, 2},
  {"foerstner response", 1, 2, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_foerstner_corner(w, h, p, 1.0); }, 0, 2},
  {"dilation, radius 1", 1, 1, WHITE, mo(fcv_binary_dilation_disk, 1), 0, 0, true},
  {"erosion, radius 1", 1, 1, WHITE, mo(fcv_binary_erosion_disk, 1), 0, 2, true},
  {"closing, radius 1", 1, 1, WHITE, mo(fcv_binary_closing_disk, 1), 0, 2, true},
  {"opening, radius 1", 1, 1, WHITE, mo(fcv_binary_opening_disk, 1), 0, 2, true},
  {"trim", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) {
     i32 x = w, y = h;
     u8 *q = fcv_trim(&x, &y, 4, p);
     a = x, b = y;
     return q;
   }, 0, 0, true},
  {"crop to the lower right", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) {
     a = w < 12 ? w : 12, b = h < 9 ? h : 9;
     return fcv_crop(w, h, 4, p, w - a, h - b, a, b);
   }, 4},
  {"crop of all", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_crop(w, h, 4, p, 0, 0, w, h); }},
  {"crop of all, one channel", 1, 1, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) { return fcv_crop(w, h, 1, p, 0, 0, w, h); }},
  {"border of 3", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) { return fcv_add_border(w, h, 4, "123456", 3, p, &a, &b); }, 5},
  {"border of 3, one channel", 1, 1, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) { return fcv_add_border(w, h, 1, "123456", 3, p, &a, &b); }, 5},
  {"warp of the lower right corner", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &a, u32 &b) {
     a = w < 12 ? w : 12, b = h < 9 ? h : 9;
     Matrix3x3 m = {1, 0, (double)(w - a), 0, 1, (double)(h - b), 0, 0, 1};
     return fcv_apply_matrix_3x3(w, h, p, a, b, &m);
   }, 4, 0, true},
  {"warp of all", 4, 4, COLOUR, [](u32 w, u32 h, u8 *p, u32 &, u32 &) {
     Matrix3x3 m = {1, 0, 0, 0, 1, 0, 0, 0, 1};
     return fcv_apply_matrix_3x3(w, h, p, w, h, &m);
   }, 0, 2, true},
};
typedef std::pair<u32, u32> WH;
static const std::vector<WH> SQUARE = {{32768, 32770}, {46342, 46342}, {65536, 65538}};
static const std::vector<WH> THIN = {{268435458, 4}, {4, 268435458}, {1073741826, 1}, {1, 1073741826}, {2147483650u, 1}, {1, 2147483650u}, {4294967294u, 1}, {1, 4294967294u}, {2147483646, 2}, {2, 2147483646}};

static u32 small_side(u32 n, u32 other) { return n < 64 ? n : (other < 64 ? 4096 : 300) + n % 2; }
static std::vector<u32> near_edges(u32 n, u32 k) {
  std::vector<u32> v;
  for (u32 i = 0; i < n && i < k; i++) {
    v.push_back(i);
  }
  for (u32 i = n > 2 * k ? n - k : k; i < n; i++) {
    v.push_back(i);
  }
  return v;
}
static void expect_size(const Op &o, u32 w, u32 h, u32 ow, u32 oh) {
  u32 ew = o.shape == 1 ? h : o.shape == 2 ? w / 2 : o.shape == 3 ? w * 2 : o.shape == 4 ? (w < 12 ? w : 12) : o.shape == 5 ? w + 6 : w;
  u32 eh = o.shape == 1 ? w : o.shape == 2 ? h / 2 : o.shape == 3 ? h * 2 : o.shape == 4 ? (h < 9 ? h : 9) : o.shape == 5 ? h + 6 : h;
  if (ew != ow || eh != oh) {
    fw::fail("size %ux%u instead of %ux%u", ow, oh, ew, eh);
  }
}
static bool applicable(const Op &o, u32 w, u32 h) {
  if (o.i32 && (w > 0x7fffffffu || h > 0x7fffffffu)) {
    return false;
  }
  if (o.shape == 2 && (w < 2 || h < 2)) {
    return false;
  }
  if (o.shape == 3 && (w > 0x7fffffffu || h > 0x7fffffffu)) {
    return false;
  }
  return o.shape != 5 || (w < 0xfffffff0u && h < 0xfffffff0u);
}
static void one(const Op &o, u32 W, u32 H) {
  u32 w = small_side(W, H), h = small_side(H, W);
  Pic a(w, h, o.in), b(W, H, o.in);
  a.corners(o.kind);
  b.corners(o.kind);
  u32 ow = o.shape == 1 ? h : w, oh = o.shape == 1 ? w : h, OW = o.shape == 1 ? H : W, OH = o.shape == 1 ? W : H;
  u8 *p = o.f(w, h, a.p, ow, oh), *q = o.f(W, H, b.p, OW, OH);
  fw::calls();
  fw::calls();
  fw::compared();
  if (!p || !q) {
    fw::fail("the call failed on the %s picture", p ? "huge" : "small");
  }
  expect_size(o, w, h, ow, oh);
  expect_size(o, W, H, OW, OH);
  auto xs = near_edges(ow, 10), ys = near_edges(oh, 10);
  u64 checked = 0, hsh = 0;
  for (u32 y : ys) {
    for (u32 x : xs) {
      u32 X = x < ow / 2 || ow == OW ? x : OW - (ow - x), Y = y < oh / 2 || oh == OH ? y : OH - (oh - y);
      u8 *s = p + ((sz)y * ow + x) * o.out, *t = q + ((sz)Y * OW + X) * o.out;
      if (!is_real(t) || !is_real(t + o.out - 1)) {
        continue;
      }
      checked++;
      for (u32 c = 0; c < o.out; c++) {
        hsh = hsh * 31 + t[c];
        if (s[c] != t[c]) {
          fw::fail("pixel (%u, %u) of the %ux%u result, channel %u: %u, but %u at the same corner of a %ux%u picture", X, Y, OW, OH, c, t[c], s[c], w, h);
        }
      }
    }
  }
  if (checked < 1) {
    fw::fail("nothing compared");
  }
  fw::seen(hsh);
  fw::nontrivial();
  vf_free(p);
  vf_free(q);
  if (!blocks.empty()) {
    fw::fail("%zu large blocks are not released", blocks.size());
  }
}


// ---- functions without a picture as their result, or with another kind of picture
static void histogram(u32 W, u32 H, u32 ch, bool last_row) {
  Pic b(W, H, ch);
  u64 other = 0;
  if (last_row) { // W*H - W zeros
    memset(b.px(0, H - 1), 7, (sz)W * ch);
    other = W;
  }
  else {
    b.corners(TWO); // as many black values in every channel
  }
  u32 ow = 0, oh = 0;
  u8 *p = fcv_generate_histogram(W, H, ch, b.p, &ow, &oh);
  fw::calls();
  fw::compared();
  if (!p || ow != 256 || oh != 200) {
    fw::fail("no histogram (%ux%u)", ow, oh);
  }
  for (u32 y = 0; y < oh; y++) {
    for (u32 x = 0; x < ow; x++) {
      u64 bar = x == 0 ? 200 : x == 7 && other ? other * 200 / ((u64)W * (H - 1)) : 0;
      u8 e = oh - y <= bar ? 255 : 0;
      for (u32 c = 0; c < 4; c++) {
        u8 v = p[(y * ow + x) * 4 + c];
        if (v != (c == 3 ? 255 : e)) {
          fw::fail("%ux%u, %u channels, almost all of it black: pixel (%u, %u) of the histogram has %u in channel %u", W, H, ch, x, y, v, c);
        }
      }
    }
  }
  fw::nontrivial();
  fw::seen(W + ch);
  vf_free(p);
}
static void draw(u32 W, u32 H, u32 ch, bool disk, double r, int corner) {
  u32 w = W < 64 ? W : 300, h = H < 64 ? H : 300;
  auto f = disk ? fcv_draw_disk : fcv_draw_circle;
  Pic a(w, h, ch), b(W, H, ch);
  auto at = [&](u32 n, bool far) { return far ? (double)n - 2 : 1.0; };
  f(w, h, ch, "0a64c8", r, at(w, corner & 1), at(h, corner & 2), a.p);
  f(W, H, ch, "0a64c8", r, at(W, corner & 1), at(H, corner & 2), b.p);
  fw::calls();
  fw::compared();
  u64 n = 0;
  for (u32 y : near_edges(h, 20)) {
    for (u32 x : near_edges(w, 20)) {
      u32 X = x < w / 2 || w == W ? x : W - (w - x), Y = y < h / 2 || h == H ? y : H - (h - y);
      if (memcmp(a.px(x, y), b.px(X, Y), ch)) {
        fw::fail("%s of radius %g in corner %d of a %ux%u picture with %u channels: pixel (%u, %u) differs from a small picture", disk ? "disk" : "circle", r, corner, W, H, ch, X, Y);
      }
      n += *a.px(x, y) != 0;
    }
  }
  if (n) {
    fw::nontrivial();
  }
  fw::seen(n * 8 + corner);
}
static void peaks(u32 W, u32 H) {
  u32 w = small_side(W, H), h = small_side(H, W);
  Pic a(w, h, 2), b(W, H, 2);
  a.corners(COLOUR);
  b.corners(COLOUR);
  CornerPeaks *p = fcv_corner_peaks(w, h, a.p, 3, 0.3, 0.2), *q = fcv_corner_peaks(W, H, b.p, 3, 0.3, 0.2);
  fw::calls();
  fw::compared();
  if (!p || !q || p->count != q->count || (w > 2 && h > 2 && !p->count)) {
    fw::fail("%u peaks in a %ux%u response, but %u at the same corners of %ux%u", q ? q->count : 0, W, H, p ? p->count : 0, w, h);
  }
  for (u32 i = 0; i < p->count; i++) {
    double x = p->points[i].x, y = p->points[i].y;
    x = x < w / 2 || w == W ? x : W - (w - x);
    y = y < h / 2 || h == H ? y : H - (h - y);
    if (q->points[i].x != x || q->points[i].y != y) {
      fw::fail("peak %u of %ux%u at (%.17g, %.17g) instead of (%.17g, %.17g)", i, W, H, q->points[i].x, q->points[i].y, x, y);
    }
  }
  fw::nontrivial();
  fw::seen(p->count);
  vf_free(p->points), vf_free(q->points), vf_free(p), vf_free(q);
}
// a thick border around a small picture: the picture lies in the middle
static void border(u32 w, u32 h, u32 n, u32 ch) {
  Pic a(w, h, ch);
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) {
      for (u32 c = 0; c < ch; c++) {
        a.px(x, y)[c] = (u8)(fw::mix(y * w + x + 1) >> (8 * c));
      }
    }
  }
  u32 ow = 0, oh = 0;
  u8 *p = fcv_add_border(w, h, ch, "102030", n, a.p, &ow, &oh);
  fw::calls();
  fw::compared();
  if (!p || ow != w + 2 * n || oh != h + 2 * n) {
    fw::fail("no border of %u (%ux%u)", n, ow, oh);
  }
  u64 k = 0;
  auto pixel = [&](u32 X, u32 Y) {
    u8 *t = p + ((sz)Y * ow + X) * ch;
    if (!is_real(t) || !is_real(t + ch - 1)) {
      return;
    }
    bool in = X >= n && Y >= n && X < n + w && Y < n + h;
    k += in;
    for (u32 c = 0; c < ch; c++) {
      u8 e = in ? a.px(X - n, Y - n)[c] : ch == 1 ? (u8)(0.299 * 16 + 0.587 * 32 + 0.114 * 48) : c == 3 ? 255 : 16 * (c + 1);
      if (t[c] != e) {
        fw::fail("border of %u around %ux%u: pixel (%u, %u), channel %u: %u instead of %u", n, w, h, X, Y, c, t[c], e);
      }
    }
  };
  for (u32 y = n - 2; y < n + h + 2; y++) {
    for (u32 x = n - 2; x < n + w + 2; x++) {
      pixel(x, y);
    }
  }
  for (u32 y : near_edges(oh, 6)) {
    for (u32 x : near_edges(ow, 6)) {
      pixel(x, y);
    }
  }
  if (!k) {
    fw::fail("the inner picture could not be compared");
  }
  fw::nontrivial();
  fw::seen(n);
  vf_free(p);
}

struct Case {
  std::string name;
  std::function<void()> f;
};
int main(int argc, char **argv) {
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    static std::vector<Case> C[3];
    for (auto &o : OP) {
      for (int t = 0; t < 2; t++) {
        for (auto d : t ? THIN : SQUARE) {
          u32 w = d.first, h = d.second;
          if (!applicable(o, w, h)) {
            continue;
          }
          if (!fw::thorough) {
            // quick: what is slow only on the smallest of them
            if (!t && (o.cost == 1 || (o.cost == 2 && w > 33000 && !(o.i32 && o.in == 1 && w < 65536)) || (!o.i32 && w == 46342 && o.in == 4))) {
              continue;
            }
            if (t && (o.cost == 2 ? h != 4 : (w > 2147483650u || h > 2147483650u || w == 2 || h == 2 || h == 1073741826 || w == 1073741826))) {
              continue;
            }
          }
          if (o.shape == 3 && w % 2 == 0 && h % 2 == 0) { // the result has this size
            w /= 2, h /= 2;
          }
          C[t].push_back({fw::str("%s of %ux%u", o.name, w, h), [&o, w, h] { one(o, w, h); }});
        }
      }
    }
    auto add = [&](std::string n, std::function<void()> f) { C[2].push_back({n, f}); };
    for (u32 ch : {1u, 3u, 4u}) {
      add(fw::str("histogram of 32768x32770, %u channels", ch), [ch] { histogram(32768, 32770, ch, false); });
    }
    for (u32 ch : {1u, 3u}) {
      add(fw::str("histogram of 65536x65537, 2^32 black pixels, %u channels", ch), [ch] { histogram(65536, 65537, ch, true); });
    }
    for (int t = 0; t < 2; t++) {
      for (auto d : t ? THIN : SQUARE) {
        for (u32 ch : {1u, 3u, 4u}) {
          for (int disk = 0; disk < 2; disk++) {
            for (int c = 0; c < 4; c++) {
              for (double r : {0.0, 3.0, 15.0}) {
                u32 w = d.first, h = d.second;
                if (w < 2000000000u && h < 2000000000u) { // the library computes them in int32_t
                  add(fw::str("%s %g in corner %d of %ux%u, %u channels", disk ? "disk" : "circle", r, c, w, h, ch), [=] { draw(w, h, ch, disk, r, c); });
                }
              }
            }
          }
        }
      }
    }
    add("peaks of 32768x32770", [] { peaks(32768, 32770); });
    add("peaks of 46342x46342", [] { peaks(46342, 46342); });
    add("peaks of 4x268435458", [] { peaks(4, 268435458); });
    add("peaks of 268435458x4", [] { peaks(268435458, 4); });
    for (u32 ch : {1u, 4u}) {
      add(fw::str("border of 16400 around 20x16, %u channels", ch), [ch] { border(20, 16, 16400, ch); });
      add(fw::str("border of 23200 around 3x40, %u channels", ch), [ch] { border(3, 40, 23200, ch); });
      add(fw::str("border of 32769 around 17x1, %u channels", ch), [ch] { border(17, 1, 32769, ch); });
    }
    const char *nm[] = {"square", "thin", "other"};
    for (int t = 0; t < 3; t++) {
      fw::Suite s;
      s.name = nm[t];
      s.what = t == 2 ? "histograms, circles and disks in every corner, corner peaks and thick borders, pictures of 2^30 to 2^33 pixels" : fw::str("%zu operations on pictures of 2^30 to 2^33 pixels", OP.size());
      s.count = C[t].size();
      s.chunk = 1;
      s.hang_s = fw::thorough ? 900 : 200;
      s.run = [t](u64 i) {
        time_t t0 = time(nullptr);
        C[t][i].f();
        if (!blocks.empty()) {
          fw::fail("%zu large blocks are not released", blocks.size());
        }
        if (getenv("C26_TIME")) {
          FILE *f = fopen(getenv("C26_TIME"), "a");
          fprintf(f, "%4ld s %s\n", time(nullptr) - t0, C[t][i].name.c_str());
          fclose(f);
        }
      };
      s.describe = [t](u64 i) { return C[t][i].name; };
      S.push_back(s);
    }
  });
}
