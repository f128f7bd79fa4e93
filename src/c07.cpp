#include "space.hpp"
struct Rect { u32 l, t, r, b; };
static Rect ref_trim(u32 w, u32 h, u32 ch, const Bytes &d, int tol) {
  Rect q{0, 0, w, h};
  auto at = [&](u32 x, u32 y, u32 c) -> int { return d[((size_t)y * w + x) * ch + c]; };
  auto col = [&](u32 x) {
    for (u32 y = q.t; y < q.b; y++)
      for (u32 c = 0; c < ch; c++)
        if (abs(at(x, y, c) - at(x, q.t, c)) > tol) return false;
    return true;
  };
  auto row = [&](u32 y) {
    for (u32 x = q.l; x < q.r; x++)
      for (u32 c = 0; c < ch; c++)
        if (abs(at(x, y, c) - at(q.l, y, c)) > tol) return false;
    return true;
  };
  while (q.r - q.l > 1 && col(q.l)) q.l++;
  while (q.r - q.l > 1 && col(q.r - 1)) q.r--;
  while (q.b - q.t > 1 && row(q.t)) q.t++;
  while (q.b - q.t > 1 && row(q.b - 1)) q.b--;
  return q;
}
// pct < 0: plain trim
static void trim_case(u32 w, u32 h, u32 ch, const Bytes &b, double pct, int tol) {
  In in(b);
  i32 W = w, H = h;
  Out o(pct < -1e9 ? fcv_trim(&W, &H, ch, in.p) : fcv_trim_threshold(&W, &H, ch, in.p, pct));
  in.check();
  if (!o) fail("trim failed on a %ux%u image", w, h);
  Rect q = ref_trim(w, h, ch, b, tol);
  if (W != (i32)(q.r - q.l) || H != (i32)(q.b - q.t))
    fail("trim (tolerance %d) reports %dx%d, expected %ux%u (window %u,%u)", tol, W, H, q.r - q.l, q.b - q.t, q.l, q.t);
  Bytes want;
  for (u32 y = q.t; y < q.b; y++)
    want.insert(want.end(), b.begin() + ((size_t)y * w + q.l) * ch, b.begin() + ((size_t)y * w + q.r) * ch);
  Bytes r = o.bytes(want.size());
  expect_equal(r, want, W, ch, "trim");
  seen(hash(r.data(), r.size(), W * 7919 + H));
}
static const double EXACT = -1e10;
// tolerances: percent -> floor(p*255/100), away from representation edges
struct P { double p; int tol; };
static const P PS[] = {{EXACT, 0}, {0, 0}, {-5, 0}, {-1e6, 0}, {0.1, 0}, {0.39, 0}, {0.4, 1}, {0.78, 1}, {0.79, 2}, {1, 2}, {2, 5}, {5, 12}, {10, 25}, {20, 51}, {33.3, 84}, {50, 127}, {99, 252}, {99.9, 254}, {100, 255}, {150, 255}, {1e9, 255}};
static const u64 NP = sizeof PS / sizeof PS[0];
static std::string pn(u64 v) { return PS[v].p == EXACT ? std::string("trim") : str("trim %g%%", PS[v].p); }
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    Dims small;
    for (u32 h = 1; h <= 4; h++) for (u32 w = 1; w <= 4; w++) if (w * h <= (thorough ? 16u : 12u)) small.push_back({w, h});
    // binary contents, RGBA pixels that differ only in one channel
    for (int c = 0; c < 4; c++) {
      Bytes p0 = px({10, 20, 30, 40}), p1 = p0;
      p1[c] ^= 1;
      Dims d;
      for (auto x : small) if (x.first * x.second <= (thorough ? 16u : 9u)) d.push_back(x);
      add_coded(S, str("bin-ch%d", c), "pixels differing by 1 in one channel", d, {p0, p1}, 2, [](u64 v, u32 w, u32 h, const Bytes &b) { trim_case(w, h, 4, b, v ? 0.5 : EXACT, v ? 1 : 0); }, [](u64 v) { return std::string(v ? "trim 0.5%" : "trim"); });
    }
    add_coded(S, "bin", "all binary images, one channel", small, {px({0}), px({255})}, 2, [](u64 v, u32 w, u32 h, const Bytes &b) { trim_case(w, h, 1, b, v ? 50 : EXACT, v ? 127 : 0); }, [](u64 v) { return std::string(v ? "trim 50%" : "trim"); });
    Dims d3;
    for (auto x : small) if (x.first * x.second <= (thorough ? 10u : 9u)) d3.push_back(x);
    add_coded(S, "tri", "all images over three values, one channel", d3, {px({100}), px({102}), px({104})}, 3, [](u64 v, u32 w, u32 h, const Bytes &b) { trim_case(w, h, 1, b, v == 0 ? EXACT : v == 1 ? 1.0 : 1.9, v == 0 ? 0 : v == 1 ? 2 : 4); }, [](u64 v) { return std::string(v == 0 ? "trim" : v == 1 ? "trim 1%" : "trim 1.9%"); });
    // one odd pixel at every position of every size: frames of every thickness
    for (u32 ch : {1u, 2u, 3u, 4u}) {
      static u32 M; M = thorough ? 16 : 11;
      add_list(S, str("pair-%uch", ch), "uniform image with two differing pixels at every pair of positions, all sizes up to MxM", (u64)M * M * 3,
        [ch](u64 i) {
          Dec k(i);
          u32 w = 1 + k.take(M), h = 1 + k.take(M);
          int mode = k.take(3);
          Bytes b((size_t)w * h * ch, 200);
          u32 n = w * h;
          for (u32 p = 0; p < n; p++)
            for (u32 q = p; q < n; q++) {
              u32 c1 = (p + mode) % ch, c2 = (q + mode + 1) % ch;
              b[(size_t)p * ch + c1] = 203;
              u8 old = b[(size_t)q * ch + c2];
              b[(size_t)q * ch + c2] = 197;
              trim_case(w, h, ch, b, mode == 0 ? EXACT : mode == 1 ? 1.2 : 1.6, mode == 0 ? 0 : mode == 1 ? 3 : 4);
              b[(size_t)q * ch + c2] = 200;
              b[(size_t)p * ch + c1] = 200;
              (void)old;
            }
        },
        [ch](u64 i) { Dec k(i); u32 w = 1 + k.take(M), h = 1 + k.take(M); return str("%ux%u, %u channels, every pair of odd pixels, mode %d", w, h, ch, (int)k.take(3)); });
      S.back().chunk = 6;
    }
    // tolerance thresholds: all differences 0..255 against all percentages
    add_list(S, "tolerance", "every difference 0..255 (both signs) against every percentage of a list", NP * 256 * 2 * 3,
      [](u64 i) {
        Dec k(i);
        const P &p = PS[k.take(NP)];
        int d = k.take(256), up = k.take(2), lay = k.take(3);
        u8 base = up ? 255 - d : d, other = up ? 255 : 0;
        // content in the middle, the edge line under test left / top / bottom
        u32 w = 4, h = 4;
        Bytes b((size_t)w * h * 4);
        for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) for (u32 c = 0; c < 4; c++) {
          bool line = lay == 0 ? x == 0 : lay == 1 ? y == 0 : y == h - 1;
          u8 v = line ? base : ((x + y) & 1 ? 0 : 255);
          bool odd = lay == 0 ? (y == 2) : (x == 3);
          if (line && odd && c == (u32)(d & 3)) v = other;
          b[((size_t)y * w + x) * 4 + c] = v;
        }
        trim_case(w, h, 4, b, p.p, p.tol);
      },
      [](u64 i) { Dec k(i); u64 v = k.take(NP); int d = k.take(256); return pn(v) + str(" with difference %d", d); });
    // the value of the comparison, not only the difference
    add_list(S, "pair-values", "every pair of values in every channel of one pixel of a 3x3 image, exact and 1 level of tolerance", 65536ull * 4,
      [](u64 i) {
        Dec k(i);
        int c = k.take(4), a = k.take(256), d = k.take(256);
        Bytes b;
        for (int y = 0; y < 3; y++) for (int x = 0; x < 3; x++) for (int j = 0; j < 4; j++) b.push_back(j == c ? ((x ^ y) & 1 ? d : a) : 60 + 40 * j);
        trim_case(3, 3, 4, b, EXACT, 0);
        trim_case(3, 3, 4, b, 0.5, 1);
      },
      [](u64 i) { Dec k(i); int c = k.take(4), a = k.take(256); return str("chequered 3x3 image of values %d and %d in channel %d", a, (int)k.v, c); });
    // framed images of all sizes
    for (u32 ch : {1u, 3u, 4u}) {
      auto framed = [ch](u64 v, u32 w, u32 h, const Bytes &b0) {
        Bytes b = b0;
        u32 l = v % 3, r = v / 3 % 3, t = v / 9 % 3, m = v / 27 % 3; // frame thickness selectors
        auto thick = [](u32 s, u32 n) { return s == 0 ? 0 : s == 1 ? std::min(1u, n) : n / 3; };
        u32 L = thick(l, w), R = thick(r, w), T = thick(t, h), B = thick(m, h);
        for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++)
          if (x < L || x >= w - R || y < T || y >= h - B)
            for (u32 c = 0; c < ch; c++) b[((size_t)y * w + x) * ch + c] = 77 + c;
        trim_case(w, h, ch, b, EXACT, 0);
        trim_case(w, h, ch, b, 2, 5);
      };
      add_dims(S, str("framed-%uch", ch), "81 frame shapes x all sizes up to NxN", dims_small(thorough ? 24 : 14), {F_INDEX}, ch, 81, framed, [](u64 v) { return str("framed %d", (int)v); });
      add_dims(S, str("framed-large-%uch", ch), "81 frame shapes x larger sizes", {{64, 64}, {65, 63}, {128, 5}, {5, 128}, {255, 256}, {256, 255}, {257, 3}, {3, 257}, {1025, 3}, {3, 1025}, {513, 300}, {1, 1000}, {1000, 1}, {2, 4097}, {4097, 2}}, {F_INDEX}, ch, 81, framed, [](u64 v) { return str("framed %d", (int)v); });
    }
    add_dims(S, "framed-wide", WIDE_WHAT, WIDE, {F_HASH}, 4, 10,
      [](u64 v, u32 w, u32 h, const Bytes &b0) {
        Bytes b = b0;
        u32 L = v & 1 ? w / 3 : 0, R = v & 2 ? w / 3 : 0, T = v & 4 ? h / 3 : 0, B = v & 8 ? h / 3 : 0;
        for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++)
          if (x < L || x >= w - R || y < T || y >= h - B)
            for (u32 c = 0; c < 4; c++) b[((size_t)y * w + x) * 4 + c] = 77 + c;
        trim_case(w, h, 4, b, EXACT, 0);
        trim_case(w, h, 4, b, 2, 5);
      },
      [](u64 v) { return str("framed %d", (int)v); });
    S.back().chunk = 1;
    add_list(S, "uniform", "uniform images of all sizes shrink to one pixel", 40 * 40,
      [](u64 i) { u32 w = 1 + i % 40, h = 1 + i / 40; for (u32 ch = 1; ch <= 4; ch++) { Bytes b((size_t)w * h * ch, 9); trim_case(w, h, ch, b, EXACT, 0); trim_case(w, h, ch, b, 3, 7); } },
      [](u64 i) { return str("uniform %ux%u", (u32)(1 + i % 40), (u32)(1 + i / 40)); });
    // a single odd pixel anywhere on an otherwise uniform long line
    add_list(S, "long", "one odd pixel at every place of long thin images", 4 * 300,
      [](u64 i) {
        static const u32 D[4][2] = {{300, 2}, {2, 300}, {300, 3}, {3, 300}};
        u32 w = D[i % 4][0], h = D[i % 4][1], k = i / 4;
        for (u32 t = 0; t < std::min(w, h); t++) {
          Bytes b((size_t)w * h * 4, 50);
          size_t pos = w > h ? (size_t)t * w + k : (size_t)k * w + t;
          b[pos * 4 + (k & 3)] = 60;
          trim_case(w, h, 4, b, EXACT, 0);
          trim_case(w, h, 4, b, 3.6, 9);
          trim_case(w, h, 4, b, 4, 10);
        }
      },
      [](u64 i) { return str("odd pixel %llu", (unsigned long long)i / 4); });
    add_list(S, "invalid", "non-positive sizes, zero channels and non-finite thresholds fail", 12,
      [](u64 i) {
        In in(fill(F_INDEX, 4, 4, 4));
        i32 w = i == 0 ? 0 : i == 1 ? -1 : i == 2 ? INT32_MIN : 4, h = i == 3 ? 0 : i == 4 ? -4 : 4;
        u32 ch = i == 5 ? 0 : 4;
        double p = i == 6 ? NAN : i == 7 ? INFINITY : i == 8 ? -INFINITY : 2;
        if (i >= 9) return;
        i32 w0 = w, h0 = h;
        Out o(fcv_trim_threshold(&w, &h, ch, in.p, p));
        Out o2(i < 6 ? fcv_trim(&w, &h, ch, in.p) : nullptr);
        compared();
        if (o || o2) fail("trim accepted invalid arguments (case %d)", (int)i);
        if (w != w0 || h != h0) fail("failed trim changed the size");
      },
      [](u64 i) { return str("invalid trim %d", (int)i); });
  });
}
