#include "space.hpp"
static const u8 COL[10][3] = {{255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 0}, {255, 0, 255}, {0, 255, 255}, {255, 128, 0}, {128, 0, 255}, {255, 192, 203}, {128, 128, 128}};
static std::vector<int> ref_labels(int w, int h, const Bytes &e, const std::vector<Point2D> &mk, bool bound) {
  std::vector<int> L((size_t)w * h, -1), N;
  for (size_t m = 0; m < mk.size(); m++) L[(size_t)((int)mk[m].y) * w + (int)mk[m].x] = m;
  bool present[256] = {0};
  for (u8 v : e) present[v] = true;
  for (int lv = 0; lv < 256; lv++) {
    if (!present[lv] && lv) continue; // nothing can change on a level without pixels
    for (bool ch = true; ch;) {
      ch = false;
      N = L;
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
          size_t i = (size_t)y * w + x;
          if (L[i] >= 0 || e[i] > lv) continue;
          int first = -1;
          bool multi = false;
          auto look = [&](bool in, size_t j) {
            if (!in || L[j] < 0) return;
            if (first < 0) first = L[j];
            else if (first != L[j]) multi = true;
          };
          look(x > 0, i - 1), look(x < w - 1, i + 1), look(y > 0, i - w), look(y < h - 1, i + w);
          if (first >= 0 && !(multi && bound)) N[i] = first, ch = true;
        }
      L = N;
    }
  }
  return L;
}
static void shed(u32 w, u32 h, const Bytes &e, const std::vector<Point2D> &mk, bool bound) {
  In in(e);
  std::unique_ptr<Point2D[]> m(new Point2D[mk.size()]);
  std::copy(mk.begin(), mk.end(), m.get());
  Out o(fcv_watershed_segmentation(w, h, in.p, m.get(), mk.size(), bound));
  in.check();
  if (memcmp(m.get(), mk.data(), mk.size() * sizeof(Point2D))) fail("the marker list was modified");
  if (!o) fail("watershed failed on %ux%u with %zu markers", w, h, mk.size());
  auto L = ref_labels(w, h, e, mk, bound);
  Bytes want((size_t)w * h * 4), got = o.bytes(want.size());
  for (size_t i = 0; i < L.size(); i++) {
    if (L[i] < 0 && !bound) fail("harness: unlabelled");
    for (int c = 0; c < 3; c++) want[4 * i + c] = L[i] < 0 ? 0 : COL[std::min(L[i], 9)][c];
    want[4 * i + 3] = 255;
  }
  std::string ms;
  for (size_t k = 0; k < mk.size() && k < 8; k++) ms += str(" %gx%g", mk[k].x, mk[k].y);
  expect_equal(got, want, w, 4, str("watershed(%s) markers%s", bound ? "boundaries" : "no boundaries", ms.c_str()).c_str());
  seen(hash(got.data(), got.size(), w * 7919 + h));
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    auto add = [&](const char *name, u32 w, u32 h, std::vector<int> lv, u32 nm) {
      u64 np = w * h, nimg = ipow(lv.size(), np), nmk = ipow(np, nm);
      add_list(S, name, str("every %ux%u elevation image over %zu levels x every list of %u markers x boundaries on/off", w, h, lv.size(), nm), nimg * 2,
        [=](u64 i) {
          Dec k(i);
          bool b = k.take(2);
          Bytes e(np);
          for (auto &v : e) v = lv[k.take(lv.size())];
          for (u64 m = 0; m < nmk; m++) {
            Dec q(m);
            std::vector<Point2D> mk;
            for (u32 j = 0; j < nm; j++) { u32 p = q.take(np); mk.push_back({(double)(p % w), (double)(p / w)}); }
            shed(w, h, e, mk, b);
          }
        },
        [=](u64 i) { Dec k(i); bool b = k.take(2); Bytes e(np); for (auto &v : e) v = lv[k.take(lv.size())]; return str("watershed of the %ux%u elevation %s, all lists of %u markers, boundaries %d", w, h, hex(e).c_str(), nm, b); });
      S.back().chunk = std::max<u64>(1, std::min<u64>(nimg * 2 / 64, 1 + 200000 / nmk));
    };
    add("2x2", 2, 2, {0, 1, 254, 255}, 3);
    add("5x1", 5, 1, {0, 7, 255}, 2);
    add("1x5", 1, 5, {0, 7, 255}, 2);
    add("3x2", 3, 2, {0, 9, 200}, 2);
    add("2x3", 2, 3, {0, 9, 200}, 2);
    add("3x2-3m", 3, 2, {0, 255}, 3);
    add("3x3", 3, 3, {0, 100}, 2);
    add("4x3-1m", 4, 3, {10, 200}, 1);
    add("3x3-3l", 3, 3, {0, 100, 255}, 2);
    add("3x3-3m", 3, 3, {0, 100}, 3);
    add("4x3", 4, 3, {0, 100}, 2);
    add("2x2-5m", 2, 2, {0, 128, 255}, 5);
    if (thorough) { add("3x3-3l3m", 3, 3, {0, 100, 255}, 3); add("4x4", 4, 4, {0, 100}, 2); add("3x4", 3, 4, {0, 100}, 2); add("5x3", 5, 3, {0, 100}, 2); add("7x1-3m", 7, 1, {0, 9, 255}, 3); }
    // more markers, labels beyond the colour table, fractional coordinates
    add_list(S, "many", "sizes up to 12x12 x 1..14 markers at hashed (also fractional and repeated) positions x 5 contents x boundaries", 144ull * 14 * 5 * 2,
      [](u64 i) {
        Dec k(i);
        bool b = k.take(2);
        static const int F[5] = {F_HASH, F_EXTREME, F_SPARSE, F_GRAD, F_CHECK};
        int f = k.take(5);
        u32 n = 1 + k.take(14), w = 1 + k.take(12), h = 1 + k.take(12);
        std::vector<Point2D> mk;
        for (u32 j = 0; j < n; j++) {
          u64 q = fw::mix(j * 1000003 + w * 31 + h * 7 + f);
          mk.push_back({(double)(q % w) + (q >> 40) % 4 * 0.25 * (j % 2), (double)((q >> 20) % h) + (q >> 44) % 4 * 0.249 * (j % 2)});
        }
        Bytes e = fill(f, w, h, 1, 1);
        if (f == F_HASH) for (auto &v : e) v = v >> 5;
        shed(w, h, e, mk, b);
      },
      [](u64 i) { Dec k(i); bool b = k.take(2); int f = k.take(5), n = 1 + k.take(14), w = 1 + k.take(12); return str("watershed of %dx%d, content %d, %d markers, boundaries %d", w, (int)(1 + k.v), f, n, b); });
    static const u32 LD[][2] = {{40, 30}, {30, 40}, {64, 64}, {200, 1}, {1, 200}, {3, 257}, {257, 3}, {100, 70}, {1030, 2}};
    add_list(S, "large", "9 larger sizes x 5 contents x 1, 2, 3, 11 markers x boundaries", 9ull * 5 * 4 * 2,
      [](u64 i) {
        Dec k(i);
        bool b = k.take(2);
        static const int F[5] = {F_HASH, F_EXTREME, F_SPARSE, F_GRAD, F_RAMP};
        static const u32 NM[4] = {1, 2, 3, 11};
        int f = F[k.take(5)];
        u32 n = NM[k.take(4)], w = LD[k.v][0], h = LD[k.v][1];
        std::vector<Point2D> mk;
        for (u32 j = 0; j < n; j++) { u64 q = fw::mix(j * 77 + w); mk.push_back({(double)(q % w), (double)((q >> 20) % h)}); }
        shed(w, h, fill(f, w, h, 1, 2), mk, b);
      },
      [](u64 i) { Dec k(i); bool b = k.take(2); int f = k.take(5), n = k.take(4); return str("watershed of %ux%u, content %d, marker count #%d, boundaries %d", LD[k.v][0], LD[k.v][1], f, n, b); });
    S.back().chunk = 4;
    S.back().hang_s = 120;
    static const u32 WD[][2] = {{70001, 3}, {3, 70001}, {1100, 1000}, {66000, 5}, {5, 66000}};
    add_list(S, "wide", "lines longer than 2^16, more than 2^20 pixels and more than 2^16 markers (dense, so that few layers are needed), 2 contents x boundaries", 5ull * 2 * 2,
      [](u64 i) {
        Dec k(i);
        bool b = k.take(2);
        int f = k.take(2) ? F_HASH : F_SPARSE;
        u32 w = WD[k.v][0], h = WD[k.v][1];
        u64 n = (u64)w * h;
        std::vector<Point2D> mk;
        for (u64 p = 2; p < n; p += 11 + p % 3) mk.push_back({(double)(p % w), (double)(p / w)});
        for (u32 j = 0; j < 70000; j += 7) mk.push_back(mk[(u64)j * 31 % mk.size()]);
        std::reverse(mk.begin(), mk.end());
        while (mk.size() < 66000) mk.push_back(mk[mk.size() * 7 % 5000]);
        Bytes e = fill(f, w, h, 1, 1);
        for (auto &v : e) v &= 0xC1;
        shed(w, h, e, mk, b);
      },
      [](u64 i) { Dec k(i); bool b = k.take(2); int f = k.take(2); return str("watershed of %ux%u with dense markers, content %d, boundaries %d", WD[k.v][0], WD[k.v][1], f, b); });
    S.back().chunk = 1;
    S.back().hang_s = 120;
    add_list(S, "labels", "every number of markers from 1 to 700 on 30x26: label and colour of each", 700ull * 2,
      [](u64 i) {
        u32 n = 1 + i / 2, w = 30, h = 26;
        std::vector<Point2D> mk;
        for (u32 j = 0; j < n; j++) { u32 p = (u64)j * 7 % (w * h); mk.push_back({(double)(p % w), (double)(p / w)}); }
        shed(w, h, fill(F_GRAD, w, h, 1, 1), mk, i & 1);
      },
      [](u64 i) { return str("watershed of 30x26 with %d markers, boundaries %d", (int)(1 + i / 2), (int)(i & 1)); });
    add_list(S, "levels", "two basins separated by a wall of every height, flooded from every pair of markers on a 7x1 line: every level boundary", 256ull * 256,
      [](u64 i) {
        u8 a = i & 255, c = i >> 8;
        Bytes e = {0, a, 3, c, 3, a, 0};
        for (int m = 0; m < 7; m += 3) shed(7, 1, e, {{(double)m, 0}, {6, 0}}, i & 1);
      },
      [](u64 i) { return str("watershed of a line with walls %d and %d", (int)(i & 255), (int)(i >> 8)); });
    static const double BX[] = {-1, -2, 4, 5, 1e9, -1e9, 1e300, NAN, INFINITY, -INFINITY};
    add_list(S, "invalid", "a marker outside the image (any position in the list), NULL or empty arguments fail", 10 * 2 * 3 + 5,
      [](u64 i) {
        In in(Bytes(16, 9));
        compared();
        if (i < 60) {
          Dec k(i);
          double bad = BX[k.take(10)];
          int ax = k.take(2), pos = k.take(3);
          Point2D m[3] = {{0, 0}, {1, 1}, {2, 2}};
          (ax ? m[pos].y : m[pos].x) = bad;
          Out o(fcv_watershed_segmentation(4, 4, in.p, m, 3, false));
          if (o) fail("a marker at %g was accepted", bad);
          return;
        }
        int m = i - 60;
        Point2D mk[1] = {{0, 0}};
        Out o(fcv_watershed_segmentation(m == 0 ? 0 : 4, m == 1 ? 0 : 4, m == 2 ? nullptr : in.p, m == 3 ? nullptr : mk, m == 4 ? 0 : 1, false));
        if (o) fail("invalid arguments were accepted (mode %d)", m);
      },
      [](u64 i) { return i < 60 ? str("watershed with marker coordinate %g", BX[i % 10]) : str("watershed with invalid arguments #%d", (int)i - 60); });
  });
}
