#include "space.hpp"
static void hist(u32 ch, u32 w, u32 h, const Bytes &b) {
  In in(b);
  u32 ow = 0, oh = 0;
  Out o(fcv_generate_histogram(w, h, ch, in.p, &ow, &oh));
  in.check();
  if (!o) fail("histogram failed on a %ux%u image with %u channels", w, h, ch);
  if (ow != 256 || oh != 200) fail("the histogram picture is %ux%u", ow, oh);
  size_t n = (size_t)w * h;
  std::vector<std::vector<u64>> H(3, std::vector<u64>(256, 0));
  bool gray = ch == 1;
  if (ch == 4) { gray = true; for (size_t i = 0; i < n; i++) if (b[4 * i] != b[4 * i + 1] || b[4 * i] != b[4 * i + 2]) gray = false; }
  for (size_t i = 0; i < n; i++) for (int c = 0; c < 3; c++) H[c][b[i * ch + (gray ? 0 : c)]]++;
  u64 mx = 0;
  for (auto &x : H) for (u64 v : x) mx = std::max(mx, v);
  Bytes got = o.bytes(256 * 200 * 4), want(got.size());
  for (u32 y = 0; y < 200; y++) for (u32 x = 0; x < 256; x++) {
    for (int c = 0; c < 3; c++) want[(y * 256 + x) * 4 + c] = (199 - y) < 200 * H[c][x] / mx ? 255 : 0;
    want[(y * 256 + x) * 4 + 3] = 255;
  }
  expect_equal(got, want, 256, 4, "histogram");
  seen(hash(got.data(), got.size(), ch));
}
static void counts(u32 ch, const std::vector<std::pair<Bytes, u64>> &pc, u32 w) {
  Bytes b;
  for (auto &p : pc) for (u64 i = 0; i < p.second; i++) b.insert(b.end(), p.first.begin(), p.first.end());
  size_t n = b.size() / ch;
  if (n == 0) return;
  while (n % w) w--;
  hist(ch, w, n / w, b);
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    for (u32 ch : {1u, 3u, 4u}) {
      auto run = [ch](u64, u32 w, u32 h, const Bytes &b) { hist(ch, w, h, b); };
      auto vn = [](u64) { return std::string("histogram"); };
      std::vector<Bytes> al;
      for (int v : {0, 1, 128, 255}) al.push_back(ch == 1 ? px({v}) : ch == 3 ? px({v, v, v}) : px({v, v, v, 255 - v}));
      if (ch > 1) { al.push_back(ch == 3 ? px({0, 255, 1}) : px({0, 255, 1, 9})); al.push_back(ch == 3 ? px({7, 7, 8}) : px({7, 7, 8, 0})); }
      add_coded(S, str("images-%uch", ch), "all images over 4 grays (and two colours)", {{1, 1}, {2, 1}, {1, 3}, {2, 2}}, al, 1, run, vn);
      add_dims(S, str("dims-%uch", ch), "all sizes up to NxN x 5 contents", dims_small(thorough ? 40 : 18), {F_HASH, F_GRAYHASH, F_SPARSE, F_EXTREME, F_RAMP}, ch, 1, run, vn);
      add_dims(S, str("large-%uch", ch), "sizes around powers of two", dims_large(POW2N, thorough ? 300000 : 70000), {F_HASH, F_GRAYHASH}, ch, 1, run, vn);
      add_dims(S, str("wide-%uch", ch), WIDE_WHAT, WIDE, {F_HASH, F_GRAYHASH, F_SPARSE}, ch, 1, run, vn);
      S.back().chunk = 1;
      // every value column alone
      add_list(S, str("columns-%uch", ch), "every value 0..255 in every channel as the only bar / against a constant rest", 256ull * 3 * 2,
        [ch](u64 i) {
          Dec k(i);
          u8 v = k.take(256);
          u32 c = k.take(3) % std::min(ch, 3u);
          u64 m = k.take(2);
          Bytes p(ch, 50), q(ch, 50);
          p[c] = v;
          counts(ch, {{p, 3}, {q, m * 7}}, 5);
        },
        [](u64 i) { Dec k(i); int v = k.take(256), c = k.take(3); return str("histogram with value %d in channel %d", v, c); });
      // bar heights: count a of one value against b of another
      add_list(S, str("ratios-%uch", ch), "every pair of counts 1..140: exact bar heights", 140ull * 140,
        [ch](u64 i) {
          Dec k(i);
          u64 a = 1 + k.take(140), c = 1 + k.take(140);
          Bytes p(ch, 200), q(ch, 10);
          if (ch > 1) p[1] = 90, q[2] = 200;
          counts(ch, {{p, a}, {q, c}}, 13);
        },
        [](u64 i) { return str("histogram of %d against %d pixels", (int)(1 + i % 140), (int)(1 + i / 140)); });
    }
    // first differing pixel decides gray/colour: at every position
    add_list(S, "gray-detection", "RGBA images gray except for one pixel at every position, differing in every channel", 60ull * 4,
      [](u64 i) {
        u32 p = i / 4, c = i % 4;
        Bytes b((size_t)60 * 4, 70);
        b[4 * p + c] = 71;
        hist(4, 12, 5, b);
      },
      [](u64 i) { return str("histogram of a gray image whose pixel %d differs in channel %d", (int)(i / 4), (int)(i % 4)); });
    static const u32 FAR_[] = {255, 256, 257, 1023, 1024, 4095, 4096, 4097, 10000, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072, 150014, 262143, 262144, 300000, 1048575, 1048576, 1048577};
    add_list(S, "late-colour", "gray RGBA images of 257..1.1 million pixels with one coloured pixel at each of 26 far positions, the picture ending there or 1 or 1000 pixels later", 26ull * 3 * 3,
      [](u64 i) {
        Dec k(i);
        u32 c = k.take(3), p = FAR_[k.take(26)], n = p + (k.v == 0 ? 1 : k.v == 1 ? 2 : 1000);
        Bytes b((size_t)n * 4);
        for (u32 j = 0; j < n; j++) b[4 * (size_t)j] = b[4 * (size_t)j + 1] = b[4 * (size_t)j + 2] = 60 + j % 5, b[4 * (size_t)j + 3] = 255;
        b[4 * (size_t)p + c] = 200;
        u32 w = 1;
        for (u32 d = 2; d < 1200; d++) if (n % d == 0) w = d;
        hist(4, w, n / w, b);
      },
      [](u64 i) { Dec k(i); int c = k.take(3); return str("histogram of a gray image with one coloured pixel (channel %d) at %u", c, FAR_[k.take(26)]); });
    S.back().chunk = 6;
    static const u64 BIG[] = {65536, 70000, 16777217, 21474837, 30000000, 50000000};
    add_list(S, "huge", "flat and two-level images with counts beyond 2^24 and 2^32/200", thorough ? 12 : 8,
      [](u64 i) {
        u64 n = BIG[i / 2];
        u32 ch = i & 1 ? 4 : 1;
        if (ch == 4 && n > 30000000) return;
        Bytes p(ch, 200), q(ch, 10);
        Bytes b;
        counts(ch, {{p, n}, {q, n / 3}}, 1000);
      },
      [](u64 i) { return str("histogram of %llu pixels of one value and a third of another, %d channels", (unsigned long long)BIG[i / 2], i & 1 ? 4 : 1); });
    S.back().chunk = 1;
    S.back().hang_s = 120;
    add_list(S, "invalid", "empty or NULL arguments fail", 6,
      [](u64 i) {
        In in(Bytes(16, 1));
        u32 ow, oh;
        compared();
        Out o(fcv_generate_histogram(i == 0 ? 0 : 2, i == 1 ? 0 : 2, i == 2 ? 0 : 1, i == 3 ? nullptr : in.p, i == 4 ? nullptr : &ow, i == 5 ? nullptr : &oh));
        if (o) fail("histogram accepted invalid arguments");
      },
      [](u64 i) { return str("histogram with invalid arguments #%d", (int)i); });
  });
}
