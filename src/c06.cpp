#include "space.hpp"
static Bytes crop_ref(u32 w, u32 ch, const Bytes &b, u32 x, u32 y, u32 nw, u32 nh) {
  Bytes o;
  for (u32 r = y; r < y + nh; r++) {
    for (u32 c = x; c < x + nw; c++) {
      for (u32 k = 0; k < ch; k++) {
        o.push_back(b[((size_t)r * w + c) * ch + k]);
      }
    }
  }
  return o;
}
static void crop_case(u32 w, u32 h, u32 ch, const Bytes &b, u32 x, u32 y, u32 nw, u32 nh) {
  bool ok = nw && nh && (u64)x + nw <= w && (u64)y + nh <= h;
  In in(b);
  Out o(fcv_crop(w, h, ch, in.p, x, y, nw, nh));
  in.check();
  if (!ok) {
    compared();
    if (o) {
      fail("crop %ux%u+%u+%u of a %ux%u image returned a result although the rectangle is not inside", nw, nh, x, y, w, h);
    }
    return;
  }
  if (!o) {
    fail("crop %ux%u+%u+%u of a %ux%u image with %u channels failed", nw, nh, x, y, w, h, ch);
  }
  Bytes r = o.bytes((size_t)nw * nh * ch);
  expect_equal(r, crop_ref(w, ch, b, x, y, nw, nh), nw, ch, "crop");
  seen(hash(r.data(), r.size(), x * 31 + y * 17 + nw));
}
static void border_case(u32 w, u32 h, u32 ch, const Bytes &b, u32 bw, const char *hexs, u32 R, u32 G, u32 B) {
  In in(b);
  u32 ow = 12345, oh = 54321;
  Out o(fcv_add_border(w, h, ch, hexs, bw, in.p, &ow, &oh));
  in.check();
  if (!o) {
    fail("border %s %u on %ux%u failed", hexs, bw, w, h);
  }
  if (ow != w + 2 * bw || oh != h + 2 * bw) {
    fail("border %u on %ux%u reports size %ux%u", bw, w, h, ow, oh);
  }
  Bytes want((size_t)ow * oh * ch);
  u8 lum = (u8)((299 * R + 587 * G + 114 * B) / 1000);
  bool luma_tie = (299 * R + 587 * G + 114 * B) % 1000 == 0; // floating rounding may fall either way
  for (u32 y = 0; y < oh; y++) {
    for (u32 x = 0; x < ow; x++) {
      for (u32 c = 0; c < ch; c++) {
        u8 v;
        if (x >= bw && x < bw + w && y >= bw && y < bw + h) {
          v = b[((size_t)(y - bw) * w + (x - bw)) * ch + c];
        }
        else {
          v = ch == 1 ? lum : c == 0 ? R : c == 1 ? G : c == 2 ? B : 255;
          if (ch == 1 && luma_tie) {
            u8 g = o.p[((size_t)y * ow + x) * ch];
            if (g == lum || g + 1 == lum) {
              v = g;
            }
          }
        }
        want[((size_t)y * ow + x) * ch + c] = v;
      }
    }
  }
  Bytes r = o.bytes(want.size());
  expect_equal(r, want, ow, ch, "border");
  seen(hash(r.data(), r.size(), ow));
  // crop restores
  In in2(r);
  Out back(fcv_crop(ow, oh, ch, in2.p, bw, bw, w, h));
  if (!back) {
    fail("cropping the border away failed");
  }
  expect_equal(back.bytes(b.size()), b, w, ch, "border then crop");
}
static const u32 CH[5] = {1, 2, 3, 4, 7};
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    // all rectangles (inside, touching, outside) of all small images
    static u32 N;
    N = thorough ? 9 : 7;
    add_list(S, "crop-rects", "all sizes up to NxN, all channel counts, every rectangle x,y,w,h in 0..N+1", (u64)N * N * 5,
      [](u64 i) {
        Dec k(i);
        u32 w = 1 + k.take(N), h = 1 + k.take(N), ch = CH[k.take(5)];
        Bytes b = fill(F_INDEX, w, h, ch);
        for (u32 x = 0; x <= w + 1; x++)
          for (u32 y = 0; y <= h + 1; y++)
            for (u32 nw = 0; nw <= w + 1; nw++)
              for (u32 nh = 0; nh <= h + 1; nh++)
                crop_case(w, h, ch, b, x, y, nw, nh);
      },
      [](u64 i) { Dec k(i); u32 w = 1 + k.take(N), h = 1 + k.take(N), ch = CH[k.take(5)]; return str("every crop rectangle of a %ux%u image, %u channels", w, h, ch); });
    S.back().chunk = 4;
    // extreme coordinates: overflow in x+w
    static const u32 E[] = {0, 1, 2, 4, 5, 6, 100, 0x7fffffff, 0x80000000u, 0xfffffffau, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
    add_list(S, "crop-extreme", "5x4 image, every x,y,w,h from a list of wrap-around values", 15ull * 15 * 15 * 15,
      [](u64 i) { Dec k(i); u32 x = E[k.take(15)], y = E[k.take(15)], nw = E[k.take(15)], nh = E[k.take(15)]; crop_case(5, 4, 4, fill(F_INDEX, 5, 4, 4), x, y, nw, nh); },
      [](u64 i) { Dec k(i); u32 x = E[k.take(15)], y = E[k.take(15)], nw = E[k.take(15)], nh = E[k.take(15)]; return str("crop %ux%u+%u+%u of 5x4", nw, nh, x, y); });
    // larger images, windows placed at and across every edge
    auto dl = dims_large({1, 2, 3, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1024, 1025, 4096, 4097, 8193, 65536, 65537, 100003}, thorough ? 4000000 : 600000);
    for (u32 q = 0; q < 4; q++) {
      u32 ch = CH[q == 1 ? 2 : q == 2 ? 3 : q == 3 ? 4 : 0];
      add_dims(S, str("crop-large-%uch", ch), "windows at every edge of larger images", dl, {F_INDEX}, ch, 12,
        [ch](u64 v, u32 w, u32 h, const Bytes &b) {
          u32 mw = std::max(1u, w / 2), mh = std::max(1u, h / 2);
          switch (v) {
          case 0: crop_case(w, h, ch, b, 0, 0, w, h); break;
          case 1: crop_case(w, h, ch, b, w - 1, h - 1, 1, 1); break;
          case 2: crop_case(w, h, ch, b, 0, h - 1, w, 1); break;
          case 3: crop_case(w, h, ch, b, w - 1, 0, 1, h); break;
          case 4: crop_case(w, h, ch, b, w - mw, h - mh, mw, mh); break;
          case 5: crop_case(w, h, ch, b, w - mw, h - mh, mw + 1, mh); break;
          case 6: crop_case(w, h, ch, b, w - mw, h - mh, mw, mh + 1); break;
          case 7: crop_case(w, h, ch, b, w, 0, 1, 1); break;
          case 8: crop_case(w, h, ch, b, 0, h, 1, 1); break;
          case 9: crop_case(w, h, ch, b, w / 3, h / 3, mw, std::min(mh, h - h / 3)); break;
          case 10: if (w > 2) crop_case(w, h, ch, b, 1, 0, w - 2, h); break;
          case 11: if (h > 2) crop_case(w, h, ch, b, 0, 1, w, h - 2); break;
          }
        },
        [](u64 v) { return str("crop window %d", (int)v); });
    }
    add_dims(S, "crop-sizes", "all sizes up to 72x72 (4 windows each)", dims_small(thorough ? 120 : 72), {F_INDEX}, 4, 4,
      [](u64 v, u32 w, u32 h, const Bytes &b) {
        u32 x = v & 1 ? w / 3 : 0, y = v & 1 ? h / 2 : 0;
        crop_case(w, h, 4, b, x, y, v & 2 ? w - x : (w - x + 1) / 2, v & 2 ? h - y : (h - y + 1) / 2);
      },
      [](u64 v) { return str("crop window %d", (int)v); });
    // borders
    struct Col { const char *s; u32 r, g, b; };
    static const Col C[] = {{"000000", 0, 0, 0}, {"#FFFFFF", 255, 255, 255}, {"FF0000", 255, 0, 0}, {"#00ff01", 0, 255, 1}, {"0a0B0c", 10, 11, 12}, {"800180", 128, 1, 128}, {"bad", 255, 255, 255}};
    for (u32 q : {1u, 3u, 4u}) {
      add_dims(S, str("border-%uch", q), "all sizes up to NxN x border widths 1..9 x 7 colours", dims_small(thorough ? 24 : 12), {F_INDEX}, q, 63,
        [q](u64 v, u32 w, u32 h, const Bytes &b) { const Col &c = C[v % 7]; border_case(w, h, q, b, 1 + v / 7, c.s, c.r, c.g, c.b); },
        [](u64 v) { return str("border %s %d", C[v % 7].s, (int)(1 + v / 7)); });
      add_dims(S, str("border-large-%uch", q), "larger images and borders", {{1, 1}, {3, 2}, {64, 64}, {65, 33}, {255, 3}, {256, 3}, {257, 5}, {3, 257}, {1024, 2}, {2, 1025}, {5000, 1}, {1, 5000}, {333, 444}}, {F_INDEX, F_HASH}, q, 14,
        [q](u64 v, u32 w, u32 h, const Bytes &b) {
          static const u32 B[] = {1, 2, 10, 31, 32, 33, 50, 64, 99, 100, 127, 128, 129, 255};
          const Col &c = C[v % 7];
          border_case(w, h, q, b, B[v], c.s, c.r, c.g, c.b);
        },
        [](u64 v) { return str("border variant %d", (int)v); });
    }
    for (u32 q : {1u, 3u, 4u}) {
      add_dims(S, str("border-wide-%uch", q), WIDE_WHAT, WIDE, {F_HASH}, q, 2,
        [q](u64 v, u32 w, u32 h, const Bytes &b) { border_case(w, h, q, b, v ? 300 / std::min(w, 100u) + 1 : 1, "#00ff01", 0, 255, 1); },
        [](u64 v) { return str("border variant %d", (int)v); });
      S.back().chunk = 1;
      add_dims(S, str("crop-wide-%uch", q), WIDE_WHAT, WIDE, {F_HASH}, q, 3,
        [q](u64 v, u32 w, u32 h, const Bytes &b) { crop_case(w, h, q, b, v == 0 ? 0 : w - 1 - w / 2, v == 0 ? 0 : h - 1 - h / 2, v == 0 ? w : v == 1 ? w / 2 + 1 : 1, v == 0 ? h : v == 1 ? h / 2 + 1 : 1); },
        [](u64 v) { return str("crop window %d", (int)v); });
      S.back().chunk = 1;
    }
    add_list(S, "border-thick", "2x2 image, every border width up to 300 and some larger", 313 * 2,
      [](u64 i) { u32 q = i % 2 ? 4 : 1; u64 k = i / 2; static const u32 B[] = {400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 2500}; u32 bw = k < 300 ? 1 + k : B[k - 300]; border_case(2, 2, q, fill(F_INDEX, 2, 2, q), bw, "123456", 0x12, 0x34, 0x56); },
      [](u64 i) { return str("border index %d", (int)(i / 2)); });
    add_list(S, "border-luma", "every value of each colour component and a 17^3 colour grid, one channel", 4913 + 768,
      [](u64 i) {
        u32 r, g, b;
        if (i < 768) { r = i / 256 == 0 ? i % 256 : 7; g = i / 256 == 1 ? i % 256 : 77; b = i / 256 == 2 ? i % 256 : 177; }
        else { u64 k = i - 768; r = k % 17 * 15; g = k / 17 % 17 * 15; b = k / 289 * 15; }
        char s[8]; snprintf(s, sizeof s, "%02x%02X%02x", r, g, b);
        border_case(2, 1, 1, fill(F_INDEX, 2, 1, 1), 1, s, r, g, b);
        border_case(2, 1, 4, fill(F_INDEX, 2, 1, 4), 1, s, r, g, b);
      },
      [](u64 i) { return str("border colour %llu", (unsigned long long)i); });
    add_list(S, "border-invalid", "zero-sized, zero-width and overflowing borders are refused", 12,
      [](u64 i) {
        static const u32 W[12][3] = {{0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {5, 5, 0x7fffffff}, {5, 5, 0x80000000u}, {5, 5, 0xffffffffu}, {5, 5, 0xfffffffeu}, {2, 2, 0x7fffffffu}, {6, 1, 0x7ffffffdu}, {1, 6, 0x7ffffffdu}, {0, 0, 0}, {5, 5, 0x80000005u}};
        In in(fill(F_INDEX, 6, 6, 4));
        u32 a, b;
        Out o(fcv_add_border(W[i][0], W[i][1], 4, "000000", W[i][2], in.p, &a, &b));
        in.check();
        compared();
        if (o) fail("border accepted w=%u h=%u border=%u", W[i][0], W[i][1], W[i][2]);
      },
      [](u64 i) { return str("invalid border %d", (int)i); });
  });
}
