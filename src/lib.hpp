// Access to the library under test + helpers shared by all checks.
#pragma once
#include "fw.hpp"
#include <algorithm>
#include <memory>
extern "C" {
#include "1_types.h"
#include "binary_closing_disk.h"
#include "conversion.h"
#include "convert_to_binary.h"
#include "corner_peaks.h"
#include "crop.h"
#include "draw.h"
#include "exif.h"
#include "extract_document.h"
#include "flip.h"
#include "foerstner_corner.h"
#include "histogram.h"
#include "parse_hex_color.h"
#include "perspectivetransform.h"
#include "rgba_to_grayscale.h"
#include "rotate.h"
#include "single_to_multichannel.h"
#include "sobel_edge_detection.h"
#include "sort_corners.h"
#include "trim.h"
#include "watershed_segmentation.h"
}

typedef std::vector<u8> Bytes;

// exact-size heap copy of an input, so that any out-of-bounds access is seen
struct In {
  u8 *p;
  Bytes orig;
  In(const Bytes &b) : orig(b) {
    p = (u8 *)malloc(b.size());
    if (b.size()) {
      memcpy(p, b.data(), b.size());
    }
  }
  In(const In &) = delete;
  ~In() { free(p); }
  bool same() const { return orig.empty() || memcmp(p, orig.data(), orig.size()) == 0; }
  void check() const {
    if (!same()) {
      size_t i = 0;
      while (p[i] == orig[i]) {
        i++;
      }
      fw::fail("the input buffer was modified (byte %zu: %u -> %u)", i, orig[i], p[i]);
    }
  }
};

// owned result
struct Out {
  u8 *p;
  Out(u8 *q) : p(q) { fw::calls(); }
  Out(const Out &) = delete;
  ~Out() { free(p); }
  operator bool() const { return p != nullptr; }
  Bytes bytes(size_t n) const { return Bytes(p, p + n); }
};

// ---------------------------------------------------------------- contents
enum { F_INDEX, F_HASH, F_GRAD, F_CHECK, F_RAMP, F_SPARSE, F_EXTREME, F_GRAYHASH, F_N };
static const char *fill_name[] = {"index-coded", "hash", "gradient", "checker", "ramp", "sparse", "extreme", "gray-hash"};

static Bytes fill(int kind, u32 w, u32 h, u32 ch, u64 seed = 0) {
  Bytes b((size_t)w * h * ch);
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) {
      size_t i = (size_t)y * w + x;
      u64 m = fw::mix(i * 0x9e3779b97f4a7c15ULL + seed * 77 + 1);
      for (u32 c = 0; c < ch; c++) {
        u8 v = 0;
        switch (kind) {
        case F_INDEX:
          v = (u8)(((i + 1 + seed) * 0x9E3779B1u) >> (8 * (c & 3)));
          break;
        case F_HASH:
          v = (u8)(m >> (8 * c));
          break;
        case F_GRAD:
          v = (u8)((x * 255ull / (w > 1 ? w - 1 : 1) * (c + 1) + y * 3 + seed) & 255);
          break;
        case F_CHECK:
          v = ((x + y + seed) & 1) ? 255 - 20 * c : 10 * c;
          break;
        case F_RAMP:
          v = (u8)(i + c * 85 + seed);
          break;
        case F_SPARSE:
          v = (m % 29 == 0) ? (u8)(m >> (8 + 8 * c)) : (u8)(40 * c);
          break;
        case F_EXTREME:
          v = ((m >> c) & 1) ? 255 : 0;
          break;
        case F_GRAYHASH:
          v = c == 3 ? (u8)(m >> 32) : (u8)m;
          break;
        }
        b[i * ch + c] = v;
      }
    }
  }
  return b;
}

// image number `code` over an alphabet of pixels (base-|alphabet| digits)
static Bytes coded(u64 code, u32 npx, const std::vector<Bytes> &alpha) {
  Bytes b;
  for (u32 i = 0; i < npx; i++) {
    const Bytes &a = alpha[code % alpha.size()];
    code /= alpha.size();
    b.insert(b.end(), a.begin(), a.end());
  }
  return b;
}
static u64 ipow(u64 b, u32 e) {
  u64 r = 1;
  while (e--) {
    r *= b;
  }
  return r;
}

static void expect_equal(const Bytes &got, const Bytes &want, u32 w, u32 ch, const char *what) {
  fw::compared();
  if (got == want) {
    return;
  }
  if (got.size() != want.size()) {
    fw::fail("%s: %zu result bytes, expected %zu", what, got.size(), want.size());
  }
  size_t i = 0, n = 0;
  while (got[i] == want[i]) {
    i++;
  }
  for (size_t k = 0; k < got.size(); k++) {
    n += got[k] != want[k];
  }
  fw::fail("%s: pixel (%zu,%zu) channel %zu is %u, expected %u (%zu of %zu bytes differ)", what, i / ch % w, i / ch / w, i % ch, got[i], want[i], n, got.size());
}
static std::string hex(const Bytes &b, size_t max = 64) {
  std::string s;
  char t[4];
  for (size_t i = 0; i < b.size() && i < max; i++) {
    snprintf(t, sizeof t, "%02x", b[i]);
    s += t;
  }
  if (b.size() > max) {
    s += "...";
  }
  return s;
}

// A list of (w,h) pairs covering all small sizes, all thin ones and
// power-of-two neighbourhoods.
static std::vector<std::pair<u32, u32>> dims_small(u32 n) {
  std::vector<std::pair<u32, u32>> v;
  for (u32 h = 1; h <= n; h++) {
    for (u32 w = 1; w <= n; w++) {
      v.push_back({w, h});
    }
  }
  return v;
}
static std::vector<std::pair<u32, u32>> dims_thin(u32 maxlen, u32 thick) {
  std::vector<std::pair<u32, u32>> v;
  for (u32 a = 1; a <= maxlen; a++) {
    for (u32 t = 1; t <= thick; t++) {
      v.push_back({a, t});
      if (a != t) {
        v.push_back({t, a});
      }
    }
  }
  return v;
}
static std::vector<std::pair<u32, u32>> dims_large(const std::vector<u32> &l, u64 maxpx) {
  std::vector<std::pair<u32, u32>> v;
  for (u32 w : l) {
    for (u32 h : l) {
      if ((u64)w * h <= maxpx) {
        v.push_back({w, h});
      }
    }
  }
  return v;
}
// lines longer than 2^16 in either direction, more than 2^20 and 2^22 pixels
static const std::vector<std::pair<u32, u32>> WIDE = {{70001, 3}, {3, 70001}, {66000, 17}, {17, 66000}, {1100, 1000}, {2048, 2050}, {65536, 2}, {2, 65536}};
static const char *const WIDE_WHAT = "lines longer than 2^16 in either direction, more than 2^20 and 2^22 pixels";
static const std::vector<u32> POW2N = {1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1920, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537};
