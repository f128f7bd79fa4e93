#include "lib.hpp"
using namespace fw;
typedef u8 *(*Fn)(u32, u32, const u8 *);
struct OpD {
  const char *name;
  Fn fn;
  bool swap;
};
static u8 *w_fx(u32 w, u32 h, const u8 *d) { return fcv_flip_x(w, h, d); }
static const OpD ops[7] = {
  {"flip_x", w_fx, false},
  {"flip_y", [](u32 w, u32 h, const u8 *d) { return fcv_flip_y(w, h, d); }, false},
  {"rotate_180", [](u32 w, u32 h, const u8 *d) { return fcv_rotate_180(w, h, d); }, false},
  {"rotate_90_cw", [](u32 w, u32 h, const u8 *d) { return fcv_rotate_90_cw(w, h, d); }, true},
  {"rotate_270_cw", [](u32 w, u32 h, const u8 *d) { return fcv_rotate_270_cw(w, h, d); }, true},
  {"transpose", [](u32 w, u32 h, const u8 *d) { return fcv_transpose(w, h, d); }, true},
  {"transverse", [](u32 w, u32 h, const u8 *d) { return fcv_transverse(w, h, d); }, true},
};
// reference: where does output pixel (X,Y) come from
static Bytes ref(int op, u32 w, u32 h, const Bytes &in) {
  u32 W = ops[op].swap ? h : w, H = ops[op].swap ? w : h;
  Bytes o(in.size());
  for (u32 Y = 0; Y < H; Y++) {
    for (u32 X = 0; X < W; X++) {
      u32 x, y;
      switch (op) {
      case 0: x = w - 1 - X, y = Y; break;
      case 1: x = X, y = h - 1 - Y; break;
      case 2: x = w - 1 - X, y = h - 1 - Y; break;
      case 3: x = Y, y = h - 1 - X; break; // clockwise: top row becomes right column
      case 4: x = w - 1 - Y, y = X; break;
      case 5: x = Y, y = X; break;
      default: x = w - 1 - Y, y = h - 1 - X; break;
      }
      memcpy(&o[((size_t)Y * W + X) * 4], &in[((size_t)y * w + x) * 4], 4);
    }
  }
  return o;
}
static Bytes one(int op, u32 w, u32 h, const Bytes &b) {
  In in(b);
  Out o(ops[op].fn(w, h, in.p));
  if (!o) {
    fail("%s failed on a %ux%u image", ops[op].name, w, h);
  }
  in.check();
  Bytes r = o.bytes(b.size());
  expect_equal(r, ref(op, w, h, b), ops[op].swap ? h : w, 4, ops[op].name);
  seen(hash(r.data(), r.size(), op * 1000003 + w));
  return r;
}
int main(int argc, char **argv) {
  return main_(argc, argv, [](std::vector<Suite> &S) {
    auto add_dims = [&](const char *name, const char *what, std::vector<std::pair<u32, u32>> d, std::vector<int> fills) {
      auto dp = std::make_shared<std::vector<std::pair<u32, u32>>>(d);
      u64 nf = fills.size();
      S.push_back({name, what, d.size() * 7 * nf,
        [dp, fills, nf](u64 i) {
          Dec k(i);
          int op = k.take(7);
          int f = fills[k.take(nf)];
          auto wh = (*dp)[k.v];
          one(op, wh.first, wh.second, fill(f, wh.first, wh.second, 4));
          nontrivial();
        },
        [dp, fills, nf](u64 i) {
          Dec k(i);
          int op = k.take(7);
          int f = fills[k.take(nf)];
          return str("%s of a %ux%u image, %s content", ops[op].name, (*dp)[k.v].first, (*dp)[k.v].second, fill_name[f]);
        }});
    };
    add_dims("sizes", "7 operations x all sizes up to n x n, unique pixels", dims_small(thorough ? 160 : 64), {F_INDEX});
    add_dims("thin", "7 operations x all lengths with thickness 1..3", dims_thin(thorough ? 20000 : 4200, 3), {F_INDEX});
    add_dims("large", "7 operations x sizes around powers of two", dims_large(POW2N, thorough ? 2200000 : 140000), {F_INDEX, F_HASH});
    add_dims("huge", "7 operations x photo-sized images", {{1920, 1080}, {1080, 1920}, {2049, 2050}, {4000, 3000}, {3, 1000001}, {1000001, 3}}, {F_INDEX});
    static const std::vector<Bytes> A = {{0, 0, 0, 0}, {255, 255, 255, 255}, {10, 20, 30, 0}, {10, 20, 30, 200}};
    struct G { u32 w, h; };
    static std::vector<G> g;
    g = {{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {2, 2}, {4, 1}, {1, 4}, {3, 2}, {2, 3}, {5, 1}, {1, 5}};
    if (thorough) {
      g.push_back({4, 2}); g.push_back({2, 4}); g.push_back({3, 3});
    }
    for (auto q : g) {
      u64 n = ipow(A.size(), q.w * q.h);
      S.push_back({str("contents-%ux%u", q.w, q.h), "every image over a 4-pixel alphabet (transparent/opaque, equal/unequal)", n * 7,
        [q](u64 i) { Dec k(i); int op = k.take(7); one(op, q.w, q.h, coded(k.v, q.w * q.h, A)); },
        [q](u64 i) { Dec k(i); int op = k.take(7); return str("%s of %ux%u image %s", ops[op].name, q.w, q.h, hex(coded(k.v, q.w * q.h, A)).c_str()); }});
    }
    S.push_back({"values", "every value of every channel x every alpha at each place of a 3x2 image", 7ull * 4 * 256 * 4 * 6,
      [](u64 i) {
        Dec k(i);
        int op = k.take(7), c = k.take(4), v = k.take(256), al = k.take(4), pos = k.take(6);
        Bytes b = fill(F_HASH, 3, 2, 4, 5);
        static const u8 als[4] = {0, 1, 128, 255};
        b[pos * 4 + 3] = als[al];
        b[pos * 4 + c] = v;
        one(op, 3, 2, b);
      },
      [](u64 i) { Dec k(i); int op = k.take(7), c = k.take(4), v = k.take(256); return str("%s, channel %d value %d", ops[op].name, c, v); }});
    // histories: all operation sequences
    static int L; L = thorough ? 5 : 4;
    static const u32 D[5][2] = {{3, 2}, {1, 5}, {4, 4}, {7, 3}, {17, 33}};
    S.push_back({"sequences", "all operation sequences up to the depth bound on five sizes, against composed reference", 5 * ipow(7, L),
      [](u64 i) {
        Dec k(i);
        int d = k.take(5);
        u32 w = D[d][0], h = D[d][1];
        Bytes b = fill(F_INDEX, w, h, 4);
        for (int s = 0; s < L; s++) {
          int op = k.take(7);
          b = one(op, w, h, b);
          if (ops[op].swap) {
            std::swap(w, h);
          }
        }
      },
      [](u64 i) { Dec k(i); int d = k.take(5); std::string s = str("%ux%u:", D[d][0], D[d][1]); for (int j = 0; j < L; j++) s += std::string(" ") + ops[k.take(7)].name; return s; }});
  });
}
