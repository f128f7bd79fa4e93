// C25: the Haskell bindings, driven through hs/Server.hs (a Haskell program
// using nothing but the public FlatCV module), against direct C calls.
//
// Every request goes to one Haskell process per chunk; the C side of the same
// call is computed here. Histories keep results and shared inputs alive across
// calls, garbage collections and drops, and account for every block the C
// library handed out.
#include "lib.hpp"
#include <sys/prctl.h>
#include <sys/socket.h>
using namespace fw;

#pragma pack(push, 1)
struct Head {
  i32 op, slot, in_slot, pad;
  i32 a[6];
  i32 len1, len2, nmarks, nin;
  i32 limit, unused;
  double d[18];
};
#pragma pack(pop)
static_assert(sizeof(Head) == 4 * 16 + 8 * 18, "layout");

struct Req {
  std::string name;
  int op = 0;
  std::vector<i32> a;
  std::vector<double> d;
  std::string s1, s2;
  std::vector<double> marks;
  Bytes in;
  i32 limit = 0; // bytes of the result to look at, 0: all
};
struct Rep {
  bool ok = false;
  std::vector<u64> meta;
  Bytes out;
};

// ---------------------------------------------------------------- the Haskell side
static int sock = -1;
static pid_t sock_owner = -1, server_pid = -1;
static std::string exe_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  return std::string(b).substr(0, std::string(b).rfind('/'));
}
static void server() {
  if (sock_owner == getpid()) {
    return;
  }
  sock_owner = getpid();
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) {
    _exit(3);
  }
  std::string exe = exe_dir() + "/hs_server";
  pid_t me = getpid();
  server_pid = fork();
  if (server_pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != me) {
      _exit(1);
    }
    dup2(p[1], 0);
    dup2(p[1], 1);
    for (int i = 3; i < 64; i++) {
      close(i);
    }
    execl(exe.c_str(), exe.c_str(), "+RTS", "-V0", "-RTS", (char *)nullptr);
    _exit(127);
  }
  close(p[1]);
  sock = p[0];
}
static void died() {
  int st = 0;
  waitpid(server_pid, &st, 0);
  sock_owner = -1;
  close(sock);
  if (WIFSIGNALED(st)) {
    fail("the Haskell program was killed by signal %d", WTERMSIG(st));
  }
  fail("the Haskell program ended with status %d", WEXITSTATUS(st));
}
static void put(const void *p, size_t n) {
  const u8 *b = (const u8 *)p;
  while (n) {
    ssize_t k = send(sock, b, n, MSG_NOSIGNAL);
    if (k <= 0) {
      died();
    }
    b += k;
    n -= (size_t)k;
  }
}
static void get(void *p, size_t n) {
  u8 *b = (u8 *)p;
  while (n) {
    ssize_t k = recv(sock, b, n, 0);
    if (k <= 0) {
      died();
    }
    b += k;
    n -= (size_t)k;
  }
}
static Rep ask(const Req &r, int slot = -1, int in_slot = -1, int pad = 0, bool send_input = true) {
  server();
  Head h;
  memset(&h, 0, sizeof h);
  h.op = r.op;
  h.slot = slot;
  h.in_slot = in_slot;
  h.pad = pad;
  for (size_t i = 0; i < r.a.size(); i++) {
    h.a[i] = r.a[i];
  }
  for (size_t i = 0; i < r.d.size(); i++) {
    h.d[i] = r.d[i];
  }
  h.len1 = (i32)r.s1.size();
  h.len2 = (i32)r.s2.size();
  h.nmarks = (i32)r.marks.size() / 2;
  h.limit = r.limit;
  h.nin = send_input ? (i32)r.in.size() : 0;
  std::string m((char *)&h, sizeof h);
  m += r.s1 + r.s2;
  m.append((char *)r.marks.data(), r.marks.size() / 2 * 16);
  if (send_input) {
    m.append((char *)r.in.data(), r.in.size());
  }
  put(m.data(), m.size());
  u32 x[3];
  get(x, sizeof x);
  Rep q;
  q.ok = x[0] == 0;
  q.meta.resize(x[1]);
  q.out.resize(x[2]);
  get(q.meta.data(), x[1] * 8);
  get(q.out.data(), x[2]);
  fw::calls();
  return q;
}
static Rep command(int op, int slot = -1, int in_slot = -1, i32 arg = 0) {
  Req r;
  r.op = op;
  r.a = {arg};
  return ask(r, slot, in_slot);
}

// ---------------------------------------------------------------- the C side
static u64 bits(double v) {
  u64 u;
  memcpy(&u, &v, 8);
  return u;
}
static void md(Rep &q, double v) { q.meta.push_back(v != v ? bits(NAN) : bits(v)); }
static void from(Rep &q, void *p, size_t n) {
  q.ok = p != nullptr;
  if (p) {
    q.out.assign((u8 *)p, (u8 *)p + n);
    free(p);
  }
}
static void sized(Rep &q, void *p, u64 w, u64 h, int ch) {
  if (p) {
    q.meta = {w, h};
  }
  from(q, p, (size_t)w * h * ch);
}
static Corners corners_at(const Req &r, int k) { return Corners{r.d[k], r.d[k + 1], r.d[k + 2], r.d[k + 3], r.d[k + 4], r.d[k + 5], r.d[k + 6], r.d[k + 7]}; }
static void put_corners(Rep &q, const Corners &c) {
  for (double v : {c.tl_x, c.tl_y, c.tr_x, c.tr_y, c.br_x, c.br_y, c.bl_x, c.bl_y}) {
    md(q, v);
  }
}
static void put_matrix(Rep &q, const Matrix3x3 &m) {
  for (double v : {m.m00, m.m01, m.m02, m.m10, m.m11, m.m12, m.m20, m.m21, m.m22}) {
    md(q, v);
  }
}
static Matrix3x3 matrix_at(const Req &r) { return Matrix3x3{r.d[0], r.d[1], r.d[2], r.d[3], r.d[4], r.d[5], r.d[6], r.d[7], r.d[8]}; }

static Rep expect(const Req &r) {
  Rep q;
  In in(r.in);
  u8 *v = in.p;
  u32 w = r.a.size() > 0 ? (u32)r.a[0] : 0, h = r.a.size() > 1 ? (u32)r.a[1] : 0;
  i32 a2 = r.a.size() > 2 ? r.a[2] : 0, a3 = r.a.size() > 3 ? r.a[3] : 0;
  size_t n = (size_t)w * h;
  double d0 = r.d.size() ? r.d[0] : 0;
  switch (r.op) {
  case 0: case 50: from(q, fcv_grayscale(w, h, v), n * 4); break;
  case 1: case 51: from(q, fcv_grayscale_stretch(w, h, v), n * 4); break;
  case 2: case 52: from(q, fcv_rgba_to_grayscale(w, h, v), n); break;
  case 3: case 53: from(q, fcv_single_to_multichannel(w, h, v), n * 4); break;
  case 4: case 54: from(q, fcv_apply_gaussian_blur(w, h, d0, v), n * 4); break;
  case 5: case 55: from(q, fcv_otsu_threshold_rgba(w, h, a2 != 0, v), n * 4); break;
  case 6: case 56: from(q, fcv_bw_smart(w, h, a2 != 0, v), n * 4); break;
  case 7:
    fcv_apply_global_threshold((u32)a2, v, (u8)a3);
    q.ok = true;
    q.out.assign(v, v + r.in.size());
    break;
  case 8: from(q, fcv_sobel_edge_detection(w, h, (u32)a2, v), n); break;
  case 9: from(q, fcv_foerstner_corner(w, h, v, d0), n * 2); break;
  case 10: from(q, fcv_binary_dilation_disk(v, (i32)w, (i32)h, a2), n); break;
  case 11: from(q, fcv_binary_erosion_disk(v, (i32)w, (i32)h, a2), n); break;
  case 12: from(q, fcv_binary_closing_disk(v, (i32)w, (i32)h, a2), n); break;
  case 13: from(q, fcv_binary_opening_disk(v, (i32)w, (i32)h, a2), n); break;
  case 14: case 60: from(q, fcv_flip_x(w, h, v), n * 4); break;
  case 15: case 61: from(q, fcv_flip_y(w, h, v), n * 4); break;
  case 16: case 62: from(q, fcv_transpose(w, h, v), n * 4); break;
  case 17: from(q, fcv_transverse(w, h, v), n * 4); break;
  case 18: case 63: from(q, fcv_rotate_90_cw(w, h, v), n * 4); break;
  case 19: case 64: from(q, fcv_rotate_180(w, h, v), n * 4); break;
  case 20: case 65: from(q, fcv_rotate_270_cw(w, h, v), n * 4); break;
  case 21: {
    u32 ow = 0, oh = 0;
    u8 *p = fcv_resize(w, h, d0, r.d[1], &ow, &oh, v);
    sized(q, p, ow, oh, 4);
    break;
  }
  case 22: {
    u32 nw = (u32)r.a[4], nh = (u32)d0, ch = (u32)r.a[5];
    from(q, fcv_crop(w, h, ch, v, (u32)a2, (u32)a3, nw, nh), (size_t)nw * nh * ch);
    break;
  }
  case 23: case 24: {
    i32 x = (i32)w, y = (i32)h;
    u8 *p = r.op == 23 ? fcv_trim(&x, &y, (u32)a2, v) : fcv_trim_threshold(&x, &y, (u32)a2, v, d0);
    sized(q, p, (u64)x, (u64)y, a2);
    break;
  }
  case 25: case 57: {
    Corners s = corners_at(r, 0), t = corners_at(r, 8);
    Matrix3x3 *m = fcv_calculate_perspective_transform(&s, &t);
    q.ok = m != nullptr;
    if (m) {
      put_matrix(q, *m);
      free(m);
    }
    break;
  }
  case 26: case 58: {
    Matrix3x3 m = matrix_at(r);
    u8 *p = fcv_apply_matrix_3x3((i32)w, (i32)h, v, a2, a3, &m);
    from(q, p, p ? (size_t)a2 * a3 * 4 : 0);
    break;
  }
  case 27: case 59: {
    Corners *c = fcv_detect_corners_ptr(v, (i32)w, (i32)h);
    q.ok = c != nullptr;
    if (c) {
      put_corners(q, *c);
      free(c);
    }
    break;
  }
  case 28: {
    u8 *p = fcv_extract_document(w, h, v, (u32)a2, (u32)a3);
    from(q, p, (size_t)(u32)a2 * (u32)a3 * 4);
    break;
  }
  case 29: {
    u32 ow = 0, oh = 0;
    u8 *p = fcv_extract_document_auto(w, h, v, &ow, &oh);
    sized(q, p, ow, oh, 4);
    break;
  }
  case 30: case 31:
    (r.op == 30 ? fcv_draw_circle : fcv_draw_disk)(w, h, (u32)a2, r.s1.c_str(), d0, r.d[1], r.d[2], v);
    q.ok = true;
    q.out.assign(v, v + r.in.size());
    break;
  case 32: {
    u32 ow = 0, oh = 0;
    u8 *p = fcv_add_border(w, h, (u32)a2, r.s1.c_str(), (u32)a3, v, &ow, &oh);
    sized(q, p, ow, oh, a2);
    break;
  }
  case 33: {
    u32 ow = 0, oh = 0;
    u8 *p = fcv_generate_histogram(w, h, (u32)a2, v, &ow, &oh);
    sized(q, p, ow, oh, 4);
    break;
  }
  case 34: {
    std::vector<Point2D> m;
    for (size_t i = 0; i + 1 < r.marks.size(); i += 2) {
      m.push_back({r.marks[i], r.marks[i + 1]});
    }
    Point2D none;
    from(q, fcv_watershed_segmentation(w, h, v, m.empty() ? &none : m.data(), (u32)m.size(), a2 != 0), n * 4);
    break;
  }
  case 35:
    q.ok = true;
    q.meta = {(u64)(i64)fcv_get_exif_orientation(r.s1.c_str())};
    break;
  case 36: {
    u8 x = 0, y = 0, z = 0;
    fcv_parse_hex_color(r.s1.c_str(), &x, &y, &z);
    q.ok = true;
    q.meta = {x, y, z};
    break;
  }
  case 37: from(q, fcv_convert_to_binary(v, (i32)w, (i32)h, r.s1.c_str(), r.s2.c_str()), n); break;
  case 70: q.ok = true; put_corners(q, corners_at(r, 0)); break;
  case 71: q.ok = true; put_matrix(q, matrix_at(r)); break;
  case 73: {
    std::string s;
    for (int i = 0; i < 9; i++) {
      s += str("% .5f", r.d[i]) + (i == 8 ? "" : i % 3 == 2 ? "\n" : " ");
    }
    q.ok = true;
    q.out.assign(s.begin(), s.end());
    break;
  }
  case 74:
    q.ok = true;
    q.meta = {1, w, h, 4};
    q.out = r.in;
    break;
  case 75:
    q.ok = true;
    md(q, r.d[0]);
    md(q, r.d[1]);
    md(q, r.d[0]);
    md(q, r.d[1]);
    break;
  default: fprintf(stderr, "no such request\n"); _exit(3);
  }
  return q;
}

// Wrappers that announce more bytes than the C function returns: the excess is
// a known finding, everything else about them is judged.
struct Over {
  int op;
  const char *key;
};
static const Over OVERLONG[] = {{8, "overlong-sobelEdgeDetection"}, {10, "overlong-binaryDilationDisk"}, {11, "overlong-binaryErosionDisk"}, {12, "overlong-binaryClosingDisk"}, {13, "overlong-binaryOpeningDisk"}, {37, "overlong-convertToBinary"}};

static void judge(const Req &r, Rep got, const Rep &want, const char *when) {
  fw::compared();
  for (auto &m : got.meta) {
    double d;
    memcpy(&d, &m, 8);
    if (d != d) {
      m = bits(NAN);
    }
  }
  if (got.ok != want.ok) {
    fail("%s: %s%s, while the C function %s", when, got.ok ? "a result is returned" : "an error is raised: ", got.ok ? "" : std::string(got.out.begin(), got.out.end()).c_str(), want.ok ? "returns a result" : "fails (NULL)");
  }
  if (!want.ok) {
    return;
  }
  if (got.meta.size() != want.meta.size()) {
    fail("%s: %zu values, expected %zu", when, got.meta.size(), want.meta.size());
  }
  for (size_t i = 0; i < got.meta.size(); i++) {
    if (got.meta[i] != want.meta[i]) {
      double x, y;
      memcpy(&x, &got.meta[i], 8);
      memcpy(&y, &want.meta[i], 8);
      fail("%s: value %zu is %llu (%.17g), the C function gives %llu (%.17g)", when, i, (unsigned long long)got.meta[i], x, (unsigned long long)want.meta[i], y);
    }
  }
  if (got.out.size() != want.out.size()) {
    for (auto &o : OVERLONG) {
      size_t factor = o.op == 8 ? (size_t)r.a[2] : 4;
      if (o.op == r.op && got.out.size() == want.out.size() * factor) {
        known(o.key, str("%s: the vector has %zu bytes, the C function returns %zu", r.name.c_str(), got.out.size(), want.out.size()));
        got.out.resize(want.out.size());
      }
    }
  }
  if (got.out.size() != want.out.size()) {
    fail("%s: the result has %zu bytes, that of the C function %zu", when, got.out.size(), want.out.size());
  }
  for (size_t i = 0; i < want.out.size(); i++) {
    if (got.out[i] != want.out[i]) {
      fail("%s: byte %zu of the result is %u, the C function gives %u", when, i, got.out[i], want.out[i]);
    }
  }
}

// ---------------------------------------------------------------- the requests
struct Size {
  u32 w, h;
};
static Bytes content(u32 w, u32 h, u32 ch, int kind) {
  if (kind == 2) { // something to trim, to segment and to detect
    Bytes b((size_t)w * h * ch);
    for (u32 y = 0; y < h; y++) {
      for (u32 x = 0; x < w; x++) {
        bool in = x > w / 5 && x < w - w / 5 && y > h / 6 && y < h - h / 4;
        for (u32 c = 0; c < ch; c++) {
          b[((size_t)y * w + x) * ch + c] = in ? (u8)(200 + x + 3 * c) : (u8)(20 + 5 * c);
        }
      }
    }
    return b;
  }
  return fill(kind ? F_EXTREME : F_HASH, w, h, ch, w * 31 + h);
}
static std::vector<Req> requests(u32 w, u32 h, int kind) {
  std::vector<Req> v;
  Bytes rgba = content(w, h, 4, kind), rgb = content(w, h, 3, kind), gray = content(w, h, 1, kind);
  auto pick = [&](int ch) -> const Bytes & { return ch == 4 ? rgba : ch == 3 ? rgb : gray; };
  i32 W = (i32)w, H = (i32)h;
  auto add = [&](const std::string &name, int op, std::vector<i32> a, std::vector<double> d, const Bytes &in, const std::string &s1 = "", const std::string &s2 = "", std::vector<double> marks = {}) {
    Req r;
    r.name = name;
    r.op = op;
    r.a = a;
    r.d = d;
    r.s1 = s1;
    r.s2 = s2;
    r.marks = marks;
    r.in = in;
    v.push_back(r);
  };
  static const char *simple[] = {"grayscale", "grayscaleStretch", "rgbaToGrayscale", "singleToMultichannel"};
  for (int p = 0; p < 2; p++) {
    int o = p * 50;
    const char *suffix = p ? "Ptr" : "";
    for (int k = 0; k < 4; k++) {
      add(simple[k] + std::string(suffix), o + k, {W, H}, {}, k == 3 ? gray : rgba);
    }
    for (double r : {0.0, 0.6, 1.0, 2.0, 3.7, -1.0, (double)NAN}) {
      add(str("gaussianBlur%s %g", suffix, r), o + 4, {W, H}, {r}, rgba);
    }
    for (int b = 0; b < 2; b++) {
      add(str("otsuThreshold%s %d", suffix, b), o + 5, {W, H, b}, {}, rgba);
      add(str("bwSmart%s %d", suffix, b), o + 6, {W, H, b}, {}, rgba);
    }
  }
  for (int t : {0, 1, 127, 128, 254, 255}) {
    for (u32 n : {0u, 1u, w * h / 2, w * h}) {
      add(str("applyGlobalThreshold %u %d", n, t), 7, {W, H, (i32)n, t}, {}, gray);
    }
  }
  for (int ch : {1, 3, 4}) {
    add(str("sobelEdgeDetection %d", ch), 8, {W, H, ch}, {}, pick(ch));
  }
  for (double s : {0.0, 0.7, 1.0, 2.5, -1.0}) {
    add(str("foerstnerCorner %g", s), 9, {W, H}, {s}, gray);
  }
  static const char *morph[] = {"binaryDilationDisk", "binaryErosionDisk", "binaryClosingDisk", "binaryOpeningDisk"};
  for (int k = 0; k < 4; k++) {
    for (int r : {-1, 0, 1, 2, 3, 7}) {
      add(str("%s %d", morph[k], r), 10 + k, {W, H, r}, {}, gray);
    }
  }
  static const char *geo[] = {"flipX", "flipY", "transpose", "transverse", "rotate90CW", "rotate180", "rotate270CW"};
  for (int k = 0; k < 7; k++) {
    add(geo[k], 14 + k, {W, H}, {}, rgba);
  }
  static const char *pgeo[] = {"flipXPtr", "flipYPtr", "transposePtr", "rotate90CWPtr", "rotate180Ptr", "rotate270CWPtr"};
  for (int k = 0; k < 6; k++) {
    add(pgeo[k], 60 + k, {W, H}, {}, rgba);
  }
  for (double x : {0.0, 0.3, 0.5, 1.0, 1.7, 3.0}) {
    for (double y : {0.5, 1.0, 2.0, 2.6, -1.0}) {
      add(str("resize %g %g", x, y), 21, {W, H}, {x, y}, rgba);
    }
  }
  for (int ch : {1, 3, 4}) {
    for (u32 x : {0u, 1u, w / 2, w}) {
      for (u32 y : {0u, 1u, h / 3}) {
        for (u32 nw : {1u, 2u, w - std::min(x, w), w}) {
          for (u32 nh : {1u, 3u, h - std::min(y, h)}) {
            add(str("crop %u %u %u %u %d channels", x, y, nw, nh, ch), 22, {W, H, (i32)x, (i32)y, (i32)nw, ch}, {(double)nh}, pick(ch));
          }
        }
      }
    }
    add(str("trim %d channels", ch), 23, {W, H, ch}, {}, pick(ch));
    for (double t : {0.0, 5.0, 30.0, 80.0, 100.0, (double)NAN}) {
      add(str("trimThreshold %g%% %d channels", t, ch), 24, {W, H, ch}, {t}, pick(ch));
    }
    for (const char *hexc : {"FF8001", "#0a7fC4", "12", "no colour"}) {
      for (double r : {0.0, 1.0, 2.5, 9.0}) {
        add(str("drawCircle %s %g %d channels", hexc, r, ch), 30, {W, H, ch}, {r, w * 0.5, h * 0.25}, pick(ch), hexc);
        add(str("drawDisk %s %g %d channels", hexc, r, ch), 31, {W, H, ch}, {r, w * 0.25, h * 0.5}, pick(ch), hexc);
      }
      for (int bw : {0, 1, 3}) {
        add(str("addBorder %s %d %d channels", hexc, bw, ch), 32, {W, H, ch, bw}, {}, pick(ch), hexc);
      }
    }
    add(str("generateHistogram %d channels", ch), 33, {W, H, ch}, {}, pick(ch));
  }
  // 9 different numbers, so that every exchange shows
  std::vector<std::vector<double>> ms = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.9, 0.2, 0.3, -0.1, 1.1, 0.4, 0.01, -0.02, 1.05}, {0, 1, 0, 1, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0}};
  for (size_t k = 0; k < ms.size(); k++) {
    for (auto s : {std::pair<int, int>{W, H}, {5, 3}, {1, 4}, {0, 2}}) {
      add(str("applyMatrix3x3 %zu to %dx%d", k, s.first, s.second), 26, {W, H, s.first, s.second}, ms[k], rgba);
      add(str("applyMatrix3x3Ptr %zu to %dx%d", k, s.first, s.second), 58, {W, H, s.first, s.second}, ms[k], rgba);
    }
  }
  // document detection works on an enlarged copy, which takes its time
  bool heavy = kind == 2 && (w + h <= 4 || w > 6 || h > 6 || (w == 5 && h == 3));
  int none = w == 0 || h == 0 ? 1 : 0;
  if (heavy || none) {
  add("detectCorners", 27, {W, H}, {}, rgba);
  add("detectCornersPtr", 59, {W, H}, {}, rgba);
  for (auto s : {std::pair<int, int>{4, 7}, {9, 2}, {1, 1}, {0, 3}}) {
    add(str("extractDocument to %dx%d", s.first, s.second), 28, {W, H, s.first, s.second}, {}, rgba);
  }
  add("extractDocumentAuto", 29, {W, H}, {}, rgba);
  }
  std::vector<std::vector<double>> mk = {{}, {0, 0}, {w - 1., 0, 0, h - 1.}, {w / 2., h / 3., 0, 0, w - 1., h - 1.}, {-3, 5, 1, 1}};
  for (size_t k = 0; k < mk.size(); k++) {
    for (int b = 0; b < 2; b++) {
      add(str("watershedSegmentation, markers %zu, boundaries %d", k, b), 34, {W, H, b}, {}, rgba, "", "", mk[k]);
    }
  }
  for (auto c : {std::pair<const char *, const char *>{"FFFFFF", "#000000"}, {"#200000", "ff0000"}, {"bad", "0000FF"}}) {
    add(str("convertToBinary %s %s", c.first, c.second), 37, {W, H}, {}, rgba, c.first, c.second);
  }
  add("Image record", 74, {W, H}, {}, rgba);
  return v;
}
// parameters and sizes beyond every byte, word and default
static const std::vector<Size> LARGE = {{700, 500}, {3, 70000}, {70000, 3}, {300, 300}, {300, 40}, {33, 260}, {160, 120}, {90, 140}};
static std::vector<Req> large(u32 w, u32 h) {
  std::vector<Req> v;
  Bytes rgba = content(w, h, 4, 0), gray = content(w, h, 1, 0), scene = content(w, h, 4, 2), seg = content(w, h, 1, 2);
  i32 W = (i32)w, H = (i32)h;
  bool small = w * h <= 40000, mid = w * h <= 100000;
  auto add = [&](const std::string &name, int op, std::vector<i32> a, std::vector<double> d, const Bytes &in, const std::string &s1 = "", const std::string &s2 = "", std::vector<double> marks = {}) {
    Req r;
    r.name = name;
    r.op = op;
    r.a = a;
    r.d = d;
    r.s1 = s1;
    r.s2 = s2;
    r.marks = marks;
    r.in = in;
    v.push_back(r);
  };
  for (int o : {0, 1, 2, 3, 14, 15, 16, 17, 18, 19, 20, 50, 51, 52, 53, 60, 61, 62, 63, 64, 65}) {
    add(str("simple operation %d", o), o, {W, H}, {}, o % 50 == 3 ? gray : rgba);
  }
  for (double r : {5.5, 12.0, 17.0, 40.5, 120.0, 300.0}) {
    if (r < 15 || small) {
      add(str("gaussianBlur %g", r), 4, {W, H}, {r}, rgba);
      add(str("gaussianBlurPtr %g", r), 54, {W, H}, {r}, rgba);
    }
  }
  for (int b = 0; b < 2; b++) {
    for (int o : {5, 55}) {
      add(str("otsuThreshold %d (%d)", b, o), o, {W, H, b}, {}, rgba);
    }
    if (mid) {
      add(str("bwSmart %d", b), 6, {W, H, b}, {}, rgba);
      add(str("bwSmartPtr %d", b), 56, {W, H, b}, {}, rgba);
    }
  }
  for (u32 n : {255u, 256u, 257u, 4095u, 4096u, 4097u, 32768u, 65535u, 65536u, 65537u, 131072u, w * h - 1, w * h}) {
    if (n <= w * h) {
      for (int t : {63, 200}) {
        add(str("applyGlobalThreshold %u %d", n, t), 7, {W, H, (i32)n, t}, {}, gray);
      }
    }
  }
  add("sobelEdgeDetection 1", 8, {W, H, 1}, {}, gray);
  add("sobelEdgeDetection 4", 8, {W, H, 4}, {}, rgba);
  if (mid) {
    for (double s : {0.3, 4.0, 9.5}) {
      add(str("foerstnerCorner %g", s), 9, {W, H}, {s}, gray);
    }
  }
  static const char *morph[] = {"binaryDilationDisk", "binaryErosionDisk", "binaryClosingDisk", "binaryOpeningDisk"};
  for (int k = 0; k < 4; k++) {
    for (int r : {8, 15, 16, 17, 25, 33, 65, 127, 128, 130, 255, 256, 260}) {
      if (r < 20 ? mid : r < 70 ? small : w * h <= 12000) {
        add(str("%s %d", morph[k], r), 10 + k, {W, H, r}, {}, seg);
      }
    }
  }
  for (double x : {0.01, 0.25, 0.999, 1.001, 4.5, 11.0}) {
    for (double y : {0.003, 0.75, 1.25, 7.0}) {
      if (w * x < 100000 && h * y < 100000 && w * x * h * y < 2e6) {
        add(str("resize %g %g", x, y), 21, {W, H}, {x, y}, rgba);
      }
    }
  }
  for (u32 x : {0u, 1u, 129u, 257u, 65537u}) {
    for (u32 y : {0u, 2u, 255u, 256u, 300u, 65536u}) {
      for (u32 nw : {2u, 130u, 256u, 257u, 66000u, 70000u}) {
        for (u32 nh : {1u, 128u, 255u, 256u, 259u, 499u, 65536u, 70000u}) {
          if (x + nw <= w && y + nh <= h) {
            add(str("crop %u %u %u %u", x, y, nw, nh), 22, {W, H, (i32)x, (i32)y, (i32)nw, 4}, {(double)nh}, rgba);
          }
        }
      }
    }
  }
  for (u32 bad : {65536u, 70001u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu}) {
    add(str("crop at x = %u", bad + 70000), 22, {W, H, (i32)(bad + 70000), 0, 1, 4}, {1.}, rgba);
    add(str("crop at y = %u", bad + 70000), 22, {W, H, 0, (i32)(bad + 70000), 1, 4}, {1.}, rgba);
    if (bad > 70000) {
      add(str("crop of width %u", bad), 22, {W, H, 0, 0, (i32)bad, 4}, {1.}, rgba);
      add(str("crop of height %u", bad), 22, {W, H, 0, 0, 1, 4}, {(double)bad}, rgba);
    }
  }
  for (double t : {0.39, 2.5, 12.75, 61.5, 99.9, 150., -3.}) {
    add(str("trimThreshold %g%%", t), 24, {W, H, 4}, {t}, scene);
  }
  add("trim", 23, {W, H, 4}, {}, scene);
  for (double r : {15.5, 31., 127., 128., 255., 256., 400., 70000., 1e9}) {
    for (double x : {-300.5, 128., 255.75, 256., 33000., 69999., 1e7, -1e7}) {
      for (double y : {-0.5, 127., 255., 256.5, 40000.}) {
        if (r < 1000 || x == 128.) {
          add(str("drawCircle %g %g %g", r, x, y), 30, {W, H, 4}, {r, x, y}, rgba, "FE7F01");
          if (w * h <= 100000) {
            add(str("drawDisk %g %g %g", r, x, y), 31, {W, H, 4}, {std::min(r, 500.), x, y}, rgba, "FE7F01");
          }
        }
      }
    }
  }
  for (u32 b : {15u, 127u, 128u, 255u, 256u, 257u, 300u, 1000u}) {
    if ((double)(w + 2 * b) * (h + 2 * b) < 2e6) {
      add(str("addBorder %u", b), 32, {W, H, 4, (i32)b}, {}, rgba, "#0a7fC4");
    }
  }
  for (u32 b : {0x40000000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
    add(str("addBorder %u", b), 32, {W, H, 4, (i32)b}, {}, rgba, "#0a7fC4");
  }
  add("generateHistogram", 33, {W, H, 4}, {}, rgba);
  std::vector<std::vector<double>> ms = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.9, 0.2, 0.3, -0.1, 1.1, 0.4, 1e-4, -2e-5, 1.05}, {1, 0, 129.5, 0, 1, 257.25, 0, 0, 1}, {1e-3, 0, 40, 0, 3, -70, 0, 0, 1}};
  for (size_t k = 0; k < ms.size(); k++) {
    for (auto s : {std::pair<int, int>{W, H}, {300, 257}, {70000, 1}, {2, 66000}, {256, 128}, {-5, 3}}) {
      add(str("applyMatrix3x3 %zu to %dx%d", k, s.first, s.second), 26, {W, H, s.first, s.second}, ms[k], rgba);
      add(str("applyMatrix3x3Ptr %zu to %dx%d", k, s.first, s.second), 58, {W, H, s.first, s.second}, ms[k], rgba);
    }
  }
  if (small && w >= 90 && h >= 100) {
    add("detectCorners", 27, {W, H}, {}, scene);
    add("detectCornersPtr", 59, {W, H}, {}, scene);
    for (auto s : {std::pair<int, int>{300, 257}, {70000, 1}, {2, 66000}, {256, 128}}) {
      add(str("extractDocument to %dx%d", s.first, s.second), 28, {W, H, s.first, s.second}, {}, scene);
    }
    add("extractDocumentAuto", 29, {W, H}, {}, scene);
  }
  for (int nm : {2, 127, 128, 129, 255, 256, 257, 300, 1000, 3000}) {
    std::vector<double> mk;
    for (int k = 0; k < nm; k++) {
      mk.push_back((double)((u64)k * 7919 % w));
      mk.push_back((double)((u64)k * 104729 / 3 % h) + (k % 2 ? .25 : 0));
    }
    if (mid) {
      add(str("watershedSegmentation, %d markers", nm), 34, {W, H, nm & 1}, {}, rgba, "", "", mk);
    }
  }
  for (auto c : {std::pair<const char *, const char *>{"FFFFFF", "#000000"}, {"#200000", "ff0000"}}) {
    add(str("convertToBinary %s %s", c.first, c.second), 37, {W, H}, {}, rgba, c.first, c.second);
  }
  add("Image record", 74, {W, H}, {}, rgba);
  return v;
}
// calls without a picture
static std::vector<Req> plain() {
  std::vector<Req> v;
  auto add = [&](const std::string &name, int op, std::vector<double> d, const std::string &s1 = "") {
    Req r;
    r.name = name;
    r.op = op;
    r.d = d;
    r.s1 = s1;
    v.push_back(r);
  };
  std::vector<std::vector<double>> quads = {{0, 0, 10, 0, 10, 20, 0, 20}, {1, 2, 33, 4, 35, 66, 7, 58}, {0.5, -3, 17, 1, 19.25, 40, -2, 38}, {5, 5, 5, 5, 5, 5, 5, 5}, {0, 0, 1, 1, 2, 2, 3, 3}, {0, 0, 10, NAN, 10, 20, 0, 20}, {100, 7, 9, 3, 1, 50, 80, 60}};
  for (auto &a : quads) {
    for (auto &b : quads) {
      std::vector<double> d = a;
      d.insert(d.end(), b.begin(), b.end());
      add("calculatePerspectiveTransform", 25, d);
      add("calculatePerspectiveTransformPtr", 57, d);
    }
    add("Storable Corners", 70, a);
    add("prettyShowCorners", 72, a);
  }
  std::vector<double> m = {0.5, -1.25, 2, 3.75, -4, 5.5, 6, 700.125, -0.0625};
  for (int k = 0; k < 9; k++) {
    std::rotate(m.begin(), m.begin() + 1, m.end());
    add("Storable Matrix3x3", 71, m);
    add("prettyShowMatrix3x3", 73, m);
  }
  for (double x : {0., 1.5, -7., 1e300}) {
    add("Storable Point2D", 75, {x, x + 2});
  }
  static const char *cs[] = {"FF8001", "#FF8001", "0a0B0c", "#abc", "", "#", "zzzzzz", "12345", "1234567", "##123456", "12 456", "-12345", "000000", "FFFFFF", "#00ff7f80"};
  for (auto c : cs) {
    add(str("parseHexColor '%s'", c), 36, {}, c);
  }
  return v;
}

static std::vector<Size> SIZES, BIG;

// ---------------------------------------------------------------- histories
static std::vector<Req> HIST; // one call of every wrapper that returns a picture
static std::vector<Req> hist_ops() {
  std::vector<Req> v;
  std::vector<std::string> seen_ops;
  for (auto &r : requests(5, 3, 2)) {
    std::string n = r.name.substr(0, r.name.find(' '));
    Rep e = expect(r);
    if (r.op == 72 || !e.ok || e.out.empty() || r.op == 7 || r.op == 74 || (r.op >= 27 && r.op <= 29)) {
      continue;
    }
    if (std::find(seen_ops.begin(), seen_ops.end(), n) != seen_ops.end()) {
      continue;
    }
    // prefer parameters that change something
    if (e.out == r.in && r.op != 74) {
      continue;
    }
    seen_ops.push_back(n);
    v.push_back(r);
  }
  for (auto &r : requests(5, 3, 2)) { // one failing call and one of in-place character
    if (r.name == "resize 0 0.5" || r.name.find("applyGlobalThreshold 15 127") == 0) {
      v.push_back(r);
    }
  }
  return v;
}
// input class of a call: calls with the same input share one Haskell vector
static int input_class(const Req &r) { return (int)(r.in.size() / 15) + 10; }

static void history(const std::vector<int> &ops, int gc, int drop) {
  command(1006);
  std::vector<Rep> want;
  for (size_t i = 0; i < ops.size(); i++) {
    const Req &r = HIST[ops[i]];
    bool shared_before = false;
    for (size_t k = 0; k < i; k++) {
      shared_before |= input_class(HIST[ops[k]]) == input_class(r);
    }
    want.push_back(expect(r));
    Rep got = ask(r, (int)i, input_class(r), 0, !shared_before);
    judge(r, got, want.back(), r.name.c_str());
    if (gc >> i & 1) {
      command(1002);
    }
    if (drop == (int)i + 1 && i + 1 < ops.size()) {
      command(1001, (int)i);
    }
  }
  u64 held = 0;
  for (int pass = 0; pass < 2; pass++) {
    held = 0;
    for (size_t i = 0; i < ops.size(); i++) {
      const Req &r = HIST[ops[i]];
      if (!want[i].ok || (drop == (int)i + 1 && i + 1 < ops.size())) {
        continue;
      }
      Rep again = command(1000, (int)i);
      Rep w = want[i];
      w.meta.clear();
      judge(r, again, w, pass ? (r.name + ", its result read again after a garbage collection").c_str() : (r.name + ", its result read again after the other calls").c_str());
      // in-place wrappers and pointer-based ones hold Haskell memory
      held += r.op < 50 && r.op != 30 && r.op != 31 && r.op != 7;
      Rep in = command(1005, -1, input_class(r));
      if (in.out != r.in) {
        fail("%s changed its input vector", r.name.c_str());
      }
    }
    command(1002);
    Rep n = command(1003);
    if (n.meta[2]) {
      fail("a buffer of the C library was freed twice");
    }
    if (n.meta[0] > held) {
      fail("%llu buffers of the C library are alive, only %llu results are held", (unsigned long long)n.meta[0], (unsigned long long)held);
    }
  }
  command(1006);
  command(1002);
  Rep n = command(1003);
  if (n.meta[0]) {
    fail("%llu buffers of the C library are still alive although no result is held any more", (unsigned long long)n.meta[0]);
  }
  if (n.meta[2]) {
    fail("a buffer of the C library was freed twice");
  }
  nontrivial();
}

// SOI, an APP1 segment with one IFD holding the orientation, SOS
static std::string exif_jpeg(int o, bool le) {
  auto n16 = [&](int v) { return le ? std::string{(char)v, (char)(v >> 8)} : std::string{(char)(v >> 8), (char)v}; };
  auto n32 = [&](int v) { return le ? n16(v) + n16(0) : n16(0) + n16(v); };
  std::string t = std::string(le ? "II" : "MM") + n16(42) + n32(8) + n16(1) + n16(0x112) + n16(3) + n32(1) + n16(o) + n16(0) + n32(0);
  std::string e = std::string("Exif\0\0", 6) + t;
  int len = (int)e.size() + 2;
  return std::string("\xff\xd8\xff\xe1", 4) + (char)(len >> 8) + (char)len + e + std::string("\xff\xda\0\2", 4);
}

int main(int argc, char **argv) {
  return fw::main_(argc, argv, [](std::vector<Suite> &suites) {
  u32 n = fw::thorough ? 9 : 6;
  for (u32 h = 0; h <= n; h++) {
    for (u32 w = 0; w <= n; w++) {
      if ((w == 0 || h == 0) && w + h > 2) {
        continue;
      }
      SIZES.push_back({w, h});
    }
  }
  SIZES.push_back({17, 3});
  SIZES.push_back({3, 19});
  SIZES.push_back({40, 31});
  static size_t NR = 0; // at most
  for (int k = 0; k < 3; k++) {
    NR = std::max(NR, requests(5, 3, k).size());
  }
  static std::vector<Req> PLAIN = plain();
  static std::vector<size_t> counts;
  struct At {
    Size s;
    int kind, pad;
    size_t i;
  };
  auto at = [](u64 idx) {
    At a;
    a.i = idx % NR;
    idx /= NR;
    a.kind = (int)(idx % 3);
    a.pad = a.kind == 1 ? 5 : 0;
    a.s = SIZES[idx / 3];
    return a;
  };
  suites.push_back({"calls", "every wrapper x parameters x all sizes up to 6x6 (and larger ones) x 3 contents", SIZES.size() * 3 * NR,
                    [at](u64 idx) {
                      At a = at(idx);
                      static thread_local u32 cw = ~0u, ch = ~0u;
                      static thread_local int ck = -1;
                      static thread_local std::vector<Req> rs;
                      if (cw != a.s.w || ch != a.s.h || ck != a.kind) {
                        rs = requests(a.s.w, a.s.h, a.kind);
                        cw = a.s.w;
                        ch = a.s.h;
                        ck = a.kind;
                      }
                      if (a.i >= rs.size()) {
                        return; // no document detection for this picture
                      }
                      const Req &r = rs[a.i];
                      Rep want = expect(r);
                      if (r.op >= 50 && r.op < 70 && (a.s.w == 0 || a.s.h == 0) && want.ok) {
                        return; // nothing to copy
                      }
                      Rep got = ask(r, -1, 3, a.pad);
                      judge(r, got, want, r.name.c_str());
                      Rep in = command(1005, -1, 3);
                      if (in.out != r.in) {
                        fail("%s changed its input vector", r.name.c_str());
                      }
                      command(1006);
                      if (want.ok && !want.out.empty() && want.out != r.in) {
                        nontrivial();
                      }
                      seen(fw::hash(got.out.data(), got.out.size(), (u64)r.op * 7 + got.ok));
                    },
                    [at](u64 idx) {
                      At a = at(idx);
                      auto rs = requests(a.s.w, a.s.h, a.kind);
                      return str("%s on a %ux%u picture (content %d%s)", a.i < rs.size() ? rs[a.i].name.c_str() : "nothing", a.s.w, a.s.h, a.kind, a.pad ? ", a slice of a larger vector" : "");
                    },
                    NR});
  {
    static std::vector<size_t> first = {0};
    for (auto &z : LARGE) {
      first.push_back(first.back() + large(z.w, z.h).size());
    }
    auto pick = [](u64 idx) {
      static thread_local size_t cur = ~(size_t)0;
      static thread_local std::vector<Req> rs;
      size_t k = 0;
      while (first[k + 1] <= idx) {
        k++;
      }
      if (cur != k) {
        rs = large(LARGE[k].w, LARGE[k].h);
        cur = k;
      }
      return rs[idx - first[k]];
    };
    suites.push_back({"large", "every wrapper on pictures up to 700x500 and 70000x3 with sizes, offsets, radii, widths and counts beyond 2^8 and 2^16", first.back(),
                      [pick](u64 idx) {
                        Req r = pick(idx);
                        Rep want = expect(r);
                        for (auto &o : OVERLONG) {
                          if (o.op == r.op) { // what lies beyond need not be readable
                            r.limit = r.a[0] * r.a[1];
                          }
                        }
                        Rep got = ask(r, -1, 3, 0);
                        judge(r, got, want, r.name.c_str());
                        Rep in = command(1005, -1, 3);
                        if (in.out != r.in) {
                          fail("%s changed its input vector", r.name.c_str());
                        }
                        command(1006);
                        nontrivial();
                        seen(fw::hash(got.out.data(), got.out.size(), (u64)r.op * 7 + got.ok));
                      },
                      [pick](u64 idx) {
                        Req r = pick(idx);
                        return str("%s on a %dx%d picture", r.name.c_str(), r.a[0], r.a[1]);
                      },
                      30});
  }
  suites.push_back({"values", "wrappers without a picture: transforms between 7x7 quadrilaterals, colours, Storable instances", PLAIN.size(),
                    [](u64 i) {
                      const Req &r = PLAIN[i];
                      Rep got = ask(r);
                      if (r.op == 72) { // for debugging: the eight numbers, in reading order
                        std::string t(got.out.begin(), got.out.end());
                        std::vector<double> nums, want = {r.d[0], r.d[1], r.d[2], r.d[3], r.d[6], r.d[7], r.d[4], r.d[5]};
                        for (size_t k = 0; k < t.size();) {
                          char *e;
                          double x = strtod(t.c_str() + k, &e);
                          if (e != t.c_str() + k) {
                            nums.push_back(x);
                            k = (size_t)(e - t.c_str());
                          }
                          else {
                            k++;
                          }
                        }
                        bool same = nums.size() == 8;
                        for (int k = 0; same && k < 8; k++) {
                          same = nums[k] == want[k] || (nums[k] != nums[k] && want[k] != want[k]);
                        }
                        if (!got.ok || !same) {
                          fail("prettyShowCorners shows '%s'", t.c_str());
                        }
                        compared();
                        return;
                      }
                      judge(r, got, expect(r), r.name.c_str());
                      seen(fw::hash(got.meta.data(), got.meta.size() * 8, (u64)r.op));
                      nontrivial();
                    },
                    [](u64 i) {
                      std::string s = PLAIN[i].name;
                      for (double d : PLAIN[i].d) {
                        s += str(" %g", d);
                      }
                      return s;
                    },
                    40});
  // EXIF: one file per orientation, byte order and kind of file
  suites.push_back({"exif", "getExifOrientation on files with every orientation value 0..9 in both byte orders, without EXIF data, of other kinds and missing", 10 * 2 + 4,
                    [](u64 i) {
                      std::string path = fw::scratch + str("/hs%d_%llu.jpg", fw::worker, (unsigned long long)i);
                      std::string body;
                      if (i < 20) {
                        body = exif_jpeg((int)(i / 2), i & 1);
                      }
                      else if (i == 20) {
                        body = std::string("\xff\xd8\xff\xd9", 4);
                      }
                      else if (i == 21) {
                        body = "PNG, say";
                      }
                      if (i < 23) {
                        FILE *f = fopen(path.c_str(), "wb");
                        if (!f || fwrite(body.data(), 1, body.size(), f) != body.size() || fclose(f) != 0) {
                          _exit(3);
                        }
                      }
                      Req r;
                      r.name = "getExifOrientation";
                      r.op = 35;
                      r.s1 = path;
                      Rep got = ask(r);
                      Rep want = expect(r);
                      unlink(path.c_str());
                      judge(r, got, want, "getExifOrientation");
                      if (i < 20 && i / 2 >= 1 && i / 2 <= 8 && want.meta[0] != i / 2) {
                        fail("the file has orientation %llu, the C function gives %llu", (unsigned long long)i / 2, (unsigned long long)want.meta[0]);
                      }
                      nontrivial();
                    },
                    [](u64 i) { return str("file %llu", (unsigned long long)i); }, 24});
  HIST = hist_ops();
  static u64 K = HIST.size();
  // depth 2: all garbage collection and drop choices; depth 3: two of them
  auto two = [](u64 i, std::vector<int> &o, int &gc, int &drop) {
    o = {(int)(i % K), (int)(i / K % K)};
    gc = (int)(i / K / K % 4);
    drop = (int)(i / K / K / 4 % 2);
  };
  auto describe = [](const std::vector<int> &o, int gc, int drop) {
    std::string s;
    for (size_t k = 0; k < o.size(); k++) {
      s += (k ? ", then " : "") + HIST[o[k]].name + (gc >> k & 1 ? " [gc]" : "") + (drop == (int)k + 1 ? " [dropped]" : "");
    }
    return s;
  };
  suites.push_back({"histories-2", "all pairs of wrapper calls on shared inputs x garbage collection after each x dropping the first result", K * K * 8,
                    [two](u64 i) {
                      std::vector<int> o;
                      int gc, drop;
                      two(i, o, gc, drop);
                      history(o, gc, drop);
                    },
                    [two, describe](u64 i) {
                      std::vector<int> o;
                      int gc, drop;
                      two(i, o, gc, drop);
                      return describe(o, gc, drop);
                    },
                    400});
  auto three = [](u64 i, std::vector<int> &o, int &gc, int &drop) {
    o = {(int)(i % K), (int)(i / K % K), (int)(i / K / K % K)};
    gc = 2;
    drop = (int)(i % 3);
  };
  suites.push_back({"histories-3", "all triples of wrapper calls on shared inputs, a collection in between, one result dropped or none", K * K * K,
                    [three](u64 i) {
                      std::vector<int> o;
                      int gc, drop;
                      three(i, o, gc, drop);
                      history(o, gc, drop);
                    },
                    [three, describe](u64 i) {
                      std::vector<int> o;
                      int gc, drop;
                      three(i, o, gc, drop);
                      return describe(o, gc, drop);
                    },
                    1000});
  // the markers of watershedSegmentation, whether the call succeeds or not
  suites.push_back({"markers", "watershedSegmentation with 1..40 markers, succeeding and failing: no memory of the wrapper is left", 80,
                    [](u64 i) {
                      int nm = 1237 + (int)(i / 2) * 16; // a size nothing else allocates
                      bool bad = i & 1;
                      Req r;
                      r.name = "watershedSegmentation";
                      r.op = 34;
                      r.a = {bad ? 0 : 5, 3, 1};
                      r.in = content(5, 3, 4, 2);
                      for (int k = 0; k < nm; k++) {
                        r.marks.push_back(k % 5);
                        r.marks.push_back(k / 5 % 3);
                      }
                      command(1004, -1, -1, nm * 16);
                      Rep want = expect(r);
                      for (int k = 0; k < 3; k++) {
                        judge(r, ask(r), want, "watershedSegmentation");
                      }
                      command(1002);
                      Rep x = command(1003);
                      command(1004, -1, -1, 0);
                      if (x.meta[1]) {
                        fail("after three %s calls %llu blocks of the size of the marker array are still allocated", bad ? "failing" : "successful", (unsigned long long)x.meta[1]);
                      }
                      compared();
                    },
                    [](u64 i) { return str("%d markers, the call %s", 1237 + (int)(i / 2) * 16, i & 1 ? "fails" : "succeeds"); }, 20});
  });
}
