// C22: every documented parameter form reaches its operation as written;
// everything malformed is refused without touching the output path.
#include "cliops.hpp"
using namespace cli;

typedef std::function<bool(Img &)> F;
struct Case {
  int img;
  std::string text;
  F f; // null: must be refused
  std::function<bool(Img &, Env *)> e = nullptr; // instead of f, when something is printed
};

static const std::vector<std::pair<u32, u32>> PAGES = {{90, 140}, {60, 200}, {333, 111}, {123, 77}, {101, 100}, {250, 251}, {70, 71}, {411, 533}, {640, 300}, {300, 1100}};
static const Img &input(int k) {
  static std::vector<Img> v;
  if (v.empty()) {
    Img f = image(10, 10, F_HASH, 9); // framed, with a gradient in the frame
    for (u32 y = 0; y < 10; y++) {
      for (u32 x = 0; x < 10; x++) {
        if (x < 3 || x > 6 || y < 2 || y > 7) {
          u8 v = (u8)(40 + 9 * x + 5 * y);
          u8 p[4] = {v, v, (u8)(v + 3), 255};
          memcpy(&f.px[(y * 10 + x) * 4], p, 4);
        }
      }
    }
    Img g = image(258, 3, F_HASH, 3); // column x differs by x levels: every tolerance gives another result
    for (u32 y = 0; y < 3; y++) {
      for (u32 x = 0; x < 258; x++) {
        u8 v = (u8)(y == 1 ? std::min(x, 255u) : 0), p[4] = {v, 0, (u8)(v / 2), 255};
        memcpy(&g.px[(y * 258 + x) * 4], p, 4);
      }
    }
    v = {image(11, 8, F_HASH, 1), f, page(160, 120), image(40, 30, F_GRAD, 7), g};
    for (auto &z : PAGES) {
      v.push_back(page(z.first, z.second));
    }
  }
  return v[k];
}
enum { RGB, FRAMED, PAGE, BIG, GRADED, PAGE0 };

static std::string num(double v) {
  std::string s = fw::str("%.4f", v);
  while (s.back() == '0') {
    s.pop_back();
  }
  if (s.back() == '.') {
    s.pop_back();
  }
  return s;
}

static std::vector<Case> valid() {
  std::vector<Case> c;
  auto add = [&](int img, const std::string &t, F f) { c.push_back({img, t, f}); };
  // numbers in several spellings
  struct N {
    const char *t;
    double v;
  };
  static const N numbers[] = {{"0", 0}, {"1", 1}, {"2", 2}, {"3", 3}, {"3.0", 3}, {"03", 3}, {"0.5", .5}, {".5", .5}, {"5.", 5}, {"1.75", 1.75}, {"12.125", 12.125}, {"25", 25}, {"-1", -1}, {"-0.5", -.5}, {"999.5", 999.5}, {"1000", 1000}, {"1001", 1001}, {"0.001", 0.001}};
  for (auto &n : numbers) {
    double v = n.v;
    add(RGB, std::string("blur ") + n.t, [=](Img &m) { return blur(m, v); });
    if (v > -2 && v < 30) {
      add(RGB, std::string("resize ") + n.t, [=](Img &m) { return resize(m, v, v); });
      add(FRAMED, std::string("trim ") + n.t, [=](Img &m) { return trim_pct(m, v); });
      for (auto &k : {numbers[1], numbers[6], numbers[9], numbers[0], numbers[12]}) {
        double v2 = k.v;
        add(RGB, std::string("resize ") + n.t + " " + k.t, [=](Img &m) { return resize(m, v, v2); });
      }
    }
  }
  for (int r = -3; r <= 30; r++) {
    static const char *nm[] = {"erode", "dilate", "close", "open"};
    for (int k = 0; k < 4; k++) {
      add(RGB, fw::str("%s %d", nm[k], r), [=](Img &m) { return morph(m, k, r); });
    }
  }
  // percentages
  for (int p = -10; p <= 400; p += p < 120 ? 1 : 7) {
    add(RGB, fw::str("resize %d%%", p), [=](Img &m) { return resize(m, p / 100.0, p / 100.0); });
  }
  for (double p : {0.5, 12.5, 33.3, 66.67, 99.99, 100.01, 250.5, 1e-7}) {
    add(BIG, "resize " + fw::str("%.7g", p >= 1e-3 ? p : 0.0001) + "%", [=](Img &m) { double q = p >= 1e-3 ? p : 0.0001; return resize(m, q / 100.0, q / 100.0); });
  }
  for (double a : {10., 25., 33.3, 50., 80., 100., 150., 200., 312.5}) {
    for (double b : {10., 25., 33.3, 50., 80., 100., 150., 200., 312.5}) {
      add(RGB, "resize " + num(a) + "%x" + num(b) + "%", [=](Img &m) { return resize(m, a / 100.0, b / 100.0); });
    }
  }
  for (int w : {1, 2, 3, 7, 8, 11, 12, 13, 29, 61, 115, 122, 230, 237, 0, -1}) {
    for (int h : {1, 2, 5, 8, 9, 16, 49, 98, 0}) {
      for (int im : {(int)RGB, (int)BIG}) {
        add(im, fw::str("resize %dx%d", w, h), [=](Img &m) { return w > 0 && h > 0 ? resize_to(m, (u32)w, (u32)h) : false; });
      }
    }
  }
  // crop geometry
  for (long long w : {1ll, 2ll, 5ll, 11ll, 12ll, 100ll, 4294967295ll}) {
    for (long long h : {1ll, 3ll, 8ll, 9ll, 2147483648ll}) {
      add(RGB, fw::str("crop %lldx%lld", w, h), [=](Img &m) { return crop(m, w, h, 0, 0); });
      for (long long x : {-2147483648ll, -3ll, 0ll, 1ll, 10ll, 11ll, 2147483647ll}) {
        add(RGB, fw::str("crop %lldx%lld%+lld", w, h, x), [=](Img &m) { return crop(m, w, h, x, 0); });
        for (long long y : {-2ll, 0ll, 2ll, 7ll, 8ll, 60ll}) {
          add(RGB, fw::str("crop %lldx%lld%+lld%+lld", w, h, x, y), [=](Img &m) { return crop(m, w, h, x, y); });
        }
      }
    }
  }
  add(RGB, "crop 0x5", nullptr);
  add(RGB, "crop 5x0", nullptr);
  // angles
  for (int k = -24; k <= 24; k++) {
    add(RGB, fw::str("rotate %d", k * 90), [=](Img &m) { return rotate(m, k * 90); });
    add(RGB, fw::str("rotate %d.0", k * 90), [=](Img &m) { return rotate(m, k * 90); });
  }
  for (int a = -359; a <= 719; a++) {
    if (a % 90) {
      add(RGB, fw::str("rotate %d", a), nullptr);
    }
  }
  for (double a : {3600., 36000., 32760., 32850., 65610., 65520., 131040., 2147483610., 2147483640., -2147483640., 2147483730., 4294967190., 4294967280., 4294967370., 42949672950., -42949672950., 8999999999999910.}) {
    int q = (int)(fmod(fmod(a, 360) + 360, 360) + .5);
    add(RGB, fw::str("rotate %.0f", a), q % 90 ? F(nullptr) : F([=](Img &m) { return rotate(m, q); }));
    add(RGB, fw::str("rotate %.0f", a + 1), (q + 1) % 90 ? F(nullptr) : F([=](Img &m) { return rotate(m, q + 1); }));
  }
  for (const char *t : {"90.5", "89.999", "0.5", "359.9", "-0.25", "-90.5", "180.001", "450.5"}) {
    add(RGB, std::string("rotate ") + t, nullptr);
  }
  // trim thresholds
  for (int p = -5; p <= 120; p++) {
    add(FRAMED, fw::str("trim %d%%", p), [=](Img &m) { return trim_pct(m, p); });
    add(FRAMED, fw::str("trim %d", p), [=](Img &m) { return trim_pct(m, p); });
  }
  for (double p : {0.1, 0.39, 0.4, 2.5, 3.53, 7.84, 12.5, 99.9}) {
    add(FRAMED, "trim " + num(p) + "%", [=](Img &m) { return trim_pct(m, p); });
    add(FRAMED, "trim " + num(p), [=](Img &m) { return trim_pct(m, p); });
  }
  for (int k = -3; k <= 520; k++) { // every level of tolerance, just below and above it
    for (double p : {k * .2, k * .2 + .0123}) {
      add(GRADED, "trim " + num(p) + "%", [=](Img &m) { return trim_pct(m, p); });
      add(GRADED, "trim " + num(p), [=](Img &m) { return trim_pct(m, p); });
    }
  }
  for (int k = 0; k <= 256; k++) {
    double p = (floor(k * 100. / 255 * 1e4) + 1) / 1e4;
    add(GRADED, "trim " + num(p) + "%", [=](Img &m) { return trim_pct(m, p); });
    add(GRADED, "trim " + num(p - .0002), [=](Img &m) { return trim_pct(m, p - .0002); });
  }
  // colours, radii and positions
  static const char *colours[] = {"FF0000", "00ff7F", "#0000FF", "#abcdef", "000000", "FFFFFF", "0A0B0C", "#123456"};
  struct Pos {
    const char *t;
    double x, y;
  };
  static const Pos poss[] = {{"5x4", 5, 4}, {"0x0", 0, 0}, {"10x7", 10, 7}, {"-3x2", -3, 2}, {"4x-2", 4, -2}, {"5.5x4.25", 5.5, 4.25}, {"100x100", 100, 100}, {"07x003", 7, 3}, {"2x6.999", 2, 6.999}, {"4.996x3.9999", 4.996, 3.9999}, {"5.0001x2.00001", 5.0001, 2.00001}, {"123456x654321", 123456, 654321}};
  for (auto *col : colours) {
    for (auto &p : poss) {
      for (double r : {0., 1., 2.5, 3., 40., -1.}) {
        const char *hex = col;
        double x = p.x, y = p.y;
        add(RGB, std::string("circle ") + col + " " + num(r) + " " + p.t, [=](Img &m) { return circle(m, hex, r, x, y); });
        add(RGB, std::string("disk ") + col + " " + num(r) + " " + p.t, [=](Img &m) { return disk(m, hex, r, x, y); });
      }
    }
    for (int b : {1, 2, 3, 10, 64, 300}) {
      const char *hex = col;
      add(RGB, fw::str("border %s %d", col, b), [=](Img &m) { return border(m, hex, (u32)b); });
    }
  }
  add(RGB, "circle  FF0000   3    5x4", [](Img &m) { return circle(m, "FF0000", 3, 5, 4); });
  add(RGB, "disk  FF0000   3    5x4", [](Img &m) { return disk(m, "FF0000", 3, 5, 4); });
  add(RGB, "border   FF0000    2", [](Img &m) { return border(m, "FF0000", 2); });
  for (int n : {10, 30, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 5000, 20000}) { // texts of any length
    std::string z(n, '0'), sp(n, ' ');
    add(RGB, "blur " + z + "2", [](Img &m) { return blur(m, 2); });
    add(RGB, "blur" + sp + "2", [](Img &m) { return blur(m, 2); });
    add(RGB, "blur 2." + z, [](Img &m) { return blur(m, 2); });
    add(RGB, "rotate -" + z + "90", [](Img &m) { return rotate(m, 270); });
    add(RGB, "resize " + z + "200%", [](Img &m) { return resize(m, 2, 2); });
    add(RGB, "resize " + z + "200%x" + z + "50%", [](Img &m) { return resize(m, 2, .5); });
    add(RGB, "resize " + z + "20x" + z + "5", [](Img &m) { return resize_to(m, 20, 5); });
    add(RGB, "resize " + z + "2" + sp + z + "3", [](Img &m) { return resize(m, 2, 3); });
    add(RGB, "crop " + z + "3x" + z + "2+" + z + "1+" + z + "4", [](Img &m) { return crop(m, 3, 2, 1, 4); });
    add(FRAMED, "trim " + z + "12%", [](Img &m) { return trim_pct(m, 12); });
    add(FRAMED, "trim " + z + "12.5", [](Img &m) { return trim_pct(m, 12.5); });
    add(RGB, "border #FF8000" + sp + z + "2", [](Img &m) { return border(m, "FF8000", 2); });
    add(RGB, "disk FF8000" + sp + z + "2" + sp + z + "5x" + z + "3." + z, [](Img &m) { return disk(m, "FF8000", 2, 5, 3); });
    add(RGB, "circle FF8000" + sp + z + "2" + sp + z + "5x" + z + "3." + z, [](Img &m) { return circle(m, "FF8000", 2, 5, 3); });
    add(RGB, "watershed " + z + "5x" + z + "3" + sp + z + "1x7", [](Img &m) { return watershed(m, {{5, 3}, {1, 7}}); });
    add(RGB, "dilate " + z + "2", [](Img &m) { return morph(m, 1, 2); });
    add(PAGE, "extract_document_to " + z + "40x" + z + "30", [](Img &m) { return extract_to(m, 40, 30); });
    add(RGB, "border " + std::string(n, 'F') + " 2", nullptr);
    add(RGB, std::string(n, 'x') + " 2", nullptr);
    add(RGB, "flip_x" + std::string(n, 'x'), nullptr);
    add(RGB, "resize " + std::string(n, 'x'), nullptr);
    add(RGB, "crop " + std::string(n, '9') + "x3", n >= 1 ? F(nullptr) : F());
  }
  add(RGB, "blur    2", [](Img &m) { return blur(m, 2); });
  add(RGB, "crop    3x2+1+1", [](Img &m) { return crop(m, 3, 2, 1, 1); });
  // marker lists of every length
  for (int n = 1; n <= 10000; n += n < 70 ? 1 : n < 260 ? 19 : n < 1200 ? 97 : 2100) {
    for (int q = 0; q < 3; q++) {
      std::vector<Point2D> pts;
      std::string t;
      for (int k = 0; k < n; k++) {
        int x = (k * 7 + k / 11) % 40, y = (k * 11 + k / 13) % 30;
        pts.push_back({(double)x, (double)y});
        t += fw::str("%s%dx%d", k ? (k % 5 == 4 ? "  " : " ") : "", x, y);
      }
      std::string quote = q == 1 ? "'" : q == 2 ? "\"" : "";
      add(BIG, "watershed " + quote + t + quote, [=](Img &m) { return watershed(m, pts); });
    }
  }
  for (auto &p : poss) {
    for (auto &p2 : poss) {
      double x = p.x, y = p.y, x2 = p2.x, y2 = p2.y;
      add(RGB, std::string("watershed ") + p.t + " " + p2.t, [=](Img &m) { return watershed(m, {{x, y}, {x2, y2}}); });
    }
  }
  for (auto &d : {std::pair<int, int>{40, 30}, {1, 1}, {100, 7}, {3, 200}, {160, 120}, {0, 5}, {5, 0}, {-4, 5}}) {
    int w = d.first, h = d.second;
    if (w > 0 && h > 0) {
      add(PAGE, fw::str("extract_document_to %dx%d", w, h), [=](Img &m) { return extract_to(m, (u32)w, (u32)h); });
    }
    else {
      add(PAGE, fw::str("extract_document_to %dx%d", w, h), nullptr);
    }
  }
  // beyond small values
  for (double p : {401., 450., 799.5, 1000., 2550., 2560., 9000.}) {
    add(RGB, "resize " + num(p) + "%", [=](Img &m) { return resize(m, p / 100, p / 100); });
    for (double q : {30., 399., 475., 1234., 25600., 65536., 99999.}) {
      add(RGB, "resize " + num(p) + "%x" + num(q) + "%", [=](Img &m) { return resize(m, p / 100, q / 100); });
      add(RGB, "resize " + num(q) + "%x" + num(p) + "%", [=](Img &m) { return resize(m, q / 100, p / 100); });
      if (p < 3000 && q < 3000) {
        add(RGB, "resize " + num(p / 100) + " " + num(q / 100), [=](Img &m) { return resize(m, p / 100, q / 100); });
      }
    }
  }
  for (double r : {19.5, 20.5, 31.25, 33.75, 49.9, 50.1, 64.5, 99.9, 127.5, 128.5, 255.5, 300.75}) {
    add(BIG, "blur " + num(r), [=](Img &m) { return blur(m, r); });
  }
  for (int r : {31, 32, 33, 50, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300}) {
    static const char *nm[] = {"erode", "dilate", "close", "open"};
    for (int k = 0; k < 4; k++) {
      add(BIG, fw::str("%s %d", nm[k], r), [=](Img &m) { return morph(m, k, r); });
    }
  }
  for (double r : {63.5, 64., 127., 128., 255., 255.5, 256., 257., 1000., 65536., 99999.}) {
    for (auto &p : {std::pair<double, double>{20, 15}, {255, 15}, {256, 20.5}, {20, 257}, {-255, 3}, {3, -256}, {65536, 65535}, {-70000, 12}, {1020, 1}}) {
      double x = p.first, y = p.second;
      add(BIG, "circle 80FF01 " + num(r) + " " + num(x) + "x" + num(y), [=](Img &m) { return circle(m, "80FF01", r, x, y); });
      if (r < 2000) {
        add(BIG, "disk 80FF01 " + num(r) + " " + num(x) + "x" + num(y), [=](Img &m) { return disk(m, "80FF01", r, x, y); });
      }
    }
  }
  for (int b : {127, 128, 254, 255, 256, 257, 511, 512, 1000}) {
    add(RGB, fw::str("border #80FF01 %d", b), [=](Img &m) { return border(m, "80FF01", (u32)b); });
  }
  for (auto &d : {std::pair<int, int>{256, 255}, {257, 258}, {3, 65535}, {2, 65536}, {65537, 2}, {1, 70000}, {70000, 3}, {1000, 511}}) {
    int w = d.first, h = d.second;
    add(PAGE, fw::str("extract_document_to %dx%d", w, h), [=](Img &m) { return extract_to(m, (u32)w, (u32)h); });
    add(RGB, fw::str("resize %dx%d", w, h), [=](Img &m) { return resize_to(m, (u32)w, (u32)h); });
  }
  // the corner operations on pages of many shapes
  for (int k = 0; k < (int)PAGES.size(); k++) {
    c.push_back({PAGE0 + k, "detect_corners", nullptr, [](Img &m, Env *e) { return detect(m, e); }});
    c.push_back({PAGE0 + k, "draw_corners", nullptr, [](Img &m, Env *e) { return draw_corners(m, e); }});
    c.push_back({PAGE0 + k, "extract_document", nullptr, [](Img &m, Env *) { return extract(m); }});
    c.push_back({PAGE0 + k, "extract_document_to 47x91", nullptr, [](Img &m, Env *) { return extract_to(m, 47, 91); }});
  }
  return c;
}

static const char *NAMES[] = {"grayscale", "blur", "resize", "threshold", "bw_smart", "bw_smooth", "detect_corners", "draw_corners", "sobel", "circle", "disk", "watershed", "crop", "extract_document", "extract_document_to", "flip_x", "flip_y", "rotate", "trim", "histogram", "border", "erode", "dilate", "close", "open"};

static std::vector<std::string> malformed() {
  std::vector<std::string> c;
  static const char *bad[] = {"abc", "3abc", "3px", "1.2.3", "--3", "3-", "nan", "inf", "-inf", "infinity", "1e999", "3;4", "'3'", "3)", "(3", "x", "-", "+", ".", "e5", "3..", "3_000", "3 abc", "abc 3", "$3", "3\xc2\xb0"};
  for (auto *op : {"blur", "rotate", "erode", "dilate", "close", "open", "resize", "trim"}) {
    for (auto *b : bad) {
      c.push_back(std::string(op) + " " + b);
    }
  }
  for (auto *op : {"blur", "rotate", "erode", "dilate", "close", "open", "resize", "circle", "disk", "watershed", "crop", "border", "extract_document_to"}) {
    c.push_back(op);
    c.push_back(std::string("(") + op + ")");
    c.push_back(std::string(op) + " ");
  }
  for (auto *b : {"%", "%%", "50%%", "%50", "abc%", "5 0%", "50%x", "%x50%", "x50%", "50%xabc", "abcx50%", "50%xabc%", "10x", "x10", "x", "axb", "10xabc", "abcx10", "10x10x10", "50%x50%x50%", "nan%", "inf%", "nanx5", "5xinf", "10 x 10 5", "50%%x20%", "1e400x3"}) {
    c.push_back(std::string("resize ") + b);
  }
  for (auto *b : {"%", "abc%", "5%5", "%5", "nan%", "inf%", "5%%", "five"}) {
    c.push_back(std::string("trim ") + b);
  }
  for (auto *b : {"5", "5x", "x5", "x", "axb", "5xb", "ax5", "5x5+", "5x5+a", "5x5+1+", "5x5+1+b", "5x5+1+2+3", "5x5+1+2x", "5x5x5", "5x5a", "5x5+1a", "5y5", "-5x5", "5x-5", "5x5++1", "5x5+-1+2", "5.5x5", "5x5.5", "5x5+1.5", "50%x50%", "4294967296x1", "1x4294967296", "18446744073709551615x1", "5x5+99999999999", "5x5+1+99999999999"}) {
    c.push_back(std::string("crop ") + b);
  }
  static const char *badcol[] = {"red", "FF00", "FF000", "FF00000", "FF0000FF", "GG0000", "FF00G0", "FF000G", "#FF00", "#", "##FF0000", "0xFF0000", "#FF00000", "FF0000#", "-F0000", "+FF000", "FF-000", "'FF0000'", "F F0000"};
  for (auto *b : badcol) {
    c.push_back(std::string("circle ") + b + " 3 5x4");
    c.push_back(std::string("disk ") + b + " 3 5x4");
    c.push_back(std::string("border ") + b + " 2");
  }
  for (auto *op : {"circle", "disk"}) {
    for (auto *b : {"FF0000", "FF0000 3", "FF0000 3 5", "FF0000 3 x4", "FF0000 3 5x", "FF0000 3 5y4", "FF0000 3 axb", "FF0000 3 5xb", "FF0000 3 ax4", "FF0000 3 5x4x3", "FF0000 3 5x4 7", "FF0000 3 5 4", "3 FF0000 5x4", "FF0000 abc 5x4", "FF0000 3px 5x4", "FF0000 nan 5x4", "FF0000 inf 5x4", "FF0000 3 nanx4", "FF0000 3 5xinf", "FF0000 5x4", "FF0000 3x 5x4", "5x4 FF0000 3", "FF0000 5x4 3"}) {
      c.push_back(std::string(op) + " " + b);
    }
  }
  for (auto *b : {"FF0000", "FF0000 0", "FF0000 -1", "FF0000 abc", "FF0000 3px", "FF0000 nan", "FF0000 inf", "FF0000 0.4", "2 FF0000", "2", "FF0000 2 3", "FF0000 99999999999", "FF0000 --2"}) {
    c.push_back(std::string("border ") + b);
  }
  for (auto *b : {"1", "1x", "x1", "x", "abc", "1x1 foo", "foo 1x1", "1x1x1", "1x1 2", "1x1 2x", "1x1 x2", "1y1", "1x1 2xb", "'1x1", "1x1'", "''", "nanx1", "1xinf", "1x1;2x2", "1x1 2x2 3", "ax1 2x2", "1x1 '2x2'"}) {
    c.push_back(std::string("watershed ") + b);
  }
  for (auto *b : {"40", "40x", "x30", "0x30", "40x0", "-4x30", "40x-3", "axb", "40xb", "ax30", "40x30x20", "40x30 5", "nanx30", "40xinf", "99999999999x1", "1x99999999999"}) {
    c.push_back(std::string("extract_document_to ") + b);
  }
  for (auto *b : {"(blur 2", "blur 2)", "((blur 2))", "blur(2)", "blur=2", "blur:2", "blur-2", "flip_x flip_y", "rotate 90 flip_x", "flip_x; flip_y", "flip_x|flip_y", "90 rotate", "50%", "-", "--help", "help"}) {
    c.push_back(b);
  }
  return c;
}

static std::vector<std::string> unknown() {
  std::vector<std::string> c;
  auto known = [](const std::string &s) {
    for (auto *n : NAMES) {
      if (s == n) {
        return true;
      }
    }
    return s.empty();
  };
  auto add = [&](const std::string &s) {
    if (!known(s)) {
      c.push_back(s);
    }
  };
  for (auto *n : NAMES) {
    std::string s = n;
    for (size_t k = 0; k < s.size(); k++) {
      std::string t = s;
      t.erase(k, 1);
      add(t);
      t = s;
      t.insert(k, 1, s[k]);
      add(t);
      t = s;
      t[k] = (char)toupper(t[k]);
      if (t != s) {
        add(t);
      }
      add(s.substr(0, k));
      t = s;
      t[k] = t[k] == 'x' ? 'y' : 'x';
      if (t.find(' ') == std::string::npos) {
        add(t);
      }
    }
    add(s + "s");
    add(s + "_");
    add("_" + s);
    add("fcv_" + s);
    add(s + std::string(40, 'z')); // longer than any name
    add("x" + s);
  }
  return c;
}

static std::string make_png(const Img &m) { return ref_png(m.w, m.h, 4, m.px.data()); }

// run text as the whole pipeline and judge it by f
static void check(const Img &img, const std::string &text, const F &f, bool existing, const std::function<bool(Img &, Env *)> &e = nullptr) {
  clean();
  write_file(path("in.png"), make_png(img));
  std::string before = "previous content";
  if (existing) {
    write_file(path("out.png"), before);
  }
  Args a = {"in.png", text, "out.png"};
  Res r = run(a);
  Op o{text, [&](Img &m, Env *env) { return e ? e(m, env) : f ? f(m) : false; }};
  judge(a, r, img, {&o}, "out.png", false, existing ? &before : nullptr);
}

int main(int argc, char **argv) {
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    static std::vector<Case> V = valid();
    static std::vector<std::string> M = malformed(), U = unknown();
    {
      fw::Suite s;
      s.name = "values";
      s.what = "documented parameter forms over value grids, against the library called with those values (library failures must be refused)";
      s.count = V.size();
      s.run = [](u64 i) { check(input(V[i].img), V[i].text, V[i].f, i & 1, V[i].e); };
      s.describe = [](u64 i) { return V[i].text.substr(0, 200); };
      s.chunk = 40;
      S.push_back(s);
    }
    {
      fw::Suite s;
      s.name = "malformed";
      s.what = "malformed and missing parameters x 4 positions in a pipeline x output present or absent";
      s.count = M.size() * 8;
      auto text = [](u64 i) {
        const std::string &m = M[i / 8];
        switch (i / 2 % 4) {
        case 0:
          return m;
        case 1:
          return m + ", flip_x";
        case 2:
          return "flip_x, " + m;
        }
        return "rotate 90, " + m + ", blur 1";
      };
      s.run = [=](u64 i) { check(input(RGB), text(i), nullptr, i & 1); };
      s.describe = text;
      s.chunk = 40;
      S.push_back(s);
    }
    {
      fw::Suite s;
      s.name = "unknown";
      s.what = "every one-letter change of every operation name, with and without parameter";
      s.count = U.size() * 2;
      auto text = [](u64 i) { return U[i / 2] + (i & 1 ? " 3" : ""); };
      s.run = [=](u64 i) { check(input(RGB), text(i), nullptr, i / 2 & 1); };
      s.describe = text;
      s.chunk = 40;
      S.push_back(s);
    }
    {
      static std::vector<Args> A = {{}, {"in.png"}, {"in.png", "grayscale"}, {"in.png", "out.png"}, {"in.png", "", "out.png"}, {"in.png", " ", "out.png"}, {"in.png", ",", "out.png"}, {"in.png", ",,,", "out.png"}, {"in.png", "()", "out.png"}, {"in.png", "( )", "out.png"}, {"in.png", "(),()", "out.png"}, {"in.png", ",", ",", "out.png"}, {"in.png", "\n", "out.png"}, {"missing.png", "flip_x", "out.png"}, {".", "flip_x", "out.png"}, {"", "flip_x", "out.png"}, {"empty.png", "flip_x", "out.png"}, {"garbage.png", "flip_x", "out.png"}, {"text.jpg", "flip_x", "out.png"}, {"zeros.png", "flip_x", "out.png"}, {"in.png/x", "flip_x", "out.png"}, {"in.png", "flip_x", "nodir/out.png"}, {"in.png", "flip_x", ""}, {"in.png", "flip_x", "sub"}, {"in.png", "flip_x", "in.png/out.png"}, {"missing.png", "detect_corners"}, {"garbage.png", "detect_corners"}, {"in.png", "flip_x,", "nodir/out.jpg"}};
      fw::Suite s;
      s.name = "arguments";
      s.what = "wrong argument counts, empty pipelines, unreadable inputs, unwritable outputs";
      s.count = A.size() * 2;
      s.run = [](u64 i) {
        const Img &m = input(RGB);
        clean();
        write_file(path("in.png"), make_png(m));
        write_file(path("empty.png"), "");
        write_file(path("garbage.png"), "\x89PNG\r\n\x1a\ngarbage garbage garbage");
        write_file(path("text.jpg"), "this is not an image\n");
        write_file(path("zeros.png"), std::string(5000, '\0'));
        mkdir(path("sub").c_str(), 0700);
        std::string before = "previous content";
        if (i & 1) {
          write_file(path("out.png"), before);
        }
        Args a = A[i / 2];
        if (a.size() > 1 && a.back() == "out.png" && a.size() == 2) {
          // two arguments: the second is taken for the pipeline
        }
        Res r = run(a);
        expect_refused(a, r, "out.png", i & 1 ? &before : nullptr);
        std::string in;
        if (!read_file(path("in.png"), in) || in != make_png(m)) {
          fw::fail("%s: the input file was changed", show(a).c_str());
        }
      };
      s.describe = [](u64 i) { return show(A[i / 2]); };
      s.chunk = 4;
      S.push_back(s);
    }
    {
      static std::string png = make_png(input(RGB));
      fw::Suite s;
      s.name = "truncated";
      s.what = "the input PNG cut off at every byte: refused, or the complete picture";
      s.count = png.size();
      s.run = [](u64 i) {
        clean();
        write_file(path("in.png"), png.substr(0, i));
        Args a = {"in.png", "flip_x", "out.png"};
        Res r = run(a);
        if (r.status == 0) {
          Op o{"flip_x", [](Img &m, Env *) { return flip_x(m); }};
          judge(a, r, input(RGB), {&o}, "out.png");
        }
        else {
          expect_refused(a, r, "out.png", nullptr);
        }
      };
      s.describe = [](u64 i) { return fw::str("first %llu bytes", (unsigned long long)i); };
      s.chunk = 40;
      S.push_back(s);
    }
  });
}
