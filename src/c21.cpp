// C21: the command-line tool computes exactly the composition of its
// operations, however the pipeline is written down.
#include "cliops.hpp"
using namespace cli;

static std::vector<Op> T; // operation table
#define OP(text, ...) T.push_back({text, [](Img & m, Env * e) -> bool { (void)e; return __VA_ARGS__; }})

static void table() {
  OP("grayscale", gray(m));
  OP("blur 2", blur(m, 2));
  OP("blur 0.7", blur(m, 0.7));
  OP("resize 50%", resize(m, .5, .5));
  OP("resize 150%", resize(m, 1.5, 1.5));
  OP("resize 50%x200%", resize(m, .5, 2));
  OP("resize 7x9", resize_to(m, 7, 9));
  OP("resize 1.25", resize(m, 1.25, 1.25));
  OP("resize 2 0.5", resize(m, 2, .5));
  OP("threshold", threshold(m));
  OP("bw_smart", bw(m, false));
  OP("bw_smooth", bw(m, true));
  OP("sobel", sobel(m));
  OP("circle FF0000 3 5x4", circle(m, "FF0000", 3, 5, 4));
  OP("disk 00ff7f 2 3x6", disk(m, "00ff7f", 2, 3, 6));
  OP("watershed 1x1 5x3", watershed(m, {{1, 1}, {5, 3}}));
  OP("crop 6x4+1+2", crop(m, 6, 4, 1, 2));
  OP("crop 5x5", crop(m, 5, 5, 0, 0));
  OP("crop 100x3+2", crop(m, 100, 3, 2, 0));
  OP("flip_x", flip_x(m));
  OP("flip_y", flip_y(m));
  OP("rotate 90", rotate(m, 90));
  OP("rotate 180", rotate(m, 180));
  OP("rotate 270", rotate(m, 270));
  OP("rotate 0", rotate(m, 0));
  OP("rotate -90", rotate(m, -90));
  OP("trim", trim(m));
  OP("trim 30%", trim_pct(m, 30));
  OP("trim 5", trim_pct(m, 5));
  OP("histogram", histogram(m));
  OP("border 102030 2", border(m, "102030", 2));
  OP("border #FFFFFF 1", border(m, "FFFFFF", 1));
  OP("erode 1", morph(m, 0, 1));
  OP("dilate 1", morph(m, 1, 1));
  OP("close 2", morph(m, 2, 2));
  OP("open 1", morph(m, 3, 1));
}
static std::vector<Op> H; // the expensive corner operations
static void heavy_table() {
  std::vector<Op> keep;
  keep.swap(T);
  OP("detect_corners", detect(m, e));
  OP("draw_corners", draw_corners(m, e));
  OP("extract_document", extract(m));
  OP("extract_document_to 40x30", extract_to(m, 40, 30));
  H = T;
  T = keep;
}
static const Op &op(const char *text) {
  for (auto *t : {&T, &H}) {
    for (auto &o : *t) {
      if (o.text == text) {
        return o;
      }
    }
  }
  fprintf(stderr, "no op %s\n", text);
  abort();
}

static const Img &input(int k) {
  static std::vector<Img> v;
  if (v.empty()) {
    v = {image(11, 8, F_HASH, 1), image(6, 13, F_GRAD, 2), image(9, 9, F_SPARSE, 3), image(1, 1, F_HASH, 5), image(10, 7, F_EXTREME, 4)};
    v.push_back(page(160, 120));
    // a framed picture, so that trim has something to do
    Img f = image(10, 10, F_HASH, 9);
    for (u32 y = 0; y < 10; y++) {
      for (u32 x = 0; x < 10; x++) {
        if (x < 2 || x > 6 || y < 1 || y > 7) {
          memset(&f.px[(y * 10 + x) * 4], 77, 4);
        }
      }
    }
    v.push_back(f);
  }
  return v[k];
}
enum { N_IN = 5, PAGE = 5, FRAMED = 6 };

static std::string join(const std::vector<const Op *> &ops, const char *sep) {
  std::string s;
  for (size_t i = 0; i < ops.size(); i++) {
    s += (i ? sep : "") + ops[i]->text;
  }
  return s;
}

static void check(const Img &img, const std::vector<const Op *> &ops, const Args &pipeline, const std::string &outname = "out.png", bool jpeg = false) {
  clean();
  write_file(path("in.png"), ref_png(img.w, img.h, 4, img.px.data()));
  Args a = {"in.png"};
  a.insert(a.end(), pipeline.begin(), pipeline.end());
  a.push_back(outname);
  Res r = run(a);
  judge(a, r, img, ops, outname, jpeg);
}

int main(int argc, char **argv) {
  table();
  heavy_table();
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    const u64 N = T.size();
    auto text_of = [](const Img &m, const std::string &p) { return fw::str("%ux%u image: %.300s", m.w, m.h, p.c_str()); };

    { // 1. every pipeline of one and two operations on two pictures
      fw::Suite s;
      s.name = "pairs";
      s.what = fw::str("every pipeline of one or two of %d operations on %d pictures", (int)N, fw::thorough ? 6 : 3);
      int pics = fw::thorough ? 6 : 3;
      s.count = N * (N + 1) * pics;
      auto dec = [=](u64 i, std::vector<const Op *> &ops) -> const Img & {
        fw::Dec d(i);
        static const int pic[] = {0, FRAMED, 1, 2, 3, 4};
        const Img &m = input(pic[d.take(pics)]);
        ops.push_back(&T[d.take(N)]);
        u64 b = d.take(N + 1);
        if (b < N) {
          ops.push_back(&T[b]);
        }
        return m;
      };
      s.run = [=](u64 i) {
        std::vector<const Op *> ops;
        const Img &m = dec(i, ops);
        check(m, ops, {join(ops, ", ")});
      };
      s.describe = [=](u64 i) {
        std::vector<const Op *> ops;
        const Img &m = dec(i, ops);
        return text_of(m, join(ops, ", "));
      };
      s.chunk = 24;
      S.push_back(s);
    }
    { // 2. every pipeline of three operations from a smaller table
      static std::vector<const Op *> R;
      if (R.empty()) {
        for (const char *t : {"grayscale", "blur 2", "resize 50%x200%", "rotate 90", "flip_x", "crop 6x4+1+2", "border 102030 2", "disk 00ff7f 2 3x6", "trim 30%", "dilate 1", "threshold", "watershed 1x1 5x3"}) {
          R.push_back(&op(t));
        }
      }
      fw::Suite s;
      s.name = "triples";
      int len = fw::thorough ? 4 : 3;
      s.what = fw::str("every pipeline of %d of %d operations on one picture", len, (int)R.size());
      s.count = 1;
      for (int k = 0; k < len; k++) {
        s.count *= R.size();
      }
      auto dec = [=](u64 i) {
        std::vector<const Op *> ops;
        fw::Dec d(i);
        for (int k = 0; k < len; k++) {
          ops.push_back(R[d.take(R.size())]);
        }
        return ops;
      };
      s.run = [=](u64 i) {
        auto ops = dec(i);
        check(input(0), ops, {join(ops, ",")});
      };
      s.describe = [=](u64 i) { return text_of(input(0), join(dec(i), ",")); };
      s.chunk = 24;
      S.push_back(s);
    }
    { // 2b. every longer pipeline over few operations, and every operation repeated
      static std::vector<std::vector<const Op *>> L;
      if (L.empty()) {
        static const std::vector<const Op *> A = {&op("flip_x"), &op("rotate 90"), &op("border 102030 2"), &op("trim 30%")}, B = {&op("flip_y"), &op("rotate 270"), &op("grayscale")};
        auto all = [](const std::vector<const Op *> &A, int len) {
          u64 n = 1;
          for (int k = 0; k < len; k++) n *= A.size();
          for (u64 i = 0; i < n; i++) {
            fw::Dec d(i);
            std::vector<const Op *> o;
            for (int k = 0; k < len; k++) o.push_back(A[d.take(A.size())]);
            L.push_back(o);
          }
        };
        for (int len = 4; len <= (fw::thorough ? 7 : 5); len++) all(A, len);
        for (int len = 4; len <= (fw::thorough ? 8 : 6); len++) all(B, len);
        for (auto &o : T) for (int n = 3; n <= 12; n++) L.push_back(std::vector<const Op *>(n, &o));
      }
      fw::Suite s;
      s.name = "sequences";
      s.what = fw::str("every pipeline of 4 to %d of 4 operations and of 4 to %d of 3 further ones, every one of %d operations 3 to 12 times", fw::thorough ? 7 : 5, fw::thorough ? 8 : 6, (int)N);
      s.count = L.size();
      s.run = [=](u64 i) { check(input(i % 3), L[i], {join(L[i], ",")}); };
      s.describe = [=](u64 i) { return text_of(input(i % 3), join(L[i], ",")); };
      s.chunk = 24;
      S.push_back(s);
    }
    { // 3. every way of splitting a pipeline into arguments
      static std::vector<std::vector<const Op *>> P = {
        {&op("blur 2"), &op("rotate 90")},
        {&op("circle FF0000 3 5x4"), &op("flip_x")},
        {&op("crop 6x4+1+2"), &op("resize 2 0.5"), &op("flip_y")},
        {&op("grayscale"), &op("border 102030 2"), &op("rotate 270"), &op("trim")},
        {&op("watershed 1x1 5x3"), &op("border #FFFFFF 1")},
        {&op("disk 00ff7f 2 3x6"), &op("dilate 1")},
        {&op("resize 50%x200%"), &op("trim 30%"), &op("blur 0.7")},
      };
      // tokens separated by single spaces; each space is inside an argument or
      // between two; the comma is glued to the left, to the right, both, or free
      struct Case {
        int p, style;
        u32 mask;
      };
      static std::vector<Case> C;
      static auto tokens = [](int p, int style) {
        std::vector<std::string> t;
        for (size_t k = 0; k < P[p].size(); k++) {
          std::vector<std::string> w;
          std::string cur;
          for (char c : P[p][k]->text + " ") {
            if (c == ' ') {
              w.push_back(cur);
              cur.clear();
            }
            else {
              cur += c;
            }
          }
          if (k) {
            if (style == 0) { // "a, b"
              t.back() += ",";
              t.insert(t.end(), w.begin(), w.end());
            }
            else if (style == 1) { // "a ,b"
              w[0] = "," + w[0];
              t.insert(t.end(), w.begin(), w.end());
            }
            else if (style == 2) { // "a,b"
              t.back() += "," + w[0];
              t.insert(t.end(), w.begin() + 1, w.end());
            }
            else { // "a , b"
              t.push_back(",");
              t.insert(t.end(), w.begin(), w.end());
            }
          }
          else {
            t = w;
          }
        }
        return t;
      };
      if (C.empty()) {
        for (int p = 0; p < (int)P.size(); p++) {
          for (int st = 0; st < 4; st++) {
            u32 n = (u32)tokens(p, st).size() - 1;
            for (u32 m = 0; m < (1u << n); m++) {
              C.push_back({p, st, m});
            }
          }
        }
      }
      static auto args_of = [](const Case &c) {
        auto t = tokens(c.p, c.style);
        Args a = {t[0]};
        for (size_t k = 1; k < t.size(); k++) {
          if (c.mask >> (k - 1) & 1) {
            a.push_back(t[k]);
          }
          else {
            a.back() += " " + t[k];
          }
        }
        return a;
      };
      fw::Suite s;
      s.name = "splits";
      s.what = "7 pipelines x 4 comma styles x every division of their words into arguments";
      s.count = C.size();
      s.run = [=](u64 i) { check(input(0), P[C[i].p], args_of(C[i])); };
      s.describe = [=](u64 i) { return show(args_of(C[i])); };
      s.chunk = 32;
      S.push_back(s);
    }
    { // 4. parentheses, spaces, empty fragments
      static const char *pre[] = {"", " ", "   ", ",", ",,", " , ", "\n"};
      static const char *sep[] = {",", ", ", " ,", "  ,   ", ",,", ", ,", ",\n", "\n,\n  ", ",\t"};
      static const char *post[] = {"", " ", ",", ", ", " ,,", "\n"};
      static std::vector<std::vector<const Op *>> P = {
        {&op("blur 2"), &op("rotate 90")},
        {&op("flip_x"), &op("crop 6x4+1+2")},
        {&op("border 102030 2"), &op("grayscale")},
        {&op("watershed 1x1 5x3"), &op("flip_y")},
        {&op("trim"), &op("disk 00ff7f 2 3x6")},
      };
      fw::Suite s;
      s.name = "spelling";
      s.what = "5 pipelines x parentheses (none, tight, spaced) per operation x 7 leading x 9 separating x 6 trailing texts";
      s.count = P.size() * 9 * 7 * 9 * 6;
      auto dec = [](u64 i, int &p) {
        fw::Dec d(i);
        p = (int)d.take(P.size());
        int par[2] = {(int)d.take(3), (int)d.take(3)};
        std::string t = pre[d.take(7)];
        std::string sp = sep[d.take(9)], po = post[d.take(6)];
        for (int k = 0; k < 2; k++) {
          t += k ? sp : "";
          const std::string &x = P[p][k]->text;
          t += par[k] == 0 ? x : par[k] == 1 ? "(" + x + ")"
                                             : "( " + x + "  )";
        }
        return t + po;
      };
      s.run = [=](u64 i) {
        int p;
        std::string t = dec(i, p);
        check(input(0), P[p], {t});
      };
      s.describe = [=](u64 i) {
        int p;
        return dec(i, p);
      };
      s.chunk = 64;
      S.push_back(s);
    }
    { // 4b. the same texts of any length
      static std::vector<u32> L;
      if (L.empty()) {
        for (u32 n = 1; n <= 140; n++) {
          L.push_back(n);
        }
        for (u32 n : {200u, 254u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 2047u, 2048u, 4095u, 4096u, 4097u, 8192u, 20000u, 32767u, 32768u, 32769u, 40000u}) {
          L.push_back(n);
        }
      }
      static std::vector<std::vector<const Op *>> P = {{&op("blur 2"), &op("rotate 90")}, {&op("flip_x"), &op("crop 6x4+1+2")}, {&op("watershed 1x1 5x3"), &op("flip_y")}};
      static const int SLOTS = 9;
      fw::Suite s;
      s.name = "padding";
      s.what = "3 pipelines x 9 places (before, inside and after the parentheses, around the comma, line breaks, empty fragments, empty arguments) x 1..140 and up to 40000 characters";
      s.count = P.size() * SLOTS * L.size();
      auto make = [](u64 i, int &p) {
        fw::Dec d(i);
        p = (int)d.take(P.size());
        int sl = (int)d.take(SLOTS);
        u32 n = L[d.take(L.size())];
        std::string z(n, ' '), nl(n, '\n'), c(n, ','), x = P[p][0]->text, y = P[p][1]->text;
        switch (sl) {
        case 0: return Args{z + "(" + x + "), " + y};
        case 1: return Args{"(" + z + x + "),(" + y + ")"};
        case 2: return Args{"(" + x + z + "),(" + y + z + ")"};
        case 3: return Args{"(" + x + ")" + z + ", " + y};
        case 4: return Args{x + "," + z + "(" + y + ")"};
        case 5: return Args{x + "," + y + z};
        case 6: return Args{x + nl + "," + nl + y + nl};
        case 7: return Args{x + c + y + c};
        default: {
          Args a{x + ","};
          a.insert(a.end(), std::min(n, 4000u), "");
          a.push_back(y);
          return a;
        }
        }
      };
      s.run = [=](u64 i) {
        int p;
        Args a = make(i, p);
        check(input(0), P[p], a);
      };
      s.describe = [=](u64 i) {
        fw::Dec d(i);
        int p = (int)d.take(P.size()), sl = (int)d.take(SLOTS);
        return fw::str("pipeline %d, place %d, %u characters", p, sl, L[d.take(L.size())]);
      };
      s.chunk = 64;
      S.push_back(s);
    }
    { // 5. long pipelines
      static std::vector<u32> L;
      if (L.empty()) {
        for (u32 n = 1; n <= 70; n++) {
          L.push_back(n);
        }
        for (u32 n : {96u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 513u, 1024u, 1025u, 3000u}) {
          L.push_back(n);
        }
      }
      auto ops_of = [](u64 i, int &kind) {
        fw::Dec d(i);
        u32 n = L[d.take(L.size())];
        kind = (int)d.take(3);
        std::vector<const Op *> ops;
        static const Op *A[] = {&op("rotate 90"), &op("flip_x"), &op("circle FF0000 3 5x4"), &op("rotate 180"), &op("flip_y"), &op("trim 5"), &op("rotate -90")};
        for (u32 k = 0; k < n; k++) {
          if (kind == 0) {
            ops.push_back(A[0]);
          }
          else {
            ops.push_back(A[(k * k + k / 3) % 7]);
          }
        }
        if (kind == 2) {
          ops.back() = &op("border 102030 2");
        }
        return ops;
      };
      fw::Suite s;
      s.name = "long";
      s.what = "pipelines of every length 1..70 and up to 3000 operations, as one argument or one per operation";
      s.count = L.size() * 3 * 2;
      s.run = [=](u64 i) {
        int kind;
        auto ops = ops_of(i / 2, kind);
        Args a;
        if (i & 1) {
          for (size_t k = 0; k < ops.size(); k++) {
            a.push_back(ops[k]->text + (k + 1 < ops.size() ? "," : ""));
          }
        }
        else {
          a.push_back(join(ops, ", "));
        }
        check(input(0), ops, a);
      };
      s.describe = [=](u64 i) {
        int kind;
        auto ops = ops_of(i / 2, kind);
        return fw::str("%zu operations, %s", ops.size(), i & 1 ? "one argument each" : "one argument");
      };
      s.chunk = 6;
      S.push_back(s);
    }
    { // 6. input formats x output names
      static const char *outs[] = {"out.png", "out.jpg", "out.jpeg", "out", "out.dat", "a.b.png", "x.jpg.png", "x.png.jpg", "jpg", ".png"};
      static const bool jpg[] = {0, 1, 1, 0, 0, 0, 0, 1, 0, 0};
      static const char *ins[] = {"rgba png", "rgb png", "gray png", "gray+alpha png", "rgb bmp", "rgb tga", "ppm", "pgm", "jpg", "gray jpg", "rgba bmp", "rgba tga"};
      static const char *inext[] = {"png", "png", "png", "png", "bmp", "tga", "ppm", "pgm", "jpg", "jpeg", "bmp", "tga"};
      static std::vector<std::vector<const Op *>> P = {{&op("rotate 90")}, {&op("border 102030 2"), &op("blur 2")}, {&op("threshold")}, {&op("rotate 0")}};
      fw::Suite s;
      s.name = "formats";
      s.what = "12 input formats x 10 output names x 4 pipelines x 4 sizes; reading and writing the same file";
      static const u32 dims[][2] = {{1, 1}, {16, 16}, {33, 17}, {7, 40}};
      s.count = 12 * 11 * 4 * 4;
      auto desc = [](u64 i) {
        fw::Dec d(i);
        int f = (int)d.take(12), o = (int)d.take(11), p = (int)d.take(4), z = (int)d.take(4);
        return fw::str("%s %ux%u: %s -> %s", ins[f], dims[z][0], dims[z][1], join(P[p], ", ").c_str(), o == 10 ? "the input path" : outs[o]);
      };
      s.describe = desc;
      s.run = [](u64 i) {
        fw::Dec d(i);
        int f = (int)d.take(12), o = (int)d.take(11), p = (int)d.take(4), z = (int)d.take(4);
        u32 w = dims[z][0], h = dims[z][1];
        int ch = f == 0 ? 4 : f == 2 ? 1 : f == 3 ? 2 : (f == 7 || f == 9) ? 1 : f >= 10 ? 4 : 3;
        Bytes b = fill(f >= 8 && f < 10 ? F_GRAD : F_HASH, w, h, ch, 3);
        if (f == 0 || f == 10 || f == 11) { // smooth colours survive JPEG output
          b = fill(F_GRAD, w, h, 4, 5);
        }
        std::string file = f <= 3 ? ref_png(w, h, ch, b.data()) : (f == 4 || f == 10) ? ref_bmp(w, h, ch, b.data()) : (f == 5 || f == 11) ? ref_tga(w, h, ch, b.data()) : ref_jpg(w, h, ch, b.data(), 90);
        if (f == 6 || f == 7) {
          file = fw::str(f == 6 ? "P6\n%u %u\n255\n" : "P5\n%u %u\n255\n", w, h);
          file.append((char *)b.data(), b.size());
        }
        Img img;
        if (!ref_decode(file, img.w, img.h, img.px)) {
          fw::fail("reference cannot decode its own %s", ins[f]);
        }
        clean();
        std::string in = std::string("in.") + inext[f], out = o == 10 ? in : outs[o];
        bool j = o == 10 ? (f == 8 || f == 9) : jpg[o];
        write_file(path(in), file);
        Args a = {in, join(P[p], ", "), out};
        Res r = run(a);
        judge(a, r, img, P[p], out, j);
        if (o != 10) {
          std::string after;
          if (!read_file(path(in), after) || after != file) {
            fw::fail("%s: the input file was changed", show(a).c_str());
          }
        }
      };
      s.chunk = 16;
      S.push_back(s);
    }
    { // sizes at and beyond what the formats and 32-bit arithmetic can hold
      static const u32 L[] = {65534, 65535, 65536, 65537, 70000, 131071, 131073};
      fw::Suite s;
      s.name = "limits";
      s.what = "results with 7 side lengths around 2^16 and 2^17 x both directions x PNG and JPEG output (JPEG cannot hold more than 65535: no success); results of 2 and 4 GB cannot be saved; an intermediate result of 4 GB drawn on and cropped";
      s.count = 3 + 7 * 2 * 2 * 2;
      auto text = [](u64 i) {
        if (i < 3) {
          return std::string(i == 0 ? "border 102030 16376, circle FF0000 3 8x8, disk 00FF00 2 16x8, crop 20x20+0+0" : i == 1 ? "border 102030 11580, border 102030 20" : "border 102030 16376");
        }
        fw::Dec d(i - 3);
        d.take(2);
        bool tr = d.take(2);
        u32 t = d.take(2) ? 3 : 1, n = L[d.v];
        return fw::str("resize %ux%u", tr ? t : n, tr ? n : t);
      };
      s.describe = [=](u64 i) { return text(i) + (i >= 3 && (i - 3) % 2 ? " to JPEG" : " to PNG"); };
      s.run = [=](u64 i) {
        Img m;
        m.w = m.h = 16;
        m.px = fill(F_GRAD, 16, 16, 4, 5);
        clean();
        write_file(path("in.png"), ref_png(m.w, m.h, 4, m.px.data()));
        bool jpg = i >= 3 && (i - 3) % 2;
        std::string out = jpg ? "out.jpg" : "out.png", file;
        Args a = {"in.png", text(i), out};
        Res r = run(a);
        sane(a, r);
        Img want = m;
        if (i == 0) { // the same corner of a small border
          Args b = a;
          b[1] = "border 102030 30, circle FF0000 3 8x8, disk 00FF00 2 16x8, crop 20x20+0+0";
          b[2] = "small.png";
          Res q = run(b);
          if (q.status != 0 || !read_file(path("small.png"), file) || !ref_decode(file, want.w, want.h, want.px)) {
            fw::fail("%s failed", show(b).c_str());
          }
        }
        else if (i < 3 || (jpg && L[(i - 3) / 8] > 65535)) {
          if (r.status == 0) {
            fw::fail("%s: exit status 0 although the format cannot hold the result", show(a).c_str());
          }
          fw::compared();
          return;
        }
        else {
          fw::Dec d(i - 3);
          d.take(2);
          bool tr = d.take(2);
          u32 t = d.take(2) ? 3 : 1, n = L[d.v];
          want.w = tr ? t : n, want.h = tr ? n : t;
          u32 gw, gh;
          u8 *p = fcv_resize(16, 16, (double)want.w / 16, (double)want.h / 16, &gw, &gh, m.px.data());
          if (!p || gw != want.w || gh != want.h) {
            fw::fail("reference resize failed");
          }
          want.px.assign(p, p + (size_t)gw * gh * 4);
          free(p);
        }
        if (r.status != 0) {
          fw::fail("%s: exit status %d; %.300s", show(a).c_str(), r.status, r.err.c_str());
        }
        if (!read_file(path(out), file)) {
          fw::fail("%s: no output", show(a).c_str());
        }
        if (jpg) {
          expect_similar(a, file, want);
        }
        else {
          expect_same(a, file, want);
        }
      };
      s.chunk = 4;
      s.hang_s = 300;
      S.insert(S.begin(), s);
    }
    { // input that cannot be rewound
      static std::vector<const Op *> P = {&op("rotate 90"), &op("blur 2"), &op("trim"), &op("resize 150%")};
      fw::Suite s;
      s.name = "pipe";
      s.what = "4 pipelines x PNG, BMP and PPM input through a named pipe x 2 sizes";
      s.count = P.size() * 3 * 2;
      s.describe = [](u64 i) { return fw::str("%s", P[i % P.size()]->text.c_str()); };
      s.run = [](u64 i) {
        fw::Dec d(i);
        std::vector<const Op *> ops = {P[d.take(P.size())]};
        int f = (int)d.take(3);
        u32 w = d.take(2) ? 90 : 9, h = 60;
        Bytes b = fill(F_HASH, w, h, 3, 8);
        std::string file = f == 0 ? ref_png(w, h, 3, b.data()) : f == 1 ? ref_bmp(w, h, 3, b.data()) : fw::str("P6\n%u %u\n255\n", w, h) + std::string((char *)b.data(), b.size());
        Img img;
        ref_decode(file, img.w, img.h, img.px);
        clean();
        if (mkfifo(path("in.fifo").c_str(), 0600) != 0) {
          fw::fail("mkfifo");
        }
        pid_t p = fork();
        if (p == 0) {
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          int fd = open(path("in.fifo").c_str(), O_WRONLY);
          size_t k = 0;
          while (k < file.size()) {
            ssize_t n = write(fd, file.data() + k, file.size() - k);
            if (n <= 0) {
              break;
            }
            k += (size_t)n;
          }
          _exit(0);
        }
        Args a = {"in.fifo", ops[0]->text, "out.png"};
        Res r = run(a);
        kill(p, SIGKILL);
        waitpid(p, nullptr, 0);
        judge(a, r, img, ops, "out.png");
      };
      s.chunk = 4;
      S.push_back(s);
    }
    { // 7. corner operations
      static std::vector<std::vector<const Op *>> P;
      if (P.empty()) {
        for (auto &a : H) {
          P.push_back({&a});
          for (auto &b : H) {
            P.push_back({&a, &b});
          }
          for (const char *t : {"grayscale", "resize 50%", "rotate 90", "flip_x", "border 102030 2", "blur 2", "crop 100x3+2"}) {
            P.push_back({&op(t), &a});
            P.push_back({&a, &op(t)});
          }
        }
      }
      fw::Suite s;
      s.name = "corners";
      s.what = "detect_corners, draw_corners and both extractions alone, in pairs and with 7 other operations; printed coordinates";
      s.count = P.size() + 2;
      s.run = [](u64 i) {
        if (i < P.size()) {
          check(input(PAGE), P[i], {join(P[i], ", ")});
          return;
        }
        // without an output file
        const Img &m = input(i == P.size() ? (int)PAGE : 0);
        clean();
        write_file(path("in.png"), ref_png(m.w, m.h, 4, m.px.data()));
        Args a = {"in.png", "detect_corners"};
        Res r = run(a);
        sane(a, r);
        Img n = m;
        Env e;
        bool ok = detect(n, &e);
        if (ok != (r.status == 0)) {
          fw::fail("%s: exit status %d", show(a).c_str(), r.status);
        }
        if (ok) {
          expect_corners(a, r.out, e.json);
        }
        fw::compared();
      };
      s.describe = [](u64 i) { return i < P.size() ? join(P[i], ", ") : std::string("detect_corners without output"); };
      s.chunk = 3;
      S.push_back(s);
    }
  });
}
