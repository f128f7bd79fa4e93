// C02: call histories. Every call is compared with the same call in a fresh
// process; results of earlier calls must survive later ones; nothing leaks.
#include "alloc.hpp"
#include "ops.hpp"
#include <array>
#include <cfenv>

static std::vector<Pic> PICS;
static const int light_pics = 4, P_HEAVY = 5, P_LAST = 8, P_TINY = 9, P_BIG = 10, P_BIG2 = 11, P_FLAT = 12;
static Api A;
struct Call {
  int op, pic;
};
static std::vector<Call> ALL;          // light calls, then heavy ones
static size_t n_light;
static std::vector<Call> CORE;         // one call per operation family
struct Ref {
  u64 digest;
  int state; // 0: not known, 1: known, 2: the call crashed on its own
};
static std::vector<std::vector<Ref>> REF; // [op][pic]
static const u64 UNKNOWN = 0;

static std::string cname(const Call &c) { return OPS[c.op].name + " on " + PICS[c.pic].name; }

// the call alone, in a process that has made no library call before
static Ref fresh(const Call &c) {
  Ref &r = REF[c.op][c.pic];
  if (r.state) {
    return r;
  }
  int fd[2];
  if (pipe(fd) != 0) {
    perror("pipe");
    _exit(3);
  }
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    Bufs b(PICS[c.pic]);
    Result q;
    vf::reset();
    call(A, OPS[c.op], b, q);
    if (write(fd[1], &q.digest, 8) != 8) {
      _exit(1);
    }
    _exit(0);
  }
  close(fd[1]);
  r.state = read(fd[0], &r.digest, 8) == 8 ? 1 : 2;
  close(fd[0]);
  waitpid(p, nullptr, 0);
  return r;
}

// one step of a history; the result stays alive until the caller drops it
struct Step {
  Call c;
  Bufs b;
  Result r;
  long before;
  Step(const Call &c_) : c(c_), b(PICS[c_.pic]) {
    before = vf::live;
    call(A, OPS[c.op], b, r);
  }
  void check(const std::string &hist) {
    if (REF[c.op][c.pic].state == 1 && r.digest != REF[c.op][c.pic].digest) {
      fw::fail("after [%s], %s gives a result that differs from the one in a fresh process", hist.c_str(), cname(c).c_str());
    }
    intact(hist);
    long own = r.nblocks - (r.in_place ? 1 : 0) + (r.extra != nullptr);
    if (vf::live - before != own) {
      fw::fail("after [%s], %s returned %ld block(s) but left %ld allocated", hist.c_str(), cname(c).c_str(), own, vf::live - before);
    }
    if (vf::open_files) {
      fw::fail("after [%s], %s left %ld file(s) open", hist.c_str(), cname(c).c_str(), vf::open_files);
    }
    if (fegetround() != FE_TONEAREST) {
      fw::fail("%s changes the rounding mode", cname(c).c_str());
    }
    fw::seen(r.digest ^ fw::mix(c.op * 100 + c.pic));
  }
  void intact(const std::string &hist) {
    if (r.modified || b.intact()) {
      fw::fail("after [%s], the %s passed to %s was changed", hist.c_str(), r.modified ? r.modified : b.intact(), cname(c).c_str());
    }
  }
  void still(const std::string &later) { // result and inputs unchanged by later calls
    if (r.compute() != r.digest) {
      fw::fail("the result of %s was changed by later calls [%s]", cname(c).c_str(), later.c_str());
    }
    intact(later);
  }
  void drop() {
    r.release();
    if (vf::bad_free) {
      fw::fail("%s: a block was freed that is not allocated (result not owned by the caller)", cname(c).c_str());
    }
  }
};

static void history(const std::vector<Call> &h) {
  std::string names, later;
  vf::reset();
  vf::bad_free = false;
  long before = vf::live;
  std::vector<std::unique_ptr<Step>> s;
  for (auto &c : h) {
    s.emplace_back(new Step(c));
    s.back()->check(names);
    names += (names.empty() ? "" : "; ") + cname(c);
  }
  for (auto &x : s) {
    x->still(names);
  }
  for (auto &x : s) {
    x->drop();
  }
  if (vf::live != before) {
    fw::fail("[%s] leaves %ld block(s) allocated", names.c_str(), vf::live - before);
  }
  fw::compared(h.size());
}

int main(int argc, char **argv) {
  A = direct_api();
  lib_free = vf_free;
  register_ops();
  PICS = {filled_pic(11, 8, F_HASH, 1), filled_pic(8, 11, F_GRAD, 2), blob_pic(40, 31, 2), filled_pic(1, 1, F_HASH, 3), filled_pic(11, 8, F_CHECK, 8), page_pic(60, 48), filled_pic(48, 60, F_GRAYHASH, 5), blob_pic(60, 48, 7)};
  Bytes one = PICS[0].rgba;
  one[(3 * 11 + 5) * 4 + 1] ^= 0xFF; // pixel (5, 3), green
  PICS.push_back(make_pic("11x8 hash, one byte changed", 11, 8, one));
  PICS.push_back(filled_pic(3, 2, F_HASH, 4));
  PICS.push_back(filled_pic(330, 200, F_HASH, 5));
  PICS.push_back(blob_pic(330, 200, 6));
  PICS.push_back(filled_pic(66000, 2, F_GRAD, 7));
  REF.assign(OPS.size(), std::vector<Ref>(PICS.size(), Ref{0, 0}));
  for (int k = 0; k < (int)OPS.size(); k++) {
    for (int p = 0; p < light_pics && !OPS[k].heavy; p++) {
      ALL.push_back({k, p});
    }
  }
  n_light = ALL.size();
  for (int k = 0; k < (int)OPS.size(); k++) {
    for (int p = P_HEAVY; p < P_HEAVY + 2 && OPS[k].heavy; p++) {
      ALL.push_back({k, p});
    }
  }
  std::vector<std::string> fam;
  for (int k = 0; k < (int)OPS.size(); k++) {
    std::string f = OPS[k].name.substr(0, OPS[k].name.find(' '));
    if (std::find(fam.begin(), fam.end(), f) == fam.end() && !OPS[k].heavy) {
      fam.push_back(f);
      CORE.push_back({k, (int)(fam.size() % 3)});
    }
  }
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    for (auto &c : ALL) {
      fresh(c);
    }
    for (auto &c : CORE) {
      fresh(c);
    }
    for (int k = 0; k < (int)OPS.size(); k++) {
      for (int p : {0, 4, 1, P_LAST, P_TINY}) {
        if (!OPS[k].heavy) {
          fresh({k, p});
        }
      }
      if (OPS[k].heavy) {
        fresh({k, P_HEAVY + 2});
      }
    }
    u64 n = ALL.size();
    fw::Suite s;
    s.name = "pairs";
    s.what = fw::str("every ordered pair of %llu calls (operation with parameters x picture): second result as in a fresh process, first result and all inputs unchanged, nothing left allocated", (unsigned long long)n);
    s.count = n * n;
    s.chunk = n / 2;
    s.hang_s = 60;
    s.describe = [n](u64 i) { return cname(ALL[i / n]) + "; " + cname(ALL[i % n]); };
    s.run = [n](u64 i) {
      const Call &a = ALL[i / n], &b = ALL[i % n];
      if (!fw::thorough && OPS[a.op].heavy != OPS[b.op].heavy) {
        // quick: document detection (one picture) only before and after one call per operation
        const Call &h = OPS[a.op].heavy ? a : b, &l = OPS[a.op].heavy ? b : a;
        bool core = false;
        for (auto &c : CORE) {
          core |= c.op == l.op && c.pic == l.pic;
        }
        if (h.pic != P_HEAVY || !core) {
          return;
        }
      }
      history({a, b});
    };
    S.push_back(s);

    u64 m = CORE.size();
    fw::Suite t;
    t.name = "triples";
    t.what = fw::str("every ordered triple of %llu calls (one per operation)", (unsigned long long)m);
    t.count = m * m * m;
    t.describe = [m](u64 i) { return cname(CORE[i / m / m]) + "; " + cname(CORE[i / m % m]) + "; " + cname(CORE[i % m]); };
    t.run = [m](u64 i) { history({CORE[i / m / m], CORE[i / m % m], CORE[i % m]}); };
    S.push_back(t);

    // all results of a long history held until its end; one history per start
    fw::Suite l;
    l.name = "long-histories";
    l.what = "for every starting call and 3 orders: all light calls in one process with every result kept until the end";
    l.count = n_light * 3;
    l.chunk = 12;
    l.hang_s = 60;
    l.describe = [](u64 i) { return fw::str("all calls starting with %s, order %d", cname(ALL[i / 3]).c_str(), (int)(i % 3)); };
    l.run = [](u64 i) {
      std::vector<Call> h;
      u64 step = i % 3 == 0 ? 1 : i % 3 == 1 ? n_light - 1 : 0;
      if (!step) { // a stride coprime to the number of calls
        step = n_light / 3;
        while (std::__gcd(step, (u64)n_light) != 1) {
          step++;
        }
      }
      for (u64 k = 0; k < n_light; k++) {
        h.push_back(ALL[(i / 3 + k * step) % n_light]);
      }
      history(h);
    };
    S.push_back(l);

    // many repetitions: counters and caches that run full
    fw::Suite rp;
    rp.name = "repeat";
    rp.what = "every light operation 66000 times in a row on a 3x2 picture, one call per function except histograms 1100000 times";
    rp.count = OPS.size();
    rp.chunk = 1;
    rp.hang_s = 300;
    rp.describe = [](u64 i) { return OPS[i].name + " many times on " + PICS[P_TINY].name; };
    rp.run = [](u64 i) {
      if (OPS[i].heavy) {
        return;
      }
      Bufs b(PICS[P_TINY]);
      long before = vf::live;
      vf::bad_free = false;
      Ref f = REF[i][P_TINY];
      bool often = false;
      for (auto &c : CORE) {
        often |= c.op == (int)i;
      }
      often = often && OPS[i].name.find("histogram") == std::string::npos; // (large results)
      for (int k = 0; k < (often ? 1100000 : 66000); k++) {
        Result q;
        call(A, OPS[i], b, q);
        if (f.state == 1 && q.digest != f.digest) {
          fw::fail("call %d of %s differs from a fresh process", k + 1, OPS[i].name.c_str());
        }
        q.release();
        if (vf::live != before || vf::bad_free || vf::open_files) {
          fw::fail("call %d of %s leaves %ld block(s) allocated, %ld file(s) open", k + 1, OPS[i].name.c_str(), vf::live - before, vf::open_files);
        }
      }
      fw::compared();
    };
    S.push_back(rp);

    // buffers and counters sized by an earlier picture
    fw::Suite g;
    g.name = "large";
    g.what = "every light operation x 4 histories of large (330x200, 66000x2 except watershed) and tiny pictures, new memory filled with 0xA5";
    g.count = OPS.size() * 4;
    g.chunk = 4;
    g.hang_s = 300;
    static const std::vector<int> GP[4] = {{P_BIG, P_TINY, P_BIG}, {P_BIG, P_BIG2}, {P_TINY, P_FLAT, 0}, {P_FLAT, P_BIG2, 0}};
    g.describe = [](u64 i) { return OPS[i / 4].name + fw::str(", large pictures, history %d", (int)(i % 4)); };
    g.run = [](u64 i) {
      bool ws = OPS[i / 4].name.compare(0, 9, "watershed") == 0; // (quadratic in the length)
      if (OPS[i / 4].heavy || (ws && i % 4 >= 2)) {
        return;
      }
      std::vector<Call> h;
      for (int p : GP[i % 4]) {
        h.push_back({(int)(i / 4), p});
      }
      for (int p : {P_BIG, P_BIG2, P_FLAT}) {
        if (!(ws && p == P_FLAT)) fresh({(int)(i / 4), p}); // before this process makes its first call (a chunk is one operation)
      }
      vf::fill_byte = 0xA5;
      try {
        history(h);
      } catch (...) {
        vf::fill_byte = -1;
        throw;
      }
      vf::fill_byte = -1;
    };
    S.push_back(g);

    // a caller reusing its buffer: same address, other contents
    static std::vector<std::array<int, 4>> SEQ; // op, three pictures
    for (int k = 0; k < (int)OPS.size(); k++) {
      static const int lp[] = {0, 4, 1, P_LAST}, hp[] = {P_HEAVY, P_HEAVY + 2};
      int m = OPS[k].heavy ? 2 : 4;
      for (int i = 0; i < m * m * m; i++) {
        const int *q = OPS[k].heavy ? hp : lp;
        SEQ.push_back({k, q[i % m], q[i / m % m], q[i / m / m]});
      }
    }
    fw::Suite r;
    r.name = "same-buffer";
    r.what = "every operation x every sequence of 3 of 4 pictures (other contents, one changed byte, width and height exchanged) loaded into the same memory";
    r.count = SEQ.size();
    r.chunk = 16;
    r.hang_s = 60;
    r.describe = [](u64 i) { return OPS[SEQ[i][0]].name + " on " + PICS[SEQ[i][1]].name + ", then " + PICS[SEQ[i][2]].name + ", then " + PICS[SEQ[i][3]].name + " in the same memory"; };
    r.run = [](u64 i) {
      const OpCall &o = OPS[SEQ[i][0]];
      Bufs b(PICS[SEQ[i][1]]);
      long before = vf::live;
      vf::bad_free = false;
      for (int k = 0; k < 3; k++) {
        int p = SEQ[i][k + 1];
        b.load(PICS[p]);
        Result q;
        call(A, o, b, q);
        Ref &f = REF[SEQ[i][0]][p];
        if (f.state == 1 && q.digest != f.digest) {
          fw::fail("%s: call %d on %s (same buffer as before) differs from a fresh process", o.name.c_str(), k, PICS[p].name.c_str());
        }
        if (q.modified || b.intact()) {
          fw::fail("%s changed its %s", o.name.c_str(), q.modified ? q.modified : b.intact());
        }
        q.release();
        fw::compared();
      }
      if (vf::live != before || vf::bad_free) {
        fw::fail("%s: %ld block(s) left allocated", o.name.c_str(), vf::live - before);
      }
    };
    S.push_back(r);

    // texts, markers, corners, matrices and files that change in place
    static std::vector<std::pair<std::string, std::function<u64(int)>>> K;
    static Pic pic = PICS[0];
    static auto dig = [](void *q, size_t n, u64 h) {
      u64 d = q ? fw::hash((u8 *)q, n, h) : h ^ 77;
      lib_free(q);
      return d;
    };
    static char text[16], text2[16];
    static const char *TX[4] = {"#112233", "FFFEFD", "#112234", "nonono0"};
    static auto words = [](int v) {
      strcpy(text, TX[v]);
      strcpy(text2, TX[3 - v]);
    };
    K.push_back({"parse_hex_color", [](int v) {
                   words(v);
                   u8 c[3] = {1, 2, 3};
                   A.fcv_parse_hex_color(text, c, c + 1, c + 2);
                   return (u64)c[0] << 16 | c[1] << 8 | c[2];
                 }});
    for (int o = 0; o < 4; o++) {
      static const char *nm[] = {"draw_circle", "draw_disk", "add_border", "convert_to_binary"};
      K.push_back({nm[o], [o](int v) {
                     words(v);
                     Bytes x = pic.rgba;
                     if (o < 2) {
                       (o ? A.fcv_draw_disk : A.fcv_draw_circle)(pic.w, pic.h, 4, text, 3, 5, 4, x.data());
                       return fw::hash(x.data(), x.size());
                     }
                     u32 w = 0, h = 0;
                     if (o == 2) {
                       u8 *q = A.fcv_add_border(pic.w, pic.h, 4, text, 2, x.data(), &w, &h);
                       return dig(q, (size_t)w * h * 4, w * 100 + h);
                     }
                     for (size_t i = 0; i < x.size(); i += 8) { // pixels of both colours
                       x[i] = i & 8 ? 0x11 : 0xFF;
                       x[i + 1] = i & 8 ? 0x22 : 0xFE;
                       x[i + 2] = i & 8 ? 0x33 : i & 16 ? 0xFF : 0xFD;
                     }
                     return dig(A.fcv_convert_to_binary(x.data(), (i32)pic.w, (i32)pic.h, text, text2), (size_t)pic.w * pic.h, 1);
                   }});
    }
    static Point2D pts[6];
    static auto points = [](int v) {
      static const double at[4][12] = {{1, 1, 9, 2, 8, 7, 2, 6, 0, 0, 5, 5}, {2, 1, 9, 3, 7, 7, 1, 5, 4, 0, 5, 6}, {1, 1, 9, 2, 8, 7, 2, 5, 0, 0, 5, 5}, {9, 2, 8, 7, 2, 6, 1, 1, 5, 5, 0, 0}};
      memcpy((void *)pts, at[v], sizeof pts);
    };
    for (int b = 0; b < 2; b++) {
      K.push_back({b ? "watershed with boundaries" : "watershed", [b](int v) {
                     points(v);
                     return dig(A.fcv_watershed_segmentation(pic.w, pic.h, pic.gray.data(), pts, 6, b != 0), (size_t)pic.w * pic.h * 4, 2);
                   }});
    }
    K.push_back({"sort_corners", [](int v) {
                   points(v);
                   Point2D res[6];
                   memset((void *)res, 0, sizeof res);
                   Corners c = A.sort_corners(11, 8, 22, 16, pts, 4, res);
                   return fw::hash((u8 *)&c, sizeof c, fw::hash((u8 *)res, sizeof(Point2D) * 4));
                 }});
    static Corners from, to;
    K.push_back({"calculate_perspective_transform", [](int v) {
                   points(v);
                   from = Corners{pts[0].x, pts[0].y, pts[1].x, pts[1].y, pts[2].x, pts[2].y, pts[3].x, pts[3].y};
                   to = Corners{0, 0, 10.0 + v, 0, 10.0 + v, 7, 0, 7};
                   return dig(A.fcv_calculate_perspective_transform(&from, &to), sizeof(Matrix3x3), 3);
                 }});
    static Matrix3x3 mat;
    K.push_back({"apply_matrix_3x3", [](int v) {
                   static const Matrix3x3 ms[4] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0.9, 0.1, 0.5, -0.1, 1.1, 1, 0, 0.01, 1}, {1, 0, 0, 0, 1, 1, 0, 0, 1}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}};
                   mat = ms[v];
                   return dig(A.fcv_apply_matrix_3x3((i32)pic.w, (i32)pic.h, pic.rgba.data(), 11, 8, &mat), 11 * 8 * 4, 4);
                 }});
    static Bytes resp(20 * 15 * 2);
    K.push_back({"corner_peaks", [](int v) {
                   for (size_t i = 0; i < resp.size(); i++) {
                     resp[i] = (u8)((i * 37 + (v & 1) * i * i + (v >> 1) * 5) % 251);
                   }
                   CornerPeaks *q = A.fcv_corner_peaks(20, 15, resp.data(), 2, .3, .2);
                   u64 d = q ? fw::hash((u8 *)q->points, q->count * sizeof(Point2D), q->count) : 9;
                   if (q) {
                     lib_free(q->points);
                   }
                   lib_free(q);
                   return d;
                 }});
    for (int same = 0; same < 2; same++) {
      K.push_back({same ? "get_exif_orientation, the file changing" : "get_exif_orientation, the name changing", [same](int v) {
                     static char name[512];
                     snprintf(name, sizeof name, "%s/same_%d_%d_%d.jpg", fw::scratch.c_str(), fw::worker, (int)getpid(), same ? 0 : v);
                     static const int or_[4] = {3, 6, 1, 8};
                     u8 f[] = {0xff, 0xd8, 0xff, 0xe1, 0, 34, 'E', 'x', 'i', 'f', 0, 0, 'I', 'I', 42, 0, 8, 0, 0, 0, 1, 0, 0x12, 1, 3, 0, 1, 0, 0, 0, (u8)or_[v], 0, 0, 0, 0, 0, 0, 0, 0xff, 0xda, 0, 2};
                     FILE *o = fopen(name, "wb");
                     if (!o || fwrite(f, 1, sizeof f, o) != sizeof f || fclose(o)) {
                       _exit(3);
                     }
                     u64 d = (u64)A.fcv_get_exif_orientation(name);
                     unlink(name);
                     return d;
                   }});
    }
    static std::vector<u64> alone;
    for (auto &k : K) {
      for (int v = 0; v < 4; v++) {
        int fd[2];
        if (pipe(fd) != 0) {
          _exit(3);
        }
        pid_t p = fork();
        if (p == 0) {
          u64 d = k.second(v);
          _exit(write(fd[1], &d, 8) == 8 ? 0 : 1);
        }
        close(fd[1]);
        u64 d = 0;
        if (read(fd[0], &d, 8) != 8) {
          d = UNKNOWN;
        }
        close(fd[0]);
        waitpid(p, nullptr, 0);
        alone.push_back(d);
      }
    }
    fw::Suite sa;
    sa.name = "same-arguments";
    sa.what = "every sequence of 4 of 4 values of the colour text, markers, points, corners, matrix, response or EXIF file a call gets at one address";
    sa.count = K.size() * 256;
    sa.chunk = 8;
    sa.describe = [](u64 i) { return K[i / 256].first + fw::str(", values %d, %d, %d, %d at one address", (int)(i / 64 % 4), (int)(i / 16 % 4), (int)(i / 4 % 4), (int)(i % 4)); };
    sa.run = [](u64 i) {
      long before = vf::live;
      for (int sh = 6; sh >= 0; sh -= 2) {
        int v = (int)(i >> sh & 3);
        u64 d = K[i / 256].second(v), want = alone[i / 256 * 4 + v];
        if (want != UNKNOWN && d != want) {
          fw::fail("%s: value %d gives another result than in a fresh process", K[i / 256].first.c_str(), v);
        }
        fw::calls();
      }
      if (vf::live != before || vf::open_files) {
        fw::fail("%s: %ld block(s) left allocated, %ld file(s) open", K[i / 256].first.c_str(), vf::live - before, vf::open_files);
      }
      fw::compared(4);
      fw::nontrivial();
    };
    S.push_back(sa);

    // what fresh memory contains must not matter, nor alignment of the input
    fw::Suite d;
    d.name = "fresh-memory";
    d.what = "every call with new memory filled with 0x00, 0x01, 0x7F, 0xA5, 0xFF";
    d.count = ALL.size() * 5;
    d.chunk = 50;
    d.hang_s = 60;
    d.describe = [](u64 i) {
      static const int f[] = {0, 1, 0x7F, 0xA5, 0xFF};
      return cname(ALL[i / 5]) + fw::str(", fill %02X", f[i % 5]);
    };
    d.run = [](u64 i) {
      static const int f[] = {0, 1, 0x7F, 0xA5, 0xFF};
      vf::fill_byte = f[i % 5];
      try {
        history({ALL[i / 5]});
      } catch (...) {
        vf::fill_byte = -1;
        throw;
      }
      vf::fill_byte = -1;
    };
    S.push_back(d);
  });
}
