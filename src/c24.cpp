// C24: the amalgamation and the modular library, both as shared objects, called
// with the same arguments; every result, size and failure has to agree.
#define OPS_NO_DIRECT
#include "grid.hpp"
#include <dlfcn.h>
#include <map>

static std::string dir;
static Api MOD, AM;
static std::string load_error;
static std::vector<std::string> missing;
static const std::vector<std::string> NAMES = {
#define X(f) #f,
  API_LIST(X)
#undef X
};
static std::string slurp(const std::string &p) {
  std::string s;
  FILE *f = fopen((dir + "/" + p).c_str(), "rb");
  char b[4096];
  size_t k;
  while (f && (k = fread(b, 1, sizeof b, f)) > 0) {
    s.append(b, k);
  }
  if (f) {
    fclose(f);
  }
  return s;
}
static bool load(const char *so, Api &a) {
  void *h = dlopen((dir + "/" + so).c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    load_error = dlerror();
    return false;
  }
#define X(f)                                                                                                                                                                                            \
  a.f = (decltype(a.f))dlsym(h, #f);                                                                                                                                                                    \
  if (!a.f) {                                                                                                                                                                                           \
    missing.push_back(std::string(#f) + " in " + so);                                                                                                                                                   \
  }
  API_LIST(X)
#undef X
  return true;
}
// prototypes (gcc -aux-info) of the public functions, without locations
static std::map<std::string, std::string> protos(const std::string &file) {
  std::map<std::string, std::string> m;
  std::string t = slurp(file);
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) {
      e = t.size();
    }
    std::string l = t.substr(i, e - i);
    i = e + 1;
    size_t c = l.find("*/");
    if (c != std::string::npos) {
      l = l.substr(c + 2);
    }
    size_t p = l.find('(');
    if (p == std::string::npos) {
      continue;
    }
    size_t q = l.find_last_not_of(" ", p - 1), s = l.find_last_of(" *", q);
    m[l.substr(s + 1, q - s)] = l;
  }
  return m;
}

static std::vector<Pic> PICS, PAGES, PICS_WIDE;

static void compare(const OpCall &o, const Pic &p) {
  Bufs b(p);
  Result x, y;
  call(MOD, o, b, x);
  call(AM, o, b, y);
  fw::seen(x.digest ^ fw::mix(x.ok));
  if (x.ok != y.ok) {
    fw::fail("%s on %s: the modular library %s, the amalgamation %s", o.name.c_str(), p.name.c_str(), x.ok ? "succeeds" : "fails", y.ok ? "succeeds" : "fails");
  }
  if (x.digest != y.digest) {
    std::string d;
    for (int k = 0; k < x.nmeta && k < y.nmeta; k++) {
      if (x.meta[k] != y.meta[k]) {
        d = fw::str(" (value %d differs: %llu, %llu)", k, (unsigned long long)x.meta[k], (unsigned long long)y.meta[k]);
        break;
      }
    }
    for (int k = 0; k < x.nblocks && k < y.nblocks && d.empty(); k++) {
      for (size_t i = 0; i < std::min(x.len[k], y.len[k]); i++) {
        if (x.block[k][i] != y.block[k][i]) {
          d = fw::str(" (byte %zu: %u, %u)", i, x.block[k][i], y.block[k][i]);
          break;
        }
      }
    }
    fw::fail("%s on %s: the two builds give different results%s", o.name.c_str(), p.name.c_str(), d.c_str());
  }
  if (x.modified || y.modified || b.intact()) {
    fw::fail("%s on %s: an argument was changed", o.name.c_str(), p.name.c_str());
  }
  x.release();
  y.release();
  fw::compared();
}

int main(int argc, char **argv) {
  char buf[4096];
  ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
  buf[n > 0 ? n : 0] = 0;
  dir = std::string(buf).substr(0, std::string(buf).rfind('/'));
  register_ops();
  grid();
  grid_large();
  bool ok = load("modular.so", MOD) && load("amalgamation.so", AM) && missing.empty();
  for (u32 w = 1; w <= 9; w++) {
    for (u32 h = 1; h <= 9; h++) {
      PICS.push_back((w + h) % 3 == 0 ? blob_pic(w, h, w * 10 + h) : filled_pic(w, h, (w + h) % 3 == 1 ? F_HASH : F_GRAD, w * 100 + h));
    }
  }
  for (int k = 0; k < F_N; k++) {
    PICS.push_back(filled_pic(21, 14, k, 5));
    PICS.push_back(filled_pic(16, 33, k, 6));
  }
  for (int amp : {2, 5, 20}) { // low contrast
    for (int base : {0, 120, 255 - amp}) {
      Bytes v = fill(F_HASH, 19, 17, 4, amp * 300 + base);
      for (size_t i = 0; i < v.size(); i++) {
        v[i] = (u8)(base + v[i] % (amp + 1));
      }
      PICS.push_back(make_pic(fw::str("19x17 values %d..%d", base, base + amp), 19, 17, v));
    }
  }
  PICS.push_back(blob_pic(40, 31, 3));
  PICS.push_back(blob_pic(64, 64, 4));
  PICS.push_back(filled_pic(130, 3, F_HASH, 9));
  PICS.push_back(filled_pic(2, 260, F_GRAYHASH, 9));
  PICS_WIDE = {filled_pic(700, 500, F_HASH, 1), filled_pic(70000, 3, F_HASH, 2), filled_pic(3, 70000, F_HASH, 3), blob_pic(1100, 6, 4), blob_pic(6, 1100, 5), blob_pic(300, 40, 6), filled_pic(33, 260, F_GRAD, 7), filled_pic(11, 8, F_HASH, 8), filled_pic(90, 70, F_GRAYHASH, 9)};
  PAGES = {page_pic(60, 48), page_pic(300, 200), page_pic(90, 260), filled_pic(70, 50, F_GRAYHASH, 2), blob_pic(120, 90, 4), filled_pic(33, 33, F_CHECK, 2), page_pic(512, 384), filled_pic(3, 3, F_HASH, 1)};
  return fw::main_(argc, argv, [ok](std::vector<fw::Suite> &S) {
    fw::Suite c;
    c.name = "builds";
    c.what = "the generated files compile alone, twice included and in two translation units, and declare every public function with its prototype and types";
    c.count = 3 + NAMES.size();
    c.chunk = 1;
    c.describe = [](u64 i) { return i == 0 ? std::string("compilation") : i == 1 ? "exported functions" : i == 2 ? "types" : "prototype of " + NAMES[i - 3]; };
    c.run = [](u64 i) {
      fw::compared();
      if (i == 0) {
        std::string e = slurp("am.error");
        if (!e.empty()) {
          fw::fail("the amalgamation does not build: %s", e.c_str());
        }
      }
      else if (i == 1) {
        if (!load_error.empty()) {
          fw::fail("%s", load_error.c_str());
        }
        if (!missing.empty()) {
          fw::fail("%s is missing", missing[0].c_str());
        }
      }
      else if (i == 2) {
        if (slurp("layout.mod") != slurp("layout.am") || slurp("layout.am").empty()) {
          fw::fail("types differ:\n%s\n%s", slurp("layout.mod").c_str(), slurp("layout.am").c_str());
        }
      }
      else {
        auto m = protos("protos.mod"), a = protos("protos.am");
        const std::string &f = NAMES[i - 3];
        if (!a.count(f)) {
          fw::fail("%s is not declared in flatcv.h", f.c_str());
        }
        if (m[f] != a[f]) {
          fw::fail("%s is declared as '%s' and as '%s'", f.c_str(), m[f].c_str(), a[f].c_str());
        }
      }
    };
    S.push_back(c);
    if (!ok) {
      return;
    }
    u64 np = PICS.size();
    fw::Suite o;
    o.name = "operations";
    o.what = fw::str("every call of the operation table (%zu) x %llu pictures (all sizes up to 9x9, larger ones)", OPS.size() - 4, (unsigned long long)np);
    o.count = OPS.size() * np;
    o.describe = [np](u64 i) { return OPS[i / np].name + " on " + PICS[i % np].name; };
    o.run = [np](u64 i) {
      if (!OPS[i / np].heavy) {
        compare(OPS[i / np], PICS[i % np]);
      }
    };
    S.push_back(o);
    fw::Suite g;
    g.name = "parameters";
    g.what = fw::str("%zu parameter settings x %llu pictures", GRID.size(), (unsigned long long)np);
    g.count = GRID.size() * np;
    g.describe = [np](u64 i) { return GRID[i / np].name + " on " + PICS[i % np].name; };
    g.run = [np](u64 i) { compare(GRID[i / np], PICS[i % np]); };
    S.push_back(g);
    static std::vector<std::pair<const OpCall *, int>> wide;
    for (int p = 0; p < (int)PICS_WIDE.size(); p++) {
      bool big = PICS_WIDE[p].w * PICS_WIDE[p].h > 100000;
      for (auto &o : OPS) {
        if (!o.heavy && !(big && o.name.compare(0, 9, "watershed") == 0) && !(big && o.name.compare(0, 12, "corner_peaks") == 0)) {
          wide.push_back({&o, p});
        }
      }
      for (auto &o : LARGE) {
        bool costly = o.name.compare(0, 4, "blur") == 0 || o.name.compare(0, 4, "foer") == 0 || o.name.compare(0, 4, "morp") == 0;
        if (!(big && costly)) {
          wide.push_back({&o, p});
        }
      }
    }
    fw::Suite w;
    w.name = "large";
    w.what = fw::str("every call of the operation table and %zu settings of large parameters x %zu pictures, up to 700x500 and 70000x3", LARGE.size(), PICS_WIDE.size());
    w.count = wide.size();
    w.hang_s = 120;
    w.chunk = 20;
    w.describe = [](u64 i) { return wide[i].first->name + " on " + PICS_WIDE[wide[i].second].name; };
    w.run = [](u64 i) { compare(*wide[i].first, PICS_WIDE[wide[i].second]); };
    S.push_back(w);
    fw::Suite h;
    h.name = "documents";
    static std::vector<std::pair<int, int>> hv;
    hv.clear();
    for (int k = 0; k < (int)OPS.size(); k++) {
      for (int p = 0; p < (int)PAGES.size() && OPS[k].heavy; p++) {
        hv.push_back({k, p});
      }
    }
    h.what = "document detection and extraction x 8 pictures";
    h.count = hv.size();
    h.chunk = 1;
    h.hang_s = 120;
    h.describe = [](u64 i) { return OPS[hv[i].first].name + " on " + PAGES[hv[i].second].name; };
    h.run = [](u64 i) { compare(OPS[hv[i].first], PAGES[hv[i].second]); };
    S.push_back(h);
  });
}
