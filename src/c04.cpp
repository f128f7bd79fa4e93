// C04: every allocation of every library call fails, alone or with all later
// ones: failure value or normal result, no crash, no leak, inputs unchanged.
#include "alloc.hpp"
#include "ops.hpp"

static std::vector<Pic> PICS;
struct Plan {
  int op, pic;
  u64 normal;
  bool normal_ok;
  u64 none; // result when no allocation succeeds
  long n;   // allocations of the fault-free call
};
static std::vector<Plan> PL;
static Api A;

static void guarded(const OpCall &o, const Bufs &b, Result &r) {
  vf::bad_free = false;
  call(A, o, b, r);
}

int main(int argc, char **argv) {
  A = direct_api();
  lib_free = vf_free;
  register_ops();
  PICS = {filled_pic(11, 8, F_HASH, 1), blob_pic(13, 10, 2), filled_pic(1, 1, F_HASH, 3), filled_pic(5, 17, F_GRAD, 4), page_pic(60, 48), filled_pic(40, 33, F_CHECK, 5), blob_pic(64, 50, 7), filled_pic(30, 30, F_GRAYHASH, 9), filled_pic(330, 200, F_HASH, 10)};
  static const int P_BIG = 8;
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    static const int light = 4;
    static std::vector<std::pair<int, long>> at;
    static std::vector<std::pair<int, long>> two;
    if (PL.empty()) {
      for (int p = 0; p < (int)PICS.size(); p++) {
        for (int k = 0; k < (int)OPS.size(); k++) {
          if (p == P_BIG && OPS[k].heavy) {
            continue;
          }
          if (p != P_BIG && OPS[k].heavy != (p >= light) && !(fw::thorough && p >= light)) {
            continue;
          }
          if (!fw::thorough && p > light && p != P_BIG && OPS[k].name != "detect_corners_ptr") {
            continue;
          }
          // counted in a child: the call might crash on this tree
          int fd[2];
          if (pipe(fd) != 0) {
            perror("pipe");
            _exit(3);
          }
          pid_t c = fork();
          if (c == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 2);
            Plan pl{k, p, 0, false, 0, 0};
            Bufs b(PICS[p]);
            {
              Result r;
              vf::reset();
              call(A, OPS[k], b, r);
              pl.normal = r.digest;
              pl.normal_ok = r.ok;
              pl.n = vf::count;
            }
            if (write(fd[1], &pl, sizeof pl) < 0) {
            }
            {
              Result r;
              vf::reset(0, true);
              call(A, OPS[k], b, r);
              pl.none = r.digest;
            }
            if (write(fd[1], &pl, sizeof pl) < 0) {
            }
            _exit(0);
          }
          close(fd[1]);
          Plan pl{k, p, 0, false, 0, 0}, t;
          while (read(fd[0], &t, sizeof t) == (ssize_t)sizeof t) {
            pl = t;
          }
          close(fd[0]);
          waitpid(c, nullptr, 0);
          PL.push_back(pl);
        }
      }
      for (int q = 0; q < (int)PL.size(); q++) {
        for (long i = 0; i < std::max(1l, PL[q].n); i++) {
          at.push_back({q, i});
        }
        if (!OPS[PL[q].op].heavy && PL[q].n <= (PL[q].pic == P_BIG ? 6 : 40)) {
          for (long i = 0; i < PL[q].n * PL[q].n; i++) {
            two.push_back({q, i});
          }
        }
      }
    }
    auto desc = [](u64 i) {
      const Plan &p = PL[at[i / 2].first];
      return fw::str("%s on %s: allocation %ld of %ld%s fails", OPS[p.op].name.c_str(), PICS[p.pic].name.c_str(), at[i / 2].second, p.n, i & 1 ? " and every later one" : "");
    };
    fw::Suite s;
    s.name = "allocations";
    s.what = fw::str("%zu calls (operation x picture) x every allocation failing alone or together with all later ones, followed by the same call with memory", PL.size());
    s.count = at.size() * 2;
    s.describe = desc;
    s.chunk = 40;
    s.hang_s = 60;
    s.run = [=](u64 i) {
      const Plan &p = PL[at[i / 2].first];
      const OpCall &o = OPS[p.op];
      Bufs b(PICS[p.pic]);
      long before = vf::live;
      Result r;
      vf::reset(at[i / 2].second, i & 1);
      guarded(o, b, r);
      long refused = vf::refused;
      vf::reset();
      if (r.modified || b.intact()) {
        fw::fail("%s: the call changed its %s", desc(i).c_str(), r.modified ? r.modified : b.intact());
      }
      if (vf::bad_free) {
        fw::fail("%s: freed memory it does not own", desc(i).c_str());
      }
      if (r.ok && r.digest != p.normal && r.digest != p.none) {
        fw::fail("%s: returns a result that differs from the normal one", desc(i).c_str());
      }
      if (!r.ok && p.normal_ok && !refused) {
        fw::fail("%s: fails although no allocation failed", desc(i).c_str());
      }
      fw::seen(r.digest ^ fw::mix(i / 2 + p.op * 1000));
      if (!r.ok) {
        fw::nontrivial();
      }
      r.release();
      if (vf::live != before) {
        fw::fail("%s: %ld block(s) leaked", desc(i).c_str(), vf::live - before);
      }
      if (vf::open_files) {
        fw::fail("%s: %ld file(s) left open", desc(i).c_str(), vf::open_files);
      }
      if (!o.heavy || i % 4 == 0) { // memory is back: the normal result
        Result n;
        guarded(o, b, n);
        if (n.digest != p.normal) {
          fw::fail("%s: the next call with memory available gives another result", desc(i).c_str());
        }
        n.release();
        if (vf::live != before) {
          fw::fail("%s: the next call leaked %ld block(s)", desc(i).c_str(), vf::live - before);
        }
      }
      fw::compared();
    };
    S.push_back(s);

    // which results count as failure although they are values: a call with no
    // memory at all must not return an image
    fw::Suite z;
    z.name = "no-memory";
    z.what = "every call with no memory at all: pointer-returning functions return NULL";
    z.count = PL.size();
    z.describe = [](u64 i) { return OPS[PL[i].op].name + " on " + PICS[PL[i].pic].name; };
    z.chunk = 20;
    z.run = [=](u64 i) {
      const Plan &p = PL[i];
      Bufs b(PICS[p.pic]);
      Result r;
      vf::reset(0, true);
      guarded(OPS[p.op], b, r);
      vf::reset();
      bool value = r.nblocks == 0 || r.in_place; // colours, corners, drawings
      if (r.ok && !value) {
        fw::fail("%s on %s: returns an image although no allocation succeeded", OPS[p.op].name.c_str(), PICS[p.pic].name.c_str());
      }
      r.release();
      fw::compared();
    };
    S.push_back(z);

    // two separate failures
    fw::Suite t;
    t.name = "two-failures";
    t.what = "calls with up to 40 allocations x every pair of failing allocations";
    t.count = two.size();
    t.describe = [](u64 i) {
      const Plan &p = PL[two[i].first];
      return fw::str("%s on %s: allocations %ld and %ld of %ld fail", OPS[p.op].name.c_str(), PICS[p.pic].name.c_str(), two[i].second % p.n, two[i].second / p.n, p.n);
    };
    auto td = t.describe;
    t.run = [=](u64 i) {
      const Plan &p = PL[two[i].first];
      Bufs b(PICS[p.pic]);
      long before = vf::live;
      Result r;
      vf::reset(two[i].second % p.n, false);
      vf::second_at = two[i].second / p.n;
      guarded(OPS[p.op], b, r);
      vf::second_at = -1;
      vf::reset();
      if (r.modified || b.intact()) {
        fw::fail("%s: the call changed its %s", td(i).c_str(), r.modified ? r.modified : b.intact());
      }
      if (vf::bad_free) {
        fw::fail("%s: freed memory it does not own", td(i).c_str());
      }
      if (r.ok && r.digest != p.normal && r.digest != p.none) {
        fw::fail("%s: returns a result that differs from the normal one", td(i).c_str());
      }
      r.release();
      if (vf::live != before) {
        fw::fail("%s: %ld block(s) leaked", td(i).c_str(), vf::live - before);
      }
      fw::compared();
    };
    S.push_back(t);
  });
}
