// C23: the tool under injected I/O and memory faults. Every system call the
// tool makes on its files (and for memory, while it works) is made to fail or
// fall short, one run per fault, by tracing the unmodified binary; every
// allocation fails once alone and once together with all later ones.
#include "cliops.hpp"
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
using namespace cli;

struct Scenario {
  const char *name;
  Args args;       // after the program name; output is the last one unless stdout_only
  bool stdout_only;
  std::string input_name, input;
};

static std::vector<Scenario> SC;
static std::string exif6() {
  static const u8 b[] = {0xFF, 0xE1, 0, 0x22, 'E', 'x', 'i', 'f', 0, 0, 'M', 'M', 0, 42, 0, 0, 0, 8, 0, 1, 1, 0x12, 0, 3, 0, 0, 0, 1, 0, 6, 0, 0, 0, 0, 0, 0};
  return std::string((const char *)b, sizeof b);
}
static void scenarios() {
  Img s = image(9, 7, F_HASH, 1), big = image(70, 61, F_HASH, 2), pg = page(60, 48), grad = image(40, 31, F_GRAD, 3);
  std::string sp = ref_png(s.w, s.h, 4, s.px.data()), bp = ref_png(big.w, big.h, 4, big.px.data()), pp = ref_png(pg.w, pg.h, 4, pg.px.data());
  std::string j = ref_jpg(grad.w, grad.h, 4, grad.px.data(), 85), jx = j.substr(0, 2) + exif6() + j.substr(2);
  std::string bj = ref_jpg(big.w, big.h, 4, big.px.data(), 95), bjx = bj.substr(0, 2) + exif6() + bj.substr(2);
  std::string ppm = "P6\n30 20\n255\n";
  Bytes pb = fill(F_HASH, 30, 20, 3, 4);
  ppm.append((char *)pb.data(), pb.size());
  SC = {
    {"png to png", {"in.png", "flip_x", "out.png"}, false, "in.png", sp},
    {"png to jpg", {"in.png", "flip_x", "out.jpg"}, false, "in.png", sp},
    {"large png to png", {"in.png", "rotate 90", "out.png"}, false, "in.png", bp},
    {"large png to jpg", {"in.png", "rotate 90", "out.jpeg"}, false, "in.png", bp},
    {"rotated jpg to png", {"in.jpg", "border FF0000 3", "out.png"}, false, "in.jpg", jx},
    {"large rotated jpg to jpg", {"in.jpg", "grayscale", "out.jpg"}, false, "in.jpg", bjx},
    {"ppm to unknown extension", {"in.ppm", "resize 150%, threshold", "out.dat"}, false, "in.ppm", ppm},
    {"corners only", {"in.png", "detect_corners"}, true, "in.png", pp},
    {"corners and image", {"in.png", "detect_corners, draw_corners", "out.png"}, false, "in.png", pp},
    {"overwrite input", {"in.png", "rotate 180", "in.png"}, false, "in.png", bp},
  };
}

// ---------------------------------------------------------------- tracing
enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_SEEK, K_STAT, K_MEM, K_OTHER };
static const char *kname[] = {"open", "read", "write", "close", "seek", "stat", "memory", "other"};
struct Ev {
  int kind;
  long nr;
  int role; // 0 input, 1 output, 2 stdout, 3 memory
  u64 count;
};
struct Fault {
  long at = -1;      // event index
  int err = 0;       // errno, or 0
  long shorten = -1; // let the call transfer only that many bytes
  bool later = false; // every later event of the same kind and role fails, too
  long capacity = -1; // bytes that can be written to the output file in total
};

struct Traced {
  Res r;
  std::vector<Ev> ev;
  bool hit = false;
};

static std::string peek_str(pid_t p, u64 addr) {
  std::string s;
  while (s.size() < 4096) {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, p, (void *)addr, 0);
    if (errno) {
      break;
    }
    for (int k = 0; k < 8; k++) {
      char c = (char)(w >> (8 * k));
      if (!c) {
        return s;
      }
      s += c;
    }
    addr += 8;
  }
  return s;
}

// shared control page of the allocation shim
static volatile long *mem_ctl;
static int mem_fd = -1;
static void mem_init() {
  static int owner = -1; // one page per process
  if (owner != (int)getpid()) {
    owner = (int)getpid();
    mem_fd = memfd_create("ctl", 0);
    if (mem_fd < 0 || ftruncate(mem_fd, 4096) != 0) {
      perror("memfd");
      _exit(3);
    }
    mem_ctl = (volatile long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, mem_fd, 0);
  }
}

static Traced trace(const Scenario &sc, const Fault &f) {
  Traced t;
  fw::calls();
  pid_t p = spawn(binary(), sc.args, [] {
    unsetenv("FCVERIF_FD");
    if (ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) {
      _exit(125);
    }
    raise(SIGSTOP);
  });
  int st;
  if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) {
    fprintf(stderr, "cannot trace\n");
    _exit(3);
  }
  ptrace(PTRACE_SETOPTIONS, p, 0, (void *)(PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEEXEC));
  bool execed = false, started = false, in_call = false, inject = false;
  std::vector<int> role(1024, -1); // of file descriptors
  role[1] = 2;
  long inject_ret = 0;
  int open_role = -1, cur_kind = -1, cur_role = -1;
  long cap_left = f.capacity;
  int sig = 0;
  u64 fd_arg = 0;
  long hit_kind = -1, hit_role = -1;
  while (true) {
    ptrace(PTRACE_SYSCALL, p, 0, (void *)(long)sig);
    sig = 0;
    if (waitpid(p, &st, 0) != p) {
      break;
    }
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      break;
    }
    if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) {
      execed = true;
      in_call = true; // the exit stop of execve follows
      cur_kind = -1;
      inject = false;
      continue;
    }
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
      sig = WSTOPSIG(st);
      continue;
    }
    if (!execed) {
      in_call = false;
      continue;
    }
    user_regs_struct g;
    ptrace(PTRACE_GETREGS, p, 0, &g);
    if (!in_call) { // entry
      in_call = true;
      long nr = (long)g.orig_rax;
      cur_kind = -1;
      cur_role = -1;
      inject = false;
      open_role = -1;
      fd_arg = g.rdi;
      int frole = g.rdi < 1024 ? role[g.rdi] : -1;
      u64 count = 0;
      switch (nr) {
      case SYS_openat:
      case SYS_open:
      case SYS_creat: {
        std::string nm = peek_str(p, nr == SYS_openat ? g.rsi : g.rdi);
        u64 flags = nr == SYS_openat ? g.rdx : nr == SYS_open ? g.rsi : (u64)(O_WRONLY | O_CREAT | O_TRUNC);
        bool wr = (flags & O_ACCMODE) != O_RDONLY;
        if (nm.size() && nm[0] != '/') {
          cur_kind = K_OPEN;
          open_role = cur_role = wr ? 1 : 0;
          started = true;
        }
        break;
      }
      case SYS_read:
      case SYS_pread64:
      case SYS_readv:
        cur_kind = K_READ;
        cur_role = frole;
        count = nr == SYS_readv ? 0 : g.rdx;
        break;
      case SYS_write:
      case SYS_pwrite64:
      case SYS_writev:
        cur_kind = K_WRITE;
        cur_role = frole;
        count = nr == SYS_writev ? 0 : g.rdx;
        break;
      case SYS_close:
        cur_kind = K_CLOSE;
        cur_role = frole;
        break;
      case SYS_lseek:
        cur_kind = K_SEEK;
        cur_role = frole;
        break;
      case SYS_fstat:
      case SYS_newfstatat:
        cur_kind = K_STAT;
        cur_role = nr == SYS_fstat || g.rdi < 1024 ? frole : -1;
        break;
      case SYS_fsync:
      case SYS_fdatasync:
      case SYS_ftruncate:
        cur_kind = K_OTHER;
        cur_role = frole;
        break;
      case SYS_mmap:
      case SYS_brk:
      case SYS_mremap:
        if (started) {
          cur_kind = K_MEM;
          cur_role = 3;
        }
        break;
      }
      if (cur_role < 0) {
        cur_kind = -1;
      }
      if (cur_kind >= 0) {
        long idx = (long)t.ev.size();
        t.ev.push_back({cur_kind, nr, cur_role, count});
        int err = 0;
        if (idx == f.at) {
          t.hit = true;
          hit_kind = cur_kind;
          hit_role = cur_role;
          if (f.err) {
            err = f.err;
          }
          else if (f.shorten >= 0 && count > (u64)f.shorten) {
            g.rdx = (u64)f.shorten;
            ptrace(PTRACE_SETREGS, p, 0, &g);
          }
        }
        else if (f.at >= 0 && idx > f.at && f.later && cur_kind == hit_kind && cur_role == hit_role) {
          err = f.err ? f.err : ENOSPC;
        }
        if (f.capacity >= 0 && cur_kind == K_WRITE && cur_role == 1) {
          t.hit = true;
          if (cap_left == 0) {
            err = ENOSPC;
          }
          else if ((long)count > cap_left) {
            g.rdx = (u64)cap_left;
            ptrace(PTRACE_SETREGS, p, 0, &g);
            cap_left = 0;
          }
          else {
            cap_left -= (long)count;
          }
        }
        if (err) {
          inject = true;
          inject_ret = -err;
          if (cur_kind == K_CLOSE) { // Linux closes the descriptor even if close reports an error
            inject = true;
          }
          else {
            g.orig_rax = (u64)-1; // no call at all
            ptrace(PTRACE_SETREGS, p, 0, &g);
          }
        }
      }
    }
    else { // exit
      in_call = false;
      if (inject) {
        g.rax = (u64)inject_ret;
        if (cur_kind == K_MEM && t.ev.back().nr == SYS_brk) {
          g.rax = 0; // brk reports failure by an unchanged (here: invalid) break
        }
        ptrace(PTRACE_SETREGS, p, 0, &g);
        inject = false;
      }
      if (open_role >= 0 && (long)g.rax >= 0 && g.rax < 1024) {
        role[g.rax] = open_role;
      }
      if (cur_kind == K_CLOSE && fd_arg < 1024) {
        role[fd_arg] = -1;
      }
    }
  }
  if (WIFEXITED(st)) {
    t.r.status = WEXITSTATUS(st);
  }
  else {
    t.r.sig = WTERMSIG(st);
  }
  read_file(path(".stdout"), t.r.out);
  read_file(path(".stderr"), t.r.err);
  return t;
}

static void prepare(const Scenario &sc) {
  clean();
  write_file(path(sc.input_name), sc.input);
}

struct Baseline {
  std::vector<Ev> ev;
  std::string out, file;
};
static Baseline baseline(int k) {
  const Scenario &sc = SC[k];
  prepare(sc);
  Traced t = trace(sc, Fault());
  Baseline b;
  if (t.r.status != 0) {
    fprintf(stderr, "the tool fails without a fault: %s: %s\n", sc.name, t.r.err.c_str());
    return b;
  }
  b.ev = t.ev;
  b.out = t.r.out;
  if (!sc.stdout_only) {
    read_file(path(sc.args.back()), b.file);
  }
  return b;
}

static void judge_fault(const Scenario &sc, const Res &r, const Baseline &b, const std::string &fault) {
  if (r.sig) {
    fw::fail("%s with %s: killed by signal %d; %.300s", sc.name, fault.c_str(), r.sig, r.err.c_str());
  }
  if (r.status == 125 || r.status == 126) {
    fprintf(stderr, "cannot start the tool\n");
    _exit(3);
  }
  std::string file;
  bool overwrite = !sc.stdout_only && sc.args.back() == sc.input_name;
  if (r.status == 0) {
    if (!sc.stdout_only) {
      if (!read_file(path(sc.args.back()), file)) {
        fw::fail("%s with %s: exit status 0 but no output file", sc.name, fault.c_str());
      }
      if (file != b.file) {
        fw::fail("%s with %s: exit status 0 but the output (%zu bytes) is not the complete image (%zu bytes)", sc.name, fault.c_str(), file.size(), b.file.size());
      }
    }
    if (r.out != b.out) {
      fw::fail("%s with %s: exit status 0 but standard output is incomplete (%zu of %zu bytes)", sc.name, fault.c_str(), r.out.size(), b.out.size());
    }
  }
  if (!overwrite) {
    if (!read_file(path(sc.input_name), file) || file != sc.input) {
      fw::fail("%s with %s: the input file was changed", sc.name, fault.c_str());
    }
  }
  fw::seen(fw::hash(fault.data(), fault.size(), (u64)r.status * 131 + (&sc - &SC[0])));
  fw::compared();
  if (r.status != 0) {
    fw::nontrivial();
  }
}

struct Case {
  int sc;
  Fault f;
  std::string text;
};

int main(int argc, char **argv) {
  scenarios();
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    static std::vector<Baseline> B;
    static std::vector<Case> C, Cap;
    mem_init();
    if (B.empty()) {
      for (size_t k = 0; k < SC.size(); k++) {
        B.push_back(baseline((int)k));
      }
      for (size_t k = 0; k < SC.size(); k++) {
        for (size_t i = 0; i < B[k].ev.size(); i++) {
          const Ev &e = B[k].ev[i];
          auto add = [&](int err, long sh, bool later) {
            Fault f;
            f.at = (long)i;
            f.err = err;
            f.shorten = sh;
            f.later = later;
            static const char *roles[] = {"input", "output", "stdout", "memory"};
            std::string what = err ? fw::str("%s", strerror(err)) : fw::str("only %ld of %llu bytes", sh, (unsigned long long)e.count);
            C.push_back({(int)k, f, fw::str("call %zu (%s of %s): %s%s", i, kname[e.kind], roles[e.role], what.c_str(), later ? ", and the same for all later ones" : "")});
          };
          switch (e.kind) {
          case K_OPEN:
            for (int x : {ENOENT, EACCES, EMFILE, EINTR, EIO}) {
              add(x, -1, false);
            }
            break;
          case K_READ:
            for (int x : {EIO, EINTR}) {
              add(x, -1, false);
            }
            add(EIO, -1, true);
            for (long sh : {1l, 7l, (long)e.count / 2, (long)e.count - 1}) {
              if (sh > 0 && sh < (long)e.count) {
                add(0, sh, false);
              }
            }
            break;
          case K_WRITE:
            for (int x : {ENOSPC, EIO, EDQUOT, EINTR, EFBIG}) {
              add(x, -1, false);
            }
            add(ENOSPC, -1, true);
            for (long sh : {1l, (long)e.count / 2, (long)e.count - 1}) {
              if (sh > 0 && sh < (long)e.count) {
                add(0, sh, false);
                add(0, sh, true);
              }
            }
            break;
          case K_CLOSE:
            for (int x : {EIO, ENOSPC, EDQUOT}) {
              add(x, -1, false);
            }
            break;
          case K_SEEK:
          case K_STAT:
          case K_OTHER:
            add(EIO, -1, false);
            break;
          case K_MEM:
            add(ENOMEM, -1, false);
            add(ENOMEM, -1, true);
            break;
          }
        }
        if (!SC[k].stdout_only) {
          long n = (long)B[k].file.size();
          for (long c = 0; c < n; c += (n < 1500 ? 1 : c > n - 40 ? 1 : 37)) {
            Fault f;
            f.capacity = c;
            Cap.push_back({(int)k, f, fw::str("a disk with room for %ld of %ld bytes", c, n)});
          }
        }
      }
    }
    {
      fw::Suite s;
      s.name = "normal";
      s.what = "every scenario without a fault succeeds";
      s.count = SC.size();
      s.run = [](u64 i) {
        prepare(SC[i]);
        Traced t = trace(SC[i], Fault());
        if (t.r.status != 0 || t.ev.empty()) {
          fw::fail("%s: exit status %d without any fault: %.300s", SC[i].name, t.r.status, t.r.err.c_str());
        }
        judge_fault(SC[i], t.r, B[i], "no fault");
      };
      s.describe = [](u64 i) { return SC[i].name; };
      s.chunk = 1;
      S.push_back(s);
    }
    {
      fw::Suite s;
      s.name = "syscalls";
      s.what = "10 scenarios x every system call on the input, output, standard output and memory x every error and short transfer, alone or from there on";
      s.count = C.size();
      s.run = [](u64 i) {
        const Case &c = C[i];
        prepare(SC[c.sc]);
        Traced t = trace(SC[c.sc], c.f);
        judge_fault(SC[c.sc], t.r, B[c.sc], c.text);
      };
      s.describe = [](u64 i) { return std::string(SC[C[i].sc].name) + ": " + C[i].text; };
      s.chunk = 10;
      S.push_back(s);
    }
    {
      fw::Suite s;
      s.name = "disk-full";
      s.what = "the output disk is full after every possible number of bytes (large files: every 37th and the last 40)";
      s.count = Cap.size();
      s.run = [](u64 i) {
        const Case &c = Cap[i];
        prepare(SC[c.sc]);
        Traced t = trace(SC[c.sc], c.f);
        judge_fault(SC[c.sc], t.r, B[c.sc], c.text);
        if (t.r.status == 0) {
          fw::fail("%s with %s: exit status 0", SC[c.sc].name, c.text.c_str());
        }
      };
      s.describe = [](u64 i) { return std::string(SC[Cap[i].sc].name) + ": " + Cap[i].text; };
      s.chunk = 20;
      S.push_back(s);
    }
    { // really full device
      static std::vector<Args> A;
      if (A.empty()) {
        for (const char *p : {"flip_x", "threshold", "histogram", "border 00FF00 40"}) {
          A.push_back({"in.png", p, "full.png"});
          A.push_back({"in.png", p, "full.jpg"});
          A.push_back({"in.png", p, "full"});
        }
        A.push_back({"in.png", "detect_corners"});
        A.push_back({"in.png", "detect_corners", "out.png"});
        A.push_back({"in.png", "draw_corners", "out.png"});
      }
      fw::Suite s;
      s.name = "dev-full";
      s.what = "output or standard output on /dev/full";
      s.count = A.size();
      s.run = [](u64 i) {
        clean();
        Img m = page(60, 48);
        write_file(path("in.png"), ref_png(m.w, m.h, 4, m.px.data()));
        bool std_full = A[i][1] == "detect_corners" || A[i][1] == "draw_corners";
        if (!std_full && symlink("/dev/full", path(A[i].back()).c_str()) != 0) {
          fw::fail("symlink");
        }
        Res r = run(A[i], std_full ? "/dev/full" : nullptr);
        if (r.sig || r.status == 0) {
          fw::fail("%s on a full device: %s %d", show(A[i]).c_str(), r.sig ? "signal" : "exit status", r.sig ? r.sig : r.status);
        }
        fw::compared();
      };
      s.describe = [](u64 i) { return show(A[i]); };
      s.chunk = 2;
      S.push_back(s);
    }
    { // allocations
      static std::vector<Scenario> M;
      if (M.empty()) {
        Img s = image(9, 7, F_HASH, 1), pg = page(60, 48);
        std::string sp = ref_png(s.w, s.h, 4, s.px.data()), pp = ref_png(pg.w, pg.h, 4, pg.px.data());
        static std::vector<std::string> names;
        for (const char *t : {"grayscale", "blur 2", "resize 50%", "resize 5x4", "resize 2 0.5", "threshold", "bw_smart", "bw_smooth", "sobel", "circle FF0000 2 3x3", "disk FF0000 2 3x3", "watershed 1x1 5x3", "crop 4x3+1+1", "flip_x", "flip_y", "rotate 0", "rotate 90", "rotate 180", "rotate 270", "trim", "trim 5%", "histogram", "border 112233 2", "erode 1", "dilate 1", "close 1", "open 1", "flip_x,flip_y,rotate 90,rotate 90,flip_x,flip_y,flip_x,flip_y,flip_x,trim"}) {
          names.push_back(t);
        }
        names.reserve(100);
        for (auto &t : names) {
          M.push_back({t.c_str(), {"in.png", t, "out.png"}, false, "in.png", sp});
        }
        for (const char *t : {"draw_corners", "extract_document", "extract_document_to 30x20", "detect_corners"}) {
          names.push_back(t);
          M.push_back({names.back().c_str(), {"in.png", t, "out.png"}, false, "in.png", pp});
        }
        for (auto &x : SC) {
          M.push_back(x);
        }
      }
      static auto run_mem = [](const Scenario &sc, long at, bool later) {
        prepare(sc);
        mem_init();
        mem_ctl[0] = 0;
        mem_ctl[1] = at;
        mem_ctl[2] = later;
        mem_ctl[3] = 0;
        fw::calls();
        std::string fd = std::to_string(mem_fd);
        pid_t p = spawn(binary(), sc.args, [&] {
          setenv("FCVERIF_FD", fd.c_str(), 1);
          setenv("MALLOC_PERTURB_", "165", 1);
        });
        return wait_res(p, sc.args);
      };
      static std::vector<std::pair<int, long>> at; // scenario, allocation
      static std::vector<Baseline> MB;
      if (at.empty()) {
        for (int k = 0; k < (int)M.size(); k++) {
          Res r = run_mem(M[k], -1, false);
          Baseline b;
          b.out = r.out;
          if (!M[k].stdout_only) {
            read_file(path(M[k].args.back()), b.file);
          }
          MB.push_back(b);
          long n = mem_ctl[0];
          if (getenv("C23_COUNTS")) {
            fprintf(stderr, "%ld allocations: %s\n", n, M[k].name);
          }
          for (long i = 0; i < n; i += (!fw::thorough && n > 1000 && i > 300 && i < n - 100) ? 37 : 1) {
            at.push_back({k, i});
          }
        }
      }
      fw::Suite s;
      s.name = "allocations";
      s.what = fw::str("%d pipelines x every allocation%s failing alone or together with all later ones", (int)M.size(), fw::thorough ? "" : " (of more than 1000: the first 300, last 100 and every 37th)");
      s.count = at.size() * 2;
      auto desc = [](u64 i) { return fw::str("%s: allocation %ld%s fails", M[at[i / 2].first].name, at[i / 2].second, i & 1 ? " and every later one" : ""); };
      s.describe = desc;
      s.run = [=](u64 i) {
        auto a = at[i / 2];
        const Scenario &sc = M[a.first];
        Res r = run_mem(sc, a.second, i & 1);
        judge_fault(sc, r, MB[a.first], desc(i));
      };
      s.chunk = 60;
      S.push_back(s);
    }
  });
}
