// Exhaustive-exploration framework.
//
// A check is a list of suites; a suite is a finite, indexable space of cases
// 0..count-1.  All cases of all suites are executed, split into fixed chunks;
// every chunk runs in a freshly forked child so that its call history is
// deterministic.  A crash, sanitizer report, hang or reference mismatch is
// attributed to (suite, index) and can be replayed alone (--idx) or with the
// history of its chunk (--chunk/--upto).
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;

namespace fw {

struct Suite {
  std::string name;
  std::string what; // human description of the space
  u64 count;
  std::function<void(u64)> run;
  std::function<std::string(u64)> describe;
  u64 chunk = 0; // 0: default
  double hang_s = 30;
};

struct Fail {
  char suite[64];
  u64 idx;
  u64 chunk_first;
  int kind; // 0 mismatch, 1 crash, 2 hang
  char msg[1500];
};

static const int MAXW = 64;
static const u64 DT = 1ull << 24;
struct Shared {
  std::atomic<u64> evals, calls, compared, distinct, nontrivial;
  std::atomic<u64> cur[MAXW];
  std::atomic<u64> started[MAXW];
  std::atomic<int> nfail;
  Fail fails[64];
  std::atomic<int> nknown; // first occurrence of every KEY=... finding
  Fail known[32];
  std::atomic<u64> table[DT];
};
static Shared *sh = nullptr;
static int worker = 0;
static bool verbose = false;
static bool thorough = false;
static std::string scratch = "/tmp";
static u64 cur_chunk_first = 0;
static std::string cur_suite;
static u64 cur_idx = 0;

struct CaseFail {
  std::string msg;
};

[[noreturn]] __attribute__((format(printf, 1, 2))) static void
fail(const char *fmt, ...) {
  char b[1400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw CaseFail{b};
}

// local (per child) counters, flushed at chunk end
static u64 l_evals, l_calls, l_compared, l_nontrivial;
inline void calls(u64 n = 1) { l_calls += n; }
inline void compared(u64 n = 1) { l_compared += n; }
inline void nontrivial(u64 n = 1) { l_nontrivial += n; }

inline u64 mix(u64 h) {
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return h;
}
inline u64 hash(const void *p, size_t n, u64 seed = 0x9e3779b97f4a7c15ULL) {
  const u8 *b = (const u8 *)p;
  u64 h = seed ^ (n * 0x100000001b3ULL);
  while (n >= 8) {
    u64 v;
    memcpy(&v, b, 8);
    h = (h ^ mix(v)) * 0x9fb21c651e98df25ULL;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n--) {
    h = (h ^ *b++) * 0x100000001b3ULL;
  }
  return mix(h);
}
// record an observed state (image, outcome, ...); exact distinct count
// up to DT/2 entries, a lower bound after that
static void seen(u64 h) {
  if (h == 0) {
    h = 1;
  }
  if (!sh || sh->distinct.load(std::memory_order_relaxed) > DT / 2) {
    return;
  }
  u64 i = h & (DT - 1);
  for (int k = 0; k < 256; k++, i = (i + 1) & (DT - 1)) {
    u64 v = sh->table[i].load(std::memory_order_relaxed);
    if (v == h) {
      return;
    }
    if (v == 0) {
      u64 z = 0;
      if (sh->table[i].compare_exchange_strong(z, h)) {
        sh->distinct++;
        return;
      }
      if (z == h) {
        return;
      }
    }
  }
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// A finding with a key (see known_findings.json): recorded once per key, does
// not stop the exploration; the runner decides whether the key is listed.
static std::vector<std::string> known_keys;
static void known(const std::string &key, const std::string &msg) {
  for (auto &k : known_keys) {
    if (k == key) {
      return;
    }
  }
  known_keys.push_back(key);
  if (verbose || !sh) {
    printf("FINDING %s: %s\n", key.c_str(), msg.c_str());
  }
  if (!sh) {
    return;
  }
  int n = std::min(32, sh->nknown.load());
  for (int i = 0; i < n; i++) {
    if (key == sh->known[i].suite) {
      return;
    }
  }
  int k = sh->nknown.fetch_add(1);
  if (k < 32) {
    Fail &f = sh->known[k];
    snprintf(f.suite, sizeof f.suite, "%s", key.c_str());
    f.idx = cur_idx;
    f.chunk_first = cur_chunk_first;
    f.kind = 3;
    snprintf(f.msg, sizeof f.msg, "%s|%s", cur_suite.c_str(), msg.c_str());
  }
}

static void add_fail(const std::string &suite, u64 idx, u64 first, int kind, const std::string &msg) {
  int k = sh->nfail.fetch_add(1);
  if (k < 64) {
    Fail &f = sh->fails[k];
    snprintf(f.suite, sizeof f.suite, "%s", suite.c_str());
    f.idx = idx;
    f.chunk_first = first;
    f.kind = kind;
    snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
  }
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    }
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else {
      o += c;
    }
  }
  return o + "\"";
}

static int run_range(Suite &s, u64 first, u64 last) {
  int bad = 0;
  cur_suite = s.name;
  cur_chunk_first = first;
  for (u64 i = first; i < last; i++) {
    cur_idx = i;
    if (sh) {
      sh->cur[worker].store(i, std::memory_order_relaxed);
    }
    l_evals++;
    try {
      s.run(i);
    } catch (CaseFail &f) {
      bad++;
      if (sh) {
        add_fail(s.name, i, first, 0, f.msg);
      }
      if (verbose || !sh) {
        printf("MISMATCH suite=%s idx=%llu: %s\n", s.name.c_str(), (unsigned long long)i, f.msg.c_str());
      }
      if (bad >= 3) {
        break;
      }
    }
  }
  return bad;
}

static std::string tail(const std::string &path, size_t n) {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) {
    return "";
  }
  std::string s;
  char b[4096];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) {
    s.append(b, k);
    if (s.size() > (8u << 20)) {
      s.erase(0, 4u << 20);
    }
  }
  fclose(f);
  // prefer the sanitizer headline
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) {
    p = s.find("runtime error:");
    if (p != std::string::npos) {
      size_t q = s.rfind('\n', p);
      p = q == std::string::npos ? 0 : q + 1;
    }
  }
  if (p != std::string::npos) {
    return s.substr(p, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

static int main_(int argc, char **argv, const std::function<void(std::vector<Suite> &)> &reg) {
  int workers = 8;
  std::string out, only;
  long long idx = -1, first = -1;
  double deadline = 1e18;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { return argv[++i]; };
    if (a == "--tier") {
      thorough = std::string(val()) == "thorough";
    }
    else if (a == "--workers") {
      workers = atoi(val());
    }
    else if (a == "--out") {
      out = val();
    }
    else if (a == "--suite") {
      only = val();
    }
    else if (a == "--idx") {
      idx = atoll(val());
    }
    else if (a == "--from") {
      first = atoll(val());
    }
    else if (a == "--scratch") {
      scratch = val();
    }
    else if (a == "--deadline") {
      deadline = now() + atof(val());
    }
    else {
      fprintf(stderr, "bad arg %s\n", a.c_str());
      return 2;
    }
  }
  if (workers > MAXW) {
    workers = MAXW;
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::vector<Suite> suites;
  reg(suites);

  if (idx >= 0) { // replay: case idx of suite, optionally with history first..idx
    for (auto &s : suites) {
      if (s.name == only) {
        if (idx >= (long long)s.count) {
          fprintf(stderr, "index out of range\n");
          return 2;
        }
        verbose = true;
        printf("REPLAY suite=%s idx=%lld%s\n  %s\n", s.name.c_str(), idx, first >= 0 ? " with chunk history" : "", s.describe ? s.describe(idx).c_str() : "");
        int bad = 0;
        if (first >= 0) {
          cur_chunk_first = first;
          for (u64 i = first; i <= (u64)idx; i++) {
            cur_idx = i;
            try {
              s.run(i);
            } catch (CaseFail &f) {
              if (i == (u64)idx) {
                printf("MISMATCH suite=%s idx=%llu: %s\n", s.name.c_str(), (unsigned long long)i, f.msg.c_str());
                bad = 1;
              }
            }
          }
        }
        else {
          bad = run_range(s, idx, idx + 1);
        }
        printf(bad ? "REPLAY-RESULT violated\n" : "REPLAY-RESULT ok\n");
        fflush(stdout);
        _exit(bad ? 1 : 0);
      }
    }
    fprintf(stderr, "no such suite\n");
    return 2;
  }

  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  struct Job {
    size_t s;
    u64 a, b;
  };
  std::vector<Job> jobs;
  for (size_t k = 0; k < suites.size(); k++) {
    if (!only.empty() && suites[k].name != only) {
      continue;
    }
    u64 c = suites[k].chunk;
    if (!c) {
      c = (suites[k].count + 63) / 64;
      if (c == 0) {
        c = 1;
      }
    }
    for (u64 a = 0; a < suites[k].count; a += c) {
      jobs.push_back({k, a, std::min(suites[k].count, a + c)});
    }
  }
  struct W {
    pid_t pid = 0;
    size_t job;
    u64 last = ~0ull;
    double since;
  };
  std::vector<W> w(workers);
  size_t next = 0, done = 0;
  bool capped = false;
  std::vector<double> suite_cpu(suites.size(), 0), suite_t(suites.size(), 0);
  std::vector<u64> suite_done(suites.size(), 0);
  double t0 = now();
  auto errfile = [&](int k) { return scratch + "/stderr." + std::to_string(k); };
  while (true) {
    int active = 0;
    for (int k = 0; k < workers; k++) {
      if (w[k].pid == 0) {
        if (next >= jobs.size() || sh->nfail.load() >= 12) {
          continue;
        }
        if (now() > deadline) {
          capped = true;
          continue;
        }
        size_t j = next++;
        Job &jb = jobs[j];
        sh->cur[k].store(jb.a);
        fflush(stdout);
        pid_t p = fork();
        if (p < 0) {
          perror("fork");
          return 2;
        }
        if (p == 0) {
          worker = k;
          int fd = open(errfile(k).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
          if (fd >= 0) {
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
          }
          run_range(suites[jb.s], jb.a, jb.b);
          sh->evals += l_evals;
          sh->calls += l_calls;
          sh->compared += l_compared;
          sh->nontrivial += l_nontrivial;
          _exit(42); // not 0: the code under test might end the process
        }
        w[k].pid = p;
        w[k].job = j;
        w[k].last = ~0ull;
        w[k].since = now();
        active++;
        continue;
      }
      active++;
      int st;
      struct rusage ru;
      pid_t r = wait4(w[k].pid, &st, WNOHANG, &ru);
      Job &jb = jobs[w[k].job];
      Suite &s = suites[jb.s];
      if (r == w[k].pid) {
        suite_cpu[jb.s] += ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6 + ru.ru_stime.tv_sec + ru.ru_stime.tv_usec * 1e-6;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
          suite_done[jb.s] += jb.b - jb.a;
        }
        else {
          u64 i = sh->cur[k].load();
          char b[128];
          if (WIFSIGNALED(st)) {
            snprintf(b, sizeof b, "process killed by signal %d; ", WTERMSIG(st));
          }
          else {
            snprintf(b, sizeof b, "process ended with status %d; ", WEXITSTATUS(st));
          }
          add_fail(s.name, i, jb.a, 1, b + tail(errfile(k), 1200));
        }
        done++;
        w[k].pid = 0;
        k--; // reuse the slot at once
        active--;
        continue;
      }
      u64 c = sh->cur[k].load();
      if (c != w[k].last) {
        w[k].last = c;
        w[k].since = now();
      }
      else if (now() - w[k].since > s.hang_s) {
        kill(w[k].pid, SIGKILL);
        waitpid(w[k].pid, &st, 0);
        char b[128];
        snprintf(b, sizeof b, "case did not finish within %.0f s", s.hang_s);
        add_fail(s.name, c, jb.a, 2, b);
        done++;
        w[k].pid = 0;
      }
    }
    if (!active) {
      break;
    }
    usleep(2000);
  }
  for (int k = 0; k < workers; k++) {
    unlink(errfile(k).c_str());
  }
  // result
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) {
    perror("out");
    return 2;
  }
  int nf = std::min(64, sh->nfail.load());
  fprintf(f, "{\n \"evaluations\": %llu, \"calls\": %llu, \"compared\": %llu, \"distinct\": %llu, \"nontrivial\": %llu,\n", (unsigned long long)sh->evals.load(), (unsigned long long)sh->calls.load(), (unsigned long long)sh->compared.load(), (unsigned long long)sh->distinct.load(), (unsigned long long)sh->nontrivial.load());
  fprintf(f, " \"capped\": %s, \"wall\": %.2f, \"jobs\": %zu, \"jobs_done\": %zu,\n \"suites\": [", capped ? "true" : "false", now() - t0, jobs.size(), done);
  bool firsts = true;
  for (size_t k = 0; k < suites.size(); k++) {
    Suite &s = suites[k];
    fprintf(f, "%s\n  {\"name\": %s, \"what\": %s, \"cases\": %llu, \"done\": %llu, \"cpu\": %.1f, \"samples\": [", firsts ? "" : ",", jstr(s.name).c_str(), jstr(s.what).c_str(), (unsigned long long)s.count, (unsigned long long)suite_done[k], suite_cpu[k]);
    firsts = false;
    if (s.describe && s.count) {
      u64 pts[3] = {0, s.count / 2, s.count - 1};
      for (int i = 0; i < 3; i++) {
        fprintf(f, "%s%s", i ? ", " : "", jstr(s.describe(pts[i])).c_str());
      }
    }
    fprintf(f, "]}");
  }
  fprintf(f, "\n ],\n \"fails\": [");
  for (int k = 0; k < nf; k++) {
    Fail &x = sh->fails[k];
    std::string d;
    for (auto &s : suites) {
      if (s.name == x.suite && s.describe) {
        d = s.describe(x.idx);
      }
    }
    fprintf(f, "%s\n  {\"suite\": %s, \"idx\": %llu, \"from\": %llu, \"kind\": %d, \"case\": %s, \"msg\": %s}", k ? "," : "", jstr(x.suite).c_str(), (unsigned long long)x.idx, (unsigned long long)x.chunk_first, x.kind, jstr(d).c_str(), jstr(x.msg).c_str());
  }
  fprintf(f, "\n ],\n \"known\": [");
  int nk = std::min(32, sh->nknown.load());
  for (int k = 0; k < nk; k++) {
    Fail &x = sh->known[k];
    std::string m = x.msg, sn = m.substr(0, m.find('|')), d;
    for (auto &s : suites) {
      if (s.name == sn && s.describe) {
        d = s.describe(x.idx);
      }
    }
    fprintf(f, "%s\n  {\"key\": %s, \"suite\": %s, \"idx\": %llu, \"from\": %llu, \"case\": %s, \"msg\": %s}", k ? "," : "", jstr(x.suite).c_str(), jstr(sn).c_str(), (unsigned long long)x.idx, (unsigned long long)x.chunk_first, jstr(d).c_str(), jstr(m.substr(m.find('|') + 1)).c_str());
  }
  fprintf(f, "\n ]\n}\n");
  if (f != stdout) {
    fclose(f);
  }
  return 0;
}

__attribute__((format(printf, 1, 2))) static std::string str(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}

// mixed-radix decoding of an index
struct Dec {
  u64 v;
  explicit Dec(u64 i) : v(i) {}
  u64 take(u64 n) {
    u64 r = v % n;
    v /= n;
    return r;
  }
};
} // namespace fw
