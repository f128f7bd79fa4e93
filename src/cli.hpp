// Runs the real command-line tool (built from the tree under test) and judges
// its exit status, messages and output file.
#pragma once
#include "lib.hpp"
#include <dirent.h>
#include <poll.h>
#include <sys/prctl.h>

bool ref_decode(const std::string &file, u32 &w, u32 &h, Bytes &rgba);
std::string ref_png(u32 w, u32 h, int channels, const u8 *data);
std::string ref_jpg(u32 w, u32 h, int channels, const u8 *data, int quality);
std::string ref_bmp(u32 w, u32 h, int channels, const u8 *data);
std::string ref_tga(u32 w, u32 h, int channels, const u8 *data);

namespace cli {
typedef std::vector<std::string> Args;

struct Img {
  u32 w = 0, h = 0;
  Bytes px; // RGBA
};

inline std::string exe_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) {
    fprintf(stderr, "readlink\n");
    exit(2);
  }
  b[n] = 0;
  return std::string(b).substr(0, std::string(b).rfind('/'));
}
inline const std::string &binary() {
  static std::string s = exe_dir() + "/flatcv";
  return s;
}
// working directory of the tool, private to this worker
inline const std::string &dir() {
  static std::string d;
  static int owner = -1; // the main process sets up suites, then workers fork
  if (owner != (int)getpid()) {
    owner = (int)getpid();
    char *abs = realpath(fw::scratch.c_str(), nullptr);
    d = std::string(abs ? abs : fw::scratch) + "/cli" + std::to_string(fw::worker);
    free(abs);
    mkdir(d.c_str(), 0700);
  }
  return d;
}
inline std::string path(const std::string &name) { return dir() + "/" + name; }

inline bool read_file(const std::string &p, std::string &s) {
  s.clear();
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) {
    return false;
  }
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) {
    s.append(b, (size_t)k);
  }
  close(fd);
  return k == 0;
}
inline void write_file(const std::string &p, const std::string &s) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size() || close(fd) != 0) {
    fprintf(stderr, "cannot write %s\n", p.c_str());
    _exit(3);
  }
}
inline void clean() {
  DIR *d = opendir(dir().c_str());
  if (!d) {
    return;
  }
  std::vector<std::string> names;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") {
      names.push_back(n);
    }
  }
  closedir(d);
  for (auto &n : names) {
    if (unlink(path(n).c_str()) != 0) {
      rmdir(path(n).c_str());
    }
  }
}

inline std::string show(const Args &a) {
  std::string s = "flatcv";
  for (auto &x : a) {
    s += " '" + (x.size() > 160 ? x.substr(0, 150) + "..." : x) + "'";
  }
  return s;
}

struct Res {
  int status = -1; // exit status, or -1
  int sig = 0;
  std::string out, err;
};

inline Res wait_res(pid_t p, const Args &args) {
  int st = 0;
  if (waitpid(p, &st, 0) != p) {
    fw::fail("waitpid failed");
  }
  Res r;
  if (WIFEXITED(st)) {
    r.status = WEXITSTATUS(st);
  }
  else {
    r.sig = WTERMSIG(st);
  }
  read_file(path(".stdout"), r.out);
  read_file(path(".stderr"), r.err);
  return r;
}

// start the tool in dir() with redirected output; the pre hook runs in the child
inline pid_t spawn(const std::string &bin, const Args &args, const std::function<void()> &pre = nullptr, const char *stdout_to = nullptr) {
  fflush(stdout);
  pid_t parent = getpid();
  std::vector<char *> av;
  av.push_back((char *)"flatcv");
  for (auto &a : args) {
    av.push_back((char *)a.c_str());
  }
  av.push_back(nullptr);
  std::string so = stdout_to ? stdout_to : path(".stdout"), se = path(".stderr"), d = dir();
  pid_t p = fork();
  if (p < 0) {
    perror("fork");
    _exit(3);
  }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) {
      _exit(125);
    }
    int i = open("/dev/null", O_RDONLY), o = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (o < 0 || e < 0 || chdir(d.c_str()) != 0) {
      _exit(125);
    }
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    close(i);
    close(o);
    close(e);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (pre) {
      pre();
    }
    execv(bin.c_str(), av.data());
    _exit(126);
  }
  return p;
}

inline Res run(const Args &args, const char *stdout_to = nullptr) {
  fw::calls();
  Res r = wait_res(spawn(binary(), args, nullptr, stdout_to), args);
  if (r.status == 125 || r.status == 126) {
    fprintf(stderr, "cannot start the tool\n");
    _exit(3);
  }
  return r;
}

// whatever happens, the tool must end by itself with status 0 or 1
inline void sane(const Args &a, const Res &r) {
  if (r.sig || (r.status != 0 && r.status != 1)) {
    size_t p = r.err.find("ERROR: AddressSanitizer");
    fw::fail("%s: %s %d; %s", show(a).c_str(), r.sig ? "killed by signal" : "ended with status", r.sig ? r.sig : r.status, (p == std::string::npos ? r.err.substr(r.err.size() > 400 ? r.err.size() - 400 : 0) : r.err.substr(p, 400)).c_str());
  }
}

inline void expect_same(const Args &a, const std::string &file, const Img &want, const char *what = "output") {
  Img got;
  if (!ref_decode(file, got.w, got.h, got.px)) {
    fw::fail("%s: exit status 0 but the %s file (%zu bytes) is not an image", show(a).c_str(), what, file.size());
  }
  if (got.w != want.w || got.h != want.h) {
    fw::fail("%s: %s is %ux%u instead of %ux%u", show(a).c_str(), what, got.w, got.h, want.w, want.h);
  }
  for (size_t i = 0; i < want.px.size(); i++) {
    if (got.px[i] != want.px[i]) {
      fw::fail("%s: %s (%ux%u) pixel (%zu,%zu) channel %zu is %u instead of %u", show(a).c_str(), what, got.w, got.h, i / 4 % want.w, i / 4 / want.w, i % 4, got.px[i], want.px[i]);
    }
  }
  fw::seen(fw::hash(want.px.data(), want.px.size(), want.w * 1000003ull + want.h));
  fw::compared();
}

// JPEG is lossy: compare with the same picture after a reference encoding
inline void expect_similar(const Args &a, const std::string &file, const Img &want) {
  if (file.size() < 3 || (u8)file[0] != 0xFF || (u8)file[1] != 0xD8) {
    fw::fail("%s: exit status 0 but the output (%zu bytes) is not a JPEG", show(a).c_str(), file.size());
  }
  Img got, ref;
  if (!ref_decode(file, got.w, got.h, got.px)) {
    fw::fail("%s: exit status 0 but the output (%zu bytes) cannot be decoded", show(a).c_str(), file.size());
  }
  if (got.w != want.w || got.h != want.h) {
    fw::fail("%s: output is %ux%u instead of %ux%u", show(a).c_str(), got.w, got.h, want.w, want.h);
  }
  std::string rj = ref_jpg(want.w, want.h, 4, want.px.data(), 90);
  if (!ref_decode(rj, ref.w, ref.h, ref.px)) {
    fw::fail("reference JPEG");
  }
  double sum = 0;
  for (size_t i = 0; i < ref.px.size(); i++) {
    sum += abs(ref.px[i] - got.px[i]);
  }
  double mean = sum / std::max<size_t>(1, ref.px.size());
  if (mean > 4) {
    fw::fail("%s: JPEG output differs by %.1f levels on average", show(a).c_str(), mean);
  }
  fw::seen(fw::hash(want.px.data(), want.px.size(), want.w * 1000003ull + want.h));
  fw::compared();
}

// the tool must refuse: non-zero status, a message, output path untouched
inline void expect_refused(const Args &a, const Res &r, const std::string &outname, const std::string *before) {
  sane(a, r);
  if (r.status == 0) {
    fw::fail("%s: exit status 0 for an invalid request; stderr: %.300s", show(a).c_str(), r.err.c_str());
  }
  if (r.err.empty() && r.out.empty()) {
    fw::fail("%s: fails without a message", show(a).c_str());
  }
  std::string now;
  bool exists = read_file(path(outname), now);
  if (exists != (before != nullptr) || (before && now != *before)) {
    fw::fail("%s: fails but %s the output file", show(a).c_str(), before ? "changes" : "creates");
  }
  size_t e = r.err.find("Error"); // the rest contains timings
  std::string msg = e == std::string::npos ? "" : r.err.substr(e, r.err.find('\n', e) - e);
  fw::seen(fw::hash(msg.data(), msg.size()));
  fw::compared();
}
} // namespace cli
