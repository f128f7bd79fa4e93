// C20: EXIF orientation, read by the library and applied by the tool.
#include "cliops.hpp"
#include <set>
using namespace cli;

// ------------------------------------------------------- reference reader
// Works on the bytes in memory. Where the EXIF specification leaves room (or
// a file is broken in a way that a careful reader may or may not look
// through) several answers are acceptable.
struct Ref {
  std::set<int> ok;
};
static u32 get(const std::string &f, size_t p, int n, bool le) {
  u32 v = 0;
  for (int k = 0; k < n; k++) {
    v |= (u32)(u8)f[p + k] << (8 * (le ? k : n - 1 - k));
  }
  return v;
}
static int valid_or_1(u32 v) { return v >= 1 && v <= 8 ? (int)v : 1; }

static Ref reference(const std::string &f) {
  Ref r;
  size_t n = f.size();
  auto done = [&](std::initializer_list<int> v) {
    r.ok.insert(v.begin(), v.end());
    return r;
  };
  if (n < 2 || (u8)f[0] != 0xFF || (u8)f[1] != 0xD8) {
    return done({1});
  }
  size_t p = 2;
  while (true) {
    if (p + 2 > n || (u8)f[p] != 0xFF) {
      return done({1});
    }
    while (p < n && (u8)f[p] == 0xFF) { // any number of fill bytes
      p++;
    }
    if (p >= n) {
      return done({1});
    }
    u8 m = (u8)f[p++];
    if (m == 0xD9 || m == 0xDA) {
      return done({1});
    }
    if (m == 0x00 || m == 0x01 || (m >= 0xD0 && m <= 0xD8)) {
      // no segment: stand-alone marker in an odd place; nothing is required
      for (int k = 1; k <= 8; k++) {
        r.ok.insert(k);
      }
      return r;
    }
    if (p + 2 > n) {
      return done({1});
    }
    u32 size = get(f, p, 2, false);
    if (size < 2) {
      return done({1});
    }
    size_t end = p + size, body = p + 2;
    if (m != 0xE1) {
      p = end;
      continue;
    }
    bool exif = body + 6 <= n && memcmp(&f[body], "Exif\0\0", 6) == 0;
    if (!exif) {
      if (end > n) {
        return done({1});
      }
      p = end;
      continue;
    }
    // anything wrong from here on: 1, or what a later Exif segment says
    bool tolerate = false;
    if (body + 6 > end) {
      tolerate = true; // header crosses the segment end
    }
    size_t tiff = body + 6;
    auto broken = [&]() {
      r.ok.insert(1);
      if (end <= n) { // a reader may go on searching
        Ref rest = reference(std::string("\xFF\xD8", 2) + f.substr(end));
        r.ok.insert(rest.ok.begin(), rest.ok.end());
      }
      return r;
    };
    if (tiff + 8 > n) {
      return broken();
    }
    bool le = f[tiff] == 'I' && f[tiff + 1] == 'I', be = f[tiff] == 'M' && f[tiff + 1] == 'M';
    if (!le && !be) {
      return broken();
    }
    if (get(f, tiff + 2, 2, le) != 42) {
      return broken();
    }
    u32 off = get(f, tiff + 4, 4, le);
    if (tiff + 8 > end || off < 8) {
      tolerate = true;
    }
    if ((u64)tiff + off + 2 > end || (u64)tiff + off + 2 > n) {
      return broken();
    }
    size_t ifd = tiff + off;
    u32 cnt = get(f, ifd, 2, le);
    for (u32 k = 0; k < cnt; k++) {
      size_t e = ifd + 2 + 12ull * k;
      bool whole = e + 12 <= end && e + 12 <= n;
      if (e + 2 > n || e + 2 > end) {
        return broken();
      }
      u32 tag = get(f, e, 2, le);
      if (tag != 0x0112) {
        if (!whole) {
          return broken();
        }
        continue;
      }
      if (e + 10 <= n) {
        u32 type = get(f, e + 2, 2, le), count = get(f, e + 4, 4, le);
        int v = valid_or_1(get(f, e + 8, 2, le));
        r.ok.insert(v);
        if (type == 3 && count == 1 && whole && !tolerate && v != 1) {
          return r; // well-formed
        }
        if (type == 3 && count == 1 && whole && !tolerate) {
          return get(f, e + 8, 2, le) == 1 ? r : broken();
        }
        // other integer types may be understood in their own way
        if (type == 4 && e + 12 <= n) {
          r.ok.insert(valid_or_1(get(f, e + 8, 4, le)));
        }
        if (type == 1 || type == 6 || type == 7) {
          r.ok.insert(valid_or_1((u8)f[e + 8]));
        }
      }
      return broken();
    }
    return broken(); // no orientation tag
  }
}

static std::string set_str(const Ref &r) {
  std::string s;
  for (int v : r.ok) {
    s += (s.empty() ? "" : " or ") + std::to_string(v);
  }
  return s;
}

static std::string hex(const std::string &f) {
  std::string s;
  for (size_t i = 0; i < f.size() && i < 160; i++) {
    s += fw::str("%02x", (u8)f[i]);
  }
  return s + (f.size() > 160 ? "..." : "");
}

static int api(const std::string &file) {
  static int fd = -1;
  static char name[64];
  if (fd < 0) {
    fd = memfd_create("exif", 0);
    if (fd < 0) {
      perror("memfd_create");
      _exit(3);
    }
    snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
  }
  if (ftruncate(fd, 0) != 0 || pwrite(fd, file.data(), file.size(), 0) != (ssize_t)file.size()) {
    perror("memfd");
    _exit(3);
  }
  fw::calls();
  return fcv_get_exif_orientation(name);
}

static void judge_api(const std::string &file) {
  Ref want = reference(file);
  int got = api(file);
  if (!want.ok.count(got)) {
    fw::fail("orientation %d instead of %s for %s", got, set_str(want).c_str(), hex(file).c_str());
  }
  fw::seen(fw::hash(file.data(), file.size()));
  fw::compared();
  if (*want.ok.rbegin() != 1) {
    fw::nontrivial();
  }
}

// ------------------------------------------------------------ file builder
static std::string num(u32 v, int n, bool le) {
  std::string s;
  for (int k = 0; k < n; k++) {
    s += (char)(v >> (8 * (le ? k : n - 1 - k)));
  }
  return s;
}
static std::string seg(u8 marker, const std::string &body) { return std::string("\xFF", 1) + (char)marker + num((u32)body.size() + 2, 2, false) + body; }

static std::string entry(u32 tag, u32 type, u32 count, const std::string &val4, bool le) { return num(tag, 2, le) + num(type, 2, le) + num(count, 4, le) + val4; }

struct Spec {
  bool le = true;
  u32 ifd_off = 8;
  int before = 0, after = 0; // other entries
  u32 value = 6;
  u32 tail = 0; // bytes after the IFD
  u32 pad_value = 0; // the unused half of the value field
};
static std::string exif_segment(const Spec &s) {
  std::string t = s.le ? "II" : "MM";
  t += num(42, 2, s.le) + num(s.ifd_off, 4, s.le);
  while (t.size() < s.ifd_off) {
    t += (char)(0xA0 + t.size() % 31);
  }
  t += num((u32)(s.before + s.after + 1), 2, s.le);
  for (int k = 0; k < s.before; k++) {
    // tags around the orientation tag, values that look like it
    static const u32 tags[] = {0x0100, 0x010E, 0x010F, 0x0110, 0x0111, 0x1201, 0x0012};
    t += entry(tags[k % 7], 3, 1, num(k % 8 + 1, 2, s.le) + num(0x0112, 2, s.le), s.le);
  }
  t += entry(0x0112, 3, 1, num(s.value, 2, s.le) + num(s.pad_value, 2, s.le), s.le);
  for (int k = 0; k < s.after; k++) {
    static const u32 tags[] = {0x011A, 0x0113, 0x0132, 0x8769, 0x0112};
    t += entry(tags[k % 4], 4, 1, num(k + 2, 4, s.le), s.le);
  }
  t += num(0, 4, s.le);
  t += std::string(s.tail, '\x12');
  return seg(0xE1, std::string("Exif\0\0", 6) + t);
}

// what may precede the Exif segment
static const std::vector<std::string> &pre() {
  static std::vector<std::string> v;
  if (v.empty()) {
    std::string fake = exif_segment({true, 8, 0, 0, 3});
    v.push_back("");
    v.push_back(seg(0xE0, std::string("JFIF\0\1\1\0\0\1\0\1\0\0", 14)));
    v.push_back(seg(0xFE, "a comment"));
    v.push_back(seg(0xFE, ""));
    v.push_back(seg(0xE1, std::string("http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>", 42)));
    v.push_back(seg(0xE1, "abc"));
    v.push_back(seg(0xE1, ""));
    v.push_back(seg(0xE1, "Exif"));
    v.push_back(seg(0xE2, "ICC_PROFILE" + fake)); // a segment hiding an Exif segment
    v.push_back(seg(0xDB, std::string(65, '\x10')));
    v.push_back("\xFF");
    v.push_back("\xFF\xFF\xFF\xFF\xFF");
    v.push_back(seg(0xED, std::string(60000, '\x33')));
    v.push_back(seg(0xC0, std::string("\x08\x00\x10\x00\x10\x01\x01\x11\x00", 9)));
    v.push_back(seg(0xE1, std::string("Exif\0X", 6) + std::string("II*\0\x08\0\0\0", 8)));
    v.push_back(seg(0xE1, std::string("EXIF\0\0", 6) + std::string("II*\0\x08\0\0\0", 8)));
    v.push_back(seg(0xFE, std::string(65533, '\xFF')));
  }
  return v;
}
static const std::string SOI("\xFF\xD8", 2), SOS("\xFF\xDA\x00\x08\x01\x01\x00\x00\x3F\x00\x12\x34\xFF\xD9", 14);

// upright picture for a stored one (EXIF 2.3, orientation 1..8)
static Img upright(const Img &m, int o) {
  Img r;
  r.w = o >= 5 ? m.h : m.w;
  r.h = o >= 5 ? m.w : m.h;
  r.px.resize(m.px.size());
  for (u32 y = 0; y < m.h; y++) {
    for (u32 x = 0; x < m.w; x++) {
      u32 X = x, Y = y, W = m.w - 1, H = m.h - 1;
      switch (o) {
      case 2:
        X = W - x;
        break;
      case 3:
        X = W - x;
        Y = H - y;
        break;
      case 4:
        Y = H - y;
        break;
      case 5: // row 0 is the left side, column 0 the top
        X = y;
        Y = x;
        break;
      case 6: // row 0 is the right side, column 0 the top
        X = H - y;
        Y = x;
        break;
      case 7: // row 0 is the right side, column 0 the bottom
        X = H - y;
        Y = W - x;
        break;
      case 8: // row 0 is the left side, column 0 the bottom
        X = y;
        Y = W - x;
        break;
      }
      memcpy(&r.px[((size_t)Y * r.w + X) * 4], &m.px[((size_t)y * m.w + x) * 4], 4);
    }
  }
  return r;
}

int main(int argc, char **argv) {
  return fw::main_(argc, argv, [](std::vector<fw::Suite> &S) {
    static const u32 values[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 256, 257, 512, 1536, 2048, 2304, 4096, 32767, 32768, 65535};
    static const u32 offs[] = {8, 9, 10, 14, 26, 100, 255, 256, 257, 4000};
    { // well-formed files
      fw::Suite s;
      s.name = "layouts";
      s.what = "byte order x two preceding segments of 17 kinds x 5 entry counts before x 3 after x 24 values";
      u64 P = pre().size();
      s.count = 2 * P * P * 5 * 3 * 24;
      auto make = [=](u64 i) {
        fw::Dec d(i);
        Spec sp;
        sp.value = values[d.take(24)];
        sp.le = d.take(2);
        static const int nb[] = {0, 1, 2, 7, 40};
        sp.before = nb[d.take(5)];
        sp.after = (int)d.take(3) * 2;
        std::string f = SOI + pre()[d.take(P)];
        return f + pre()[d.take(P)] + exif_segment(sp) + SOS;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // where the IFD lies, what follows it
      fw::Suite s;
      s.name = "ifd";
      s.what = "byte order x 10 IFD offsets x entries before 0..13 x after 0..4 x values 0..9 x trailing bytes x unused half of the value";
      s.count = 2 * 10 * 14 * 5 * 10 * 3 * 3;
      auto make = [](u64 i) {
        fw::Dec d(i);
        Spec sp;
        sp.le = d.take(2);
        sp.ifd_off = offs[d.take(10)];
        sp.before = (int)d.take(14);
        sp.after = (int)d.take(5);
        sp.value = (u32)d.take(10);
        sp.tail = (u32)d.take(3) * 100;
        static const u32 pv[] = {0, 5, 0xFFFF};
        sp.pad_value = pv[d.take(3)];
        return SOI + pre()[1] + exif_segment(sp) + SOS;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // long directories
      static std::vector<int> N;
      for (int n = 0; n <= 600; n++) {
        N.push_back(n);
      }
      for (int n : {767, 768, 1022, 1023, 1024, 2047, 2048, 4095, 4096, 5000, 5400}) {
        N.push_back(n);
      }
      fw::Suite s;
      s.name = "entries";
      s.what = "directories of 1 to 651 and up to 5451 entries x byte order x 8 values x 5 numbers of entries after the orientation";
      s.count = N.size() * 2 * 8 * 5;
      auto make = [](u64 i) {
        fw::Dec d(i);
        Spec sp;
        sp.le = d.take(2);
        sp.value = 1 + (u32)d.take(8);
        static const int na[] = {0, 1, 7, 20, 50};
        sp.after = na[d.take(5)];
        sp.before = N[d.take(N.size())];
        return SOI + exif_segment(sp) + SOS;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // many segments in front
      static std::vector<int> N;
      for (int n = 0; n <= 300; n++) {
        N.push_back(n);
      }
      for (int n : {511, 512, 1023, 1024, 4096, 32768, 65536, 70000}) {
        N.push_back(n);
      }
      fw::Suite s;
      s.name = "segments";
      s.what = "0 to 300 and up to 70000 segments in front of the Exif segment, of 5 sizes from 2 to 65535 bytes (at most 40 MB) x byte order x 2 values";
      s.count = N.size() * 5 * 4;
      auto make = [](u64 i) {
        fw::Dec d(i);
        Spec sp;
        sp.le = d.take(2);
        sp.value = d.take(2) ? 8 : 3;
        static const size_t size[] = {0, 1, 100, 4000, 65533};
        size_t sz = size[d.take(5)];
        int n = N[d.take(N.size())];
        if (n * sz > 40000000) {
          n = (int)(40000000 / sz);
        }
        std::string f = SOI;
        f.reserve(n * (sz + 4) + 200);
        for (int k = 0; k < n; k++) {
          static const u8 mk[] = {0xFE, 0xE2, 0xE1, 0xED, 0xDB, 0xE0, 0xEF};
          f += seg(mk[k % 7], std::string(sz, '\xFF'));
        }
        return f + exif_segment(sp) + SOS;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // every value of every single byte, every truncation
      static std::vector<std::string> B;
      if (B.empty()) {
        for (int le = 0; le < 2; le++) {
          B.push_back(SOI + exif_segment({(bool)le, 8, 0, 0, 6}) + SOS);
          B.push_back(SOI + pre()[1] + pre()[2] + exif_segment({(bool)le, 10, 2, 1, 3, 5}) + SOS);
          B.push_back(SOI + pre()[11] + pre()[5] + exif_segment({(bool)le, 8, 1, 0, 8}) + exif_segment({(bool)le, 8, 0, 0, 5}) + SOS);
          B.push_back(SOI + pre()[14] + exif_segment({(bool)!le, 8, 0, 2, 7}) + SOS);
        }
      }
      static std::vector<std::pair<int, u32>> at; // file, byte
      if (at.empty()) {
        for (int k = 0; k < (int)B.size(); k++) {
          for (u32 p = 0; p < B[k].size(); p++) {
            at.push_back({k, p});
          }
        }
      }
      fw::Suite s;
      s.name = "bytes";
      s.what = "8 files x every byte x all 256 values; every truncation of them";
      s.count = at.size() * 257;
      auto make = [](u64 i) {
        auto a = at[i / 257];
        std::string f = B[a.first];
        u32 v = (u32)(i % 257);
        if (v == 256) {
          return f.substr(0, a.second);
        }
        f[a.second] = (char)v;
        return f;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // pairs of bytes in the smallest file
      static std::string f = SOI + exif_segment({false, 8, 0, 0, 6}) + SOS;
      static const u8 vals[] = {0x00, 0x01, 0x02, 0x08, 0x12, 0x2A, 0x49, 0x4D, 0xD8, 0xE1, 0xFE, 0xFF};
      fw::Suite s;
      s.name = "byte-pairs";
      s.what = "the smallest file: every pair of bytes x 12 x 12 values";
      u64 n = f.size();
      s.count = n * (n - 1) / 2 * 144;
      auto make = [=](u64 i) {
        fw::Dec d(i);
        u8 a = vals[d.take(12)], b = vals[d.take(12)];
        u64 k = d.v, x = 0;
        while (k >= n - 1 - x) {
          k -= n - 1 - x;
          x++;
        }
        std::string g = f;
        g[x] = (char)a;
        g[x + 1 + k] = (char)b;
        return g;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // every orientation tag position x truncated segment sizes
      fw::Suite s;
      s.name = "segment-size";
      s.what = "declared segment size from 0 to beyond the file, both byte orders, orientation among 0..5 other entries";
      s.count = 2 * 6 * 260;
      auto make = [](u64 i) {
        fw::Dec d(i);
        Spec sp;
        sp.le = d.take(2);
        sp.before = (int)d.take(6);
        sp.after = 1;
        std::string e = exif_segment(sp);
        u32 z = (u32)d.take(260);
        e[2] = (char)(z >> 8);
        e[3] = (char)z;
        return SOI + e + SOS;
      };
      s.run = [=](u64 i) { judge_api(make(i)); };
      s.describe = [=](u64 i) { return hex(make(i)); };
      S.push_back(s);
    }
    { // tiny files
      fw::Suite s;
      s.name = "tiny";
      s.what = "every file of up to 5 bytes over 9 byte values; missing files";
      s.count = 9 + 81 + 729 + 6561 + 59049 + 1 + 3;
      auto make = [](u64 i) {
        static const u8 a[] = {0xFF, 0xD8, 0xE1, 0x00, 0x01, 0x02, 0xD9, 0xDA, 0x45};
        std::string f;
        if (i == 0) {
          return f;
        }
        i--;
        u64 n = 9;
        int len = 1;
        while (i >= n) {
          i -= n;
          n *= 9;
          len++;
        }
        for (int k = 0; k < len; k++) {
          f += (char)a[i % 9];
          i /= 9;
        }
        return f;
      };
      s.run = [=](u64 i) {
        if (i >= 66430) {
          static const char *names[] = {"/nonexistent/file.jpg", "/", ""};
          fw::calls();
          int o = fcv_get_exif_orientation(names[i - 66430]);
          if (o != 1) {
            fw::fail("orientation %d of '%s'", o, names[i - 66430]);
          }
          fw::compared();
          return;
        }
        judge_api(make(i));
      };
      s.describe = [=](u64 i) { return i >= 66430 ? std::string("missing file or directory") : hex(make(i)); };
      S.push_back(s);
    }
    { // the tool
      static const char *names[] = {"in.jpg", "in.jpeg", "in.JPG", "in.JPEG", "in.jfif", "in", "in.Jpg", "in.png"};
      static const u32 dims[][2] = {{24, 16}, {9, 21}, {1, 17}, {33, 8}, {16, 16}};
      fw::Suite s;
      s.name = "tool";
      s.what = "JPEG input with orientation 0..9 or none x 2 byte orders x 8 file names x 5 sizes x 4 pipelines: same picture upright";
      s.count = 11 * 2 * 8 * 5 * 4;
      s.describe = [](u64 i) {
        fw::Dec d(i);
        int o = (int)d.take(11), le = (int)d.take(2), n = (int)d.take(8), z = (int)d.take(5), p = (int)d.take(4);
        return fw::str("%s %ux%u orientation %d %s, pipeline %d", names[n], dims[z][0], dims[z][1], o, le ? "II" : "MM", p);
      };
      s.run = [](u64 i) {
        fw::Dec d(i);
        int o = (int)d.take(11), le = (int)d.take(2), n = (int)d.take(8), z = (int)d.take(5), p = (int)d.take(4);
        u32 w = dims[z][0], h = dims[z][1];
        Bytes b = fill(F_HASH, w, h, 3, 4);
        std::string f = ref_jpg(w, h, 3, b.data(), 80);
        if (o < 10) {
          Spec sp;
          sp.le = le;
          sp.value = (u32)o;
          sp.before = o % 3;
          f = f.substr(0, 2) + exif_segment(sp) + f.substr(2);
        }
        Img m;
        if (!ref_decode(f, m.w, m.h, m.px)) {
          fw::fail("reference cannot decode");
        }
        m = upright(m, o >= 1 && o <= 8 ? o : 1);
        static const Op P[] = {{"rotate 0", [](Img &, Env *) { return true; }}, {"rotate 90", [](Img &m, Env *) { m = upright(m, 6); return true; }}, {"flip_x", [](Img &m, Env *) { m = upright(m, 2); return true; }}, {"crop 5x3+1", [](Img &m, Env *) { return crop(m, 5, 3, 1, 0); }}};
        clean();
        write_file(path(names[n]), f);
        Args a = {names[n], P[p].text, "out.png"};
        Res r = run(a);
        judge(a, r, m, {&P[p]}, "out.png");
        std::string after;
        if (!read_file(path(names[n]), after) || after != f) {
          fw::fail("the input file was changed");
        }
      };
      s.chunk = 40;
      S.push_back(s);
    }
    { // other formats are never turned, whatever they contain
      fw::Suite s;
      s.name = "tool-other";
      s.what = "PNG, BMP and PPM input with Exif bytes appended or in an eXIf chunk position x names";
      s.count = 3 * 2 * 8;
      s.describe = [](u64 i) { return fw::str("case %llu", (unsigned long long)i); };
      s.run = [](u64 i) {
        fw::Dec d(i);
        int k = (int)d.take(3), jpgname = (int)d.take(2), o = (int)d.take(8) + 1;
        Img m = image(7, 5, F_HASH, 3);
        for (size_t q = 3; q < m.px.size(); q += 4) {
          m.px[q] = 255;
        }
        Bytes rgb;
        for (size_t q = 0; q < m.px.size(); q++) {
          if (q % 4 != 3) {
            rgb.push_back(m.px[q]);
          }
        }
        std::string f = k == 0 ? ref_png(7, 5, 3, rgb.data()) : k == 1 ? ref_bmp(7, 5, 3, rgb.data()) : "P6\n7 5\n255\n" + std::string((char *)rgb.data(), rgb.size());
        f += SOI + exif_segment({true, 8, 0, 0, (u32)o}) + SOS;
        std::string name = jpgname ? "in.jpg" : k == 0 ? "in.png" : k == 1 ? "in.bmp" : "in.ppm";
        clean();
        write_file(path(name), f);
        Op op{"rotate 0", [](Img &, Env *) { return true; }};
        Args a = {name, op.text, "out.png"};
        Res r = run(a);
        judge(a, r, m, {&op}, "out.png");
      };
      s.chunk = 8;
      S.push_back(s);
    }
  });
}
