// Generic finite spaces of (variant, image) cases.
#pragma once
#include "lib.hpp"
using namespace fw;
typedef std::vector<std::pair<u32, u32>> Dims;
// run(variant, w, h, image)
typedef std::function<void(u64, u32, u32, const Bytes &)> RunImg;
typedef std::function<std::string(u64)> VName;

static void add_dims(std::vector<Suite> &S, const std::string &name, const std::string &what, Dims d, std::vector<int> fills, u32 ch, u64 nvar, RunImg run, VName vn, u64 seeds = 1) {
  auto dp = std::make_shared<Dims>(std::move(d));
  u64 nf = fills.size();
  Suite s;
  s.name = name;
  s.what = what;
  s.count = dp->size() * nf * nvar * seeds;
  s.run = [=](u64 i) {
    Dec k(i);
    u64 v = k.take(nvar);
    int f = fills[k.take(nf)];
    u64 seed = k.take(seeds);
    auto wh = (*dp)[k.v];
    nontrivial();
    run(v, wh.first, wh.second, fill(f, wh.first, wh.second, ch, seed));
  };
  s.describe = [=](u64 i) {
    Dec k(i);
    u64 v = k.take(nvar);
    int f = fills[k.take(nf)];
    u64 seed = k.take(seeds);
    return str("%s on a %ux%u image with %u channel(s), %s content, seed %llu", vn(v).c_str(), (*dp)[k.v].first, (*dp)[k.v].second, ch, fill_name[f], (unsigned long long)seed);
  };
  // interleave: avoid chunks of only large images
  S.push_back(s);
}

// every image of size w x h over an alphabet
static void add_coded(std::vector<Suite> &S, const std::string &prefix, const std::string &what, const Dims &dims, const std::vector<Bytes> &alpha, u64 nvar, RunImg run, VName vn) {
  for (auto wh : dims) {
    u32 w = wh.first, h = wh.second;
    u64 n = ipow(alpha.size(), w * h);
    Suite s;
    s.name = str("%s-%ux%u", prefix.c_str(), w, h);
    s.what = what + str(" (all %llu images of size %ux%u over %zu pixel values)", (unsigned long long)n, w, h, alpha.size());
    s.count = n * nvar;
    s.run = [=](u64 i) {
      Dec k(i);
      u64 v = k.take(nvar);
      run(v, w, h, coded(k.v, w * h, alpha));
    };
    s.describe = [=](u64 i) {
      Dec k(i);
      u64 v = k.take(nvar);
      return str("%s on the %ux%u image %s", vn(v).c_str(), w, h, hex(coded(k.v, w * h, alpha)).c_str());
    };
    S.push_back(s);
  }
}
static void add_list(std::vector<Suite> &S, const std::string &name, const std::string &what, u64 n, std::function<void(u64)> run, std::function<std::string(u64)> d) {
  Suite s;
  s.name = name;
  s.what = what;
  s.count = n;
  s.run = run;
  s.describe = d;
  S.push_back(s);
}
static Bytes px(std::initializer_list<int> l) {
  Bytes b;
  for (int v : l) {
    b.push_back((u8)v);
  }
  return b;
}
