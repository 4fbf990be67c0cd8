// Common harness support: deterministic cases, violation reporting, evidence.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{

struct Rng
{
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1)
  {
    for (auto & x : s)
    {
      seed += 0x9e3779b97f4a7c15ULL;
      uint64_t z = seed;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
      x = z ^ (z >> 31);
    }
  }
  uint64_t next()
  {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  double u() { return (next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * u(); }
  // inclusive
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(next() % static_cast<uint64_t>(b - a + 1)); }
  bool chance(double p) { return u() < p; }
  double normal()
  {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
  double normal(double m, double sd) { return m + sd * normal(); }
  template <class T> const T & pick(const std::vector<T> & v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> & v)
  {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

inline uint64_t hash64(uint64_t h, const void * p, size_t n)
{
  auto b = static_cast<const uint8_t *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}
struct Hash
{
  uint64_t h = 1469598103934665603ULL;
  template <class T> Hash & add(const T & v) { static_assert(std::is_trivially_copyable_v<T>); h = hash64(h, &v, sizeof v); return *this; }
  Hash & add(const std::string & v) { h = hash64(h, v.data(), v.size()); return *this; }
  Hash & add(double v) { h = hash64(h, &v, sizeof v); return *this; }
};

inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char * f, ...)
{
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}
inline std::string json_str(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

struct Options
{
  std::string prop, tier = "quick", progress, hashes;
  uint64_t seed = 1;
  long shard = 0, nshards = 1, cases = -1, only = -1, start = 0;
  bool thorough = false;
};
inline Options opt;

struct State
{
  std::mutex m;
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> hashes;
  std::set<std::string> keys;
  long evaluations = 0, violations = 0;
  std::atomic<int64_t> * progress = nullptr;
};
inline State & state() { static State * s = new State; return *s; }

class Case
{
public:
  Case(long i, uint64_t seed) : index(i), rng(seed) {}
  long index;
  Rng rng;
  bool failed = false;
  void fail(const std::string & key, const std::string & msg)
  {
    auto & s = state();
    std::lock_guard<std::mutex> l(s.m);
    failed = true;
    ++s.violations;
    if (s.keys.insert(key).second)
    {
      printf("@@VIOLATION {\"case\": %ld, \"key\": %s, \"msg\": %s}\n", index, json_str(key).c_str(), json_str(msg).c_str());
      fflush(stdout);
    }
  }
  bool check(bool ok, const std::string & key, const char * f, ...) __attribute__((format(printf, 4, 5)))
  {
    if (ok) return true;
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    fail(key, buf);
    return false;
  }
  // what this case observed; a case without any counts as trivial
  void distinct(uint64_t h) { auto & s = state(); std::lock_guard<std::mutex> l(s.m); seen = hash64(seen, &h, sizeof h); nontrivial = true; }
  uint64_t seen = 1469598103934665603ULL;
  bool nontrivial = false;
  void count(const std::string & n, long k = 1) { auto & s = state(); std::lock_guard<std::mutex> l(s.m); s.counters[n] += k; }
  void sample(const std::string & t) { auto & s = state(); std::lock_guard<std::mutex> l(s.m); if (s.samples.size() < 3) s.samples.push_back(t); }
};

struct Prop { std::string id; long quick, thorough; std::function<void(Case &)> fn; std::string rule; };
inline std::map<std::string, Prop> & props() { static std::map<std::string, Prop> p; return p; }
struct Reg
{
  Reg(const char * id, long q, long t, const char * rule, std::function<void(Case &)> f) { props()[id] = Prop{id, q, t, f, rule}; }
};

inline int finish(const Prop & p)
{
  auto & s = state();
  if (!opt.hashes.empty())
  {
    FILE * f = fopen(opt.hashes.c_str(), "wb");
    if (f) { for (auto h : s.hashes) fwrite(&h, 8, 1, f); fclose(f); }
  }
  std::string c, sm;
  for (auto & [k, v] : s.counters) c += (c.empty() ? "" : ", ") + json_str(k) + ": " + std::to_string(v);
  for (auto & v : s.samples) sm += (sm.empty() ? "" : ", ") + json_str(v);
  printf("@@DONE {\"evaluations\": %ld, \"distinct\": %zu, \"violations\": %ld, \"rule\": %s, \"counters\": {%s}, \"samples\": [%s]}\n",
    s.evaluations, s.hashes.size(), s.violations, json_str(p.rule).c_str(), c.c_str(), sm.c_str());
  fflush(stdout);
  return s.violations ? 3 : 0;
}

inline int run(int argc, char ** argv)
{
  for (int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") opt.prop = v;
    else if (a == "--tier") { opt.tier = v; opt.thorough = v == "thorough"; }
    else if (a == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shard") opt.shard = atol(v.c_str());
    else if (a == "--nshards") opt.nshards = atol(v.c_str());
    else if (a == "--cases") opt.cases = atol(v.c_str());
    else if (a == "--case") opt.only = atol(v.c_str());
    else if (a == "--start") opt.start = atol(v.c_str());
    else if (a == "--progress") opt.progress = v;
    else if (a == "--hashes") opt.hashes = v;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  auto it = props().find(opt.prop);
  if (it == props().end()) { fprintf(stderr, "unknown property %s\n", opt.prop.c_str()); return 2; }
  const Prop & p = it->second;
  auto & s = state();
  if (!opt.progress.empty())
  {
    int fd = open(opt.progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 8) == 0)
    {
      void * m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) s.progress = static_cast<std::atomic<int64_t> *>(m);
    }
  }
  const long n = opt.cases >= 0 ? opt.cases : (opt.thorough ? p.thorough : p.quick);
  for (long i = 0; i < n; ++i)
  {
    if (opt.only >= 0 ? i != opt.only : (i % opt.nshards != opt.shard || i < opt.start)) continue;
    if (s.progress) s.progress->store(i, std::memory_order_relaxed);
    Hash h; h.add(opt.seed).add(p.id).add(static_cast<uint64_t>(i));
    Case c(i, h.h);
    ++s.evaluations;
    try { p.fn(c); }
    catch (const std::exception & e) { c.fail("exception", std::string("uncaught exception: ") + e.what()); }
    if (c.nontrivial) s.hashes.insert(c.seen);
    if (s.keys.size() >= 5) break;
  }
  return finish(p);
}

}  // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_PROPERTY(id, quick, thorough, rule) \
  static void VH_CAT(vh_fn_, id)(vh::Case & c); \
  static vh::Reg VH_CAT(vh_reg_, id)(#id, quick, thorough, rule, VH_CAT(vh_fn_, id)); \
  static void VH_CAT(vh_fn_, id)(vh::Case & c)
