// Runtime of the monitors: options, deterministic random numbers, case bookkeeping, verdict lines.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vr {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return mix(h);
}
inline uint64_t hashStr(std::string const& s) { return hashBytes(s.data(), s.size()); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
  int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
};

template <class T> std::string typeName() {
  int st = 0; char* d = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &st);
  std::string r = st == 0 ? d : typeid(T).name(); free(d);
  // shorten the noise of standard names
  auto rep = [&](char const* a, char const* b) { size_t p; while ((p = r.find(a)) != std::string::npos) r.replace(p, strlen(a), b); };
  rep("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string");
  rep("std::__cxx11::", "std::");
  return r;
}

struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.0;         // multiplies the case counts
  std::string only;           // "<type>#<index>": run only this case
  std::string dir = ".";      // scratch directory
  std::map<std::string, std::string> kv;
};
inline Options& opt() { static Options o; return o; }

struct State {
  int out = 1;
  char* progress = nullptr;
  std::string cur = "-";
  uint64_t evals = 0, viols = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, std::set<uint64_t>> hist;
  int samples = 0;
};
inline State& st() { static State s; return s; }

inline std::string clean(std::string s, size_t max = 600) {
  for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r' || (unsigned char)c < 32 || (unsigned char)c > 126) c = ' ';
  if (s.size() > max) { s.resize(max); s += "..."; }
  return s;
}
inline void line(std::string const& s) {
  std::string l = s + "\n"; size_t o = 0;
  while (o < l.size()) { ssize_t n = ::write(st().out, l.data() + o, l.size() - o); if (n <= 0) break; o += size_t(n); }
}
inline void setProgress(std::string const& s) {
  if (st().progress) { size_t n = s.size() < 4000 ? s.size() : 4000; memcpy(st().progress, s.data(), n); st().progress[n] = 0; }
}
// what is being done inside the current case (shown when the process dies there)
inline void phase(char const* p) { if (st().progress) { size_t n = strlen(p); if (n > 90) n = 90; memcpy(st().progress + 4000, p, n); st().progress[4000 + n] = 0; } }

inline void beginCase(std::string const& c) { st().cur = c; setProgress(c); st().evals++; }
inline bool wanted(std::string const& c) { return opt().only.empty() || opt().only == c; }
// key: what is wrong (class of failure); the case says where
inline void fail(std::string const& key, std::string const& detail) {
  st().viols++;
  if (st().viols <= 200) line("VIOL\t" + clean(key, 300) + "\t" + clean(st().cur, 300) + "\t" + clean(detail, 1500));
}
inline void distinct(uint64_t h) { st().distinct.insert(h); }
inline void count(std::string const& n, uint64_t k = 1) { st().counters[n] += k; }
inline void seen(std::string const& n, uint64_t v) { auto& s = st().hist[n]; if (s.size() < 100000) s.insert(v); }
inline void sample(std::string const& s) { if (st().samples < 12) { st().samples++; line("SAMPLE\t" + clean(s, 700)); } }

inline int parse(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto e = a.find('='); 
    std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
    if (k == "--seed") opt().seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--thorough") opt().thorough = true;
    else if (k == "--scale") opt().scale = atof(v.c_str());
    else if (k == "--only") opt().only = v;
    else if (k == "--dir") opt().dir = v;
    else if (k == "--out") { st().out = open(v.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600); if (st().out < 0) { perror("out"); return 2; } }
    else if (k == "--progress") {
      int fd = open(v.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, 4096)) return 2;
      st().progress = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    } else opt().kv[k] = v;
  }
  return 0;
}
inline int finish() {
  line("EVALS\t" + std::to_string(st().evals));
  line("DISTINCT\t" + std::to_string(st().distinct.size()));
  for (auto& c : st().counters) line("COUNT\t" + clean(c.first, 200) + "\t" + std::to_string(c.second));
  for (auto& c : st().hist) line("COUNT\tdistinct " + clean(c.first, 200) + "\t" + std::to_string(c.second.size()));
  line("END");
  return 0;
}
inline int cases(int quick, int thorough) {
  double n = (opt().thorough ? thorough : quick) * opt().scale; return n < 1 ? 1 : int(n);
}
inline uint64_t caseSeed(std::string const& what, uint64_t idx) { return mix(opt().seed * 0x1000193ull ^ hashStr(what)) ^ mix(idx + 77); }

} // namespace vr
