// Shared by the check drivers.
#pragma once
#include "ops.h"
#include <sstream>
#include <fstream>
#include <iostream>
namespace vr {
#ifndef VR_PART
std::vector<TypeOps>& ops() { static std::vector<TypeOps> v; return v; }
#endif
inline std::string idOf(TypeOps const& t, int i) { return std::string(t.name) + "#" + std::to_string(i); }
inline std::string slurp(std::string const& f) { std::string r; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return "<unreadable>"; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, size_t(n)); close(fd); return r; }
inline void spit(std::string const& f, std::string const& s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += size_t(n); } close(fd); }
inline std::string str(Result const& r) { return std::string(r.buf, r.size); }
inline std::string firstDiff(std::string const& a, std::string const& b) { if (a == b) return ""; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return "sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at byte " + std::to_string(i); }
struct Storage { char* p; Storage(TypeOps const& t) : p(static_cast<char*>(aligned_alloc(t.align < 16 ? 16 : t.align, (t.size + 63) / 32 * 32))) { memset(p, 0xA5, t.size); } ~Storage() { free(p); } };
// a heap copy of exactly n bytes (the sanitizer watches both ends)
struct Exact { char* p; size_t n; Exact(char const* b, size_t k) : p(static_cast<char*>(malloc(k ? k : 1))), n(k) { memcpy(p, b, k); } explicit Exact(std::string const& s) : Exact(s.data(), s.size()) {} ~Exact() { free(p); } Exact(Exact const&) = delete; };
inline void noteImage(TypeOps const& t, int i, char const* b, size_t n) {
  uint64_t h = hashBytes(b, n, hashStr(t.name));
  if (n > 24) distinct(h);                     // more than the marks and one scalar
  count("image bytes", n); seen("image sizes", n); seen("types", hashStr(t.name));
  if (i % 41 == 5) sample(st().cur + ": image of " + std::to_string(n) + " bytes, fnv " + std::to_string(h));
}
}
