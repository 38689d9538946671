// C10: file checkpoints under failing system calls, short files and earlier contents.
#include "ops.h"
#include "run.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
using namespace vr;

// ---- the seam: every call the library makes to the file system (linked with -Wl,--wrap=...)
struct Seam {
  bool on = false; std::vector<char const*> trace; std::vector<std::pair<int, int>> faults;   // (position in the trace, errno)
  std::map<int, std::string> fds; std::map<char*, size_t> maps; std::string err; int hits = 0;
  int enter(char const* n) { int at = int(trace.size()); trace.push_back(n); for (auto& f : faults) if (f.first == at) { hits++; return f.second; } return 0; }
  void opened(int fd) { if (fd >= 0) fds[fd] = "open"; }
  void closed(int fd) { if (!fds.erase(fd)) err = "close of descriptor " + std::to_string(fd) + ", which is not open"; }
};
static Seam* S;
struct Quiet { bool was; Quiet() : was(S && S->on) { if (S) S->on = false; } ~Quiet() { if (S) S->on = was; } };
#define INJECT(name, bad) int e_ = 0; { Quiet q_; if (q_.was) e_ = S->enter(name); }
#define LOG(x) do { int k_ = errno; { Quiet q_; if (q_.was) { x; } } errno = k_; } while (0)
#define W2(R, name, params, args) extern "C" R __real_##name params; extern "C" R __wrap_##name params { INJECT(#name, -1) if (e_) { errno = e_; return (R)-1; } return __real_##name args; }
extern "C" int __real_open(char const*, int, ...); extern "C" int __real_open64(char const*, int, ...); extern "C" int __real_openat(int, char const*, int, ...);
extern "C" int __wrap_open(char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); INJECT("open", -1) if (e_) { errno = e_; return -1; } int r = __real_open(p, f, m); LOG(S->opened(r)); return r; }
extern "C" int __wrap_open64(char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); INJECT("open", -1) if (e_) { errno = e_; return -1; } int r = __real_open64(p, f, m); LOG(S->opened(r)); return r; }
extern "C" int __wrap_openat(int d, char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); INJECT("open", -1) if (e_) { errno = e_; return -1; } int r = __real_openat(d, p, f, m); LOG(S->opened(r)); return r; }
extern "C" int __real_creat(char const*, mode_t); extern "C" int __wrap_creat(char const* p, mode_t m) { INJECT("open", -1) if (e_) { errno = e_; return -1; } int r = __real_creat(p, m); LOG(S->opened(r)); return r; }
W2(int, fstat, (int f, struct stat* s), (f, s)) W2(int, fstat64, (int f, struct stat64* s), (f, s)) W2(int, stat, (char const* f, struct stat* s), (f, s)) W2(off_t, lseek, (int f, off_t o, int w), (f, o, w)) W2(off64_t, lseek64, (int f, off64_t o, int w), (f, o, w))
W2(int, fallocate, (int f, int m, off_t a, off_t b), (f, m, a, b)) W2(int, fallocate64, (int f, int m, off64_t a, off64_t b), (f, m, a, b))
extern "C" int __real_posix_fallocate(int, off_t, off_t); extern "C" int __wrap_posix_fallocate(int f, off_t a, off_t b) { INJECT("fallocate", -1) return e_ ? e_ : __real_posix_fallocate(f, a, b); }
W2(int, ftruncate, (int f, off_t a), (f, a)) W2(int, ftruncate64, (int f, off64_t a), (f, a)) W2(int, truncate, (char const* f, off_t a), (f, a))
W2(int, fsync, (int f), (f)) W2(int, fdatasync, (int f), (f)) W2(int, msync, (void* p, size_t n, int f), (p, n, f))
W2(ssize_t, write, (int f, void const* p, size_t n), (f, p, n)) W2(ssize_t, pwrite, (int f, void const* p, size_t n, off_t o), (f, p, n, o)) W2(ssize_t, read, (int f, void* p, size_t n), (f, p, n)) W2(ssize_t, pread, (int f, void* p, size_t n, off_t o), (f, p, n, o))
W2(int, rename, (char const* a, char const* b), (a, b))
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t); extern "C" void* __real_mmap64(void*, size_t, int, int, int, off64_t);
static void* mapped(void* r, size_t n) { LOG(if (r != MAP_FAILED) S->maps[static_cast<char*>(r)] = n); return r; }
extern "C" void* __wrap_mmap(void* p, size_t n, int a, int b, int f, off_t o) { INJECT("mmap", -1) if (e_) { errno = e_; return MAP_FAILED; } return mapped(__real_mmap(p, n, a, b, f, o), n); }
extern "C" void* __wrap_mmap64(void* p, size_t n, int a, int b, int f, off64_t o) { INJECT("mmap", -1) if (e_) { errno = e_; return MAP_FAILED; } return mapped(__real_mmap64(p, n, a, b, f, o), n); }
// a failing munmap or close still releases here: what leaks is then the library's doing
extern "C" int __real_munmap(void*, size_t); extern "C" int __wrap_munmap(void* p, size_t n) {
  INJECT("munmap", -1)
  LOG(auto i = S->maps.find(static_cast<char*>(p)); if (i == S->maps.end()) S->err = "munmap of something not mapped"; else { if (i->second != n) S->err = "munmap of " + std::to_string(n) + " of " + std::to_string(i->second) + " bytes"; S->maps.erase(i); });
  int r = p ? __real_munmap(p, n) : 0; if (e_) { errno = e_; return -1; } return r; }
extern "C" int __real_close(int); extern "C" int __wrap_close(int f) { INJECT("close", -1) LOG(S->closed(f)); int r = __real_close(f); if (e_) { errno = e_; return -1; } return r; }

static std::vector<int> errnosOf(std::string n) {
  if (n == "open") return {EACCES, ENOENT, EMFILE, ENFILE, EINTR, ENOSPC, EROFS, EIO, ENOTDIR, EDQUOT};
  if (n.find("stat") != n.npos || n.find("lseek") != n.npos) return {EIO, EOVERFLOW, ENOMEM, EBADF};
  if (n.find("fallocate") != n.npos) return {ENOSPC, EDQUOT, EIO, EFBIG, EOPNOTSUPP, ENOSYS};
  if (n.find("truncate") != n.npos) return {EIO, EFBIG, EPERM, EINVAL, EINTR, ENOSPC};
  if (n == "fsync" || n == "fdatasync") return {EIO, ENOSPC, EDQUOT, EROFS, EINTR};
  if (n == "mmap") return {ENOMEM, EACCES, EAGAIN, ENODEV, EPERM, ENFILE, EINVAL};
  if (n == "msync") return {EIO, EBUSY, ENOMEM};
  if (n == "munmap") return {EINVAL, ENOMEM};
  if (n == "close") return {EIO, ENOSPC, EDQUOT, EINTR};
  return {EIO, ENOSPC};
}
static bool tolerable(std::string n, int e) { return n.find("fallocate") != n.npos && (e == EOPNOTSUPP || e == ENOSYS); }
static std::string fname;
static int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int mapsOf(std::string const& what) { FILE* f = fopen("/proc/self/maps", "r"); char l[4400]; int n = 0; while (fgets(l, sizeof l, f)) if (strstr(l, what.c_str())) n++; fclose(f); return n; }

enum Res { Fine, RuntimeError, OtherError };
// one library call on the file, watched
template <class F> static Res watch(std::string const& where, std::vector<std::pair<int, int>> faults, F f, Seam& s, std::string& what) {
  s = Seam{}; s.faults = faults; int fd0 = openFds(); Res r = Fine; static std::string ph; ph = where; phase(ph.c_str());
  try { S = &s; s.on = true; struct Off { ~Off() { S->on = false; } } off; f(); }
  catch (std::runtime_error const& e) { r = RuntimeError; what = e.what(); }
  catch (std::exception const& e) { r = OtherError; what = e.what(); }
  catch (...) { r = OtherError; what = "not a std::exception"; }
  s.on = false; S = nullptr;
  if (!s.err.empty()) fail("descriptor or mapping misused: " + where, s.err);
  if (!s.fds.empty() || openFds() != fd0) fail("descriptor left open: " + where, std::to_string(openFds() - fd0));
  if (!s.maps.empty() || mapsOf(fname)) fail("mapping left: " + where, std::to_string(s.maps.size()));
  count(r == Fine ? "calls that succeeded" : "calls that threw"); count("system calls seen", s.trace.size());
  return r;
}
enum Prior { pNone, pEmpty, pShorter, pSame, pLonger, pMuchLonger, NPrior };
static void prepare(int prior, std::string const& im) {
  unlink(fname.c_str()); auto junk = [](size_t n) { std::string s(n, '\xC7'); for (size_t i = 0; i < n; i++) s[i] = char(s[i] ^ int(i * 7)); return s; };
  switch (prior) { case pEmpty: spit(fname, ""); break; case pShorter: spit(fname, junk(im.size() / 2)); break; case pSame: spit(fname, junk(im.size())); break; case pLonger: spit(fname, junk(im.size() + 1 + im.size() / 3)); break; case pMuchLonger: spit(fname, junk(im.size() + 20000)); break; }
}
static void exact(std::string const& im, std::string const& where) { auto g = slurp(fname); if (g != im) fail("file not exactly the image: " + where, firstDiff(g, im)); }
struct Case { TypeOps const& t; uint64_t sd; long bud; std::string im; };
// reading: must throw, or (lenient) may also give an equal object
static void readBoth(Case const& c, std::string const& where, std::vector<std::pair<int, int>> faults, bool must, bool mustNot, bool names) {
  auto& t = c.t; Obj ref(t, t.make(c.sd, c.bud));
  for (int in = 0; in < 2; in++) {
    if (in && t.poly) { }
    std::string w = where + (in ? ", in place" : ""), what; Seam s; void* x = nullptr; Obj target(t, t.poly ? t.fresh() : t.make(c.sd + 5, c.bud));
    Res r = watch(w, faults, [&] { if (in) t.inFile(fname, target.p); else x = t.fromFile(fname); }, s, what);
    bool hit = faults.empty() || s.hits == int(faults.size());
    if (r == OtherError) fail("wrong exception: " + w, what);
    else if (r == Fine && must && hit) fail("no error: " + w, "");
    else if (r != Fine && mustNot) fail("failed: " + w, what);
    if (r == Fine && !(must && hit)) { auto d = t.diff(ref.p, in ? target.p : x); if (!d.empty()) fail("not equal: " + w, d); }
    if (x) t.destroy(x);
    if (names) { std::string tr; for (auto n : s.trace) tr += std::string(n) + " "; seen("read traces", hashStr(tr)); }
  }
}
static std::string faultStr(std::vector<std::pair<int, int>> const& f, std::vector<char const*> const& tr) { std::string r; for (auto& x : f) r += std::string(r.empty() ? "" : " and ") + (x.first < int(tr.size()) ? tr[size_t(x.first)] : "?") + " failing (" + strerror(x.second) + ")"; return r; }
static void writeFaults(Case const& c, Rng& r) {
  auto& t = c.t; Obj ref(t, t.make(c.sd, c.bud)); Seam s; std::string what;
  for (int p = 0; p < NPrior; p++) {
    prepare(p, c.im); Res g = watch("writing", {}, [&] { t.toFile(ref.p, fname); }, s, what);
    if (g != Fine) { fail("failed: writing", what); return; } exact(c.im, "writing over prior content " + std::to_string(p)); count("prior contents");
    struct stat sb; if (stat(fname.c_str(), &sb) || !(sb.st_mode & 0400)) fail("file not readable by its owner", "");
  }
  auto tr = s.trace; { std::string a; for (auto n : tr) a += std::string(n) + " "; seen("write traces", hashStr(a)); sample("write trace: " + a); } if (tr.empty()) count("no calls seen through the seam");
  auto run = [&](std::vector<std::pair<int, int>> f) {
    prepare(int(r.below(NPrior)), c.im); Seam q; auto base = tr; std::string w = "writing, " + faultStr(f, base), what;
    Res g = watch(w, f, [&] { t.toFile(ref.p, fname); }, q, what);
    bool tol = true, hit = q.hits > 0; for (auto& x : f) if (x.first < int(q.trace.size()) && !tolerable(q.trace[size_t(x.first)], x.second)) tol = false;
    if (!hit) { count("fault not reached"); return q.trace; }
    count("write faults injected");
    if (g == OtherError) fail("wrong exception: " + w, what);
    if (tol && g != Fine) fail("failed: " + w, what);
    if (!tol && g == Fine) fail("failure not reported: " + w, "");
    if (g == Fine && tol) exact(c.im, w);
    return q.trace;
  };
  for (int i = 0; i < int(tr.size()); i++) {
    auto es = errnosOf(tr[size_t(i)]);
    for (int e : es) {
      auto after = run({{i, e}});
      // a second failure while cleaning up after the first
      if (e == es[0] || opt().thorough) for (int j = i + 1; j < int(after.size()); j++) { auto e2 = errnosOf(after[size_t(j)]); run({{i, e}, {j, e2[r.below(e2.size())]}}); }
    }
  }
  if (tr.size() > 2) { std::vector<std::pair<int, int>> all; for (int i = 1; i < int(tr.size()); i++) all.push_back({i, EIO}); run(all); }
  prepare(pLonger, c.im); Res g = watch("writing after failures", {}, [&] { t.toFile(ref.p, fname); }, s, what); if (g != Fine) fail("failed: writing after failures", what); else exact(c.im, "writing after failures");
}
static void readFaults(Case const& c, Rng& r) {
  auto& t = c.t; spit(fname, c.im); Seam s; std::string what; void* x = nullptr;
  Res g = watch("reading", {}, [&] { x = t.fromFile(fname); }, s, what); if (g != Fine) { fail("failed: reading", what); return; } t.destroy(x);
  auto tr = s.trace; std::string a; for (auto n : tr) a += std::string(n) + " "; sample("read trace: " + a);
  for (int i = 0; i < int(tr.size()); i++) for (int e : errnosOf(tr[size_t(i)])) {
    std::string n = tr[size_t(i)]; bool must = n != "munmap" && n != "close"; count("read faults injected");
    readBoth(c, "reading, " + faultStr({{i, e}}, tr), {{i, e}}, must, false, false);
    for (int j = i + 1; j < int(tr.size()); j++) { auto e2 = errnosOf(tr[size_t(j)]); if (e == errnosOf(n)[0]) { std::vector<std::pair<int, int>> f{{i, e}, {j, e2[r.below(e2.size())]}}; Seam q; void* y = nullptr; Res h = watch("reading, two failures", f, [&] { y = t.fromFile(fname); }, q, what); if (y) t.destroy(y); if (h == OtherError) fail("wrong exception: reading, two failures", what); if (must && q.hits && h == Fine) fail("no error: reading, two failures", ""); } }
  }
  readBoth(c, "reading after failures", {}, false, true, true);
}
static void shortFiles(Case const& c, Rng& r) {
  std::vector<size_t> ls; size_t n = c.im.size(), max = opt().thorough ? 3000 : 90;
  if (n <= max) for (size_t i = 0; i < n; i++) ls.push_back(i);
  else { for (size_t i = 0; i < max / 3; i++) { ls.push_back(i); ls.push_back(n - 1 - i); ls.push_back(r.below(n)); } for (size_t p = 4096; p < n; p += 4096) for (long d = -1; d <= 1; d++) if (p + size_t(d) < n) ls.push_back(p + size_t(d)); }
  for (size_t l : ls) { spit(fname, c.im.substr(0, l)); count("short files"); readBoth(c, l ? "reading a truncated file" : "reading an empty file", {}, true, false, false); }
  spit(fname, c.im + std::string(1 + r.below(9000), '\x11')); readBoth(c, "reading a file with more behind the object", {}, false, true, false);
  spit(fname, c.im); readBoth(c, "reading after short files", {}, false, true, true);
}
static void realFailures(Case const& c) {
  auto& t = c.t; std::string keep = fname; auto d = opt().dir; Obj ref(t, t.make(c.sd, c.bud));
  std::string bad[] = {d + "/missing/file", d, d + "/plain/file", d + "/loop", d + "/" + std::string(300, 'n'), ""};
  spit(d + "/plain", "x"); (void)!symlink("loop", (d + "/loop").c_str());
  for (auto& b : bad) {
    fname = keep + ".none"; Seam s; std::string what; count("unusable paths"); std::string name = b;
    Res g = watch("writing to an unusable path", {}, [&] { t.toFile(ref.p, name); }, s, what); if (g != RuntimeError) fail("unusable path: writing", b);
    fname = keep + ".none"; void* x = nullptr; g = watch("reading an unusable path", {}, [&] { x = t.fromFile(name); }, s, what); if (g != RuntimeError) fail("unusable path: reading", b); if (x) t.destroy(x);
    Obj y(t, t.poly ? t.fresh() : t.make(c.sd + 5, c.bud)); g = watch("reading an unusable path in place", {}, [&] { t.inFile(name, y.p); }, s, what); if (g != RuntimeError) fail("unusable path: in place", b);
  }
  fname = keep; unlink(fname.c_str()); readBoth(c, "reading a missing file", {}, true, false, false);
  // limits of the process
  signal(SIGXFSZ, SIG_IGN); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = c.im.size() - 1; setrlimit(RLIMIT_FSIZE, &lim);
  { Seam s; std::string what; Res g = watch("writing with the file size limited", {}, [&] { t.toFile(ref.p, fname); }, s, what); setrlimit(RLIMIT_FSIZE, &old); if (g != RuntimeError) fail("failure not reported: writing with the file size limited", ""); }
  signal(SIGXFSZ, SIG_DFL); getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 0;
  spit(fname, c.im); { void* x = nullptr; Res g = Fine, h = Fine; setrlimit(RLIMIT_NOFILE, &lim); try { x = t.fromFile(fname); } catch (std::runtime_error const&) { g = RuntimeError; } try { t.toFile(ref.p, fname); } catch (std::runtime_error const&) { h = RuntimeError; } setrlimit(RLIMIT_NOFILE, &old); if (x) t.destroy(x); if (g != RuntimeError || h != RuntimeError) fail("failure not reported: no descriptors left", ""); count("limits"); }
  spit(fname, c.im); readBoth(c, "reading after all that", {}, false, true, true);
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  fname = opt().dir + "/checkpoint-file";
  for (auto& t : ops()) {
    int n = cases(4, 60);
    for (int i = 0; i < n; i++) {
      std::string id = idOf(t, i); if (!wanted(id)) continue;
      beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 11); Case c{t, sd, i % 3 == 2 ? 3000 : 40, ""};
      { Obj ref(t, t.make(sd, c.bud)); Seam s; std::string what; Res g = watch("writing", {}, [&] { t.toFile(ref.p, fname); }, s, what); if (g != Fine) { fail("failed: writing", what); continue; } c.im = str(t.serNoCb(ref.p)); exact(c.im, "writing"); }
      noteImage(t, i, c.im.data(), c.im.size());
      writeFaults(c, r); readFaults(c, r); shortFiles(c, r); if (i == 0) realFailures(c);
    }
  }
  return finish();
}
