// C09: a failure at any point of any operation reaches the caller and leaves nothing behind.
#include "life.h"
#include <algorithm>
using namespace vr;
static std::string fname;
// never allocates: what it fails on is chosen here, not by the allocator
struct OutBuf : std::streambuf { std::vector<char> v; OutBuf(size_t n) : v(n) { setp(v.data(), v.data() + n); } };
struct InBuf : std::streambuf {
  size_t good; bool throws; char* b; size_t n; size_t chunk; size_t pos = 0;
  InBuf(char* p, size_t k, size_t g, bool t, size_t c) : good(g), throws(t), b(p), n(k), chunk(c) { (void)n; setg(b, b, b); }
  int_type underflow() override { pos = size_t(egptr() - b); if (pos >= good) { if (throws) throw tk::Injected{tk::NKinds, long(good)}; return traits_type::eof(); } size_t e = std::min(good, pos + chunk); setg(b, b + pos, b + e); return traits_type::to_int_type(*gptr()); }
};
enum Got { Nothing, That, BadAlloc, SerErr, RunErr, OtherStd, Unknown };
static char const* gotName[] = {"no exception", "the injected exception", "bad_alloc", "serialization_error", "runtime_error", "another std exception", "an unknown exception"};
template <class F> Got guarded(F f, std::string& what) {
  try { f(); return Nothing; }
  catch (tk::Injected const&) { return That; }
  catch (checkpoint::dispatch::serialization_error const& e) { what = e.what(); return SerErr; }
  catch (std::bad_alloc const&) { return BadAlloc; }
  catch (std::runtime_error const& e) { what = e.what(); return RunErr; }
  catch (std::exception const& e) { what = e.what(); return OtherStd; }
  catch (...) { return Unknown; }
}
struct Fault { enum Kind { None, Point, ReadEnd, ReadThrow, Mark, Callback, ShortFile } kind = None; long at = 0; bool mask = false; };
struct Ctx { TypeOps const& t; uint64_t sd; long bud; std::string im; };
static long lastPoints; static tk::Kind lastHit;
// one library call under one fault; everything around it (objects, buffers, streams) exists before it and is released after it
static Got call(Ctx const& c, int o, Fault f, std::string& what, std::string& wrong) {
  auto& t = c.t; Got got = Nothing; bool compare = f.kind == Fault::None;
  Obj ref(t, t.make(c.sd, c.bud));
  std::string image = c.im;
  if (f.kind == Fault::Mark) image[size_t(f.at)] = char(image[size_t(f.at)] ^ 0x3C);
  auto lib = [&](auto fn) {
    tk::L.points = 0; tk::L.hit = tk::NKinds; tk::L.at = f.at; tk::L.armed = f.kind == Fault::Point; tk::L.counting = true;
    Got g = guarded([&] { struct Off { ~Off() { tk::L.counting = false; } } off; fn(); }, what);
    tk::L.counting = false; tk::L.armed = false; lastPoints = tk::L.points; lastHit = tk::L.hit; return g;
  };
  auto same = [&](void* p) { if (compare) { auto d = t.diff(ref.p, p); if (!d.empty()) wrong = "not equal: " + d; } };
  auto target = [&] { return t.poly ? t.fresh() : t.make(c.sd + 1, c.bud); };
  switch (o) {
    case oSize: got = lib([&] { t.getSize(ref.p); }); break;
    case oSer: { Result r; got = lib([&] { r = t.serNoCb(ref.p); }); break; }
    case oSerUser: {
      char* m = static_cast<char*>(malloc(image.size())); memset(m, 0x5A, image.size());
      { Result r; std::function<char*(size_t)> cb; if (f.kind == Fault::Callback) cb = [](size_t) -> char* { throw tk::Injected{tk::NKinds, -1}; }; else cb = [m](size_t) { return m; };
        got = lib([&] { r = t.ser(ref.p, cb); }); }
      m[0] ^= 1; m[image.size() - 1] ^= 1; free(m); break;
    }
    case oDes: { Exact e(image); void* x = nullptr; got = lib([&] { x = t.des(e.p); }); if (x) { same(x); t.destroy(x); } if (memcmp(e.p, image.data(), e.n)) wrong = "image changed"; break; }
    case oDesInto: {
      Exact e(image); Storage s(t); void* x = nullptr; got = lib([&] { x = t.desInto(e.p, s.p); }); if (x) { same(x); t.destroyAt(x); } memset(s.p, 1, t.size);
      if (memcmp(e.p, image.data(), e.n)) wrong = "image changed"; break;
    }
    case oDesIn: {
      Exact e(image); Obj x(t, target()); got = lib([&] { t.desIn(e.p, x.p); }); same(x.p);
      if (got != Nothing && !t.poly) { Exact g(c.im); t.desIn(g.p, x.p); auto d = t.diff(ref.p, x.p); if (!d.empty()) wrong = "target of the failed call, restored again, not equal: " + d; }
      break;
    }
    case oDesResult: { void* x = nullptr; got = lib([&] { x = t.desResult(ref.p); }); if (x) { same(x); t.destroy(x); } break; }
    case oToFile: got = lib([&] { t.toFile(ref.p, fname); }); if (got != Nothing) spit(fname, c.im); break;
    case oFromFile: case oInFile: {
      if (f.kind == Fault::Mark) spit(fname, image); else if (f.kind == Fault::ShortFile) spit(fname, c.im.substr(0, size_t(f.at)));
      if (o == oFromFile) { void* x = nullptr; got = lib([&] { x = t.fromFile(fname); }); if (x) { same(x); t.destroy(x); } }
      else { Obj x(t, target()); got = lib([&] { t.inFile(fname, x.p); }); same(x.p); }
      if (f.kind == Fault::Mark || f.kind == Fault::ShortFile) spit(fname, c.im); break;
    }
    case oToStream: { OutBuf b(image.size() + 64); std::ostream s(&b); got = lib([&] { t.toStream[0](ref.p, s); }); break; }
    case oFromStream: case oInStream: {
      Exact e(image); bool rd = f.kind == Fault::ReadEnd || f.kind == Fault::ReadThrow;
      InBuf b(e.p, e.n, rd ? size_t(f.at) : e.n, f.kind == Fault::ReadThrow, size_t(1 + f.at % 5 * 7)); std::istream s(&b); if (rd && f.mask) s.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
      if (o == oFromStream) { void* x = nullptr; got = lib([&] { x = t.fromStream[0](s); }); if (x) { same(x); t.destroy(x); } }
      else { Obj x(t, target()); got = lib([&] { t.inStream[0](s, x.p); }); same(x.p); }
      break;
    }
    case oFoot: got = lib([&] { t.footprint(ref.p, 5); }); break;
  }
  return got;
}
static char const* faultName(Fault const& f) {
  switch (f.kind) { case Fault::Point: return tk::kindName[lastHit < tk::NKinds ? lastHit : 0]; case Fault::ReadEnd: return "stream ends"; case Fault::ReadThrow: return "stream source throws"; case Fault::Mark: return "damaged mark"; case Fault::Callback: return "buffer callback throws"; case Fault::ShortFile: return "file ends"; default: return "none"; }
}
static void watched(Ctx const& c, int o, Fault f) {
  bool file = isFile(o);
  for (int attempt = 0; attempt < 2; attempt++) {
    std::string what, wrong; tk::L.first = nullptr; static std::string ph; ph = std::string(opName[o]) + " fault " + std::to_string(int(f.kind)) + "@" + std::to_string(f.at); phase(ph.c_str());
    Snap a = Snap::now(file); Got g = call(c, o, f, what, wrong);
    what.clear(); what.shrink_to_fit(); std::string w2; wrong.swap(w2); { std::string z; w2.swap(z); wrong.swap(z); }
    Snap b; { std::string keep; keep.swap(wrong); long extra = keep.capacity() > 15 ? 1 : 0; b = Snap::now(file); b.allocs -= extra; wrong.swap(keep); }
    std::string where = std::string(" (") + faultName(f) + ") in: " + opName[o], at = "fault point " + std::to_string(f.at);
    bool bad = b.errors != a.errors || b.live != a.live || b.allocs != a.allocs || b.fds != a.fds;
    if (bad && attempt == 0 && b.errors == a.errors && b.live == a.live) continue;      // once more: whatever the library creates lazily, it creates once
    if (!wrong.empty()) fail(wrong.substr(0, wrong.find(':')) + where, at + ": " + wrong);
    if (b.errors != a.errors) fail("object ledger" + where, at + ": " + (tk::L.first ? tk::L.first : "?"));
    if (b.live != a.live) fail("objects never destroyed" + where, at + ": " + std::to_string(b.live - a.live));
    else if (b.allocs != a.allocs) fail("memory" + where, at + ": " + std::to_string(b.allocs - a.allocs) + " allocations left");
    if (b.fds != a.fds) fail("descriptors left" + where, at);
    if (file && mapsOf(fname)) fail("mapping left" + where, at);
    count(std::string("faults: ") + faultName(f)); count(std::string("outcome: ") + gotName[g]);
    switch (f.kind) {
      case Fault::Point: { Got want = lastHit == tk::Memory ? BadAlloc : That; if (lastHit == tk::NKinds) { count("point not reached"); break; } if (g != want) fail(std::string("wrong exception") + where, at + ": " + gotName[g]); break; }
      case Fault::Callback: if (g != That) fail("wrong exception" + where, gotName[g]); break;
      case Fault::ReadEnd: case Fault::ReadThrow: case Fault::ShortFile: if (g == Nothing) fail("no exception" + where, at + " of " + std::to_string(c.im.size())); break;
      case Fault::Mark: case Fault::None: break;
    }
    break;
  }
}
// all of n points, or the first, the last and a random part of them
static std::vector<long> choose(long from, long n, Rng& r, long max) {
  std::vector<long> v; if (n <= max) { for (long i = 0; i < n; i++) v.push_back(from + i); return v; }
  std::set<long> s; for (long i = 0; i < max / 4; i++) { s.insert(i); s.insert(n - 1 - i); } while (long(s.size()) < max) s.insert(long(r.below(uint64_t(n)))); for (long x : s) v.push_back(from + x); return v;
}
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 9); Ctx c{t, sd, i % 3 == 2 ? 60 : 20, ""};
  { Obj ref(t, t.make(sd, c.bud)); c.im = str(t.serNoCb(ref.p)); } noteImage(t, i, c.im.data(), c.im.size()); spit(fname, c.im);
  long pmax = opt().thorough ? 400 : 24, bmax = opt().thorough ? 300 : 24;
  for (int o = 0; o < NOps; o++) {
    std::string what, wrong; for (int w = 0; w < 2; w++) if (call(c, o, {}, what, wrong) != Nothing) { fail(std::string("clean call fails: ") + opName[o], what); return; }
    if (!wrong.empty()) fail(std::string("not equal: ") + opName[o], wrong);
    long n = lastPoints; count(std::string("fault points: ") + opName[o], uint64_t(n));
    for (long k : choose(1, n, r, pmax)) watched(c, o, {Fault::Point, k});
    if (o == oSerUser) watched(c, o, {Fault::Callback, -1});
    if (o == oFromStream || o == oInStream) for (long k : choose(0, long(c.im.size()), r, bmax)) { watched(c, o, {Fault::ReadEnd, k, k % 3 == 0}); if (k % 2) watched(c, o, {Fault::ReadThrow, k, k % 3 == 1}); }
    if (o == oFromFile || o == oInFile) for (long k : choose(0, long(c.im.size()), r, bmax / 3)) watched(c, o, {Fault::ShortFile, k});
    if (o == oDes || o == oDesInto || o == oDesIn || o == oFromFile || o == oInFile || o == oFromStream || o == oInStream) {
      std::vector<long> marks; for (size_t p = 0; p + 4 <= c.im.size(); p++) if ((unsigned char)c.im[p] == 0xAD && (unsigned char)c.im[p + 3] == 0xDE) marks.push_back(long(p));
      for (long k : choose(0, long(marks.size()), r, bmax / 2)) watched(c, o, {Fault::Mark, marks[size_t(k)] + long(r.below(4))});
    }
    wrong.clear(); if (call(c, o, {}, what, wrong) != Nothing) fail(std::string("clean call after failures fails: ") + opName[o], what);
    else if (!wrong.empty()) fail(std::string("clean call after failures: ") + opName[o], wrong);
  }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  installHooks(); fname = opt().dir + "/ledger-file";
  for (auto& t : ops()) { int n = cases(3, 60); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
