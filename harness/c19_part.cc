// C19: calls of user functions, over the types of one part.
#define VR_PART
#include <algorithm>
#include "run.h"
#include "trav16.h"
using namespace v16; using namespace vr;
#include "trav16_types.h"
static char const* modeName(int m) { static char const* n[] = {"none", "unpacking", "packing", "sizing", "footprinting"}; return m >= 0 && m < 5 ? n[m] : "?"; }
static std::string word(Call const& c) { static char const* n[] = {"?", "Node", "/Node", "Ext", "/Ext", "Split", "/Split", "Box", "/Box", "Root", "/Root", "Mid", "/Mid", "Leaf", "/Leaf", "Side", "/Side", "Mac", "/Mac", "Mac2", "/Mac2", "Arr", "/Arr", "Raw", "/Raw"}; return std::string(c.code < 25 ? n[c.code] : "?") + (c.id ? " " + std::to_string(c.id >> 8) : "") + " (" + modeName(c.mode) + ")"; }
using Tape = std::vector<Call>;
// the calls one pass over the object must make, from a walk of the object itself
template <class T> Tape passOver(T const& t) {
  W w; walk(t, w); Tape r; std::vector<uint64_t> ids; uint64_t prev = 0;
  for (uint64_t x : w.l) {
    if (x < 25 && x % 2) { r.push_back({x, 0, 0, true}); ids.push_back(0); }
    else if (x < 25) { r.push_back({x, ids.back(), 0, true}); ids.pop_back(); }
    else if (prev == kNode || prev == kExt || prev == kRoot || prev == kMac) ids.back() = x;
    prev = x;
  }
  return r;
}
struct Recording { Tape t; Recording() { tape() = &t; } ~Recording() { tape() = nullptr; } Tape const& done() { tape() = nullptr; return t; } };
static bool sameCall(Call const& a, Call const& b) { return a.code == b.code && a.id == b.id; }
static void truthful(Tape const& got, char const* op) { for (auto& c : got) if (!c.truthful) { fail(std::string("the mode queries disagree with each other: ") + op, word(c)); return; } }
// got must be: the pass in mode a (one or more times, if there is one), then the pass in mode b exactly once
static void passes(Tape const& got, Tape const& pass, int a, int b, char const* op) {
  truthful(got, op); count("calls of user functions", got.size());
  if (pass.empty()) { if (!got.empty()) fail(std::string("calls without objects: ") + op, word(got[0])); return; }
  size_t at = 0, firsts = 0, n = 0;
  while (at < got.size()) {
    int m = got[at].mode; n++;
    for (size_t k = 0; k < pass.size(); k++, at++) {
      if (at >= got.size()) { fail(std::string("calls missing: ") + op, "pass " + std::to_string(n) + " (" + modeName(m) + ") ends after " + std::to_string(k) + " of " + std::to_string(pass.size()) + " events, missing " + word(pass[k])); return; }
      if (!sameCall(got[at], pass[k])) { fail(std::string("calls differ: ") + op, "pass " + std::to_string(n) + ", event " + std::to_string(k) + ": " + word(got[at]) + ", expected " + word(pass[k])); return; }
      if (got[at].mode != m) { fail(std::string("mode changes within a pass: ") + op, word(got[at])); return; }
    }
    if (m == b && at != got.size()) { fail(std::string("further calls after the ") + modeName(b) + " pass: " + op, word(got[at])); return; }
    if (m == a) firsts++; else if (m != b) { fail(std::string("a pass in another mode: ") + op, modeName(m)); return; }
  }
  if (n == firsts) fail(std::string("no ") + modeName(b) + " pass: " + op, std::to_string(n) + " passes"); else if (a >= 0 && !firsts) fail(std::string("no ") + modeName(a) + " pass: " + op, "");
  seen("event sequences", hashBytes(got.data(), got.size() * sizeof(Call)));
}
// what was called is a part of one pass, in its order
static bool partOf(Tape const& got, Tape const& pass) { size_t k = 0; for (auto& c : got) { while (k < pass.size() && !sameCall(c, pass[k])) k++; if (k++ >= pass.size()) return false; } return true; }
static Tape enters(Tape const& t) { Tape r; for (auto& c : t) if (c.code % 2) r.push_back(c); return r; }
enum { U = 1, P = 2, Z = 3, F = 4 };
template <class T> struct Runner {
  static void make(T& t, uint64_t s, long b) { Rng r(s); Bud bb{b}; nextId() = s % 1000 * 100000; fill(t, r, bb); }
  static void run(uint64_t s, int i) {
    std::unique_ptr<T> v(new T{}); long b = i % 9 == 8 ? 300 : 40; make(*v, s, b); Tape pass = passOver(*v);
    Rng r(s ^ 19); distinct(hashBytes(pass.data(), pass.size() * sizeof(Call), hashStr(st().cur)));
    if (i == 3) sample(st().cur + ": " + std::to_string(pass.size()) + " events per pass");
    std::string im, f = opt().dir + "/f";
    { phase("getSize"); Recording c; checkpoint::getSize<T>(*v); passes(c.done(), pass, -1, Z, "getSize"); }
    { phase("serialize"); Recording c; auto x = checkpoint::serialize<T>(*v); passes(c.done(), pass, Z, P, "serialize"); im.assign(x->getBuffer(), x->getSize()); }
    { phase("serialize to caller memory"); std::vector<char> m; Recording c; auto x = checkpoint::serialize<T>(*v, [&](size_t n) { m.resize(n); return m.data(); }); passes(c.done(), pass, Z, P, "serialize to caller memory"); }
    { phase("to file"); Recording c; checkpoint::serializeToFile<T>(*v, f); passes(c.done(), pass, Z, P, "serializeToFile"); }
    { phase("to stream"); std::ostringstream o; Recording c; checkpoint::serializeToStream<T>(*v, static_cast<std::ostream&>(o)); passes(c.done(), pass, Z, P, "serializeToStream"); }
    { phase("footprint"); Recording c; checkpoint::getMemoryFootprint<T>(*v); auto& g = c.done(); truthful(g, "getMemoryFootprint"); for (auto& x : g) if (x.mode != F) { fail("a pass in another mode: getMemoryFootprint", word(x)); break; } if (!partOf(g, pass)) fail("calls repeated, out of order or of other objects: getMemoryFootprint", std::to_string(g.size()) + " of " + std::to_string(pass.size())); }
    Exact e(im);
    { phase("deserialize"); Recording c; std::unique_ptr<T> o(checkpoint::deserialize<T>(e.p)); passes(c.done(), pass, -1, U, "deserialize"); }
    { phase("deserialize into storage"); std::allocator<T> al; T* m = al.allocate(1); Recording c; T* o = checkpoint::deserialize<T>(e.p, reinterpret_cast<char*>(m)); passes(c.done(), pass, -1, U, "deserialize into storage"); o->~T(); al.deallocate(m, 1); }
    { phase("in place"); std::unique_ptr<T> o(new T{}); if constexpr (PART != 3) if (i % 2) make(*o, s + 17, 20); Recording c; checkpoint::deserializeInPlace<T>(e.p, o.get()); passes(c.done(), pass, -1, U, "deserializeInPlace"); }
    { phase("from file"); Recording c; auto o = checkpoint::deserializeFromFile<T>(f); passes(c.done(), pass, -1, U, "deserializeFromFile"); unlink(f.c_str()); }
    { phase("from stream"); std::istringstream in(im); Recording c; auto o = checkpoint::deserializeFromStream<T>(static_cast<std::istream&>(in)); passes(c.done(), pass, -1, U, "deserializeFromStream"); }
    { phase("in place from stream"); std::istringstream in(im); std::unique_ptr<T> o(new T{}); Recording c; checkpoint::deserializeInPlaceFromStream<T>(static_cast<std::istream&>(in), o.get()); passes(c.done(), pass, -1, U, "deserializeInPlaceFromStream"); }
    // a read that ends early has called the beginning of the pass, nothing twice
    for (int k = 0; k < 3; k++) { std::istringstream in(im.substr(0, r.below(im.size()))); phase("truncated stream"); Recording c;
      try { auto o = checkpoint::deserializeFromStream<T>(static_cast<std::istream&>(in)); } catch (std::exception const&) {}
      Tape g = enters(c.done()), want = enters(pass); truthful(c.t, "truncated read"); bool ok = g.size() <= want.size(); for (size_t j = 0; ok && j < g.size(); j++) ok = g[j].code == want[j].code && g[j].mode == U; if (!ok) fail("calls of a read that ends early are not the beginning of the pass", std::to_string(g.size())); count("calls of reads that end early", g.size()); }
  }
  static int reg() { disp().push_back({typeName<T>(), run}); return 0; }
};
template <class... T> int regAll(TL<T...>) { return (Runner<T>::reg() + ... + 0); }
static int done_ = regAll(Types{});
