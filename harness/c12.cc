// C12: polymorphic objects: dynamic type, every level's state, every level's serialize exactly once per pass and in order.
#include "ops.h"
#include "run.h"
#include "poly12.h"
using namespace vr;
static vp::Out expected(TypeOps const& t, void const* p) { vp::Out o; t.expect(p, &o); return o; }
// the calls of one pass against what the object says it needs
static void pass(char mode, vp::Out const& e, bool addresses, bool needed, char const* what) {
  std::vector<vp::Ev> l; for (auto& x : vp::log()) if (x.mode == mode) l.push_back(x);
  if (l.empty() && !needed) return; count(std::string("passes observed: ") + mode); count("level calls", l.size());
  std::string w = std::string(what) + " (" + (mode == 's' ? "sizing" : mode == 'p' ? "packing" : mode == 'u' ? "unpacking" : "footprint") + ")";
  size_t n = std::min(l.size(), e.size());
  for (size_t i = 0; i < n; i++) {
    if (l[i].level != e[i].level) { fail("levels called out of order: " + w, "call " + std::to_string(i) + " is level " + std::to_string(l[i].level) + ", expected " + std::to_string(e[i].level)); return; }
    if (addresses && e[i].stable && l[i].self != e[i].self) { fail("level called on another object: " + w, "call " + std::to_string(i) + ", level " + std::to_string(e[i].level)); return; }
  }
  if (l.size() != e.size()) fail("levels called too often or not at all: " + w, std::to_string(l.size()) + " calls, expected " + std::to_string(e.size()));
}
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); long bud = i % 7 == 6 ? 1500 : i % 3 == 0 ? 60 : 250; Rng r(sd ^ 3);
  try {
    Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud)); auto& L = vp::log(); std::string f = opt().dir + "/f";
    vp::Out ev = expected(t, v.p); { uint64_t h = 7; for (auto& e : ev) { h = h * 31 + uint64_t(e.level); seen("levels", uint64_t(e.level)); } seen("call sequences", h); }
    auto source = [&](char const* w, bool sizing) { pass('s', ev, true, sizing, w); pass('p', ev, true, true, w); for (auto& x : L) if (x.mode == 'u') { fail("unpacking while serializing", w); break; } };
    bool hashed = t.hashed || std::string(t.name).find("Graph") != std::string::npos; vp::Out cur = ev;
    auto result = [&](void* p, char const* w) {
      if (!p) { fail(std::string("null result: ") + w, ""); return; } std::string d = t.diff(ref.p, p); if (!d.empty()) { fail(std::string("not equal: ") + w, d); return; }
      pass('u', cur, false, true, w); if (!hashed) pass('u', expected(t, p), true, true, w); };
    phase("getSize"); L.clear(); t.getSize(v.p); pass('s', ev, true, true, "getSize");
    phase("serialize"); L.clear(); Result im = t.serNoCb(v.p); noteImage(t, i, im.buf, im.size); source("memory", true);
    if (i % 13 == 2) sample(id + ": " + std::to_string(ev.size()) + " level calls, image of " + std::to_string(im.size) + " bytes");
    phase("deserialize"); { L.clear(); Obj o(t, t.des(im.buf)); result(o.p, "memory");
      phase("second generation"); L.clear(); Result im2 = t.serNoCb(o.p); pass('p', expected(t, o.p), true, true, "second generation"); if (t.stableImage && str(im2) != str(im)) fail("second generation image differs", firstDiff(str(im), str(im2))); L.clear(); cur = expected(t, o.p); Obj o2(t, t.des(im2.buf)); result(o2.p, "second generation"); cur = ev; }
    switch (i % 5) {
      case 0: { phase("caller storage"); Storage m(t); L.clear(); void* o = t.desInto(im.buf, m.p); result(o, "caller storage"); t.destroyAt(o); break; }
      case 1: { phase("in place"); Obj o(t, t.fresh()); L.clear(); t.desIn(im.buf, o.p); result(o.p, "in place"); break; }
      case 2: { phase("file"); L.clear(); t.toFile(v.p, f); source("file", true); L.clear(); Obj o(t, t.fromFile(f)); result(o.p, "file"); L.clear(); Obj o2(t, t.fresh()); L.clear(); t.inFile(f, o2.p); result(o2.p, "in place from file"); break; }
      case 3: { phase("stream"); std::stringstream s; L.clear(); t.toStream[0](v.p, s); source("stream", false); std::string bytes = s.str(); if (t.stableImage && bytes != str(im)) fail("stream image differs", firstDiff(str(im), bytes)); L.clear(); Obj o(t, t.fromStream[0](s)); result(o.p, "stream"); std::istringstream s2(bytes); Obj o2(t, t.fresh()); L.clear(); t.inStream[0](s2, o2.p); result(o2.p, "in place from stream"); break; }
      default: { phase("concrete streams"); int k = 1 + int(r.below(4)); 
        if (k == 1) { std::stringstream s; L.clear(); t.toStream[1](v.p, s); source("stringstream", false); L.clear(); Obj o(t, t.fromStream[1](s)); result(o.p, "stringstream"); }
        else if (k == 3) { std::ostringstream s; L.clear(); t.toStream[3](v.p, s); source("ostringstream", false); std::istringstream q(s.str()); L.clear(); Obj o(t, t.fromStream[3](q)); result(o.p, "istringstream"); }
        else if (k == 2) { { std::ofstream s(f, std::ios::binary); L.clear(); t.toStream[2](v.p, s); source("ofstream", false); } std::ifstream q(f, std::ios::binary); L.clear(); Obj o(t, t.fromStream[2](q)); result(o.p, "ifstream"); }
        else { { std::fstream s(f, std::ios::binary | std::ios::out | std::ios::trunc); L.clear(); t.toStream[4](v.p, s); source("fstream", false); } std::fstream q(f, std::ios::binary | std::ios::in); L.clear(); Obj o(t, t.fromStream[4](q)); result(o.p, "fstream"); } }
    }
    phase("footprint"); L.clear(); t.footprint(v.p, 0); vp::footprinting() = true; vp::Out ef = expected(t, v.p); vp::footprinting() = false; pass('f', ef, true, true, "footprint");
    std::string d = t.diff(ref.p, v.p); if (!d.empty()) fail("source changed", d);
    L.clear();
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  // the order of first use is part of the history: rotate it with the seed
  auto& T = ops(); for (size_t k = 0; k < T.size(); k++) { auto& t = T[(k + opt().seed * 11) % T.size()]; int n = cases(40, 1500); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
