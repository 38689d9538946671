// C04: every producer gives the same bytes, every consumer takes every producer's bytes.
#include "ops.h"
#include "run.h"
using namespace vr;
static std::string viaStream(TypeOps const& t, void* v, int k) {
  std::string f = opt().dir + "/s";
  switch (k) {
    case 0: case 1: { std::stringstream s; t.toStream[k](v, s); return s.str(); }
    case 2: { { std::ofstream s(f, std::ios::binary | std::ios::trunc); t.toStream[2](v, s); } return slurp(f); }
    case 3: { std::ostringstream s; t.toStream[3](v, s); return s.str(); }
    default: { { std::fstream s(f, std::ios::binary | std::ios::trunc | std::ios::in | std::ios::out); t.toStream[4](v, s); } return slurp(f); }
  }
}
template <class F> static void openIn(std::string const& im, int k, F use) {
  std::string f = opt().dir + "/r";
  switch (k) {
    case 0: case 1: { std::stringstream s(im); use(s); break; }
    case 2: { spit(f, im); std::ifstream s(f, std::ios::binary); use(s); break; }
    case 3: { std::istringstream s(im); use(s); break; }
    default: { spit(f, im); std::fstream s(f, std::ios::binary | std::ios::in | std::ios::out); use(s); }
  }
}
static char const* const sn[] = {"ostream/istream", "stringstream", "ofstream/ifstream", "ostringstream/istringstream", "fstream"};
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 99);
  try {
    Obj v(t, t.make(sd, i % 7 == 6 ? 2500 : 300)), ref(t, t.make(sd, i % 7 == 6 ? 2500 : 300));
    std::vector<std::pair<std::string, std::string>> im;      // producer, image
    phase("library memory"); { Result x = t.serNoCb(v.p); noteImage(t, i, x.buf, x.size); im.push_back({"library memory", str(x)}); }
    phase("caller memory"); { std::vector<char> m; Result x = t.ser(v.p, [&](size_t n) { m.resize(n + 1); return m.data(); }); im.push_back({"caller memory", str(x)}); }
    phase("file"); { std::string f = opt().dir + "/w"; t.toFile(v.p, f); im.push_back({"file", slurp(f)}); }
    for (int k = 0; k < 5; k++) if (t.toStream[k]) { phase(sn[k]); im.push_back({sn[k], viaStream(t, v.p, k)}); }
    for (size_t k = 1; k < im.size(); k++) if (im[k].second != im[0].second) fail("image differs: " + im[k].first, firstDiff(im[0].second, im[k].second));
    count("images produced", im.size());
    auto pick = [&]() -> std::string const& { return im[r.below(im.size())].second; };
    auto same = [&](void* p, std::string const& w) { count("objects restored"); if (!p) { fail("null result: " + w, ""); return; } std::string d = t.diff(ref.p, p); if (!d.empty()) fail("not equal: " + w, d); };
    auto target = [&] { return t.poly || r.chance(40) ? t.fresh() : t.make(r.next(), 60); };
    { phase("new object from memory"); Exact e(pick()); Obj o(t, t.des(e.p)); same(o.p, "new object from memory"); }
    { phase("caller storage"); Exact e(pick()); Storage s(t); void* o = t.desInto(e.p, s.p); same(o, "caller storage"); t.destroyAt(o); }
    { phase("in place from memory"); Exact e(pick()); Obj o(t, target()); t.desIn(e.p, o.p); same(o.p, "in place from memory"); }
    { phase("result object"); Obj o(t, t.desResult(v.p)); same(o.p, "result object"); }
    std::string f = opt().dir + "/c";
    { phase("new object from file"); spit(f, pick()); Obj o(t, t.fromFile(f)); same(o.p, "new object from file"); }
    { phase("in place from file"); spit(f, pick()); Obj o(t, target()); t.inFile(f, o.p); same(o.p, "in place from file"); }
    for (int k = 0; k < 5; k++) if (t.fromStream[k]) {
      phase(sn[k]); openIn(pick(), k, [&](std::istream& s) { Obj o(t, t.fromStream[k](s)); same(o.p, std::string("new object from ") + sn[k]); });
      phase(sn[k]); openIn(pick(), k, [&](std::istream& s) { Obj o(t, target()); t.inStream[k](s, o.p); same(o.p, std::string("in place from ") + sn[k]); });
    }
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(14, 300); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
