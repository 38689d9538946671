// C07: object lifetimes, memory, descriptors and mappings balance over successful operations.
#include "life.h"
using namespace vr;
static std::string fname;
// one operation, everything it hands out released again
static void op(TypeOps const& t, int o, uint64_t sd, uint64_t sd2, long bud, std::string const& im, std::string* made) {
  phase(opName[o]);
  Obj ref(t, t.make(sd, bud));
  auto same = [&](void* p) { std::string d = t.diff(ref.p, p); if (!d.empty()) fail(std::string("not equal: ") + opName[o], d); };
  switch (o) {
    case oSize: t.getSize(ref.p); break;
    case oSer: { Result r = t.serNoCb(ref.p); if (made) *made = str(r); break; }
    case oSerUser: { char* m = nullptr; { Result r = t.ser(ref.p, [&](size_t n) { return m = static_cast<char*>(malloc(n)); }); } free(m); break; }
    case oDes: { Exact e(im); Obj x(t, t.des(e.p)); same(x.p); break; }
    case oDesInto: { Exact e(im); Storage s(t); void* x = t.desInto(e.p, s.p); same(x); t.destroyAt(x); break; }
    case oDesIn: { Exact e(im); Obj x(t, t.poly ? t.fresh() : t.make(sd2, bud)); t.desIn(e.p, x.p); same(x.p); break; }
    case oDesResult: { Obj x(t, t.desResult(ref.p)); same(x.p); break; }
    case oToFile: t.toFile(ref.p, fname); break;
    case oFromFile: { Obj x(t, t.fromFile(fname)); same(x.p); break; }
    case oInFile: { Obj x(t, t.poly ? t.fresh() : t.make(sd2, bud)); t.inFile(fname, x.p); same(x.p); break; }
    case oToStream: { std::ostringstream s; t.toStream[0](ref.p, s); break; }
    case oFromStream: { std::istringstream s(im); Obj x(t, t.fromStream[0](s)); same(x.p); break; }
    case oInStream: { std::istringstream s(im); Obj x(t, t.poly ? t.fresh() : t.make(sd2, bud)); t.inStream[0](s, x.p); same(x.p); break; }
    case oFoot: t.footprint(ref.p, 3); break;
  }
}
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 7); long bud = i % 7 == 6 ? 400 : 40;
  try {
    std::string im; op(t, oSer, sd, 0, bud, "", &im); noteImage(t, i, im.data(), im.size()); spit(fname, im);
    std::vector<int> seq; for (int k = 0; k < 16; k++) seq.push_back(int(r.below(NOps)));
    long outer = liveAllocs;
    for (int round = 0; round < 2; round++) {
      for (int o : seq) {
        op(t, o, sd, sd + 1, bud, im, nullptr);                     // lets lazily created library state (type names and the like) come into being
        bool f = isFile(o); Snap a = Snap::now(f); uint64_t b0 = tk::L.built, u0 = tk::L.uses;
        op(t, o, sd, sd + 1, bud, im, nullptr); Snap b = Snap::now(f);
        count(std::string("operations watched: ") + opName[o]); count("tracked objects built", tk::L.built - b0); count("tracked uses", tk::L.uses - u0);
        if (b.errors != a.errors) { fail(std::string("object ledger: ") + opName[o], tk::L.first ? tk::L.first : "?"); tk::L.first = nullptr; }
        if (b.live != a.live) fail(std::string("objects never destroyed: ") + opName[o], std::to_string(b.live - a.live) + " left");
        else if (b.allocs != a.allocs) fail(std::string("memory not given back: ") + opName[o], std::to_string(b.allocs - a.allocs) + " allocations left");
        if (b.fds != a.fds) fail(std::string("descriptors left open: ") + opName[o], std::to_string(b.fds - a.fds));
        if (f && mapsOf(fname)) fail(std::string("mapping left: ") + opName[o], "");
      }
      if (round == 0) outer = liveAllocs;
    }
    if (liveAllocs > outer + 2) count("harness growth (progress bookkeeping)", uint64_t(liveAllocs - outer));
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  installHooks(); fname = opt().dir + "/ledger-file";
  for (auto& t : ops()) { int n = cases(15, 400); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
