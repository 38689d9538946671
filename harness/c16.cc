// C16: a traverser sees all of an object, once, in order; its dispatch is honoured at every depth.
#include "ops.h"
#include "run.h"
#include "trav16.h"
using namespace vr;
static std::string show(Trace const& t, size_t i) { return i < t.leaves.size() ? std::to_string(t.leaves[i].num) + " of " + std::to_string(t.leaves[i].elem) + " bytes" : "nothing"; }
static void sameLeaves(Trace const& a, Trace const& b, char const* w) {
  size_t n = std::max(a.leaves.size(), b.leaves.size());
  for (size_t i = 0; i < n; i++) if (i >= a.leaves.size() || i >= b.leaves.size() || a.leaves[i].elem != b.leaves[i].elem || a.leaves[i].num != b.leaves[i].num) { fail(std::string("presented differently: ") + w, "piece " + std::to_string(i) + " of " + std::to_string(a.leaves.size()) + "/" + std::to_string(b.leaves.size()) + ": " + show(a, i) + " / " + show(b, i)); return; }
}
static uint64_t total(Trace const& t) { uint64_t s = 0; for (auto& l : t.leaves) s += l.elem * l.num; return s; }
#ifdef SERIALIZATION_ERROR_CHECKING
static bool const kMarks = true;
#else
static bool const kMarks = false;
#endif
// is b what remains of a when the library's own marks are left out?
static std::string withoutMarks(Trace const& full, Trace const& look) {
  size_t j = 0, o = 0, p = 0;
  for (size_t i = 0; i < full.leaves.size(); i++) {
    size_t k = full.leaves[i].elem * full.leaves[i].num;
    if (j < look.leaves.size() && look.leaves[j].elem == full.leaves[i].elem && look.leaves[j].num == full.leaves[i].num && memcmp(full.bytes.data() + o, look.bytes.data() + p, k) == 0) { p += k; j++; }
    else if (!(full.leaves[i].num == 1 && (full.leaves[i].elem == 4 || full.leaves[i].elem == 8))) return "piece " + std::to_string(i) + " (" + show(full, i) + ") is missing from the observation, which shows " + show(look, j);
    o += k;
  }
  return j == look.leaves.size() ? "" : "the observation shows " + show(look, j) + " that packing does not";
}
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); long bud = i % 9 == 8 ? 2000 : 250;
  try {
    Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud));
    Trace pk, sz, lk, up, pk2;
    phase("packing traverser"); t.travPack(v.p, pk);
    phase("sizing traverser"); t.travSize(v.p, sz);
    phase("observing traverser"); t.travLook(v.p, lk);
    { std::string d = t.diff(ref.p, v.p); if (!d.empty()) fail("a traverser changed the object", d); }
    phase("library"); Result im = t.serNoCb(v.p); std::string lib = str(im); im.owner.reset(); size_t n = t.getSize(v.p);
    noteImage(t, i, lib.data(), lib.size()); count("pieces presented", pk.leaves.size());
    if (pk.bytes != lib) fail("collected bytes are not the image", firstDiff(pk.bytes, lib));
    if (total(sz) != n) fail("sizes presented do not add up to getSize", std::to_string(total(sz)) + " / " + std::to_string(n));
    sameLeaves(sz, pk, "sizing and packing");
    { std::string d = withoutMarks(pk, lk); if (!d.empty()) fail("the observation differs from what is packed", d); }
    if (!kMarks && total(lk) + 12 != n && total(lk) + 4 + 8 != n) fail("the observation is not all of the image but the outer marks", std::to_string(total(lk)) + " / " + std::to_string(n));
    { phase("unpacking traverser"); Obj o(t, t.fresh()); Exact b(pk.bytes);
      t.travUnpack(o.p, b.p, b.n, up); if (up.outside) fail("asked for more than the image holds", "");
      if (total(up) != b.n) fail("unpacking traverser did not get all", std::to_string(total(up)) + " of " + std::to_string(b.n));
      sameLeaves(pk, up, "packing and unpacking");
      std::string d = t.diff(ref.p, o.p); if (!d.empty()) fail("supplied bytes did not give an equal object", d);
      phase("packing the restored object"); t.travPack(o.p, pk2); if (!t.hashed) sameLeaves(pk, pk2, "original and restored object"); }
    count("traversals", 5);
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { if (!t.travPack) continue; int n = cases(25, 600); for (int i = 0; i < n; i++) one(t, i); }
  for (auto& c : v16::disp()) { int n = cases(25, 600); for (int i = 0; i < n; i++) {
    std::string id = c.name + "#" + std::to_string(i); if (!wanted(id)) continue;
    beginCase(id); try { c.run(caseSeed(c.name, uint64_t(i)), i); } catch (std::exception const& e) { fail("exception", e.what()); } } }
  return finish();
}
namespace v16 { std::vector<Case>& disp() { static std::vector<Case> v; return v; } }
