// C16: dispatchers, over the types of one part.
#define VR_PART
#include <algorithm>
#include "run.h"
#include "trav16.h"
using namespace v16; using namespace vr;
#include "trav16_types.h"
#if PART == 3
template <class... C> void inst(TL<C...>) { (checkpoint::instantiateObjSerializer<C, TAll<M::None>, TAll<M::Sizing>, TAll<M::Packing>, TAll<M::Unpacking>, TNoVec<M::None>, TShort<M::None>, TShort<M::Sizing>, TShort<M::Packing>, TShort<M::Unpacking>, Plainly>(), ...); }
static int inst_ = (inst(TL<Root, Mid, v16::Leaf, Side, Mac, Mac2>{}), 0);
#endif
static std::string word(uint64_t x) { static char const* n[] = {"?", "Node", "/Node", "Ext", "/Ext", "Split", "/Split", "Box", "/Box", "Root", "/Root", "Mid", "/Mid", "Leaf", "/Leaf", "Side", "/Side", "Mac", "/Mac", "Mac2", "/Mac2", "Arr", "/Arr", "Raw", "/Raw"}; if (x < 25) return n[x]; if (x == kVec) return "vector"; if (x == kReplaced) return "replaced"; return (x & 255) == 0xA7 ? "atom " + std::to_string(x >> 8) : std::to_string(x); }
// a restored hash container may list its elements in another order
static void same(Log got, Log want, char const* w, bool restored = false) {
  if (restored && st().cur.find("unordered") != std::string::npos) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
  if (got == want) { count("events compared", got.size()); return; }
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  std::string d = "event " + std::to_string(i) + ": shown " + (i < got.size() ? word(got[i]) : "nothing") + ", expected " + (i < want.size() ? word(want[i]) : "nothing") + " (" + std::to_string(got.size()) + "/" + std::to_string(want.size()) + " events)";
  fail(std::string("visits differ: ") + w, d);
}
template <class T> Log expected(T const& t, bool vectors, bool nodes) { W w; w.vectors = vectors; w.nodes = nodes; walk(t, w); return w.l; }
namespace cd = checkpoint::dispatch;
template <class T> struct Runner {
  static void make(T& t, uint64_t s, long b) { Rng r(s); Bud bb{b}; nextId() = s % 1000 * 100000; fill(t, r, bb); }
  static void run(uint64_t s, int i) {
    std::unique_ptr<T> v(new T{}), tw(new T{}); long b = i % 9 == 8 ? 300 : 40; make(*v, s, b); make(*tw, s, b);
    Log all = expected(*tw, true, true); distinct(hashBytes(all.data(), all.size() * 8, hashStr(st().cur))); seen("event sequences", hashBytes(all.data(), all.size() * 8));
    if (i == 3) sample(st().cur + ": " + std::to_string(all.size()) + " events");
    auto r = checkpoint::serialize<T>(*v); std::string lib(r->getBuffer(), r->getSize()); r.reset();
    Rec none, siz, pck, unp; 
    phase("announcing observer"); cd::Traverse::with<T, TAll<M::None>>(*v, &none); same(none.l, all, "observing");
    phase("announcing sizer"); cd::Traverse::with<T, TAll<M::Sizing>>(*v, &siz); same(siz.l, all, "sizing");
    phase("announcing packer"); cd::Traverse::with<T, TAll<M::Packing>>(*v, &pck); same(pck.l, all, "packing");
    if (pck.bytes != lib) fail("dispatcher that only announces: bytes are not the image", firstDiff(pck.bytes, lib));
    if (siz.left != lib.size()) fail("dispatcher that only announces: sizes do not add up", std::to_string(siz.left) + "/" + std::to_string(lib.size()));
    { std::unique_ptr<T> o(new T{}); if (i % 3 == 1) make(*o, s + 17, 20); if constexpr (PART == 3) if (i % 3 == 1) o.reset(new T{});    // polymorphic targets stay empty
      Exact e(lib); unp.in = e.p; unp.left = e.n; phase("announcing unpacker"); cd::Traverse::with<T, TAll<M::Unpacking>>(*o, &unp); same(unp.l, all, "unpacking"); same(expected(*o, true, true), all, "the restored object", true); if (unp.left) fail("unpacking left bytes", std::to_string(unp.left)); }
    same(expected(*v, true, true), all, "the traversed object, afterwards");
    if (none.objects != pck.objects || siz.objects != pck.objects || unp.objects != pck.objects) fail("number of dispatched objects differs between modes", std::to_string(none.objects) + "/" + std::to_string(siz.objects) + "/" + std::to_string(pck.objects) + "/" + std::to_string(unp.objects));
    // only vectors handled differently: they are noted and not entered
    { Rec nv; phase("vectors replaced"); cd::Traverse::with<T, TNoVec<M::None>>(*v, &nv); same(nv.l, expected(*tw, false, true), "vectors replaced"); count("vectors replaced", nv.vecs); }
    // Nodes carried by their id alone
    { Log sh = expected(*tw, true, false); Rec a, z, p, u; ownCalls() = 0;
      phase("nodes replaced: observing"); cd::Traverse::with<T, TShort<M::None>>(*v, &a); same(a.l, sh, "nodes replaced, observing");
      phase("nodes replaced: sizing"); cd::Traverse::with<T, TShort<M::Sizing>>(*v, &z); same(z.l, sh, "nodes replaced, sizing");
      phase("nodes replaced: packing"); cd::Traverse::with<T, TShort<M::Packing>>(*v, &p); same(p.l, sh, "nodes replaced, packing");
      if (z.left != p.bytes.size()) fail("nodes replaced: sizes do not add up", std::to_string(z.left) + "/" + std::to_string(p.bytes.size()));
      std::unique_ptr<T> o(new T{}); Exact e(p.bytes); u.in = e.p; u.left = e.n; phase("nodes replaced: unpacking"); cd::Traverse::with<T, TShort<M::Unpacking>>(*o, &u); same(u.l, sh, "nodes replaced, unpacking");
      if (u.left) fail("nodes replaced: unpacking left bytes", std::to_string(u.left)); same(expected(*o, true, false), sh, "nodes replaced: the restored object", true);
      if (ownCalls()) fail("a replaced object's own function was called", std::to_string(ownCalls())); }
    // a traverser that keeps its findings to itself and is returned
    { size_t atoms = 0; for (auto x : all) if ((x & 255) == 0xA7 && x > 255) atoms++; phase("plain typed traverser"); auto t = cd::Traverse::with<T, Plainly>(*v); if (t.atoms != atoms) fail("typed pieces counted by the returned traverser", std::to_string(t.atoms) + " of " + std::to_string(atoms)); }
    // one traverser over several objects
    { Rec two; TAll<M::Packing> t(&two); phase("one traverser, two objects"); t | *v | *tw; Log l2 = all; l2.insert(l2.end(), all.begin(), all.end()); same(two.l, l2, "one traverser over two objects"); 
      Rec back; Exact e(two.bytes); back.in = e.p; back.left = e.n; TAll<M::Unpacking> u(&back); std::unique_ptr<T> a(new T{}), c(new T{}); u | *a | *c; same(expected(*a, true, true), all, "first of two", true); same(expected(*c, true, true), all, "second of two", true); if (back.left) fail("two objects: bytes left", std::to_string(back.left)); }
    count("dispatched objects", pck.objects);
  }
  static int reg() { disp().push_back({"dispatch " + typeName<T>(), run}); return 0; }
};
template <class... T> int regAll(TL<T...>) { return (Runner<T>::reg() + ... + 0); }
static int done_ = regAll(Types{});
