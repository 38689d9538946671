// C06: in-place deserialization fully replaces what was there.
#include "ops.h"
#include "run.h"
#include "poly.h"
using namespace vr;
static int const NV = 3; static char const* const via[NV] = {"memory", "file", "stream"};
static void into(TypeOps const& t, std::string const& im, void* o, int k) {
  phase(via[k]);
  if (k == 0) { Exact e(im); t.desIn(e.p, o); }
  else if (k == 1) { std::string f = opt().dir + "/i"; spit(f, im); t.inFile(f, o); }
  else { std::stringstream s(im + "tail"); t.inStream[0](s, o); if (!s || size_t(s.tellg()) != im.size()) fail("in place consumed another number of bytes", std::to_string(im.size()) + " serialized"); }
}
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 6);
  try {
    // a target with a history: made from one seed, overwritten by several others in turn, must equal each in turn
    Obj target(t, t.poly ? t.fresh() : t.make(sd, i % 5 == 4 ? 1500 : 200)); int n = t.poly ? 1 : 2 + int(r.below(4)); uint64_t h = 0;
    for (int k = 0; k < n; k++) {
      uint64_t s2 = caseSeed(t.name, r.next()); long bud = r.chance(25) ? 4 : r.chance(20) ? 1200 : 150;
      Obj src(t, t.make(s2, bud)), ref(t, t.make(s2, bud)); std::string im = str(t.serNoCb(src.p));
      h = hashBytes(im.data(), im.size(), h); int w = int(r.below(NV));
      into(t, im, target.p, w);
      std::string d = t.diff(ref.p, target.p); if (!d.empty()) { fail(std::string("target differs after in place from ") + via[w], d); break; }
      if (t.capacity && t.capacity(target.p) < t.capacity(src.p)) fail("vector capacity after in place", "");
      if (r.chance(30)) { into(t, im, target.p, 0); d = t.diff(ref.p, target.p); if (!d.empty()) { fail("target differs after in place over an equal object", d); break; } }
      count("replacements"); if (t.poly) { into(t, im, target.p, int(r.below(NV))); if (!t.diff(ref.p, target.p).empty()) fail("target differs after in place over an equal object", ""); }
    }
    distinct(h ^ hashStr(t.name)); if (i % 23 == 4) sample(id + ": chain of " + std::to_string(n) + " replacements");
  } catch (std::exception const& e) { fail("exception", e.what()); }
}

// ---- polymorphic targets whose dynamic types match (contents arbitrary) or that are empty
template <class P> P* mk(int k);
template <> vt::Shape* mk<vt::Shape>(int k) { return k == 0 ? new vt::Shape : k == 1 ? static_cast<vt::Shape*>(new vt::Circle) : k == 2 ? static_cast<vt::Shape*>(new vt::Ring) : new vt::Poly; }
template <> vt::Animal* mk<vt::Animal>(int k) { return k == 0 ? static_cast<vt::Animal*>(new vt::Dog) : k == 1 ? static_cast<vt::Animal*>(new vt::Cat(1)) : k == 2 ? static_cast<vt::Animal*>(new vt::Lion(3)) : new vt::Dog; }
// nested owned polymorphic members follow the structure seed, data the data seed
static void fill(vt::Shape& s, Rng& st, Rng& da, int depth) {
  vt::Budget b; b.left = 30; s.id = int(da.next()); s.label = vt::gen<std::string>(da, b);
  if (auto c = dynamic_cast<vt::Circle*>(&s)) c->radius = vt::gen<double>(da, b);
  if (auto g = dynamic_cast<vt::Ring*>(&s)) { g->hole = vt::gen<double>(da, b); g->w = vt::gen<vt::Wrap<std::map<int, int>>>(da, b); }
  if (auto p = dynamic_cast<vt::Poly*>(&s)) { p->pts = vt::gen<std::vector<std::pair<float, float>>>(da, b); if (depth < 4 && st.chance(60)) { int k = int(st.below(4)); p->inner.reset(mk<vt::Shape>(k)); fill(*p->inner, st, da, depth + 1); } }
}
static void fill(vt::Animal& a, Rng& st, Rng& da, int depth) {
  vt::Budget b; b.left = 30; a.legs = uint16_t(da.next());
  if (auto d = dynamic_cast<vt::Dog*>(&a)) d->name = vt::gen<std::string>(da, b);
  if (auto c = dynamic_cast<vt::Cat*>(&a)) {
    c->lives = int(da.next());
    if (depth < 4 && st.chance(60)) { c->prey.reset(mk<vt::Animal>(int(st.below(3)))); fill(*c->prey, st, da, depth + 1); }
    int n = int(da.below(4));                     // litters of any length: position i has kind i % 3
    for (int i = 0; i < n && depth < 3; i++) { c->litter.emplace_back(mk<vt::Animal>(i % 3)); Rng s2(uint64_t(i) + 1000 * uint64_t(depth)); fill(*c->litter.back(), s2, da, 99); }
    if (st.chance(50)) { c->toy.reset(mk<vt::Shape>(int(st.below(3)))); Rng s2(5); fill(*c->toy, s2, da, 99); }
  }
  if (auto l = dynamic_cast<vt::Lion*>(&a)) l->mane = vt::gen<std::list<int>>(da, b);
}
// three states of a target with the same structure: empty pointers where chance allows
template <class P> static std::unique_ptr<P> build(int kind, uint64_t structure, uint64_t data) { std::unique_ptr<P> p(mk<P>(kind)); Rng st(structure), da(data); fill(*p, st, da, 0); return p; }
template <class T> static void pair_(std::string const& what, int i, T& target, T& src, T const& ref) {
  std::string id = what + "#" + std::to_string(i); if (!wanted(id)) return; beginCase(id);
  try {
    for (int w = 0; w < NV; w++) {
      auto im = checkpoint::serialize(src); std::string b(im->getBuffer(), im->getSize()); phase(via[w]);
      if (w == 0) { Exact e(b); checkpoint::deserializeInPlace<T>(e.p, &target); }
      else if (w == 1) { std::string f = opt().dir + "/p"; spit(f, b); checkpoint::deserializeInPlaceFromFile<T>(f, &target); }
      else { std::istringstream s(b); std::istream& is = s; checkpoint::deserializeInPlaceFromStream<T>(is, &target); }
      std::string d = vt::diff(ref, target); if (!d.empty()) fail(std::string("polymorphic target differs after in place from ") + via[w], d);
      distinct(hashStr(b)); count("polymorphic replacements");
      if (w == 0 && i % 3 == 0) break;
    }
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
template <class P> static void polys(char const* nm) {
  using U = std::unique_ptr<P>; int n = cases(60, 1500);
  for (int i = 0; i < n; i++) {
    uint64_t st = caseSeed(nm, uint64_t(i)), d1 = mix(st + 1), d2 = mix(st + 2); Rng r(st + 3); int k = i % 4;
    { U a = r.chance(80) ? build<P>(k, st, d1) : nullptr, b = build<P>(k, st, d2), c = build<P>(k, st, d2); if (r.chance(15)) { b.reset(); c.reset(); } pair_(std::string(nm) + " pointer", i, a, b, c); }
    { std::vector<U> a, b, c; size_t na = r.below(6), nb = r.below(6);
      auto el = [&](size_t j, uint64_t d, bool null) -> U { return null ? nullptr : build<P>(int(j % 3), mix(j), mix(d + j)); };
      for (size_t j = 0; j < na; j++) a.push_back(el(j, d1, mix(d1 + j) % 5 == 0)); for (size_t j = 0; j < nb; j++) { b.push_back(el(j, d2, mix(d2 + j) % 5 == 0)); c.push_back(el(j, d2, mix(d2 + j) % 5 == 0)); }
      pair_(std::string("vector of ") + nm, i, a, b, c);
      std::list<U> la, lb, lc; for (auto& x : a) { (void)x; la.push_back(el(la.size(), d1, false)); } for (auto& x : b) { (void)x; lb.push_back(el(lb.size(), d2, false)); lc.push_back(el(lc.size(), d2, false)); } pair_(std::string("list of ") + nm, i, la, lb, lc);
      std::map<int, U> ma, mb, mc; for (size_t j = 0; j < na; j++) ma[int(j * 2)] = el(j + 1, d1, false); for (size_t j = 0; j < nb; j++) { mb[int(j)] = el(j, d2, false); mc[int(j)] = el(j, d2, false); } pair_(std::string("map to ") + nm, i, ma, mb, mc);
      std::variant<int, U, std::string> va, vb, vc; if (na & 1) va = el(na, d1, false); else va = "text of some length, on the heap"; if (nb & 1) { vb = el(nb, d2, false); vc = el(nb, d2, false); } else { vb = 5; vc = 5; } pair_(std::string("variant with ") + nm, i, va, vb, vc); }
  }
}
// a variant left without a value by an exception is a target like any other
struct Thrower { int x = 0; Thrower() = default; Thrower(int) { throw 1; } template <class S> void serialize(S& s) { s | x; } };
static void valueless() {
  for (int i = 0; i < 4; i++) {
    std::string id = "valueless variant#" + std::to_string(i); if (!wanted(id)) continue; beginCase(id);
    using V = std::variant<std::string, int, std::vector<int>, Thrower>; V src = i == 0 ? V("text") : i == 1 ? V(4) : i == 2 ? V(std::vector<int>{1, 2}) : V(Thrower());
    V t = std::vector<int>{1, 2, 3}; try { t.emplace<3>(1); } catch (int) {}
    if (!t.valueless_by_exception()) { count("could not make a variant valueless"); continue; }
    auto im = checkpoint::serialize(src); checkpoint::deserializeInPlace<V>(im->getBuffer(), &t);
    if (t.index() != src.index()) fail("valueless variant target", "index " + std::to_string(t.index())); distinct(uint64_t(i) + 1);
  }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(30, 700); for (int i = 0; i < n; i++) one(t, i); }
  polys<vt::Shape>("Shape"); polys<vt::Animal>("Animal"); valueless();
  return finish();
}
