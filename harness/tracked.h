// Element classes whose every construction, destruction and use is recorded in a ledger, and which fail on demand.
#pragma once
#include "gen.h"
#include <checkpoint/checkpoint.h>
#include <new>

namespace tk {
enum Kind { Ctor, Copy, Assign, Serialize, Memory, NKinds };
inline char const* const kindName[] = {"construction", "copy construction", "copy assignment", "user serialize", "allocation"};
struct Injected { Kind kind; long at; };

// open-addressed table in static memory: the ledger itself never allocates
struct Ledger {
  static size_t const N = 1 << 18; void const* slot[N]; long live = 0; long errors = 0; char const* first = nullptr; uint64_t built = 0, destroyed = 0, uses = 0;
  bool armed = false, counting = false; long points = 0, at = -1; Kind hit = NKinds; uint64_t kinds[NKinds] = {};
  static size_t h(void const* p) { return (reinterpret_cast<uintptr_t>(p) >> 3) * 0x9E3779B97F4A7C15ull >> 46; }
  void err(char const* m) { errors++; if (!first) first = m; }
  bool has(void const* p) const { for (size_t i = h(p);; i = (i + 1) % N) { if (slot[i] == p) return true; if (!slot[i]) return false; } }
  void add(void const* p) { built++; if (has(p)) { err("constructed over a live object"); return; } live++; size_t i = h(p); while (slot[i]) i = (i + 1) % N; slot[i] = p; }
  void del(void const* p) {
    destroyed++; size_t i = h(p); while (slot[i] != p) { if (!slot[i]) { err("destroyed, but not alive"); return; } i = (i + 1) % N; }
    live--; slot[i] = nullptr;
    for (size_t j = (i + 1) % N; slot[j]; j = (j + 1) % N) { void const* q = slot[j]; slot[j] = nullptr; size_t k = h(q); while (slot[k]) k = (k + 1) % N; slot[k] = q; }
  }
  void use(void const* p) { uses++; if (!has(p)) err("used, but not alive"); }
  // a place where user code or the allocator may fail
  void point(Kind k) {
    if (!counting) return; points++; kinds[k]++;
    if (armed && points == at) { hit = k; armed = false; if (k == Memory) throw std::bad_alloc(); throw Injected{k, at}; }
  }
};
extern Ledger L;

struct Live {                         // the recording part of every tracked class
  Live() { L.point(Ctor); L.add(this); }
  Live(Live const& o) { L.use(&o); L.point(Copy); L.add(this); }
  Live(Live&& o) noexcept { L.use(&o); L.add(this); }
  Live& operator=(Live const& o) { L.use(this); L.use(&o); L.point(Assign); return *this; }
  Live& operator=(Live&& o) noexcept { L.use(this); L.use(&o); return *this; }
  ~Live() { L.del(this); }
  void touch(bool mayFail = true) const { L.use(this); if (mayFail) L.point(Serialize); }
};
#define TK_BODY(T) auto fields() { return std::tie(a, s); } template <class S> void serialize(S& z) { live.touch(); z | a; live.touch(); z | s; }
struct T0 { Live live; int a = 1; std::string s = "default constructed, long enough for the heap"; static T0 vtNew() { return {}; } TK_BODY(T0)
  bool operator<(T0 const& o) const { return a < o.a; } bool operator==(T0 const& o) const { return a == o.a; } };
struct T0Hash { size_t operator()(T0 const& t) const { return size_t(t.a) % 5; } };
struct T1 { Live live; int a; std::string s; explicit T1(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(2), s("tagged, and also long enough for the heap") {} static T1 vtNew() { return T1(checkpoint::SERIALIZE_CONSTRUCT_TAG{}); } TK_BODY(T1) };
struct T2 { Live live; int a = 3; std::string s = "movable only, long enough for the heap"; T2() = default; T2(T2&&) = default; T2& operator=(T2&&) = default; static T2 vtNew() { return {}; } TK_BODY(T2) };
struct T3 { Live live; int a; std::string s; explicit T3(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(4), s("movable and tagged, long enough for the heap") {} T3(T3&&) = default; T3& operator=(T3&&) = default; static T3 vtNew() { return T3(checkpoint::SERIALIZE_CONSTRUCT_TAG{}); } TK_BODY(T3) };
struct T4 { Live live; int a; std::string s; explicit T4(int x) : a(x), s("reconstructed, certainly long enough for the heap") {} static T4& reconstruct(void* b) { return *new (b) T4(5); } static T4 vtNew() { return T4(1); } TK_BODY(T4) };
struct T5 { Live live; int a = 6; std::string s = "default and tagged, long enough for the heap"; T5() = default; explicit T5(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(7) {} static T5 vtNew() { return {}; } TK_BODY(T5) };
// several tracked members, constructed one after the other
struct Pack { T0 x; std::vector<T1> v; T4 y{9}; std::unique_ptr<T2> p; std::map<int, T0> m; static Pack vtNew() { return {}; } auto fields() { return std::tie(x, v, y, p, m); } template <class S> void serialize(S& s) { s | x | v | y | p | m; } };

#if defined(GROUP) && (GROUP == 22 || GROUP == 98)
struct Base : checkpoint::SerializableBase<Base> {
  T0 b; std::vector<T1> bv;
  virtual bool vtEqual(Base const& o, vt::Diff& d) const { return vt::eq(b, o.b, d) && vt::eq(bv, o.bv, d); }
  virtual void vtFill(vr::Rng& r, vt::Budget& g) { b = vt::gen<T0>(r, g); if (g.left > 10) bv = vt::gen<std::vector<T1>>(r, g); }
  static Base* vtMakePoly(vr::Rng& r, vt::Budget& g);
  template <class S> void serialize(S& s) { s | b | bv; }
};
struct Mid : checkpoint::SerializableDerived<Mid, Base> {
  T4 m{8}; std::unique_ptr<T3> q;
  bool vtEqual(Base const& o, vt::Diff& d) const override { auto& x = static_cast<Mid const&>(o); return Base::vtEqual(o, d) && vt::eq(m, x.m, d) && vt::eq(q, x.q, d); }
  void vtFill(vr::Rng& r, vt::Budget& g) override { Base::vtFill(r, g); m = vt::gen<T4>(r, g); q = vt::gen<std::unique_ptr<T3>>(r, g); }
  template <class S> void serialize(S& s) { s | m | q; }
};
struct Leaf : checkpoint::SerializableDerived<Leaf, Mid> {
  std::list<T2> l; std::unique_ptr<Base> in;
  bool vtEqual(Base const& o, vt::Diff& d) const override { auto& x = static_cast<Leaf const&>(o); return Mid::vtEqual(o, d) && vt::eq(l, x.l, d) && vt::eq(in, x.in, d); }
  void vtFill(vr::Rng& r, vt::Budget& g) override { Mid::vtFill(r, g); if (g.left > 10) { l = vt::gen<std::list<T2>>(r, g); g.left -= 10; if (r.chance(40)) in.reset(Base::vtMakePoly(r, g)); } }
  template <class S> void serialize(S& s) { s | l | in; }
};
inline Base* Base::vtMakePoly(vr::Rng& r, vt::Budget& g) { vt::In in(g); Base* b; switch (r.below(3)) { case 0: b = new Base; break; case 1: b = new Mid; break; default: b = new Leaf; } b->vtFill(r, g); return b; }
#endif
} // namespace tk
