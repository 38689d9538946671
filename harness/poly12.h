// Class hierarchies whose every level logs its serialize, with an independent statement of what each pass must call.
#pragma once
#include "types.h"

namespace vp {
using vt::Diff; using vt::Budget; using vr::Rng; using vt::In; using vt::gen;
using std::unique_ptr; template <class T> using up = unique_ptr<T>;

struct Ev { char mode; int level; void const* self; };            // mode: s p u f (sizing, packing, unpacking, footprint) o(ther)
struct Exp { int level; void const* self; bool stable; };         // stable: the object is not moved after it was unpacked
inline std::vector<Ev>& log() { static std::vector<Ev> l; return l; }
template <class S> void ev(S& s, int level, void const* self) {
  log().push_back({s.isSizing() ? 's' : s.isPacking() ? 'p' : s.isUnpacking() ? 'u' : s.isFootprinting() ? 'f' : 'o', level, self});
}
using Out = std::vector<Exp>;
inline bool& footprinting() { static bool f = false; return f; }   // the footprint counts the value of an optional by its size alone
// ---- what a traversal of a value must call, in order
template <class T, class E = void> struct Walk { static void go(Out&, T const&, bool) {} };
template <class T> void walk(Out& o, T const& t, bool st) { Walk<T>::go(o, t, st); }
template <class T> struct Walk<T, std::void_t<decltype(std::declval<T const&>().vpExpect(std::declval<Out&>(), true))>> { static void go(Out& o, T const& t, bool st) { t.vpExpect(o, st); } };
template <class T, class D> struct Walk<unique_ptr<T, D>> { static void go(Out& o, unique_ptr<T, D> const& p, bool) { if (p) walk(o, *p, true); } };
template <class T> struct Walk<std::shared_ptr<T>> { static void go(Out& o, std::shared_ptr<T> const& p, bool) { if (p) walk(o, *p, true); } };
template <class C> void walkSeq(Out& o, C const& c) { for (auto& x : c) walk(o, x, false); }
template <class T> struct Walk<std::vector<T>> { static void go(Out& o, std::vector<T> const& c, bool) { if constexpr (!std::is_same<T, bool>::value) walkSeq(o, c); } };
template <class T> struct Walk<std::list<T>> { static void go(Out& o, std::list<T> const& c, bool) { walkSeq(o, c); } };
template <class T> struct Walk<std::deque<T>> { static void go(Out& o, std::deque<T> const& c, bool) { walkSeq(o, c); } };
template <class T, size_t N> struct Walk<std::array<T, N>> { static void go(Out& o, std::array<T, N> const& c, bool st) { for (auto& x : c) walk(o, x, st); } };
template <class K, class V> struct Walk<std::map<K, V>> { static void go(Out& o, std::map<K, V> const& c, bool) { for (auto& x : c) walk(o, x.second, false); } };
template <class K, class V> struct Walk<std::unordered_map<K, V>> { static void go(Out& o, std::unordered_map<K, V> const& c, bool) { for (auto& x : c) walk(o, x.second, false); } };
template <class A, class B> struct Walk<std::pair<A, B>> { static void go(Out& o, std::pair<A, B> const& p, bool st) { walk(o, p.first, st); walk(o, p.second, st); } };
template <class... T> struct Walk<std::tuple<T...>> { static void go(Out& o, std::tuple<T...> const& t, bool st) { (void)st; std::apply([&](auto const&... x) { (walk(o, x, st), ...); }, t); } };
template <class T> struct Walk<std::optional<T>> { static void go(Out& o, std::optional<T> const& p, bool) { if (p && !footprinting()) walk(o, *p, false); } };
template <class... T> struct Walk<std::variant<T...>> { static void go(Out& o, std::variant<T...> const& v, bool) { std::visit([&](auto const& x) { walk(o, x, false); }, v); } };

// ---- one level of a hierarchy
template <class F, size_t... I> bool eqTie(F const& a, F const& b, Diff& d, std::index_sequence<I...>) {
  (void)a; (void)b; (void)d; return ((vt::eq<std::decay_t<std::tuple_element_t<I, F>>>(std::get<I>(a), std::get<I>(b), d) ? true : d.set(".m" + std::to_string(I))) && ...); }
template <class F, size_t... I> void fillTie(F f, Rng& r, Budget& b, std::index_sequence<I...>) { (void)f; (void)r; (void)b; ((std::get<I>(f) = gen<std::decay_t<std::tuple_element_t<I, F>>>(r, b)), ...); }
template <class F, size_t... I> void walkTie(F const& f, Out& o, bool st, std::index_sequence<I...>) { (void)f; (void)o; (void)st; (walk(o, std::get<I>(f), st), ...); }
template <class S, class F, size_t... I> void serTie(S& s, F f, std::index_sequence<I...>) { (void)s; (void)f; ((s | std::get<I>(f)), ...); }
template <class F> using Ix = std::make_index_sequence<std::tuple_size<F>::value>;
template <class Root> struct Poly_ {};

#define VP_FIELDS_(...) auto vpF() { return std::tie(__VA_ARGS__); }
#define VP_OWN_(T) using VpT = T; auto vpC() const { return const_cast<T*>(this)->T::vpF(); }
#define VP_ROOT(T, ID, ...) VP_FIELDS_(__VA_ARGS__) VP_OWN_(T) static constexpr int vpId = ID; \
  virtual bool vtEqual(T const& o, Diff& d) const { auto f = T::vpC(); return eqTie(f, o.T::vpC(), d, Ix<decltype(f)>{}); } \
  virtual void vtFill(Rng& r, Budget& b) { auto f = T::vpF(); fillTie(f, r, b, Ix<decltype(f)>{}); } \
  virtual void vpExpect(Out& o, bool st) const { o.push_back({ID, static_cast<T const*>(this), st}); auto f = T::vpC(); walkTie(f, o, st, Ix<decltype(f)>{}); } \
  static T* vtMakePoly(Rng& r, Budget& b);
#define VP_LEVEL(T, P, R, ID, ...) VP_FIELDS_(__VA_ARGS__) VP_OWN_(T) static constexpr int vpId = ID; \
  bool vtEqual(R const& o, Diff& d) const override { auto f = T::vpC(); return P::vtEqual(o, d) && (eqTie(f, static_cast<T const&>(o).T::vpC(), d, Ix<decltype(f)>{}) || d.set("level " + std::to_string(ID))); } \
  void vtFill(Rng& r, Budget& b) override { P::vtFill(r, b); auto f = T::vpF(); fillTie(f, r, b, Ix<decltype(f)>{}); } \
  void vpExpect(Out& o, bool st) const override { P::vpExpect(o, st); o.push_back({ID, static_cast<T const*>(this), st}); auto f = T::vpC(); walkTie(f, o, st, Ix<decltype(f)>{}); }
#define VP_SER(T) template <class S> void serialize(S& s) { ev(s, vpId, static_cast<T const*>(this)); auto f = T::vpF(); serTie(s, f, Ix<decltype(f)>{}); }
#define VP_SER_FREE(T) template <class S> void serialize(S& s, T& t) { ev(s, T::vpId, &t); auto f = t.T::vpF(); serTie(s, f, Ix<decltype(f)>{}); }

// ---- A: shim classes, eight levels deep, concrete at every level, default constructible, some copyable
struct A0; struct B0; struct M0; struct H0;
struct A0 : checkpoint::SerializableBase<A0> { uint32_t v = 7; VP_ROOT(A0, 100, v) VP_SER(A0) };
struct A1 : checkpoint::SerializableDerived<A1, A0> { std::string s; VP_LEVEL(A1, A0, A0, 101, s) VP_SER(A1) };
struct A2 : checkpoint::SerializableDerived<A2, A1> { uint8_t c = 0; std::vector<A1> same; VP_LEVEL(A2, A1, A0, 102, c, same) VP_SER(A2) };     // by value, in a container, of its own hierarchy
struct A3 : checkpoint::SerializableDerived<A3, A2> { up<A0> in; int after = 0; VP_LEVEL(A3, A2, A0, 103, in, after) VP_SER(A3) };
struct A4 : checkpoint::SerializableDerived<A4, A3> { A1 val; A2 val2; std::string t; VP_LEVEL(A4, A3, A0, 104, val, val2, t) VP_SER(A4) };   // members by value
struct A5 : checkpoint::SerializableDerived<A5, A4> { std::vector<up<A1>> mid; up<A3> low; VP_LEVEL(A5, A4, A0, 105, mid, low) VP_SER(A5) };
struct A6 : checkpoint::SerializableDerived<A6, A5> { VP_LEVEL(A6, A5, A0, 106) VP_SER(A6) };                                                 // nothing of its own
struct A7 : checkpoint::SerializableDerived<A7, A6> { double z = 0; std::map<int, up<A0>> m; VP_LEVEL(A7, A6, A0, 107, z, m) VP_SER(A7) };
inline A0* makeA(Rng& r, Budget& b, int lo) {
  In in(b); int hi = b.left > 40 ? 7 : b.left > 0 ? 4 : 2; if (hi < lo) hi = lo; b.left -= 8; A0* a = nullptr;
  switch (r.range(lo, hi)) { case 0: a = new A0; break; case 1: a = new A1; break; case 2: a = new A2; break; case 3: a = new A3; break; case 4: a = new A4; break; case 5: a = new A5; break; case 6: a = new A6; break; default: a = new A7; }
  a->vtFill(r, b); return a;
}
inline A0* A0::vtMakePoly(Rng& r, Budget& b) { return makeA(r, b, 0); }

// ---- B: abstract root, abstract intermediate, wide
struct B0 : checkpoint::SerializableBase<B0> { int16_t k = 0; virtual int pure() const = 0; VP_ROOT(B0, 200, k) VP_SER(B0) };
struct B1 : checkpoint::SerializableDerived<B1, B0> { std::string n; virtual int pure2() const = 0; VP_LEVEL(B1, B0, B0, 201, n) VP_SER(B1) };
template <int N> struct W : checkpoint::SerializableDerived<W<N>, B0> { using Me = W<N>; uint16_t w = N; int pure() const override { return N; } VP_LEVEL(Me, B0, B0, 210 + N, w) VP_SER(Me) };        // same layout, only the type differs
template <int N> struct X : checkpoint::SerializableDerived<X<N>, B1> { using Me = X<N>; std::vector<int> x; up<B0> inner; int pure() const override { return 100 + N; } int pure2() const override { return N; } VP_LEVEL(Me, B1, B0, 240 + N, x, inner) VP_SER(Me) };
template <int... N> B0* wide(int k, std::integer_sequence<int, N...>) { B0* r = nullptr; (void)((k == N ? (r = new W<N>, true) : false) || ...); return r; }
inline B0* B0::vtMakePoly(Rng& r, Budget& b) {
  In in(b); B0* p; if (r.chance(60) || b.left < 10) p = wide(r.range(0, 11), std::make_integer_sequence<int, 12>{}); else { b.left -= 10; switch (r.below(3)) { case 0: p = new X<0>; break; case 1: p = new X<1>; break; default: p = new X<2>; } }
  p->vtFill(r, b); return p;
}
// ---- M: macros, serialize outside of the classes, tagged constructors, no default constructors
struct M0 { checkpoint_virtual_serialize_root() int a; explicit M0(int x) : a(x) {} explicit M0(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(-1) {} M0(M0&&) = default; M0& operator=(M0&&) = default; virtual ~M0() = default; VP_ROOT(M0, 300, a) };
struct M1 : M0 { checkpoint_virtual_serialize_derived_from(M0) std::string s; explicit M1(int x) : M0(x) {} explicit M1(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : M0(t), s("placeholder that lives on the heap, surely") {} VP_LEVEL(M1, M0, M0, 301, s) };
struct M2 : M1 { checkpoint_virtual_serialize_derived_from(M1) up<A0> other; up<M0> own; explicit M2(int x) : M1(x) {} explicit M2(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : M1(t) {} VP_LEVEL(M2, M1, M0, 302, other, own) };
struct M3 : M2 { checkpoint_virtual_serialize_derived(M3, M2) std::tuple<up<B0>, int, up<M1>> t; std::optional<int> o; explicit M3(int x) : M2(x) {} explicit M3(checkpoint::SERIALIZE_CONSTRUCT_TAG t_) : M2(t_) {} VP_LEVEL(M3, M2, M0, 303, t, o) };   // the older spelling of the macro
VP_SER_FREE(M0) VP_SER_FREE(M1) VP_SER_FREE(M2) VP_SER_FREE(M3)
inline M0* makeM(Rng& r, Budget& b, int lo) { In in(b); int hi = b.left > 20 ? 3 : 1; if (hi < lo) hi = lo; b.left -= 6; M0* m; switch (r.range(lo, hi)) { case 0: m = new M0(1); break; case 1: m = new M1(1); break; case 2: m = new M2(1); break; default: m = new M3(1); } m->vtFill(r, b); return m; }
inline M0* M0::vtMakePoly(Rng& r, Budget& b) { return makeM(r, b, 0); }
// ---- H: templates, macros and shims in one hierarchy, final class
struct H0 { checkpoint_virtual_serialize_base(H0) char tag = 0; virtual ~H0() = default; VP_ROOT(H0, 400, tag) VP_SER(H0) };
template <class T, int ID> struct H1 : H0 { checkpoint_virtual_serialize_derived_from(H0) virtual T* get() = 0; uint64_t id = 0; using Me = H1<T, ID>; VP_LEVEL(Me, H0, H0, 410 + ID, id) VP_SER(Me) };
template <class T, int ID> struct H2 final : checkpoint::SerializableDerived<H2<T, ID>, H1<T, ID>> { using Me = H2<T, ID>; using Pa = H1<T, ID>; up<T> obj; T* get() override { return obj.get(); } VP_LEVEL(Me, Pa, H0, 420 + ID, obj) VP_SER(Me) };
template <class T, int ID> struct H3 : H1<T, ID> { using Me = H3<T, ID>; using Pa = H1<T, ID>; checkpoint_virtual_serialize_derived_from(Pa) T obj{}; T* get() override { return &obj; } VP_LEVEL(Me, Pa, H0, 430 + ID, obj) VP_SER(Me) };
inline H0* H0::vtMakePoly(Rng& r, Budget& b) {
  In in(b); b.left -= 6; H0* h;
  switch (r.below(6)) { case 0: h = new H2<int, 0>; break; case 1: h = new H2<std::string, 1>; break; case 2: h = new H3<std::string, 1>; break; case 3: h = new H3<std::vector<up<A0>>, 2>; break; case 4: h = new H0; break; default: h = new H2<up<H0>, 3>; }
  h->vtFill(r, b); return h;
}
// ---- holders
// raw and shared pointers as the documentation shows them; an array of objects; members by value
struct Holder {
  A0* raw = nullptr; A3* rawMid = nullptr; std::shared_ptr<B0> sh; std::shared_ptr<M1> shMid; A1 arr[3]; A2 val; W<3> w3; int plain[4] = {1, 2, 3, 4}; up<H0> h; std::string tail;
  Holder() = default; Holder(Holder const&) = delete; ~Holder() { delete raw; delete rawMid; }
  Holder(Holder&& o) : sh(std::move(o.sh)), shMid(std::move(o.shMid)), h(std::move(o.h)), tail(std::move(o.tail)) { std::swap(raw, o.raw); std::swap(rawMid, o.rawMid); for (int i = 0; i < 3; i++) arr[i] = o.arr[i]; val = o.val; w3 = o.w3; std::copy(o.plain, o.plain + 4, plain); }
  template <class S, class P> static void ptr(S& s, P*& p) { bool none = p == nullptr; s | none; if (!none) { checkpoint::reconstructPointedToObjectIfNeeded(s, p); s | *p; } }
  template <class S, class P> static void ptr(S& s, std::shared_ptr<P>& p) { bool none = p == nullptr; s | none; if (!none) { P* q = p.get(); checkpoint::reconstructPointedToObjectIfNeeded(s, q); if (s.isUnpacking() && !p) p.reset(q); s | *p; } }
  template <class S> void serialize(S& s) {
    ptr(s, raw); ptr(s, rawMid); ptr(s, sh); ptr(s, shMid); checkpoint::dispatch::serializeArray(s, arr, 3); s | val; s | w3; checkpoint::dispatch::serializeArray(s, plain, 4); s | h | tail;
  }
  void vpExpect(Out& o, bool st) const { if (raw) raw->vpExpect(o, true); if (rawMid) rawMid->vpExpect(o, true); walk(o, sh, st); walk(o, shMid, st); for (auto& a : arr) a.vpExpect(o, st); val.vpExpect(o, st); w3.vpExpect(o, st); walk(o, h, st); }
};
// everything together
struct Graph {
  up<A0> a; up<B0> b; up<M0> m; up<H0> h; up<A4> a4; up<B1> b1; up<M1> m1; std::vector<up<A0>> va; std::list<up<B0>> lb; std::deque<up<M0>> dm; std::map<std::string, up<H0>> mh; std::array<up<A1>, 2> aa; std::optional<up<B0>> ob; std::variant<int, up<A0>, up<M0>> v;
  std::tuple<up<A0>, up<B0>, int> t; std::pair<up<M0>, up<H0>> p; std::vector<A2> vals; std::array<A1, 2> arr; A4 one; Holder hold; std::unordered_map<int, up<B0>> ub; std::vector<std::vector<up<A0>>> vv;
  auto fields() { return std::tie(a, b, m, h, a4, b1, m1, va, lb, dm, mh, aa, ob, v, t, p, vals, arr, one, ub, vv); }
  static Graph vtNew() { return {}; }
  template <class S> void serialize(S& s) { s | a | b | m | h | a4 | b1 | m1 | va | lb | dm | mh | aa | ob | v | t | p | vals | arr | one | hold | ub | vv; }
  void vpExpect(Out& o, bool st) const {
    walk(o, a, st); walk(o, b, st); walk(o, m, st); walk(o, h, st); walk(o, a4, st); walk(o, b1, st); walk(o, m1, st); walk(o, va, st); walk(o, lb, st); walk(o, dm, st); walk(o, mh, st); walk(o, aa, st); walk(o, ob, st); walk(o, v, st);
    walk(o, t, st); walk(o, p, st); walk(o, vals, st); walk(o, arr, st); walk(o, one, st); walk(o, hold, st); walk(o, ub, st); walk(o, vv, st);
  }
};
} // namespace vp

namespace vt {
template <class T> struct HierarchyOf { using type = void; };
// pointers typed at an intermediate class
template <> struct Gen<std::unique_ptr<vp::A1>> { static auto make(Rng& r, Budget& b) { return std::unique_ptr<vp::A1>(r.chance(20) ? nullptr : static_cast<vp::A1*>(vp::makeA(r, b, 1))); } };
template <> struct Gen<std::unique_ptr<vp::A3>> { static auto make(Rng& r, Budget& b) { return std::unique_ptr<vp::A3>(r.chance(40) || b.left < 0 || b.depth > 30 ? nullptr : static_cast<vp::A3*>(vp::makeA(r, b, 3))); } };
template <> struct Gen<std::unique_ptr<vp::A4>> { static auto make(Rng& r, Budget& b) { return std::unique_ptr<vp::A4>(r.chance(30) || b.left < 0 || b.depth > 30 ? nullptr : static_cast<vp::A4*>(vp::makeA(r, b, 4))); } };
template <> struct Gen<std::unique_ptr<vp::M1>> { static auto make(Rng& r, Budget& b) { return std::unique_ptr<vp::M1>(r.chance(30) || b.left < 0 || b.depth > 30 ? nullptr : static_cast<vp::M1*>(vp::makeM(r, b, 1))); } };
inline vp::B1* makeB1(Rng& r, Budget& b) { In in(b); b.left -= 10; vp::B1* p; if (r.chance(50)) p = new vp::X<0>; else p = new vp::X<2>; p->vtFill(r, b); return p; }
template <> struct Gen<std::unique_ptr<vp::B1>> { static auto make(Rng& r, Budget& b) { return std::unique_ptr<vp::B1>(r.chance(30) || b.left < 0 || b.depth > 30 ? nullptr : makeB1(r, b)); } };
// by value
template <class T, class = void> struct IsLevel : std::false_type {};
template <class T> struct IsLevel<T, std::void_t<typename T::VpT>> : std::true_type {};
template <class T> struct Gen<T, std::enable_if_t<IsLevel<T>::value>> { static T make(Rng& r, Budget& b) { In in(b); if constexpr (std::is_default_constructible<T>::value) { T t; t.vtFill(r, b); return t; } else { T t(0); t.vtFill(r, b); return t; } } };
template <class T> struct Eq<T, std::enable_if_t<IsLevel<T>::value>> { static bool eq(T const& a, T const& b, Diff& d) { if (typeid(a) != typeid(b)) return d.set("dynamic type"); return a.vtEqual(b, d); } };
template <> struct Gen<vp::Holder> { static vp::Holder make(Rng& r, Budget& b) {
  In in(b); vp::Holder h; h.raw = gen<std::unique_ptr<vp::A0>>(r, b).release(); h.rawMid = gen<std::unique_ptr<vp::A3>>(r, b).release(); h.sh = gen<std::unique_ptr<vp::B0>>(r, b); h.shMid = gen<std::unique_ptr<vp::M1>>(r, b);
  for (auto& a : h.arr) a.vtFill(r, b); h.val.vtFill(r, b); h.w3.vtFill(r, b); for (auto& x : h.plain) x = int(r.next()); h.h = gen<std::unique_ptr<vp::H0>>(r, b); h.tail = gen<std::string>(r, b); return h; } };
template <class P> bool eqPtr(P const* a, P const* b, Diff& d) { if (!a != !b) return d.set("null"); if (!a) return true; if (a == b) return d.set("aliased"); if (typeid(*a) != typeid(*b)) return d.set("dynamic type"); return a->vtEqual(*b, d); }
template <> struct Eq<vp::Holder> { static bool eq(vp::Holder const& a, vp::Holder const& b, Diff& d) {
  if (!eqPtr(a.raw, b.raw, d)) return d.set("raw"); if (!eqPtr(a.rawMid, b.rawMid, d)) return d.set("rawMid"); if (!eqPtr(a.sh.get(), b.sh.get(), d)) return d.set("shared"); if (!eqPtr(a.shMid.get(), b.shMid.get(), d)) return d.set("sharedMid");
  for (int i = 0; i < 3; i++) if (!a.arr[i].vtEqual(b.arr[i], d)) return d.set("arr" + std::to_string(i)); if (!vt::eq(a.val, b.val, d)) return d.set("val"); if (!vt::eq(a.w3, b.w3, d)) return d.set("w3");
  for (int i = 0; i < 4; i++) if (a.plain[i] != b.plain[i]) return d.set("plain array"); return vt::eq(a.h, b.h, d) && vt::eq(a.tail, b.tail, d); } };
template <> struct Gen<vp::Graph> { static vp::Graph make(Rng& r, Budget& b) {
  In in(b); vp::Graph g; auto f = g.fields(); long share = b.left / 12 + 4, all = b.left;
  auto put = [&](auto& x) { b.left = share; if (!r.chance(25)) x = gen<std::decay_t<decltype(x)>>(r, b); };
  std::apply([&](auto&... x) { (put(x), ...); }, f); b.left = share; auto h = gen<vp::Holder>(r, b); std::swap(g.hold.raw, h.raw); std::swap(g.hold.rawMid, h.rawMid); g.hold.sh = h.sh; g.hold.shMid = h.shMid; for (int i = 0; i < 3; i++) g.hold.arr[i] = h.arr[i]; g.hold.val = h.val; g.hold.w3 = h.w3; std::copy(h.plain, h.plain + 4, g.hold.plain); g.hold.h = std::move(h.h); g.hold.tail = h.tail; b.left = all - 12 * share; return g; } };
template <> struct Eq<vp::Graph> { template <class F, size_t... I> static bool go(F const& a, F const& b, Diff& d, std::index_sequence<I...>) { return vp::eqTie(a, b, d, std::index_sequence<I...>{}); }
  static bool eq(vp::Graph const& a, vp::Graph const& b, Diff& d) { auto f = const_cast<vp::Graph&>(a).fields(), g = const_cast<vp::Graph&>(b).fields(); if (!vp::eqTie(f, g, d, vp::Ix<decltype(f)>{})) return false; return vt::eq(a.hold, b.hold, d) ? true : d.set("hold"); } };
} // namespace vt
