// The accounting model of the memory footprint, computed from the object alone (never through the library).
#pragma once
#include "types.h"
#include <atomic>
#include <functional>
#include <memory>
#include <stack>
#include <thread>
namespace vt {
template <class...> struct MkVoid { using type = void; };
template <class... T> using VoidT = typename MkVoid<T...>::type;
template <class T, class E = void> struct Foot;
template <class T> size_t foot(T const& t) { return Foot<std::remove_cv_t<T>>::of(t); }
template <class C> size_t footElems(C const& c) { size_t n = 0; for (auto const& x : c) n += foot(x); return n; }
// opaque or byte-copied: its size
template <class T, class E> struct Foot { static size_t of(T const&) { return sizeof(T); } };
template <> struct Foot<std::string> { static size_t of(std::string const& s) { return sizeof s + s.capacity(); } };
template <class T, class A> struct Foot<std::vector<T, A>> { static size_t of(std::vector<T, A> const& v) { return sizeof v + footElems(v) + (v.capacity() - v.size()) * sizeof(T); } };
template <class A> struct Foot<std::vector<bool, A>> { static size_t of(std::vector<bool, A> const& v) { return sizeof v; } };
#define FOOT_CONT(C, ...) template <__VA_ARGS__> struct Foot<C> { static size_t of(C const& c) { return sizeof c + footElems(c); } };
#define FC(...) __VA_ARGS__
template <class T> struct Foot<std::list<T>> { static size_t of(std::list<T> const& c) { return sizeof c + footElems(c); } };
template <class T> struct Foot<std::deque<T>> { static size_t of(std::deque<T> const& c) { return sizeof c + footElems(c); } };
template <class T, class P> struct Foot<std::set<T, P>> { static size_t of(std::set<T, P> const& c) { return sizeof c + footElems(c); } };
template <class T, class P> struct Foot<std::multiset<T, P>> { static size_t of(std::multiset<T, P> const& c) { return sizeof c + footElems(c); } };
template <class K, class V, class P> struct Foot<std::map<K, V, P>> { static size_t of(std::map<K, V, P> const& c) { return sizeof c + footElems(c); } };
template <class K, class V, class P> struct Foot<std::multimap<K, V, P>> { static size_t of(std::multimap<K, V, P> const& c) { return sizeof c + footElems(c); } };
template <class T, class H, class Q> struct Foot<std::unordered_set<T, H, Q>> { static size_t of(std::unordered_set<T, H, Q> const& c) { return sizeof c + footElems(c); } };
template <class T, class H, class Q> struct Foot<std::unordered_multiset<T, H, Q>> { static size_t of(std::unordered_multiset<T, H, Q> const& c) { return sizeof c + footElems(c); } };
template <class K, class V, class H, class Q> struct Foot<std::unordered_map<K, V, H, Q>> { static size_t of(std::unordered_map<K, V, H, Q> const& c) { return sizeof c + footElems(c); } };
template <class K, class V, class H, class Q> struct Foot<std::unordered_multimap<K, V, H, Q>> { static size_t of(std::unordered_multimap<K, V, H, Q> const& c) { return sizeof c + footElems(c); } };
template <class T, class C> struct Foot<std::queue<T, C>> { static size_t of(std::queue<T, C> const& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T, class C> struct Foot<std::stack<T, C>> { static size_t of(std::stack<T, C> const& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T, class C, class P> struct Foot<std::priority_queue<T, C, P>> { static size_t of(std::priority_queue<T, C, P> const& q) { return sizeof q + q.size() * sizeof(T); } };
template <class T, size_t N> struct Foot<std::array<T, N>> { static size_t of(std::array<T, N> const& c) { return footElems(c); } };
template <class A, class B> struct Foot<std::pair<A, B>> { static size_t of(std::pair<A, B> const& p) { return sizeof p + foot(p.first) + foot(p.second); } };
template <class... T> struct Foot<std::tuple<T...>> { static size_t of(std::tuple<T...> const& t) { return std::apply([](auto const&... x) { return (foot(x) + ... + size_t(0)); }, t); } };
template <class T> struct Foot<std::optional<T>> { static size_t of(std::optional<T> const& o) { return sizeof o + (o ? sizeof(T) : 0); } };
// a variant all of whose alternatives are byte-copied is byte-copied itself
template <class T, class E = void> struct ByteC : std::bool_constant<std::is_arithmetic<T>::value> {};
template <> struct ByteC<ByteTrait> : std::true_type {}; template <> struct ByteC<ByteBase> : std::true_type {}; template <> struct ByteC<ByteMacro> : std::true_type {}; template <> struct ByteC<ByteNonIntr> : std::true_type {}; template <> struct ByteC<ByteOdd> : std::true_type {};
template <class... T> struct ByteC<std::variant<T...>> : std::bool_constant<(ByteC<T>::value && ...)> {};
template <class... T> struct Foot<std::variant<T...>> { static size_t of(std::variant<T...> const& v) {
  if constexpr ((ByteC<T>::value && ...)) return sizeof v; else return sizeof(size_t) + std::visit([](auto const& x) { return foot(x); }, v); } };
template <class R, class P> struct Foot<std::chrono::duration<R, P>> { static size_t of(std::chrono::duration<R, P> const&) { return sizeof(R); } };
template <class T, class D> struct Foot<std::unique_ptr<T, D>> { static size_t of(std::unique_ptr<T, D> const& p) { return sizeof p + (p ? foot(*p) : 0); } };
template <class T> struct Foot<std::shared_ptr<T>> { static size_t of(std::shared_ptr<T> const& p) { return sizeof p + (p ? foot(*p) : 0); } };
template <class T> struct Foot<T*, std::enable_if_t<!std::is_void<T>::value && !std::is_function<T>::value && !std::is_same<std::remove_cv_t<T>, FILE>::value>> { static size_t of(T* const& p) { return sizeof p + (p ? foot(*p) : 0); } };
template <> struct Foot<ompi_communicator_t*> { static size_t of(ompi_communicator_t* const& p) { return sizeof p; } };
template <> struct Foot<ompi_win_t*> { static size_t of(ompi_win_t* const& p) { return sizeof p; } };
// user classes: the sum of what their serialize visits
template <class T> struct Foot<T, std::enable_if_t<!ByteC<T>::value && !std::is_void<decltype(std::declval<T&>().fields())>::value>> {
  static size_t of(T const& t) { return std::apply([](auto const&... x) { return (foot(x) + ... + size_t(0)); }, const_cast<T&>(t).fields()); } };
template <> struct Foot<Tagged32> { static size_t of(Tagged32 const& t) { return 1 + (t.kind & 1 ? foot(t.odd) : foot(t.even)); } };
template <> struct Foot<Tree> { static size_t of(Tree const& t) { return sizeof t.v + foot(t.kids) + foot(t.note); } };
template <> struct Foot<Chain> { static size_t of(Chain const& t) { size_t n = 0; for (Chain const* p = &t; p; p = p->next.get()) n += sizeof p->v + sizeof p->next; return n; } };
#ifdef VT_HIERARCHIES
template <> struct Foot<Shape> { static size_t of(Shape const& s) {
  size_t n = foot(s.id) + foot(s.label); if (auto c = dynamic_cast<Circle const*>(&s)) n += foot(c->radius); if (auto r = dynamic_cast<Ring const*>(&s)) n += foot(r->hole) + foot(r->w); if (auto p = dynamic_cast<Poly const*>(&s)) n += foot(p->pts) + foot(p->inner); return n; } };
template <> struct Foot<Animal> { static size_t of(Animal const& a) {
  size_t n = foot(a.legs); if (auto d = dynamic_cast<Dog const*>(&a)) n += foot(d->name); if (auto c = dynamic_cast<Cat const*>(&a)) n += foot(c->lives) + foot(c->prey) + foot(c->litter) + foot(c->toy); if (auto l = dynamic_cast<Lion const*>(&a)) n += foot(l->mane); return n; } };

#endif
// ---- things that can be footprinted but not serialized
struct Opaque { double d = 1; int i = 2; char c[5] = {}; std::vector<int> hidden; };                       // no serialize at all
struct OpaqueSmall { char c[3] = {1, 2, 3}; };
template <> struct Gen<Opaque> { static Opaque make(Rng& r, Budget& b) { Opaque o; o.i = int(r.next()); o.hidden = gen<std::vector<int>>(r, b); return o; } };
template <> struct Eq<Opaque> { static bool eq(Opaque const& a, Opaque const& b, Diff& d) { return a.i == b.i && a.hidden == b.hidden ? true : d.set("opaque"); } };
template <> struct Gen<OpaqueSmall> { static OpaqueSmall make(Rng& r, Budget&) { OpaqueSmall o; o.c[0] = char(r.next()); return o; } };
template <> struct Eq<OpaqueSmall> { static bool eq(OpaqueSmall const& a, OpaqueSmall const& b, Diff& d) { return memcmp(&a, &b, 3) == 0 ? true : d.set("opaque"); } };
template <class T> struct Gen<T*, std::enable_if_t<!std::is_void<T>::value && !std::is_function<T>::value && !std::is_same<T, FILE>::value>> {
  static T* make(Rng& r, Budget& b) { In in(b); if (r.chance(25)) return nullptr; if constexpr (IsPoly<T>::value) return T::vtMakePoly(r, b); else return new std::remove_const_t<T>(gen<std::remove_const_t<T>>(r, b)); } };    // never freed: the object lives as long as the process
template <class T> struct Eq<T*, std::enable_if_t<!std::is_void<T>::value && !std::is_function<T>::value && !std::is_same<T, FILE>::value>> {
  static bool eq(T* const& a, T* const& b, Diff& d) { if (!a != !b) return d.set("null"); if (!a) return true; if constexpr (IsPoly<T>::value) return a->vtEqual(*b, d); else return vt::eq<std::remove_const_t<T>>(*a, *b, d); } };
#define FOOT_PLAINPTR(T) template <> struct Gen<T> { static T make(Rng& r, Budget&) { return r.chance(30) ? nullptr : reinterpret_cast<T>(uintptr_t(0x1000 + r.below(1000) * 16)); } }; template <> struct Eq<T> { static bool eq(T const& a, T const& b, Diff& d) { return a == b ? true : d.set("pointer"); } };
FOOT_PLAINPTR(void*) FOOT_PLAINPTR(FILE*) FOOT_PLAINPTR(ompi_communicator_t*) FOOT_PLAINPTR(ompi_win_t*)
inline void alsoOwned(std::shared_ptr<void const> p) { static std::array<std::shared_ptr<void const>, 32> ring; static size_t at = 0; ring[at++ % ring.size()] = std::move(p); }     // another owner, elsewhere
template <class T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make(Rng& r, Budget& b) { In in(b); if (r.chance(25)) return nullptr; std::shared_ptr<T> p; if constexpr (IsPoly<T>::value) p = std::shared_ptr<T>(T::vtMakePoly(r, b)); else p = std::make_shared<T>(gen<T>(r, b)); if (r.chance(40)) alsoOwned(p); return p; } };
template <class T> struct Eq<std::shared_ptr<T>> { static bool eq(std::shared_ptr<T> const& a, std::shared_ptr<T> const& b, Diff& d) { if (!a != !b) return d.set("null"); if (!a) return true; if constexpr (IsPoly<T>::value) return a->vtEqual(*b, d); else return vt::eq(*a, *b, d); } };
// two members that own the same object: each of them accounts for it
template <class T> struct Twice { std::shared_ptr<T> a, b; template <class S> void serialize(S& s) { s | a | b; } auto fields() { return std::tie(a, b); } };
template <class T> struct Gen<Twice<T>> { static Twice<T> make(Rng& r, Budget& b) { Twice<T> x; x.a = gen<std::shared_ptr<T>>(r, b); x.b = r.chance(60) ? x.a : gen<std::shared_ptr<T>>(r, b); return x; } };
template <class T> struct Eq<Twice<T>> { static bool eq(Twice<T> const& a, Twice<T> const& b, Diff& d) { return vt::eq(a.a, b.a, d) && vt::eq(a.b, b.b, d); } };
template <class T, class C> struct Gen<std::stack<T, C>> { static std::stack<T, C> make(Rng& r, Budget& b) { return std::stack<T, C>(Gen<C>::make(r, b)); } };
template <class T, class C> struct Eq<std::stack<T, C>> { struct Open : std::stack<T, C> { static C const& c_(std::stack<T, C> const& q) { return q.*(&Open::c); } }; static bool eq(std::stack<T, C> const& a, std::stack<T, C> const& b, Diff& d) { return vt::eq(Open::c_(a), Open::c_(b), d); } };
template <class T, class C, class P> struct Gen<std::priority_queue<T, C, P>> { static std::priority_queue<T, C, P> make(Rng& r, Budget& b) { return std::priority_queue<T, C, P>(P{}, Gen<C>::make(r, b)); } };
template <class T, class C, class P> struct Eq<std::priority_queue<T, C, P>> { using Q = std::priority_queue<T, C, P>; struct Open : Q { static C const& c_(Q const& q) { return q.*(&Open::c); } }; static bool eq(Q const& a, Q const& b, Diff& d) { return vt::eq(Open::c_(a), Open::c_(b), d); } };
template <class T> struct AtomicBox { std::atomic<T> a; std::string s; AtomicBox() : a{} {} AtomicBox(AtomicBox&& o) : a(o.a.load()), s(std::move(o.s)) {} template <class S> void serialize(S& z) { z | a | s; } };
template <class T> struct Gen<AtomicBox<T>> { static AtomicBox<T> make(Rng& r, Budget& b) { AtomicBox<T> x; x.a = gen<T>(r, b); x.s = gen<std::string>(r, b); return x; } };
template <class T> struct Eq<AtomicBox<T>> { static bool eq(AtomicBox<T> const& a, AtomicBox<T> const& b, Diff& d) { return vt::eq(a.a.load(), b.a.load(), d) && vt::eq(a.s, b.s, d); } };
template <class T> struct Foot<AtomicBox<T>> { static size_t of(AtomicBox<T> const& x) { return sizeof x.a + foot(x.s); } };
template <> struct Gen<std::function<int(int)>> { static std::function<int(int)> make(Rng& r, Budget&) { if (r.chance(20)) return nullptr; int k = int(r.below(1000)); std::array<int, 20> big{}; big[3] = k; if (r.chance(50)) return [k](int x) { return x + k; }; return [big](int x) { return x * big[3]; }; } };
template <> struct Eq<std::function<int(int)>> { static bool eq(std::function<int(int)> const& a, std::function<int(int)> const& b, Diff& d) { if (!a != !b) return d.set("function"); return !a || a(7) == b(7) ? true : d.set("function"); } };
template <> struct Gen<std::thread> { static std::thread make(Rng&, Budget&) { return std::thread(); } };
template <> struct Eq<std::thread> { static bool eq(std::thread const& a, std::thread const& b, Diff& d) { return a.get_id() == b.get_id() ? true : d.set("thread"); } };
// an array of objects inside of a class
template <class T, int N> struct Arr { T a[N]; int tail = 0; Arr() = default; Arr(Arr&& o) : tail(o.tail) { for (int i = 0; i < N; i++) a[i] = std::move(o.a[i]); } template <class S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, a, N); s | tail; } };
template <class T, int N> struct Gen<Arr<T, N>> { static Arr<T, N> make(Rng& r, Budget& b) { Arr<T, N> x; for (auto& y : x.a) y = gen<T>(r, b); x.tail = int(r.next()); return x; } };
template <class T, int N> struct Eq<Arr<T, N>> { static bool eq(Arr<T, N> const& a, Arr<T, N> const& b, Diff& d) { for (int i = 0; i < N; i++) if (!vt::eq(a.a[i], b.a[i], d)) return d.set("arr"); return vt::eq(a.tail, b.tail, d); } };
template <class T, int N> struct Foot<Arr<T, N>> { static size_t of(Arr<T, N> const& x) { return footElems(x.a) + sizeof(int); } };
template <> struct Gen<std::list<int>::iterator> { static std::list<int>::iterator make(Rng&, Budget&) { static std::list<int> l{1}; return l.begin(); } };
template <> struct Eq<std::list<int>::iterator> { static bool eq(std::list<int>::iterator const& a, std::list<int>::iterator const& b, Diff& d) { return a == b ? true : d.set("iterator"); } };
template <> struct Eq<std::set<std::unique_ptr<int>>> { using C = std::set<std::unique_ptr<int>>; static bool eq(C const& a, C const& b, Diff& d) { std::multiset<int> x, y; for (auto& p : a) x.insert(p ? *p : 7); for (auto& p : b) y.insert(p ? *p : 7); return x == y ? true : d.set("set"); } };   // ordered by address
// ---- adding an element
template <class C, class = void> struct Grow { static bool add(C&, Rng&) { return false; } };
template <class C> struct Grow<C, VoidT<decltype(std::declval<C&>().push_back(std::declval<typename C::value_type>()))>> { static bool add(C& c, Rng& r) { Budget b; b.left = 20; c.push_back(gen<typename C::value_type>(r, b)); return true; } };
template <class C> struct Grow<C, VoidT<decltype(std::declval<C&>().push(std::declval<typename C::value_type>()))>> { static bool add(C& c, Rng& r) { Budget b; b.left = 20; c.push(gen<typename C::value_type>(r, b)); return true; } };
template <class C> struct Grow<C, VoidT<typename C::key_type>> { static bool add(C& c, Rng& r) { Budget b; b.left = 20; auto x = gen<C>(r, b); size_t n = c.size(); for (auto i = x.begin(); i != x.end() && c.size() == n;) { auto nx = std::next(i); c.insert(x.extract(i)); i = nx; } return c.size() > n; } };
} // namespace vt
