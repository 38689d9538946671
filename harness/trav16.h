// C16: classes that announce themselves, the visit order expected of a traversal, and traversers that record it.
#pragma once
#include "types.h"
#include "ops.h"
namespace v16 {
using vr::Rng;
struct Case { std::string name; void (*run)(uint64_t seed, int i); };
std::vector<Case>& disp();

enum : uint64_t { kNode = 1, kNodeEnd, kExt, kExtEnd, kSpl, kSplEnd, kBox, kBoxEnd, kRoot, kRootEnd, kMid, kMidEnd, kLeaf, kLeafEnd, kSide, kSideEnd, kMac, kMacEnd, kMac2, kMac2End, kArr, kArrEnd, kRaw, kRawEnd, kVec = 100, kStr, kReplaced };
// -- a record of every call of a user's serialize, for the check that wants it ---------------------------------------
struct Call { uint64_t code, id; int mode; bool truthful; };
inline std::vector<Call>*& tape() { static std::vector<Call>* t = nullptr; return t; }
template <class S> struct Tell {
  S& z; uint64_t code; uint64_t const* id;
  static bool truthful(S& z) { int n = z.isSizing() + z.isPacking() + z.isUnpacking() + z.isFootprinting(); using M = checkpoint::eSerializationMode; auto m = z.getMode(); return n == 1 && z.isSizing() == (m == M::Sizing) && z.isPacking() == (m == M::Packing) && z.isUnpacking() == (m == M::Unpacking) && z.isFootprinting() == (m == M::Footprinting); }
  Tell(S& s, uint64_t c, uint64_t const* i = nullptr) : z(s), code(c), id(i) { if (tape()) tape()->push_back({code, 0, int(z.getMode()), truthful(z)}); }
  ~Tell() { if (tape()) tape()->push_back({code + 1, id ? *id : 0, int(z.getMode()), truthful(z)}); }
};

// -- pieces -----------------------------------------------------------------------------------------------------
struct Atom { using isByteCopyable = std::true_type; uint64_t id = 0; bool operator<(Atom const& o) const { return id < o.id; } bool operator==(Atom const& o) const { return id == o.id; } };
inline uint64_t& nextId() { static uint64_t n = 0; return n; }
inline Atom atom() { return Atom{(++nextId() << 8) | 0xA7}; }
inline int& ownCalls() { static int n = 0; return n; }         // how often Node's own function ran
struct Node {                                                  // intrusive
  Atom a; std::string s; std::vector<Atom> more;
  template <class S> void serialize(S& z) { Tell<S> tell(z, kNode, &a.id); ownCalls()++; z | a | s | more; }
  bool operator<(Node const& o) const { return a < o.a; } bool operator==(Node const& o) const { return a == o.a; }
};
struct Ext { Atom a; double d = 0; Atom b; bool operator<(Ext const& o) const { return a < o.a; } bool operator==(Ext const& o) const { return a == o.a; } };   // non-intrusive
template <class S> void serialize(S& z, Ext& e) { Tell<S> tell(z, kExt, &e.a.id); z | e.a | e.d | e.b; }
struct Hash { template <class T> size_t operator()(T const& t) const { return key(t) % 11; } static size_t key(Atom const& a) { return a.id >> 8; } static size_t key(Node const& n) { return n.a.id >> 8; } static size_t key(Ext const& n) { return n.a.id >> 8; } };
struct SpB { Atom b; template <class S> void serialize(S& z) { z | b; } };
struct Spl : SpB { Node n; Ext x;                              // split
  template <class S> void serialize(S& z) { Tell<S> tell(z, kSpl); }
  template <class S> void serializeParent(S& z) { SpB::serialize(z); }
  template <class S> void serializeThis(S& z) { z | n | x; } };
template <class T> struct Box { T t{}; Atom last; template <class S> void serialize(S& z) { Tell<S> tell(z, kBox); z | t; z | last; } };
struct Root : checkpoint::SerializableBase<Root> { Atom a; template <class S> void serialize(S& z) { Tell<S> tell(z, kRoot, &a.id); z | a; } };
struct Mid : checkpoint::SerializableDerived<Mid, Root> { Node n; std::unique_ptr<Root> in; template <class S> void serialize(S& z) { Tell<S> tell(z, kMid); z | n | in; } };
struct Leaf : checkpoint::SerializableDerived<Leaf, Mid> { std::list<Ext> x; template <class S> void serialize(S& z) { Tell<S> tell(z, kLeaf); z | x; } };
struct Side : checkpoint::SerializableDerived<Side, Root> { Ext x; template <class S> void serialize(S& z) { Tell<S> tell(z, kSide); z | x; } };
struct Mac { checkpoint_virtual_serialize_root() Atom a; virtual ~Mac() = default; template <class S> void serialize(S& z) { Tell<S> tell(z, kMac, &a.id); z | a; } };
struct Mac2 : Mac { checkpoint_virtual_serialize_derived_from(Mac) Node n; template <class S> void serialize(S& z) { Tell<S> tell(z, kMac2); z | n; } };
struct Arr { Node n[3]; Ext* x = nullptr; size_t k = 0; Arr() = default; Arr(Arr const&) = delete; ~Arr() { delete[] x; }        // arrays by hand
  template <class S> void serialize(S& z) { Tell<S> tell(z, kArr); checkpoint::dispatch::serializeArray(z, n, 3); z | k; if (z.isUnpacking()) { delete[] x; x = new Ext[k]; } checkpoint::dispatch::serializeArray(z, x, k); } };
struct Raw { Root* p = nullptr; Node* q = nullptr; Raw() = default; Raw(Raw const&) = delete; ~Raw() { delete p; delete q; }
  template <class S> void serialize(S& z) { Tell<S> tell(z, kRaw); bool np = !p, nq = !q; z | np | nq; if (!np) { checkpoint::reconstructPointedToObjectIfNeeded(z, p); z | *p; } if (!nq) { checkpoint::reconstructPointedToObjectIfNeeded(z, q); z | *q; } } };

// -- values -----------------------------------------------------------------------------------------------------
struct Bud { long left; int depth = 0; };
template <class T, class = void> struct Mk;
template <class T> void fill(T& t, Rng& r, Bud& b) { Mk<T>::fill(t, r, b); }
inline size_t len(Rng& r, Bud& b) { if (b.left <= 0 || b.depth > 4) return r.below(2); static size_t const n[] = {0, 1, 2, 3, 5, 9, 17}; size_t k = n[r.below(7)]; b.left -= long(k); return k; }
struct Deeper { Bud& b; Deeper(Bud& x) : b(x) { b.depth++; b.left--; } ~Deeper() { b.depth--; } };
template <> struct Mk<int> { static void fill(int& t, Rng& r, Bud&) { t = int(r.next()); } };
template <> struct Mk<std::string> { static void fill(std::string& t, Rng& r, Bud&) { t.assign(r.below(30), char('a' + r.below(26))); } };
template <> struct Mk<Atom> { static void fill(Atom& t, Rng&, Bud&) { t = atom(); } };
template <> struct Mk<Node> { static void fill(Node& t, Rng& r, Bud& b) { Deeper d(b); v16::fill(t.a, r, b); v16::fill(t.s, r, b); v16::fill(t.more, r, b); } };
template <> struct Mk<Ext> { static void fill(Ext& t, Rng& r, Bud&) { t.a = atom(); t.d = double(r.next() % 1000); t.b = atom(); } };
template <> struct Mk<Spl> { static void fill(Spl& t, Rng& r, Bud& b) { t.b = atom(); v16::fill(t.n, r, b); v16::fill(t.x, r, b); } };
template <class T> struct Mk<Box<T>> { static void fill(Box<T>& t, Rng& r, Bud& b) { Deeper d(b); v16::fill(t.t, r, b); t.last = atom(); } };
inline Root* mkRoot(Rng& r, Bud& b);
template <> struct Mk<Root> { static void fill(Root& t, Rng& r, Bud& b) { Deeper d(b); t.a = atom(); if (auto m = dynamic_cast<Mid*>(&t)) { v16::fill(m->n, r, b); if (b.depth < 4 && r.chance(50)) m->in.reset(mkRoot(r, b)); } if (auto l = dynamic_cast<Leaf*>(&t)) v16::fill(l->x, r, b); if (auto s = dynamic_cast<Side*>(&t)) v16::fill(s->x, r, b); } };
template <> struct Mk<Mid> { static void fill(Root& t, Rng& r, Bud& b) { Mk<Root>::fill(t, r, b); } };
template <> struct Mk<Leaf> : Mk<Mid> {};
inline Root* mkRoot(Rng& r, Bud& b) { Root* p; switch (r.below(4)) { case 0: p = new Root; break; case 1: p = new Mid; break; case 2: p = new Leaf; break; default: p = new Side; } v16::fill(*p, r, b); return p; }
inline Mac* mkMac(Rng& r, Bud& b) { Mac* m; if (r.chance(60)) { auto q = new Mac2; v16::fill(q->n, r, b); m = q; } else m = new Mac; m->a = atom(); return m; }
template <> struct Mk<Arr> { static void fill(Arr& t, Rng& r, Bud& b) { for (auto& n : t.n) v16::fill(n, r, b); t.k = r.below(5); t.x = new Ext[t.k]; for (size_t i = 0; i < t.k; i++) v16::fill(t.x[i], r, b); } };
template <> struct Mk<Raw> { static void fill(Raw& t, Rng& r, Bud& b) { if (r.chance(80)) t.p = mkRoot(r, b); if (r.chance(80)) { t.q = new Node; v16::fill(*t.q, r, b); } } };
template <class T, class A> struct Mk<std::vector<T, A>> { static void fill(std::vector<T, A>& t, Rng& r, Bud& b) { Deeper d(b); size_t n = len(r, b); t.clear(); for (size_t i = 0; i < n; i++) { t.emplace_back(); v16::fill(t.back(), r, b); } } };
template <class A> struct Mk<std::vector<bool, A>> { static void fill(std::vector<bool, A>& t, Rng& r, Bud& b) { size_t n = len(r, b); t.clear(); for (size_t i = 0; i < n; i++) t.push_back(r.chance(50)); } };
template <class C> void fillSeq(C& t, Rng& r, Bud& b) { Deeper d(b); size_t n = len(r, b); for (size_t i = 0; i < n; i++) { t.emplace_back(); v16::fill(t.back(), r, b); } }
template <class T> struct Mk<std::list<T>> { static void fill(std::list<T>& t, Rng& r, Bud& b) { fillSeq(t, r, b); } };
template <class T> struct Mk<std::deque<T>> { static void fill(std::deque<T>& t, Rng& r, Bud& b) { fillSeq(t, r, b); } };
template <class T> struct Mk<std::queue<T>> { static void fill(std::queue<T>& t, Rng& r, Bud& b) { Deeper d(b); size_t n = len(r, b); for (size_t i = 0; i < n; i++) { t.emplace(); v16::fill(t.back(), r, b); } } };
template <class T, size_t N> struct Mk<std::array<T, N>> { static void fill(std::array<T, N>& t, Rng& r, Bud& b) { Deeper d(b); for (auto& x : t) v16::fill(x, r, b); } };
template <class C, class K> void fillSet(C& t, Rng& r, Bud& b) { Deeper d(b); size_t n = len(r, b); for (size_t i = 0; i < n; i++) { K k{}; v16::fill(k, r, b); t.insert(std::move(k)); } }
template <class T> struct Mk<std::set<T>> { static void fill(std::set<T>& t, Rng& r, Bud& b) { fillSet<std::set<T>, T>(t, r, b); } };
template <class T> struct Mk<std::multiset<T>> { static void fill(std::multiset<T>& t, Rng& r, Bud& b) { fillSet<std::multiset<T>, T>(t, r, b); } };
template <class T> struct Mk<std::unordered_set<T, Hash>> { static void fill(std::unordered_set<T, Hash>& t, Rng& r, Bud& b) { fillSet<std::unordered_set<T, Hash>, T>(t, r, b); } };
template <class C, class K, class V> void fillMap(C& t, Rng& r, Bud& b) { Deeper d(b); size_t n = len(r, b); for (size_t i = 0; i < n; i++) { K k{}; v16::fill(k, r, b); V v{}; v16::fill(v, r, b); t.emplace(std::move(k), std::move(v)); } }
template <class K, class V> struct Mk<std::map<K, V>> { static void fill(std::map<K, V>& t, Rng& r, Bud& b) { fillMap<std::map<K, V>, K, V>(t, r, b); } };
template <class K, class V> struct Mk<std::multimap<K, V>> { static void fill(std::multimap<K, V>& t, Rng& r, Bud& b) { fillMap<std::multimap<K, V>, K, V>(t, r, b); } };
template <class K, class V, class H> struct Mk<std::unordered_map<K, V, H>> { static void fill(std::unordered_map<K, V, H>& t, Rng& r, Bud& b) { fillMap<std::unordered_map<K, V, H>, K, V>(t, r, b); } };
template <class A, class B> struct Mk<std::pair<A, B>> { static void fill(std::pair<A, B>& t, Rng& r, Bud& b) { v16::fill(t.first, r, b); v16::fill(t.second, r, b); } };
template <class... T> struct Mk<std::tuple<T...>> { static void fill(std::tuple<T...>& t, Rng& r, Bud& b) { std::apply([&](auto&... x) { (v16::fill(x, r, b), ...); }, t); } };
template <class T> struct Mk<std::optional<T>> { static void fill(std::optional<T>& t, Rng& r, Bud& b) { if (r.chance(70)) { t.emplace(); v16::fill(*t, r, b); } } };
template <class T, class... R> struct Mk<std::variant<T, R...>> { template <size_t I> static void alt(std::variant<T, R...>& t, Rng& r, Bud& b, size_t k) { if constexpr (I <= sizeof...(R)) { if (k == I) { t.template emplace<I>(); v16::fill(std::get<I>(t), r, b); } else alt<I + 1>(t, r, b, k); } } static void fill(std::variant<T, R...>& t, Rng& r, Bud& b) { alt<0>(t, r, b, r.below(1 + sizeof...(R))); } };
template <class T> struct Mk<std::unique_ptr<T>> { static void fill(std::unique_ptr<T>& t, Rng& r, Bud& b) { Deeper d(b); if (b.depth < 8 && r.chance(80)) { if constexpr (std::is_same<T, Root>::value) t.reset(mkRoot(r, b)); else if constexpr (std::is_same<T, Mac>::value) t.reset(mkMac(r, b)); else { t.reset(new T{}); v16::fill(*t, r, b); } } } };

// -- what a traversal should show, in order ---------------------------------------------------------------------------
using Log = std::vector<uint64_t>;                            // atoms by id; letters for objects entered and left

struct W { Log l; bool vectors = true, nodes = true; };         // vectors/nodes: descend into them
inline void walk(int, W&) {} inline void walk(std::string const&, W&) {} inline void walk(bool, W&) {}     // no atoms
inline void walk(Root const& t, W& w); inline void walk(Mac const& t, W& w); inline void walk(Mid const& t, W& w); inline void walk(Leaf const& t, W& w); inline void walk(Node const& t, W& w); inline void walk(Ext const& t, W& w); inline void walk(Spl const& t, W& w);
inline void walk(Atom const& a, W& w) { w.l.push_back(a.id); }
template <class T, class A> void walk(std::vector<T, A> const& t, W& w);
template <class T> void walk(std::list<T> const& t, W& w); template <class T> void walk(std::deque<T> const& t, W& w); template <class T> void walk(std::queue<T> const& t, W& w); template <class T, size_t N> void walk(std::array<T, N> const& t, W& w);
template <class T> void walk(std::set<T> const& t, W& w); template <class T> void walk(std::multiset<T> const& t, W& w); template <class T> void walk(std::unordered_set<T, Hash> const& t, W& w);
template <class K, class V> void walk(std::map<K, V> const& t, W& w); template <class K, class V> void walk(std::multimap<K, V> const& t, W& w); template <class K, class V, class H> void walk(std::unordered_map<K, V, H> const& t, W& w);
template <class A, class B> void walk(std::pair<A, B> const& t, W& w); template <class... T> void walk(std::tuple<T...> const& t, W& w); template <class T> void walk(std::optional<T> const& t, W& w); template <class... T> void walk(std::variant<T...> const& t, W& w); template <class T> void walk(std::unique_ptr<T> const& t, W& w);
inline void walk(Node const& n, W& w) { if (!w.nodes) { w.l.push_back(kReplaced); w.l.push_back(n.a.id); return; } w.l.push_back(kNode); walk(n.a, w); walk(n.more, w); w.l.push_back(kNodeEnd); }
inline void walk(Ext const& e, W& w) { w.l.push_back(kExt); walk(e.a, w); walk(e.b, w); w.l.push_back(kExtEnd); }
inline void walk(Spl const& s, W& w) { w.l.push_back(kSpl); w.l.push_back(kSplEnd); walk(s.b, w); walk(s.n, w); walk(s.x, w); }
template <class T> void walk(Box<T> const& t, W& w) { w.l.push_back(kBox); walk(t.t, w); walk(t.last, w); w.l.push_back(kBoxEnd); }
inline void walk(Root const& t, W& w) {
  w.l.push_back(kRoot); walk(t.a, w); w.l.push_back(kRootEnd);
  if (auto m = dynamic_cast<Mid const*>(&t)) { w.l.push_back(kMid); walk(m->n, w); walk(m->in, w); w.l.push_back(kMidEnd); }
  if (auto l = dynamic_cast<Leaf const*>(&t)) { w.l.push_back(kLeaf); walk(l->x, w); w.l.push_back(kLeafEnd); }
  if (auto s = dynamic_cast<Side const*>(&t)) { w.l.push_back(kSide); walk(s->x, w); w.l.push_back(kSideEnd); }
}
inline void walk(Mid const& t, W& w) { walk(static_cast<Root const&>(t), w); } inline void walk(Leaf const& t, W& w) { walk(static_cast<Root const&>(t), w); }
inline void walk(Mac const& t, W& w) { w.l.push_back(kMac); walk(t.a, w); w.l.push_back(kMacEnd); if (auto m = dynamic_cast<Mac2 const*>(&t)) { w.l.push_back(kMac2); walk(m->n, w); w.l.push_back(kMac2End); } }
inline void walk(Arr const& t, W& w) { w.l.push_back(kArr); for (auto& n : t.n) walk(n, w); for (size_t i = 0; i < t.k; i++) walk(t.x[i], w); w.l.push_back(kArrEnd); }
inline void walk(Raw const& t, W& w) { w.l.push_back(kRaw); if (t.p) walk(*t.p, w); if (t.q) walk(*t.q, w); w.l.push_back(kRawEnd); }
template <class C> void each(C const& t, W& w) { for (auto const& x : t) walk(x, w); }
template <class T, class A> void walk(std::vector<T, A> const& t, W& w) { if (!w.vectors) { w.l.push_back(kVec); w.l.push_back(t.size()); return; } if constexpr (!std::is_same<T, bool>::value) each(t, w); }
template <class T> void walk(std::list<T> const& t, W& w) { each(t, w); }
template <class T> void walk(std::deque<T> const& t, W& w) { each(t, w); }
template <class T> void walk(std::queue<T> const& t, W& w) { struct P : std::queue<T> { using std::queue<T>::c; }; each(t.*(&P::c), w); }
template <class T, size_t N> void walk(std::array<T, N> const& t, W& w) { each(t, w); }
template <class T> void walk(std::set<T> const& t, W& w) { each(t, w); }
template <class T> void walk(std::multiset<T> const& t, W& w) { each(t, w); }
template <class T> void walk(std::unordered_set<T, Hash> const& t, W& w) { each(t, w); }
template <class K, class V> void walk(std::map<K, V> const& t, W& w) { each(t, w); }
template <class K, class V> void walk(std::multimap<K, V> const& t, W& w) { each(t, w); }
template <class K, class V, class H> void walk(std::unordered_map<K, V, H> const& t, W& w) { each(t, w); }
template <class A, class B> void walk(std::pair<A, B> const& t, W& w) { walk(t.first, w); walk(t.second, w); }
template <class... T> void walk(std::tuple<T...> const& t, W& w) { std::apply([&](auto const&... x) { (walk(x, w), ...); }, t); }
template <class T> void walk(std::optional<T> const& t, W& w) { if (t) walk(*t, w); }
template <class... T> void walk(std::variant<T...> const& t, W& w) { std::visit([&](auto const& x) { walk(x, w); }, t); }
template <class T> void walk(std::unique_ptr<T> const& t, W& w) { if (t) walk(*t, w); }

// -- recording traversers ---------------------------------------------------------------------------------------------
template <class T> struct Code { static constexpr uint64_t k = 0; };
template <> struct Code<Node> { static constexpr uint64_t k = kNode; }; template <> struct Code<Ext> { static constexpr uint64_t k = kExt; }; template <> struct Code<Spl> { static constexpr uint64_t k = kSpl; }; template <class T> struct Code<Box<T>> { static constexpr uint64_t k = kBox; };
template <> struct Code<Root> { static constexpr uint64_t k = kRoot; }; template <> struct Code<Mid> { static constexpr uint64_t k = kMid; }; template <> struct Code<Leaf> { static constexpr uint64_t k = kLeaf; }; template <> struct Code<Side> { static constexpr uint64_t k = kSide; };
template <> struct Code<Mac> { static constexpr uint64_t k = kMac; }; template <> struct Code<Mac2> { static constexpr uint64_t k = kMac2; }; template <> struct Code<Arr> { static constexpr uint64_t k = kArr; }; template <> struct Code<Raw> { static constexpr uint64_t k = kRaw; };
struct Rec { Log l; std::string bytes; char const* in = nullptr; size_t left = 0; uint64_t vecs = 0, objects = 0; };
// announces every object and atom
template <class S, class T> struct Announce {
  static void serializeIntrusive(S& s, T& t) { s.r->objects++; if (Code<T>::k) s.r->l.push_back(Code<T>::k); t.serialize(s); if (Code<T>::k) s.r->l.push_back(Code<T>::k + 1); }
  static void serializeNonIntrusive(S& s, T& t) { s.r->objects++; if (Code<T>::k) s.r->l.push_back(Code<T>::k); serialize(s, t); if (Code<T>::k) s.r->l.push_back(Code<T>::k + 1); }
};
// as above, but vectors are only noted
template <class S, class T> struct NoVectors : Announce<S, T> {};
template <class S, class U, class A> struct NoVectors<S, std::vector<U, A>> { static void serializeNonIntrusive(S& s, std::vector<U, A>& t) { s.r->vecs++; s.r->l.push_back(kVec); s.r->l.push_back(t.size()); } };
// as above, but Nodes are carried by their id alone
template <class S, class T> struct ShortNodes : Announce<S, T> {};
template <class S> struct ShortNodes<S, Node> { static void serializeIntrusive(S& s, Node& t) { s.r->l.push_back(kReplaced); uint64_t x = ~t.a.id; s.contiguousBytes(&x, 8, 1); t.a.id = ~x; s.r->l.push_back(t.a.id); } };
template <template <class, class> class D, checkpoint::eSerializationMode M> struct Tr : checkpoint::BaseSerializer {
  template <class U, class V> using DispatcherType = D<U, V>;
  Rec* r; explicit Tr(Rec* x) : checkpoint::BaseSerializer(M), r(x) {}
  void contiguousBytes(void* p, size_t e, size_t n) {
    size_t k = e * n;
    if (isUnpacking()) { if (k > r->left) throw std::runtime_error("traverser was asked for more bytes than the image holds"); memcpy(p, r->in, k); r->in += k; r->left -= k; }
    else if (isSizing()) r->left += k;
    else r->bytes.append(static_cast<char*>(p), k);
  }
  template <class S, class T> void contiguousTyped(S& s, T* p, size_t n) {
    s.contiguousBytes(p, sizeof(T), n);
    if constexpr (std::is_same<T, Atom>::value) for (size_t i = 0; i < n; i++) r->l.push_back(p[i].id);
  }
};
using M = checkpoint::eSerializationMode;
template <M m> using TAll = Tr<Announce, m>; template <M m> using TNoVec = Tr<NoVectors, m>; template <M m> using TShort = Tr<ShortNodes, m>;
struct Plainly : checkpoint::BaseSerializer {                 // no dispatcher, no bytes: only counts what is typed
  size_t atoms = 0; uint64_t sum = 0; Plainly() : checkpoint::BaseSerializer(M::None) {}
  template <class S, class T> void contiguousTyped(S&, T* p, size_t n) { if constexpr (std::is_same<T, Atom>::value) { atoms += n; for (size_t i = 0; i < n; i++) sum += p[i].id * (i + 1); } }
};
} // namespace v16
