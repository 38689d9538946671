// User classes of every kind the library supports.
#pragma once
#include "gen.h"
#include <checkpoint/checkpoint.h>

namespace vt {

#define VT_FIELDS(T, ...) static T vtNew() { return T{}; } auto fields() { return std::tie(__VA_ARGS__); }

// -- enums of many underlying types
enum class E8 : int8_t { a = -128, b = 0, c = 127 };
enum class EU8 : uint8_t { a, b };
enum class E16 : int16_t { a = -3 };
enum class E32 { a = -1, b, c };
enum class EU64 : uint64_t { big = 0xFFFFFFFFFFFFFFFFull };
enum class EI64 : long long { neg = -1 };
enum EPlain : unsigned { ep0, ep1, ep2 };
enum class EBool : bool { f, t };
enum class EChar : char { x = 'x' };

// -- intrusive
struct Plain {
  int a = 1; double b = 2; char c = 3; bool d = true; uint64_t e = 5; float f = 6; int16_t g = 7; long double h = 8; EU8 i{};
  VT_FIELDS(Plain, a, b, c, d, e, f, g, h, i)
  template <class S> void serialize(S& s) { s | a | b | c | d | e | f | g | h | i; }
};
struct Empty { VT_FIELDS(Empty) template <class S> void serialize(S&) {} };
struct Mixed {
  std::string name; std::vector<int> v; std::map<int, std::string> m; std::unique_ptr<int> p; std::optional<double> o;
  VT_FIELDS(Mixed, name, v, m, p, o)
  template <class S> void serialize(S& s) { s | name | v | m | p | o; }
};
template <class T> struct Wrap {
  T t{}; uint8_t mark = 0x5A;
  VT_FIELDS(Wrap, t, mark)
  template <class S> void serialize(S& s) { s | t; s | mark; }
};
// class whose fields' number depends on earlier ones
struct Tagged32 {
  uint8_t kind = 0; std::vector<uint16_t> odd; std::string even;
  static Tagged32 vtNew() { return {}; }
  template <class S> void serialize(S& s) { s | kind; if (kind & 1) { s | odd; if (s.isUnpacking()) even.clear(); } else { s | even; if (s.isUnpacking()) odd.clear(); } }
};
template <> struct Gen<Tagged32> { static Tagged32 make(Rng& r, Budget& b) { In in(b); Tagged32 t; t.kind = uint8_t(r.next()); if (t.kind & 1) t.odd = gen<std::vector<uint16_t>>(r, b); else t.even = gen<std::string>(r, b); return t; } };
template <> struct Eq<Tagged32> { static bool eq(Tagged32 const& a, Tagged32 const& b, Diff& d) { return vt::eq(a.kind, b.kind, d) && vt::eq(a.odd, b.odd, d) && vt::eq(a.even, b.even, d); } };

// -- non-intrusive
struct NonIntr {
  int64_t x = 0; std::string s; std::vector<double> w;
  VT_FIELDS(NonIntr, x, s, w)
};
template <class S> void serialize(S& s, NonIntr& n) { s | n.x | n.s | n.w; }
template <class T, class U> struct Both { T t{}; U u{}; VT_FIELDS(Both, t, u) };
template <class S, class T, class U> void serialize(S& s, Both<T, U>& b) { s | b.u; s | b.t; }

// -- serialize split in parent and own part
struct SplitBase { uint32_t base = 9; template <class S> void serialize(S& s) { s | base; } };
struct Split : SplitBase {
  uint16_t own = 4; std::string txt;
  VT_FIELDS(Split, base, own, txt)
  template <class S> void serialize(S&) {}
  template <class S> void serializeParent(S& s) { SplitBase::serialize(s); }
  template <class S> void serializeThis(S& s) { s | own | txt; }
};

// -- byte-copied
struct ByteTrait {
  using isByteCopyable = std::true_type;
  uint32_t a = 1; uint32_t b = 2; double c = 3;
  VT_FIELDS(ByteTrait, a, b, c)
};
struct ByteBase : checkpoint::SerdesByteCopy {
  int16_t a = 1; int16_t b = 2; int32_t c = 3;
  VT_FIELDS(ByteBase, a, b, c)
};
struct ByteMacro { uint64_t a = 1; uint8_t pad[8] = {}; static ByteMacro vtNew() { return {}; } };
template <> struct Gen<ByteMacro> { static ByteMacro make(Rng& r, Budget&) { ByteMacro m; m.a = r.next(); for (auto& x : m.pad) x = uint8_t(r.next()); return m; } };
template <> struct Eq<ByteMacro> { static bool eq(ByteMacro const& a, ByteMacro const& b, Diff& d) { return memcmp(&a, &b, sizeof a) == 0 ? true : d.set("bytes"); } };
struct ByteNonIntr { float x = 0; int32_t y = 1; VT_FIELDS(ByteNonIntr, x, y) };
struct ByteOdd { using isByteCopyable = std::true_type; uint8_t b[3] = {1, 2, 3}; static ByteOdd vtNew() { return {}; } };   // odd size: leaves everything behind it misaligned
template <> struct Gen<ByteOdd> { static ByteOdd make(Rng& r, Budget&) { ByteOdd m; for (auto& x : m.b) x = uint8_t(r.next()); return m; } };
template <> struct Eq<ByteOdd> { static bool eq(ByteOdd const& a, ByteOdd const& b, Diff& d) { return memcmp(&a, &b, 3) == 0 ? true : d.set("bytes"); } };

// -- move-only
struct MoveOnly {
  std::unique_ptr<int> p; int q = 0;
  MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default;
  VT_FIELDS(MoveOnly, p, q)
  template <class S> void serialize(S& s) { s | p | q; }
};
// -- tagged constructor only
struct TaggedOnly {
  int a; std::string s; std::vector<int> v;
  TaggedOnly(int x, std::string y) : a(x), s(std::move(y)) {}
  explicit TaggedOnly(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(-77), s("a string that was built by the tagged constructor") {}
  static TaggedOnly vtNew() { return TaggedOnly(1, "x"); }
  auto fields() { return std::tie(a, s, v); }
  template <class S> void serialize(S& z) { z | a | s | v; }
};
struct TaggedMoveOnly {
  std::unique_ptr<std::string> p; int a;
  explicit TaggedMoveOnly(int x) : a(x) {}
  explicit TaggedMoveOnly(checkpoint::SERIALIZE_CONSTRUCT_TAG) : p(new std::string("placeholder owned by a tagged object")), a(-78) {}
  TaggedMoveOnly(TaggedMoveOnly&&) = default; TaggedMoveOnly& operator=(TaggedMoveOnly&&) = default;
  static TaggedMoveOnly vtNew() { return TaggedMoveOnly(1); }
  auto fields() { return std::tie(p, a); }
  template <class S> void serialize(S& z) { z | p | a; }
};
// -- reconstruct: member, free, specialised
struct ReconMember {
  int a; std::string s;
  explicit ReconMember(int x) : a(x), s("member reconstructed, long enough to live on the heap") {}
  static ReconMember& reconstruct(void* buf) { return *new (buf) ReconMember(100); }
  static ReconMember vtNew() { return ReconMember(1); }
  auto fields() { return std::tie(a, s); }
  template <class S> void serialize(S& z) { z | a | s; }
};
struct ReconFree {
  int a; std::string s;
  explicit ReconFree(int x) : a(x), s("free reconstructed, long enough to live on the heap") {}
  static ReconFree vtNew() { return ReconFree(1); }
  auto fields() { return std::tie(a, s); }
  template <class S> void serialize(S& z) { z | a | s; }
};
inline void reconstruct(ReconFree*& t, void* buf) { t = new (buf) ReconFree(101); }
struct ReconSpec {
  int a; std::string s;
  explicit ReconSpec(int x) : a(x), s("specialised reconstruct, long enough to live on the heap") {}
  static ReconSpec vtNew() { return ReconSpec(1); }
  auto fields() { return std::tie(a, s); }
};
template <class S> void serialize(S& z, ReconSpec& r) { z | r.a | r.s; }

// -- recursive
struct Tree {
  int v = 0; std::vector<Tree> kids; std::string note;
  static Tree vtNew() { return {}; }
  template <class S> void serialize(S& s) { s | v | kids | note; }
};
template <> struct Gen<Tree> { static Tree make(Rng& r, Budget& b) {
  In in(b); Tree t; t.v = int(r.next()); if (r.chance(30)) t.note = gen<std::string>(r, b);
  size_t n = b.left > 0 && b.depth < 12 ? r.below(5) : 0; b.left -= long(n) * 4; for (size_t i = 0; i < n; i++) t.kids.push_back(make(r, b)); return t; } };
template <> struct Eq<Tree> { static bool eq(Tree const& a, Tree const& b, Diff& d) { return vt::eq(a.v, b.v, d) && vt::eq(a.note, b.note, d) && vt::eq(a.kids, b.kids, d); } };
struct Chain {
  uint32_t v = 0; std::unique_ptr<Chain> next;
  static Chain vtNew() { return {}; }
  template <class S> void serialize(S& s) { s | v | next; }
};
template <> struct Gen<Chain> { static Chain make(Rng& r, Budget& b) { Chain c; Chain* p = &c; size_t n = r.below(r.chance(10) ? 300 : 12); p->v = uint32_t(r.next()); (void)b; for (size_t i = 0; i < n; i++) { p->next.reset(new Chain); p = p->next.get(); p->v = uint32_t(r.next()); } return c; } };
template <> struct Eq<Chain> { static bool eq(Chain const& a, Chain const& b, Diff& d) {
  Chain const *p = &a, *q = &b; size_t n = 0;
  for (; p && q; p = p->next.get(), q = q->next.get(), n++) if (p->v != q->v) return d.set("chain value at " + std::to_string(n));
  return !p && !q ? true : d.set("chain length"); } };

// -- keys, hashes, comparators, allocators, deleters
struct Key {
  int a = 0; std::string b;
  VT_FIELDS(Key, a, b)
  template <class S> void serialize(S& s) { s | a | b; }
  bool operator<(Key const& o) const { return a != o.a ? a < o.a : b < o.b; }
  bool operator==(Key const& o) const { return a == o.a && b == o.b; }
};
template <> struct Gen<Key> { static Key make(Rng& r, Budget& b) { In in(b); Key k; k.a = int(r.below(6)); k.b = std::string(r.below(3), char('a' + r.below(2))); return k; } };
struct KeyHash { size_t operator()(Key const& k) const { return size_t(k.a % 3); } };                  // collisions on purpose
struct BadHash { template <class T> size_t operator()(T const&) const { return 42; } };
struct ModEq { bool operator()(int a, int b) const { return a == b; } };
struct Desc { template <class T> bool operator()(T const& a, T const& b) const { return b < a; } };
struct ByLast { bool operator()(int a, int b) const { return unsigned(a) % 10 < unsigned(b) % 10; } };  // many distinct ints are equivalent: in multi containers their order is state
template <class T> struct Alloc {
  using value_type = T; Alloc() = default; template <class U> Alloc(Alloc<U> const&) {}
  T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { ::operator delete(p); }
  template <class U> bool operator==(Alloc<U> const&) const { return true; } template <class U> bool operator!=(Alloc<U> const&) const { return false; }
};
template <class T> struct Del { void operator()(T* p) const { delete p; } };
struct ManyKinds { Plain p; NonIntr n; Split s; ByteTrait b; ByteBase bb; MoveOnly m; E32 e{}; Tagged32 t; std::array<std::string, 2> a; std::variant<int, std::string, NonIntr> v; std::tuple<int, std::string, Plain> tu; std::chrono::duration<double> du{};
  VT_FIELDS(ManyKinds, p, n, s, b, bb, m, e, t, a, v, tu, du)
  template <class S> void serialize(S& z) { z | p | n | s | b | bb | m | e | t | a | v | tu | du; } };

} // namespace vt

CHECKPOINT_BYTES(vt::ByteMacro)
namespace checkpoint {
template <> struct ByteCopyNonIntrusive<vt::ByteNonIntr> { using isByteCopyable = std::true_type; };
template <> struct CheckpointReconstructor<vt::ReconSpec> { static void reconstruct(vt::ReconSpec*& t, void* buf) { t = new (buf) vt::ReconSpec(102); } };
}
