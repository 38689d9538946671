// Classes offering every combination of means of construction; each object remembers which one built it.
#pragma once
#include "types.h"

namespace vk {
using vt::Diff; using vt::Budget; using vr::Rng;
struct Via { char v; };
struct Monitor { bool on = false, keepUser = false; uint64_t early = 0; std::map<char, uint64_t> unpacked, found; };
inline Monitor& mon() { static Monitor m; return m; }
// part of every class: how the object was built ('u': by the user; not serialized), and its state
struct Core {
  uint32_t alive = 0xC0DEC0DE; char via; int a = -1; std::string s = "state before deserialization, long enough for the heap";
  explicit Core(char v) : via(v) {}
  Core(Core const&) = default; Core(Core&&) = default; Core& operator=(Core const&) = default; Core& operator=(Core&&) = default;
  ~Core() { alive = 0xDEADDEAD; }
  template <class S> void ser(S& z) { if (s_() != 0xC0DEC0DE) { mon().early++; if (z.isUnpacking()) throw std::runtime_error("serialize called on an object that was not constructed"); } if (z.isUnpacking()) mon().unpacked[via]++; z | a | s; }
  uint32_t s_() const { uint32_t x; memcpy(&x, &alive, 4); return x; }
  bool equal(Core const& o, char want, Diff& d) const {
    if (o.s_() != 0xC0DEC0DE) return d.set("not constructed");
    if (mon().on) { mon().found[o.via]++; if (o.via != want && !(mon().keepUser && o.via == 'u')) return d.set(std::string("built by ") + name(o.via) + " instead of " + name(want)); }
    return a == o.a && s == o.s ? true : d.set("state"); }
  static char const* name(char c) { switch (c) { case 'D': return "the default constructor"; case 'T': return "the tagged constructor"; case 'R': return "member reconstruct"; case 'F': return "free reconstruct"; case 'S': return "specialised reconstruct"; case 'u': return "the user"; default: return "nothing"; } }
  void fill(Rng& r, Budget& b) { a = int(r.next()); s = vt::gen<std::string>(r, b); via = 'u'; }
};
#define K_D(N) N() : c('D') {}
#define K_T(N) explicit N(checkpoint::SERIALIZE_CONSTRUCT_TAG) : c('T') {}
#define K_R(N) static N& reconstruct(void* b) { return *new (b) N(Via{'R'}); }
#define K_F(N) } ; inline void reconstruct(N*& t, void* b) { t = new (b) N(Via{'F'}); } struct N##_ {
#define K_0(N)
#define K_COPY(N) N(N const&) = default; N(N&&) = default; N& operator=(N const&) = default; N& operator=(N&&) = default;
#define K_MOVE(N) N(N&&) = default; N& operator=(N&&) = default;
#define K_CLASS(N, W, C, A, B, E) struct N { Core c; static constexpr char want = W; explicit N(Via v) : c(v.v) {} K_##C(N) static N vkNew() { return N(Via{'u'}); } \
  template <class S> void serialize(S& z) { c.ser(z); } bool operator<(N const& o) const { return c.a < o.c.a; } bool operator==(N const& o) const { return c.a == o.c.a; } K_##A(N) K_##B(N) K_##E(N) };
//      name     built   copies  means it offers
#define K_ALL(X) \
  X(D, 'D', COPY, D, 0, 0) X(T, 'T', COPY, T, 0, 0) X(R, 'R', COPY, R, 0, 0) X(F, 'F', COPY, F, 0, 0) X(S, 'S', COPY, 0, 0, 0) \
  X(DT, 'T', COPY, D, T, 0) X(DR, 'R', COPY, D, R, 0) X(DF, 'F', COPY, D, F, 0) X(DS, 'S', COPY, D, 0, 0) \
  X(TR, 'T', COPY, T, R, 0) X(TF, 'T', COPY, T, F, 0) X(TS, 'T', COPY, T, 0, 0) X(DTR, 'T', COPY, D, T, R) X(DTF, 'T', COPY, D, T, F) X(DTS, 'T', COPY, D, T, 0) \
  X(mD, 'D', MOVE, D, 0, 0) X(mT, 'T', MOVE, T, 0, 0) X(mR, 'R', MOVE, R, 0, 0) X(mF, 'F', MOVE, F, 0, 0) X(mS, 'S', MOVE, 0, 0, 0) \
  X(mDT, 'T', MOVE, D, T, 0) X(mDR, 'R', MOVE, D, R, 0) X(mDF, 'F', MOVE, D, F, 0) X(mDS, 'S', MOVE, D, 0, 0) X(mTR, 'T', MOVE, T, R, 0) X(mTF, 'T', MOVE, T, F, 0) X(mDTR, 'T', MOVE, D, T, R) X(mDTF, 'T', MOVE, D, T, F) \
  X(pD, 'D', COPY, D, 0, 0) X(pDT, 'D', COPY, D, T, 0) X(pDR, 'D', COPY, D, R, 0) X(pDF, 'D', COPY, D, F, 0) X(pDS, 'D', COPY, D, 0, 0)
K_ALL(K_CLASS)
// inherits a reconstruct that builds something else
struct Inh : DR { static constexpr char want = 'D'; Inh() : DR(Via{'D'}) {} explicit Inh(Via v) : DR(v) {} static Inh vkNew() { return Inh(Via{'u'}); } };
// an aggregate
struct Agg { Core c{'D'}; int n; static constexpr char want = 'D'; static Agg vkNew() { return Agg{Core('u'), 0}; } template <class S> void serialize(S& z) { c.ser(z); z | n; } };
struct Hash { template <class T> size_t operator()(T const& t) const { return size_t(t.c.a) % 7; } };
// members are built by the class that has them
struct Member { DT a; T b{Via{'u'}}; std::vector<mT> v; std::unique_ptr<DR> p; std::list<TF> l; static Member vtNew() { return {}; } auto fields() { return std::tie(v, p, l); } template <class S> void serialize(S& s) { s | a | b | v | p | l; } };
// plain pointers, as documented
template <class N> struct Ptr { N* p = nullptr; Ptr() = default; Ptr(Ptr&& o) : p(o.p) { o.p = nullptr; } Ptr& operator=(Ptr&& o) { std::swap(p, o.p); return *this; } ~Ptr() { delete p; }
  template <class S> void serialize(S& s) { bool none = !p; s | none; if (!none) { checkpoint::reconstructPointedToObjectIfNeeded(s, p); s | *p; } } };

#if defined(GROUP) && GROUP == 56
// polymorphic classes, one per combination
struct P0 : checkpoint::SerializableBase<P0> {
  Core r; P0() : r('D') {} explicit P0(Via v) : r(v.v) {} virtual int pure() const = 0; template <class S> void serialize(S& z) { r.ser(z); }
  virtual bool vtEqual(P0 const& o, Diff& d) const = 0; virtual void vtFill(Rng& g, Budget& b) { r.fill(g, b); } static P0* vtMakePoly(Rng& r, Budget& b);
};
#define K_POLY(N, W, A, B, E) struct N : checkpoint::SerializableDerived<N, P0> { Core c; static constexpr char want = W; explicit N(Via v) : c(v.v) {} int pure() const override { return __LINE__; } \
  template <class S> void serialize(S& z) { c.ser(z); } bool vtEqual(P0 const& o, Diff& d) const override { return r.a == o.r.a && r.s == o.r.s && c.equal(static_cast<N const&>(o).c, W, d); } void vtFill(Rng& g, Budget& b) override { P0::vtFill(g, b); c.fill(g, b); } K_##A(N) K_##B(N) K_##E(N) };
#define P_ALL(X) X(PD, 'D', D, 0, 0) X(PT, 'T', T, 0, 0) X(PR, 'R', R, 0, 0) X(PF, 'F', F, 0, 0) X(PS, 'S', 0, 0, 0) X(PDT, 'T', D, T, 0) X(PDR, 'R', D, R, 0) X(PDF, 'F', D, F, 0) X(PDS, 'S', D, 0, 0) X(PTR, 'T', T, R, 0) X(PTF, 'T', T, F, 0) X(PDTR, 'T', D, T, R) X(PDTF, 'T', D, T, F)
P_ALL(K_POLY)
struct PDeep : checkpoint::SerializableDerived<PDeep, PT> { Core e; static constexpr char want = 'R'; explicit PDeep(Via v) : checkpoint::SerializableDerived<PDeep, PT>(Via{'x'}), e(v.v) {} static PDeep& reconstruct(void* b) { return *new (b) PDeep(Via{'R'}); }
  template <class S> void serialize(S& z) { e.ser(z); } bool vtEqual(P0 const& o, Diff& d) const override { auto& q = static_cast<PDeep const&>(o); return c.a == q.c.a && c.s == q.c.s && e.equal(q.e, 'R', d); } void vtFill(Rng& g, Budget& b) override { PT::vtFill(g, b); e.fill(g, b); } };
// macro style
struct Q0 { checkpoint_virtual_serialize_root() Core r; explicit Q0(char v) : r(v) {} virtual ~Q0() = default; template <class S> void serialize(S& z) { r.ser(z); }
  virtual bool vtEqual(Q0 const& o, Diff& d) const { return r.equal(o.r, wanted(), d); } virtual char wanted() const { return 'T'; } virtual void vtFill(Rng& g, Budget& b) { r.fill(g, b); } static Q0* vtMakePoly(Rng& r, Budget& b); explicit Q0(checkpoint::SERIALIZE_CONSTRUCT_TAG) : r('T') {} };
struct QD : Q0 { checkpoint_virtual_serialize_derived_from(Q0) QD() : Q0('D') {} char wanted() const override { return 'D'; } template <class S> void serialize(S&) {} };
struct QT : Q0 { checkpoint_virtual_serialize_derived_from(Q0) explicit QT(int) : Q0('u') {} explicit QT(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : Q0(t) {} template <class S> void serialize(S&) {} };
struct QDR : Q0 { checkpoint_virtual_serialize_derived_from(Q0) QDR() : Q0('D') {} explicit QDR(Via v) : Q0(v.v) {} static QDR& reconstruct(void* b) { return *new (b) QDR(Via{'R'}); } char wanted() const override { return 'R'; } template <class S> void serialize(S&) {} };
inline Q0* Q0::vtMakePoly(Rng& r, Budget& b) { vt::In in(b); Q0* q; switch (r.below(4)) { case 0: q = new Q0('u'); break; case 1: q = new QD; break; case 2: q = new QT(1); break; default: q = new QDR; } q->vtFill(r, b); return q; }
inline P0* P0::vtMakePoly(Rng& r, Budget& b) {
  vt::In in(b);
  switch (r.below(14)) {
    case 0: { auto p = new PD(Via{'u'}); p->vtFill(r, b); return p; } case 1: { auto p = new PT(Via{'u'}); p->vtFill(r, b); return p; } case 2: { auto p = new PR(Via{'u'}); p->vtFill(r, b); return p; } case 3: { auto p = new PF(Via{'u'}); p->vtFill(r, b); return p; }
    case 4: { auto p = new PS(Via{'u'}); p->vtFill(r, b); return p; } case 5: { auto p = new PDT(Via{'u'}); p->vtFill(r, b); return p; } case 6: { auto p = new PDR(Via{'u'}); p->vtFill(r, b); return p; } case 7: { auto p = new PDF(Via{'u'}); p->vtFill(r, b); return p; }
    case 8: { auto p = new PDS(Via{'u'}); p->vtFill(r, b); return p; } case 9: { auto p = new PTR(Via{'u'}); p->vtFill(r, b); return p; } case 10: { auto p = new PTF(Via{'u'}); p->vtFill(r, b); return p; } case 11: { auto p = new PDTR(Via{'u'}); p->vtFill(r, b); return p; }
    case 12: { auto p = new PDTF(Via{'u'}); p->vtFill(r, b); return p; } default: { auto p = new PDeep(Via{'u'}); p->vtFill(r, b); return p; } }
}
#endif
} // namespace vk
namespace checkpoint {
#define K_SPEC(N) template <> struct CheckpointReconstructor<vk::N> { static void reconstruct(vk::N*& t, void* b) { t = new (b) vk::N(vk::Via{'S'}); } };
K_SPEC(S) K_SPEC(DS) K_SPEC(TS) K_SPEC(DTS) K_SPEC(mS) K_SPEC(mDS) K_SPEC(pDS)
#if defined(GROUP) && GROUP == 56
K_SPEC(PS) K_SPEC(PDS)
#endif
}
namespace vt {
template <class T, class = void> struct IsVk : std::false_type {};
template <class T> struct IsVk<T, std::enable_if_t<sizeof(T::want) == 1>> : std::true_type {};
template <class T> struct Gen<T, std::enable_if_t<IsVk<T>::value>> { static T make(Rng& r, Budget& b) { In in(b); T t = T::vkNew(); t.c.fill(r, b); if (r.chance(50)) t.c.a = int(r.below(6)); return t; } };
template <class T> struct Eq<T, std::enable_if_t<IsVk<T>::value>> { static bool eq(T const& a, T const& b, Diff& d) { return a.c.equal(b.c, T::want, d); } };
template <class N> struct Gen<vk::Ptr<N>> { static vk::Ptr<N> make(Rng& r, Budget& b) { vk::Ptr<N> p; p.p = gen<std::unique_ptr<N>>(r, b).release(); return p; } };
template <class N> struct Eq<vk::Ptr<N>> { static bool eq(vk::Ptr<N> const& a, vk::Ptr<N> const& b, Diff& d) { if (!a.p != !b.p) return d.set("null"); if (!a.p) return true; if constexpr (IsPoly<N>::value) { if (typeid(*a.p) != typeid(*b.p)) return d.set("dynamic type"); return a.p->vtEqual(*b.p, d); } else return vt::eq(*a.p, *b.p, d); } };
#if defined(GROUP) && GROUP == 56
template <class N> std::unique_ptr<N> fixed(Rng& r, Budget& b) { auto p = std::make_unique<N>(vk::Via{'u'}); p->vtFill(r, b); return p; }
template <> struct Gen<std::unique_ptr<vk::PT>> { static std::unique_ptr<vk::PT> make(Rng& r, Budget& b) { if (r.chance(20)) return nullptr; if (r.chance(50)) return fixed<vk::PDeep>(r, b); return fixed<vk::PT>(r, b); } };
template <> struct Gen<std::unique_ptr<vk::PDTR>> { static std::unique_ptr<vk::PDTR> make(Rng& r, Budget& b) { return fixed<vk::PDTR>(r, b); } };
template <> struct Gen<std::unique_ptr<vk::PDeep>> { static std::unique_ptr<vk::PDeep> make(Rng& r, Budget& b) { return fixed<vk::PDeep>(r, b); } };
#endif
} // namespace vt
