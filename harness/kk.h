// Kokkos types (C18): random views and containers, deep comparison of extents, label and elements.
// The elements are filled and compared through the stand-in's own storage, so device memory and atomic views need no access from the host.
#pragma once
#include <Kokkos_Core.hpp>
#include <Kokkos_DynamicView.hpp>
#include <Kokkos_DynRankView.hpp>
#include <Kokkos_UnorderedMap.hpp>
#include <Kokkos_Pair.hpp>
#include <Kokkos_Complex.hpp>
#include <Kokkos_Array.hpp>
#include <Kokkos_StaticCrsGraph.hpp>
#include <KokkosSparse_CrsMatrix.hpp>
#include <checkpoint/container/view_equality.h>
namespace kk = Kokkos;
namespace vt {
using LL = kk::LayoutLeft; using LR = kk::LayoutRight; using LS = kk::LayoutStride;
using At = kk::MemoryTraits<kk::Atomic>; using Ra = kk::MemoryTraits<kk::RandomAccess>; using Dev = kk::StandinDeviceSpace;
template <class S> void each(S const& st, std::function<void(size_t)> f) {
  if (st.size() == 0) return; size_t ix[8] = {};
  while (true) { size_t o = 0; for (unsigned i = 0; i < st.rank; i++) o += ix[i] * st.str[i]; f(o); unsigned d = 0; for (; d < st.rank; d++) { if (++ix[d] < st.dim[d]) break; ix[d] = 0; } if (d == st.rank) break; }
}
inline std::string viewLabel(Rng& r) { std::string s; size_t n = r.chance(20) ? 0 : r.chance(15) ? 60 + r.below(200) : 1 + r.below(20); for (size_t i = 0; i < n; i++) s.push_back(char(33 + r.below(94))); return s; }
template <class E> void fillView(E& st, Rng& r, Budget& b) { In in(b); using T = std::remove_reference_t<decltype(*st.base)>; if (!st.base) return; each(st, [&](size_t o) { st.base[o] = gen<T>(r, b); }); }
template <class A> bool eqElems(A const& a, A const& b, Diff& d) {
  if (a.rank != b.rank) return d.set("rank " + std::to_string(a.rank) + "!=" + std::to_string(b.rank));
  for (unsigned i = 0; i < a.rank; i++) if (a.dim[i] != b.dim[i]) return d.set("extent " + std::to_string(i) + ": " + std::to_string(a.dim[i]) + "!=" + std::to_string(b.dim[i]));
  bool ok = true; std::vector<size_t> oa, ob; each(a, [&](size_t o) { oa.push_back(o); }); each(b, [&](size_t o) { ob.push_back(o); });
  if (oa.empty() || !a.base) return true; if (!b.base) return d.set("no memory behind the view");
  for (size_t i = 0; i < oa.size() && ok; i++) { Diff e; if (!vt::eq(a.base[oa[i]], b.base[ob[i]], e)) { ok = d.set("element " + std::to_string(i) + " of " + std::to_string(oa.size()) + "/" + e.path); } }
  return ok;
}
inline std::vector<size_t> pickExtents(Rng& r, Budget& b, unsigned rank) {
  std::vector<size_t> e(rank); size_t lim = b.left < 0 ? 4 : size_t(b.left) / 2 + 4, n = 1; bool flat = r.chance(12);
  for (unsigned i = 0; i < rank; i++) { size_t top = rank <= 1 ? 60 : rank == 2 ? 14 : rank == 3 ? 7 : rank <= 5 ? 4 : 3; e[i] = flat ? 1 : r.chance(5) ? 0 : 1 + r.below(top); if (n * e[i] > lim) e[i] = 1; if (e[i]) n *= e[i]; }
  if (rank == 1 && r.chance(4)) e[0] = 1000 + r.below(4000);
  b.left -= long(n > 400 ? 400 : n); return e;
}
template <class L> L layoutOf(std::vector<size_t> const& e, Rng& r) {
  L l; for (size_t i = 0; i < e.size(); i++) l.dimension[i] = e[i];
  if constexpr (std::is_same<L, LS>::value) {   // any order of the dimensions, with or without gaps
    std::vector<size_t> order(e.size()); for (size_t i = 0; i < e.size(); i++) order[i] = i; for (size_t i = e.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    size_t n = 1; if (r.chance(25)) n += r.below(4); for (size_t k : order) { l.stride[k] = n; n *= e[k] ? e[k] : 1; if (r.chance(25)) n += r.below(4); }
  }
  return l;
}
// ---- View
template <class D, class... P> struct Gen<kk::View<D, P...>> {
  using V = kk::View<D, P...>; using M = kk::View<typename V::traits::non_const_data_type, typename V::array_layout, typename V::memory_space>;
  static V make(Rng& r, Budget& b) {
    constexpr unsigned rank = V::rank(); if (rank > 0 && r.chance(3)) return V();
    std::vector<size_t> e = pickExtents(r, b, rank);
    // what a view with static extents has of them
    M shape; for (unsigned i = unsigned(V::rank_dynamic()); i < rank; i++) e[i] = shape.st.dim[i];
    std::string label = viewLabel(r); M m;
    if constexpr (!std::is_same<typename V::array_layout, LS>::value && V::rank() == V::rank_dynamic() && V::rank() > 1) {
      if (r.chance(25)) {                       // part of a larger view: same layout, padded
        unsigned pad = std::is_same<typename V::array_layout, LL>::value ? 0 : rank - 1; std::vector<size_t> big = e; big[pad] += 1 + r.below(4);
        M w(label, layoutOf<typename V::array_layout>(big, r)); fillView(w.st, r, b); std::vector<std::pair<size_t, size_t>> rg; for (unsigned i = 0; i < rank; i++) { size_t lo = i == pad ? r.below(big[i] - e[i] + 1) : 0; rg.push_back({lo, lo + e[i]}); }
        bool fits = true; for (size_t x : e) fits = fits && x; if (fits) { m = kk::standin_range(w, rg); return V(m); }
      }
    }
    if constexpr (std::is_same<typename V::array_layout, LS>::value && V::rank() == V::rank_dynamic() && V::rank() > 0) {
      if (r.chance(30)) {                       // a box cut out of a larger view
        std::vector<size_t> big = e; for (auto& x : big) x += r.below(4); M w(label, layoutOf<LS>(big, r)); fillView(w.st, r, b);
        std::vector<std::pair<size_t, size_t>> rg; for (unsigned i = 0; i < rank; i++) { size_t lo = r.below(big[i] - e[i] + 1); rg.push_back({lo, lo + e[i]}); }
        m = kk::standin_range(w, rg); return V(m);
      }
    }
    m = M(label, layoutOf<typename V::array_layout>(e, r)); fillView(m.st, r, b); return V(m);
  }
};
template <class D, class... P> struct Eq<kk::View<D, P...>> {
  static bool eq(kk::View<D, P...> const& a, kk::View<D, P...> const& b, Diff& d) {
    if (a.label() != b.label()) return d.set("label '" + a.label() + "'!='" + b.label() + "'");
    return eqElems(a.st, b.st, d);
  }
};
// ---- DynRankView
template <class D, class... P> struct Gen<kk::DynRankView<D, P...>> {
  using V = kk::DynRankView<D, P...>;
  static V make(Rng& r, Budget& b) {
    if (r.chance(4)) return V(); unsigned rank = unsigned(r.below(8)); std::vector<size_t> e = pickExtents(r, b, rank);
    if (rank == 2 && r.chance(30)) { kk::View<D**, typename V::array_layout> w(viewLabel(r), layoutOf<typename V::array_layout>({e[0] + 2, e[1] + 2}, r)); fillView(w.st, r, b); 
      auto s = kk::standin_range(w, {{0, std::is_same<typename V::array_layout, LR>::value ? e[0] + 2 : e[0]}, {0, std::is_same<typename V::array_layout, LR>::value ? e[1] : e[1] + 2}}); bool fits = e[0] && e[1]; if (fits) { kk::View<D**, typename V::array_layout> t; t = s; return V(t); } }
    V v(viewLabel(r), layoutOf<typename V::array_layout>(e, r)); fillView(v.st, r, b); return v;
  }
};
template <class D, class... P> struct Eq<kk::DynRankView<D, P...>> {
  static bool eq(kk::DynRankView<D, P...> const& a, kk::DynRankView<D, P...> const& b, Diff& d) {
    if (a.label() != b.label()) return d.set("label '" + a.label() + "'!='" + b.label() + "'");
    if (a.size() != b.size()) return d.set("size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
    return eqElems(a.st, b.st, d);
  }
};
// ---- DynamicView
template <class D, class... P> struct Gen<kk::Experimental::DynamicView<D, P...>> {
  using V = kk::Experimental::DynamicView<D, P...>;
  static V make(Rng& r, Budget& b) {
    In in(b); size_t n = pickExtents(r, b, 1)[0]; unsigned chunk = 1u << r.below(7); V v(viewLabel(r), chunk, unsigned(n + r.below(100) + 1));
    v.resize_serial(n); using T = typename V::value_type; for (size_t i = 0; i < n; i++) v(i) = gen<T>(r, b); if (n > 3 && r.chance(20)) v.resize_serial(n / 2); return v;
  }
};
template <class D, class... P> struct Eq<kk::Experimental::DynamicView<D, P...>> {
  static bool eq(kk::Experimental::DynamicView<D, P...> const& a, kk::Experimental::DynamicView<D, P...> const& b, Diff& d) {
    if (a.label() != b.label()) return d.set("label '" + a.label() + "'!='" + b.label() + "'");
    if (a.size() != b.size()) return d.set("size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
    for (size_t i = 0; i < a.size(); i++) { Diff e; if (!vt::eq(a(i), b(i), e)) return d.set("element " + std::to_string(i) + "/" + e.path); }
    return true;
  }
};
// ---- pair, complex, array
template <class A, class B> struct Gen<kk::pair<A, B>> { static kk::pair<A, B> make(Rng& r, Budget& b) { A x = gen<A>(r, b); B y = gen<B>(r, b); return kk::pair<A, B>(x, y); } };
template <class A> struct Gen<kk::pair<A, void>> { static kk::pair<A, void> make(Rng& r, Budget& b) { return kk::pair<A, void>(gen<A>(r, b)); } };
template <class A, class B> struct Eq<kk::pair<A, B>> { static bool eq(kk::pair<A, B> const& a, kk::pair<A, B> const& b, Diff& d) { if (!vt::eq(a.first, b.first, d)) return d.set("first"); return vt::eq(a.second, b.second, d) ? true : d.set("second"); } };
template <class A> struct Eq<kk::pair<A, void>> { static bool eq(kk::pair<A, void> const& a, kk::pair<A, void> const& b, Diff& d) { return vt::eq(a.first, b.first, d) ? true : d.set("first"); } };
template <class T> struct Gen<kk::complex<T>> { static kk::complex<T> make(Rng& r, Budget& b) { T x = gen<T>(r, b); T y = gen<T>(r, b); return kk::complex<T>(x, y); } };
template <class T> struct Eq<kk::complex<T>> { static bool eq(kk::complex<T> const& a, kk::complex<T> const& b, Diff& d) { if (!vt::eq(T(a.real()), T(b.real()), d)) return d.set("real"); return vt::eq(T(a.imag()), T(b.imag()), d) ? true : d.set("imag"); } };
template <class T, size_t N> struct Gen<kk::Array<T, N>> { static kk::Array<T, N> make(Rng& r, Budget& b) { In in(b); kk::Array<T, N> a; for (size_t i = 0; i < N; i++) a[i] = gen<T>(r, b); return a; } };
template <class T, size_t N> struct Eq<kk::Array<T, N>> { static bool eq(kk::Array<T, N> const& a, kk::Array<T, N> const& b, Diff& d) { for (size_t i = 0; i < N; i++) if (!vt::eq(a[i], b[i], d)) return d.set("element " + std::to_string(i)); return true; } };
// ---- UnorderedMap: entries, whatever slots they are in
template <class K, class V, class... R> struct Gen<kk::UnorderedMap<K, V, R...>> {
  using M = kk::UnorderedMap<K, V, R...>;
  static M make(Rng& r, Budget& b) {
    In in(b); if (r.chance(5)) return M(); size_t n = r.below(2) ? r.below(12) : r.below(140); if (long(n) > b.left) n = 2; b.left -= long(n); M m(unsigned(n + r.below(50))); std::vector<K> ks;
    for (size_t i = 0; i < n; i++) { K k = genKey<K>(r, b); ks.push_back(k); m.insert(k, gen<V>(r, b)); }
    if (r.chance(40)) for (auto& k : ks) if (r.chance(25)) m.erase(k);       // erased slots keep their old keys
    if (r.chance(20)) for (auto& k : ks) if (r.chance(25)) m.insert(k, gen<V>(r, b));
    return m;
  }
};
template <class K, class V, class... R> struct Eq<kk::UnorderedMap<K, V, R...>> {
  static bool eq(kk::UnorderedMap<K, V, R...> const& a, kk::UnorderedMap<K, V, R...> const& b, Diff& d) {
    if (a.size() != b.size()) return d.set("size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
    if (b.failed_insert()) return d.set("an insert failed");
    if (b.capacity() < a.capacity()) return d.set("capacity " + std::to_string(b.capacity()) + "<" + std::to_string(a.capacity()));
    size_t n = 0; for (unsigned i = 0; i < b.capacity(); i++) n += b.valid_at(i);
    if (n != b.size()) return d.set("slots in use");
    for (unsigned i = 0; i < a.capacity(); i++) if (a.valid_at(i)) { unsigned j = b.find(a.key_at(i)); if (!b.valid_at(j)) return d.set("a key is missing"); if (!vt::eq(a.value_at(i), b.value_at(j), d)) return d.set("value of a key"); }
    return true;
  }
};
// ---- graphs and matrices
template <class T, class... P> kk::StaticCrsGraph<T, P...> genCrs(Rng& r, Budget& b, std::string const& l, size_t rows) {
  using G = kk::StaticCrsGraph<T, P...>; std::vector<std::vector<T>> in(rows); Rng& rr = r; for (auto& x : in) { size_t n = rr.below(6); for (size_t i = 0; i < n; i++) x.push_back(gen<T>(rr, b)); }
  return kk::create_staticcrsgraph<G>(l, in);
}
template <class T, class A, class B, class C, class S> struct Gen<kk::StaticCrsGraph<T, A, B, C, S>> {
  using G = kk::StaticCrsGraph<T, A, B, C, S>;
  static G make(Rng& r, Budget& b) { In in(b); if (r.chance(6)) return G(); G g = genCrs<T, A, B, C, S>(r, b, viewLabel(r), 1 + r.below(30)); if (r.chance(50)) { typename G::row_block_type o(viewLabel(r), r.below(9)); for (size_t i = 0; i < o.extent(0); i++) o(i) = S(r.below(1000)); g.row_block_offsets = o; } return g; }
};
template <class T, class A, class B, class C, class S> struct Eq<kk::StaticCrsGraph<T, A, B, C, S>> {
  using G = kk::StaticCrsGraph<T, A, B, C, S>;
  static bool eq(G const& a, G const& b, Diff& d) { if (!vt::eq(a.entries, b.entries, d)) return d.set("entries"); if (!vt::eq(a.row_map, b.row_map, d)) return d.set("row_map"); return vt::eq(a.row_block_offsets, b.row_block_offsets, d) ? true : d.set("row_block_offsets"); }
};
template <class S, class O, class D> struct Gen<KokkosSparse::CrsMatrix<S, O, D>> {
  using M = KokkosSparse::CrsMatrix<S, O, D>;
  static M make(Rng& r, Budget& b) {
    In in(b); if (r.chance(6)) return M(); size_t rows = 1 + r.below(20), cols = 1 + r.below(30); auto g = genCrs<O, kk::LayoutLeft, D, void, size_t>(r, b, viewLabel(r), rows);
    typename M::values_type v(viewLabel(r), g.entries.extent(0)); for (size_t i = 0; i < v.extent(0); i++) v(i) = gen<S>(r, b);
    typename M::StaticCrsGraphType h; h.entries = g.entries; h.row_map = g.row_map; return M("m", O(cols), v, h);
  }
};
template <class S, class O, class D> struct Eq<KokkosSparse::CrsMatrix<S, O, D>> {
  using M = KokkosSparse::CrsMatrix<S, O, D>;
  static bool eq(M const& a, M const& b, Diff& d) { if (a.numCols() != b.numCols()) return d.set("columns"); if (!vt::eq(a.graph, b.graph, d)) return d.set("graph"); return vt::eq(a.values, b.values, d) ? true : d.set("values"); }
};
// ---- user classes that hold views
struct Mesh {
  int id = 0; kk::View<double**, LL> xyz; std::vector<kk::View<int*>> parts; std::string name; kk::View<float, At> scale; kk::View<int const*> ro; kk::DynRankView<double> field;
  template <class S> void serialize(S& s) { s | id | xyz | parts | name | scale | ro | field; }
};
template <> struct Gen<Mesh> { static Mesh make(Rng& r, Budget& b) { In in(b); Mesh m; m.id = gen<int>(r, b); m.xyz = gen<kk::View<double**, LL>>(r, b); m.parts = gen<std::vector<kk::View<int*>>>(r, b); m.name = gen<std::string>(r, b); m.scale = gen<kk::View<float, At>>(r, b); m.ro = gen<kk::View<int const*>>(r, b); m.field = gen<kk::DynRankView<double>>(r, b); return m; } };
template <> struct Eq<Mesh> { static bool eq(Mesh const& a, Mesh const& b, Diff& d) { return vt::eq(a.id, b.id, d) && vt::eq(a.xyz, b.xyz, d) && vt::eq(a.parts, b.parts, d) && vt::eq(a.name, b.name, d) && vt::eq(a.scale, b.scale, d) && vt::eq(a.ro, b.ro, d) && vt::eq(a.field, b.field, d); } };
} // namespace vt
