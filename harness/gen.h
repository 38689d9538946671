// Random values of any supported type, and deep bit-exact comparison.
#pragma once
#include "rt.h"
#include <array>
#include <vector>
#include <list>
#include <deque>
#include <queue>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <tuple>
#include <optional>
#include <variant>
#include <memory>
#include <chrono>
#include <cmath>
#include <limits>
#include <type_traits>

namespace vt {
using vr::Rng;

struct Budget { long left = 600; int depth = 0; };
struct In { Budget& b; explicit In(Budget& x) : b(x) { b.depth++; } ~In() { b.depth--; } };

inline size_t pickSize(Rng& r, Budget& b, bool tiny) {
  uint64_t k = r.below(200); size_t n;
  if (k < 22) n = 0; else if (k < 42) n = 1; else if (k < 130) n = 2 + r.below(7);
  else if (k < 180) n = 9 + r.below(40); else if (k < 197) n = 50 + r.below(300);
  else if (k < 199) n = 512 + r.below(4096); else n = 65530 + r.below(600);
  bool huge = b.depth <= 1 && tiny && b.left > 200;      // only the outermost container of plain elements grows past the budget
  if (!huge) { size_t lim = b.left < 0 ? 2 : size_t(b.left) / (b.depth <= 1 ? 2 : 5); if (n > lim) n = lim ? 1 + r.below(lim) : r.below(2); }
  b.left -= long(n > 400 ? 400 : n);
  return n;
}

template <class T, class E = void> struct Gen;

struct Diff { std::string path; bool set(std::string s) { if (path.empty()) path = s; else path = s + "/" + path; return false; } };
template <class T, class E = void> struct Eq;
template <class T> bool eq(T const& a, T const& b, Diff& d) { return Eq<T>::eq(a, b, d); }
template <class T> std::string diff(T const& a, T const& b) { Diff d; if (Eq<T>::eq(a, b, d)) return ""; return d.path.empty() ? "different" : d.path; }

template <class T> T gen(Rng& r, Budget& b) { return Gen<T>::make(r, b); }
template <class T> T gen(uint64_t seed, long budget = 600) { Rng r(seed); Budget b; b.left = budget; return Gen<T>::make(r, b); }

// ---- arithmetic
template <class T> struct Gen<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static T make(Rng& r, Budget&) {
    switch (r.below(8)) {
      case 0: return T(0); case 1: return std::numeric_limits<T>::max(); case 2: return std::numeric_limits<T>::min();
      case 3: return T(-1); case 4: case 5: return T(r.below(9)); default: return T(r.next());
    }
  }
};
template <> struct Gen<bool> { static bool make(Rng& r, Budget&) { return r.below(2); } };
template <class T> struct Gen<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T make(Rng& r, Budget&) {
    using L = std::numeric_limits<T>;
    switch (r.below(12)) {
      case 0: return T(0); case 1: return -T(0); case 2: return L::infinity(); case 3: return -L::infinity();
      case 4: return L::quiet_NaN(); case 5: return L::denorm_min(); case 6: return L::max();
      case 7: return L::lowest(); case 8: return L::epsilon();
      default:
        if constexpr (sizeof(T) <= 8) { uint64_t x = r.next(); T v; memcpy(&v, &x, sizeof v); return v; }
        else return std::ldexp(T(int64_t(r.next())), r.range(-2000, 2000));
    }
  }
};
template <class T> struct Eq<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
  static bool eq(T const& a, T const& b, Diff& d) {
    constexpr size_t n = (std::is_same<T, long double>::value && std::numeric_limits<T>::digits == 64) ? 10 : sizeof(T);
    if (memcmp(&a, &b, n) == 0) return true;
    return d.set(std::is_floating_point<T>::value ? "float bits" : std::to_string((long long)a) + "!=" + std::to_string((long long)b));
  }
};
// ---- enum
template <class T> struct Gen<T, std::enable_if_t<std::is_enum<T>::value>> {
  static T make(Rng& r, Budget& b) { return static_cast<T>(Gen<std::underlying_type_t<T>>::make(r, b)); }
};
template <class T> struct Eq<T, std::enable_if_t<std::is_enum<T>::value>> {
  static bool eq(T const& a, T const& b, Diff& d) { return a == b ? true : d.set("enum"); }
};
// ---- string
template <> struct Gen<std::string> {
  static std::string make(Rng& r, Budget& b) {
    In in(b); std::string s;
    size_t n = r.chance(60) ? r.below(40) : pickSize(r, b, true);
    if (r.chance(10)) n = 15 + r.below(3);
    for (size_t i = 0; i < n; i++) s.push_back(char(r.chance(8) ? 0 : r.below(256)));
    if (r.chance(20)) s.reserve(n + r.below(200));
    return s;
  }
};
template <> struct Eq<std::string> {
  static bool eq(std::string const& a, std::string const& b, Diff& d) {
    if (a.size() != b.size()) return d.set("string size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
    if (memcmp(a.data(), b.data(), a.size())) return d.set("string bytes");
    return b.data()[b.size()] == 0 ? true : d.set("string terminator");
  }
};
// ---- keys: small domains (so that duplicates occur), no NaN
template <class T> T genKey(Rng& r, Budget& b) {
  if constexpr (std::is_floating_point<T>::value) return T(r.range(-20, 20)) / T(4);
  else if constexpr (std::is_integral<T>::value || std::is_enum<T>::value) {
    if (!std::is_same<T, bool>::value && r.chance(60)) return static_cast<T>(r.below(9));
    return Gen<T>::make(r, b);
  } else return Gen<T>::make(r, b);
}
// ---- sequences
template <class T> constexpr bool tinyElem = std::is_arithmetic<T>::value || std::is_enum<T>::value;

template <class T, class A> struct Gen<std::vector<T, A>> {
  static std::vector<T, A> make(Rng& r, Budget& b) {
    In in(b); std::vector<T, A> v; size_t n = pickSize(r, b, tinyElem<T>);
    if (r.chance(30)) v.reserve(n + r.below(r.chance(20) ? 500 : 9));
    for (size_t i = 0; i < n; i++) v.push_back(gen<T>(r, b));
    return v;
  }
};
template <class T, class A> struct Eq<std::vector<T, A>> {
  static bool eq(std::vector<T, A> const& a, std::vector<T, A> const& b, Diff& d) {
    if (a.size() != b.size()) return d.set("vector size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
    if constexpr (std::is_same<T, bool>::value) { for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return d.set("vector<bool>[" + std::to_string(i) + "]"); }
    else for (size_t i = 0; i < a.size(); i++) if (!vt::eq(a[i], b[i], d)) return d.set("[" + std::to_string(i) + "]");
    return true;
  }
};
template <class T, class C> C genSeq(Rng& r, Budget& b) { In in(b); C c; size_t n = pickSize(r, b, tinyElem<T>); for (size_t i = 0; i < n; i++) c.push_back(gen<T>(r, b)); return c; }
template <class C> bool eqSeq(C const& a, C const& b, Diff& d) {
  if (a.size() != b.size()) return d.set("size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
  auto j = b.begin(); size_t k = 0;
  for (auto i = a.begin(); i != a.end(); ++i, ++j, ++k) if (!vt::eq(*i, *j, d)) return d.set("[" + std::to_string(k) + "]");
  return true;
}
template <class T> struct Gen<std::list<T>> { static std::list<T> make(Rng& r, Budget& b) { return genSeq<T, std::list<T>>(r, b); } };
template <class T> struct Gen<std::deque<T>> {
  static std::deque<T> make(Rng& r, Budget& b) {
    In in(b); std::deque<T> c; size_t n = pickSize(r, b, tinyElem<T>);
    for (size_t i = 0; i < n; i++) { if (r.chance(30)) c.push_front(gen<T>(r, b)); else c.push_back(gen<T>(r, b)); }
    return c;
  }
};
template <class T> struct Eq<std::list<T>> { static bool eq(std::list<T> const& a, std::list<T> const& b, Diff& d) { return eqSeq(a, b, d); } };
template <class T> struct Eq<std::deque<T>> { static bool eq(std::deque<T> const& a, std::deque<T> const& b, Diff& d) { return eqSeq(a, b, d); } };
template <class T> struct Gen<std::queue<T>> { static std::queue<T> make(Rng& r, Budget& b) { return std::queue<T>(Gen<std::deque<T>>::make(r, b)); } };
template <class T> struct Eq<std::queue<T>> {
  struct Open : std::queue<T> { static std::deque<T> const& c_(std::queue<T> const& q) { return q.*(&Open::c); } };
  static bool eq(std::queue<T> const& a, std::queue<T> const& b, Diff& d) { return eqSeq(Open::c_(a), Open::c_(b), d); }
};
template <class T, size_t N> struct Gen<std::array<T, N>> {
  template <size_t... I> static std::array<T, N> go(Rng& r, Budget& b, std::index_sequence<I...>) { (void)r; (void)b; return std::array<T, N>{{((void)I, gen<T>(r, b))...}}; }
  static std::array<T, N> make(Rng& r, Budget& b) { In in(b); return go(r, b, std::make_index_sequence<N>{}); }
};
template <class T> struct Gen<std::array<T, 0>> { static std::array<T, 0> make(Rng&, Budget&) { return {}; } };
template <class T, size_t N> struct Eq<std::array<T, N>> { static bool eq(std::array<T, N> const& a, std::array<T, N> const& b, Diff& d) { return eqSeq(a, b, d); } };
// ---- ordered associative
template <class C, class K> C genSet(Rng& r, Budget& b) { In in(b); C c; size_t n = pickSize(r, b, false); for (size_t i = 0; i < n; i++) c.insert(genKey<K>(r, b)); return c; }
template <class C, class K, class V> C genMap(Rng& r, Budget& b) {
  In in(b); C c; size_t n = pickSize(r, b, false);
  for (size_t i = 0; i < n; i++) { auto k = genKey<K>(r, b); c.emplace(std::move(k), gen<V>(r, b)); }
  return c;
}
template <class T, class P> struct Gen<std::set<T, P>> { static std::set<T, P> make(Rng& r, Budget& b) { return genSet<std::set<T, P>, T>(r, b); } };
template <class T, class P> struct Gen<std::multiset<T, P>> { static std::multiset<T, P> make(Rng& r, Budget& b) { return genSet<std::multiset<T, P>, T>(r, b); } };
template <class K, class V, class P> struct Gen<std::map<K, V, P>> { static std::map<K, V, P> make(Rng& r, Budget& b) { return genMap<std::map<K, V, P>, K, V>(r, b); } };
template <class K, class V, class P> struct Gen<std::multimap<K, V, P>> { static std::multimap<K, V, P> make(Rng& r, Budget& b) { return genMap<std::multimap<K, V, P>, K, V>(r, b); } };
template <class T, class P> struct Eq<std::set<T, P>> { static bool eq(std::set<T, P> const& a, std::set<T, P> const& b, Diff& d) { return eqSeq(a, b, d); } };
template <class T, class P> struct Eq<std::multiset<T, P>> { static bool eq(std::multiset<T, P> const& a, std::multiset<T, P> const& b, Diff& d) { return eqSeq(a, b, d); } };
template <class K, class V, class P> struct Eq<std::map<K, V, P>> { static bool eq(std::map<K, V, P> const& a, std::map<K, V, P> const& b, Diff& d) { return eqSeq(a, b, d); } };
template <class K, class V, class P> struct Eq<std::multimap<K, V, P>> { static bool eq(std::multimap<K, V, P> const& a, std::multimap<K, V, P> const& b, Diff& d) { return eqSeq(a, b, d); } };
// ---- unordered
template <class T, class H, class Q> struct Gen<std::unordered_set<T, H, Q>> { static auto make(Rng& r, Budget& b) { return genSet<std::unordered_set<T, H, Q>, T>(r, b); } };
template <class T, class H, class Q> struct Gen<std::unordered_multiset<T, H, Q>> { static auto make(Rng& r, Budget& b) { return genSet<std::unordered_multiset<T, H, Q>, T>(r, b); } };
template <class K, class V, class H, class Q> struct Gen<std::unordered_map<K, V, H, Q>> { static auto make(Rng& r, Budget& b) { return genMap<std::unordered_map<K, V, H, Q>, K, V>(r, b); } };
template <class K, class V, class H, class Q> struct Gen<std::unordered_multimap<K, V, H, Q>> { static auto make(Rng& r, Budget& b) { return genMap<std::unordered_multimap<K, V, H, Q>, K, V>(r, b); } };
template <class C, class KeyOf> bool eqUnordered(C const& a, C const& b, Diff& d, KeyOf key) {
  if (a.size() != b.size()) return d.set("size " + std::to_string(a.size()) + "!=" + std::to_string(b.size()));
  for (auto i = a.begin(); i != a.end();) {
    auto ra = a.equal_range(key(*i)); auto rb = b.equal_range(key(*i));
    std::vector<typename C::const_iterator> left; size_t na = 0;
    for (auto j = rb.first; j != rb.second; ++j) left.push_back(j);
    for (auto j = ra.first; j != ra.second; ++j, ++na) {
      bool found = false; Diff last;
      for (size_t q = 0; q < left.size() && !found; q++) { Diff x; if (vt::eq(*j, *left[q], x)) { left.erase(left.begin() + long(q)); found = true; } else last = x; }
      if (!found) return d.set("{key without equal entry " + last.path + "}");
    }
    if (!left.empty() || na == 0) return d.set("{entries of a key}");
    i = ra.second;
  }
  return true;
}
template <class T, class H, class Q> struct Eq<std::unordered_set<T, H, Q>> { using C = std::unordered_set<T, H, Q>; static bool eq(C const& a, C const& b, Diff& d) { return eqUnordered(a, b, d, [](T const& x) -> T const& { return x; }); } };
template <class T, class H, class Q> struct Eq<std::unordered_multiset<T, H, Q>> { using C = std::unordered_multiset<T, H, Q>; static bool eq(C const& a, C const& b, Diff& d) { return eqUnordered(a, b, d, [](T const& x) -> T const& { return x; }); } };
template <class K, class V, class H, class Q> struct Eq<std::unordered_map<K, V, H, Q>> { using C = std::unordered_map<K, V, H, Q>; static bool eq(C const& a, C const& b, Diff& d) { return eqUnordered(a, b, d, [](auto const& x) -> K const& { return x.first; }); } };
template <class K, class V, class H, class Q> struct Eq<std::unordered_multimap<K, V, H, Q>> { using C = std::unordered_multimap<K, V, H, Q>; static bool eq(C const& a, C const& b, Diff& d) { return eqUnordered(a, b, d, [](auto const& x) -> K const& { return x.first; }); } };
// ---- products and sums
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(Rng& r, Budget& b) { In in(b); auto x = gen<std::remove_const_t<A>>(r, b); return std::pair<A, B>(std::move(x), gen<B>(r, b)); } };
template <class A, class B> struct Eq<std::pair<A, B>> { static bool eq(std::pair<A, B> const& x, std::pair<A, B> const& y, Diff& d) {
  if (!Eq<std::remove_const_t<A>>::eq(x.first, y.first, d)) return d.set("first");
  return vt::eq(x.second, y.second, d) ? true : d.set("second"); } };
template <class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> make(Rng& r, Budget& b) { In in(b); (void)r; return std::tuple<T...>{gen<T>(r, b)...}; } };
template <> struct Gen<std::tuple<>> { static std::tuple<> make(Rng&, Budget&) { return {}; } };
template <class... T> struct Eq<std::tuple<T...>> {
  using U = std::tuple<T...>;
  template <size_t I> static bool at(U const& a, U const& b, Diff& d) { return vt::eq(std::get<I>(a), std::get<I>(b), d) ? true : d.set("<" + std::to_string(I) + ">"); }
  template <size_t... I> static bool go(U const& a, U const& b, Diff& d, std::index_sequence<I...>) { (void)a; (void)b; (void)d; return (at<I>(a, b, d) && ...); }
  static bool eq(U const& a, U const& b, Diff& d) { return go(a, b, d, std::index_sequence_for<T...>{}); }
};
template <class T> struct Gen<std::optional<T>> { static std::optional<T> make(Rng& r, Budget& b) { In in(b); if (r.chance(30)) return std::nullopt; return std::optional<T>(std::in_place, gen<T>(r, b)); } };
template <class T> struct Eq<std::optional<T>> { static bool eq(std::optional<T> const& a, std::optional<T> const& b, Diff& d) {
  if (a.has_value() != b.has_value()) return d.set("optional engaged"); if (!a) return true; return vt::eq(*a, *b, d) ? true : d.set("*opt"); } };
template <class... T> struct Gen<std::variant<T...>> {
  using V = std::variant<T...>;
  template <size_t I> static V one(Rng& r, Budget& b) { return V(std::in_place_index<I>, gen<std::variant_alternative_t<I, V>>(r, b)); }
  template <size_t... I> static V go(size_t k, Rng& r, Budget& b, std::index_sequence<I...>) { using F = V (*)(Rng&, Budget&); static constexpr F f[] = {&one<I>...}; return f[k](r, b); }
  static V make(Rng& r, Budget& b) { In in(b); return go(r.below(sizeof...(T)), r, b, std::index_sequence_for<T...>{}); }
};
template <class... T> struct Eq<std::variant<T...>> {
  using V = std::variant<T...>;
  template <size_t I> static bool at(V const& a, V const& b, Diff& d) { return a.index() != I || vt::eq(std::get<I>(a), std::get<I>(b), d) ? true : d.set("alt" + std::to_string(I)); }
  template <size_t... I> static bool go(V const& a, V const& b, Diff& d, std::index_sequence<I...>) { return (at<I>(a, b, d) && ...); }
  static bool eq(V const& a, V const& b, Diff& d) { if (a.index() != b.index()) return d.set("variant index"); return go(a, b, d, std::index_sequence_for<T...>{}); }
};
template <> struct Gen<std::monostate> { static std::monostate make(Rng&, Budget&) { return {}; } };
template <> struct Eq<std::monostate> { static bool eq(std::monostate const&, std::monostate const&, Diff&) { return true; } };
template <class R, class P> struct Gen<std::chrono::duration<R, P>> { static std::chrono::duration<R, P> make(Rng& r, Budget& b) { return std::chrono::duration<R, P>(gen<R>(r, b)); } };
template <class R, class P> struct Eq<std::chrono::duration<R, P>> { using D = std::chrono::duration<R, P>; static bool eq(D const& a, D const& b, Diff& d) { return vt::eq(a.count(), b.count(), d) ? true : d.set("duration"); } };
// ---- owning pointers; a class hierarchy supplies vtMakePoly / vtEqual
template <class T, class = void> struct IsPoly : std::false_type {};
template <class T> struct IsPoly<T, std::void_t<decltype(T::vtMakePoly(std::declval<Rng&>(), std::declval<Budget&>()))>> : std::true_type {};
template <class T, class D> struct Gen<std::unique_ptr<T, D>> {
  static std::unique_ptr<T, D> make(Rng& r, Budget& b) {
    In in(b);
    if (r.chance(20) || b.depth > 40) return nullptr;
    if constexpr (IsPoly<T>::value) return std::unique_ptr<T, D>(T::vtMakePoly(r, b));
    else return std::unique_ptr<T, D>(new T(gen<T>(r, b)));
  }
};
template <class T, class D> struct Eq<std::unique_ptr<T, D>> {
  static bool eq(std::unique_ptr<T, D> const& a, std::unique_ptr<T, D> const& b, Diff& d) {
    if (!a != !b) return d.set("null"); if (!a) return true;
    if (a.get() == b.get()) return d.set("aliased pointee");
    if constexpr (IsPoly<T>::value) {
      if (typeid(*a) != typeid(*b)) return d.set(std::string("dynamic type ") + typeid(*a).name() + "!=" + typeid(*b).name());
      return a->vtEqual(*b, d) ? true : d.set("->");
    } else return vt::eq(*a, *b, d) ? true : d.set("->");
  }
};
// ---- user classes with fields() (a std::tie of the serialized members) or their own vtGen/vtEq
template <class T> struct Gen<T, std::void_t<decltype(std::declval<T&>().fields())>> {
  template <class F, size_t... I> static void fill(F f, Rng& r, Budget& b, std::index_sequence<I...>) { (void)r; (void)b; ((std::get<I>(f) = gen<std::decay_t<std::tuple_element_t<I, F>>>(r, b)), ...); }
  static T make(Rng& r, Budget& b) {
    In in(b); T t = T::vtNew(); auto f = t.fields();
    fill(f, r, b, std::make_index_sequence<std::tuple_size<decltype(f)>::value>{}); return t;
  }
};
template <class T> struct Eq<T, std::void_t<decltype(std::declval<T&>().fields())>> {
  template <size_t I, class F> static bool at(F const& a, F const& b, Diff& d) { return vt::eq<std::decay_t<std::tuple_element_t<I, F>>>(std::get<I>(a), std::get<I>(b), d) ? true : d.set(".m" + std::to_string(I)); }
  template <class F, size_t... I> static bool go(F const& a, F const& b, Diff& d, std::index_sequence<I...>) { (void)a; (void)b; (void)d; return (at<I>(a, b, d) && ...); }
  static bool eq(T const& x, T const& y, Diff& d) {
    auto a = const_cast<T&>(x).fields(); auto b = const_cast<T&>(y).fields();
    return go(a, b, d, std::make_index_sequence<std::tuple_size<decltype(a)>::value>{});
  }
};
} // namespace vt
