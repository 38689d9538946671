#ifndef VERIF_STANDIN_KOKKOS_PAIR_HPP
#define VERIF_STANDIN_KOKKOS_PAIR_HPP
#include <utility>
namespace Kokkos {
template <typename T1, typename T2>
struct pair {
  using first_type = T1;
  using second_type = T2;
  T1 first;
  T2 second;
  pair() = default;
  pair(T1 const& a, T2 const& b) : first(a), second(b) {}
  bool operator==(pair const& o) const { return first == o.first && second == o.second; }
};
template <typename T1>
struct pair<T1, void> {
  using first_type = T1;
  using second_type = void;
  T1 first;
  enum { second = 0 };
  pair() = default;
  pair(T1 const& a) : first(a) {}
  bool operator==(pair const& o) const { return first == o.first; }
};
} // namespace Kokkos
#endif
