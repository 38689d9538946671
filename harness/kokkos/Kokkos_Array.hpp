#ifndef VERIF_STANDIN_KOKKOS_ARRAY_HPP
#define VERIF_STANDIN_KOKKOS_ARRAY_HPP
#include <cstddef>
#include <Kokkos_Core.hpp>
namespace Kokkos {
template <typename T, std::size_t N>
struct Array {
  T m_internal[N];
  T& operator[](std::size_t i) { return m_internal[i]; }
  T const& operator[](std::size_t i) const { return m_internal[i]; }
  static constexpr std::size_t size() { return N; }
  T* data() { return m_internal; }
  T const* data() const { return m_internal; }
  bool operator==(Array const& o) const {
    for (std::size_t i = 0; i < N; i++) if (!(m_internal[i] == o.m_internal[i])) return false;
    return true;
  }
};
template <typename T>
struct Array<T, 0> {
  T& operator[](std::size_t) { kokkos_standin::misuse("an element of an empty Array"); }
  T const& operator[](std::size_t) const { kokkos_standin::misuse("an element of an empty Array"); }
  static constexpr std::size_t size() { return 0; }
  T* data() { return nullptr; }
  T const* data() const { return nullptr; }
  bool operator==(Array const&) const { return true; }
};
} // namespace Kokkos
#endif
