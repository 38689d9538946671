#ifndef VERIF_STANDIN_KOKKOS_COMPLEX_HPP
#define VERIF_STANDIN_KOKKOS_COMPLEX_HPP
namespace Kokkos {
template <typename T>
class alignas(2 * sizeof(T)) complex {
  T re_{};
  T im_{};
public:
  using value_type = T;
  complex() = default;
  complex(T const& re) : re_(re) {}
  complex(T const& re, T const& im) : re_(re), im_(im) {}
  T& real() { return re_; }
  T& imag() { return im_; }
  T real() const { return re_; }
  T imag() const { return im_; }
  void real(T v) { re_ = v; }
  void imag(T v) { im_ = v; }
  bool operator==(complex const& o) const { return re_ == o.re_ && im_ == o.im_; }
};
} // namespace Kokkos
#endif
