// Stand-in for Kokkos::Experimental::DynamicView: one dimension, grows in
// chunks whose size is the least power of two not under the one asked for.
#ifndef VERIF_STANDIN_KOKKOS_DYNAMICVIEW_HPP
#define VERIF_STANDIN_KOKKOS_DYNAMICVIEW_HPP
#include <Kokkos_Core.hpp>

namespace Kokkos {
namespace Experimental {

template <typename DataType, typename... Props>
class DynamicView {
public:
  using traits = ViewTraits<DataType, Props...>;
  using data_type = typename traits::data_type;
  using value_type = typename traits::value_type;
  using array_layout = typename traits::array_layout;
  using memory_space = typename traits::memory_space;
  using memory_traits = typename traits::memory_traits;
  using size_type = std::size_t;
  static constexpr unsigned rank = 1;
  static_assert(traits::Analysis::rank == 1, "one dimension");

  DynamicView() = default;

  explicit DynamicView(std::string const& label, unsigned min_chunk, unsigned max_extent)
    : st_(std::make_shared<State>())
  {
    if (min_chunk == 0) kokkos_standin::misuse("DynamicView with a chunk size of zero");
    st_->label = label;
    while ((size_type(1) << st_->shift) < min_chunk) st_->shift++;
    size_type const c = size_type(1) << st_->shift;
    st_->chunk_max = (max_extent + c - 1) / c;
  }

  std::string label() const { return st_ ? st_->label : std::string(); }
  size_type chunk_size() const { return st_ ? size_type(1) << st_->shift : 1; }
  size_type chunk_max() const { return st_ ? st_->chunk_max : 0; }
  size_type allocation_extent() const { return st_ ? st_->chunks.size() * chunk_size() : 0; }
  size_type size() const { return st_ ? st_->extent : 0; }
  size_type extent(std::size_t i) const { return i == 0 ? size() : 1; }
  size_type span() const { return 0; }
  bool span_is_contiguous() const { return false; }
  bool is_allocated() const { return st_ != nullptr; }

  void resize_serial(std::size_t n) {
    if (!st_) {
      if (n) kokkos_standin::misuse("resize of an unallocated DynamicView");
      return;
    }
    size_type const c = chunk_size();
    size_type const want = (n + c - 1) / c;
    if (want > st_->chunk_max) kokkos_standin::misuse("DynamicView resized beyond its maximum extent");
    while (st_->chunks.size() < want) {
      st_->chunks.push_back(kokkos_standin::allocate<std::remove_const_t<value_type>>(
        st_->label, memory_space::standin_device, c, true
      ));
    }
    while (st_->chunks.size() > want) st_->chunks.pop_back();
    st_->extent = n;
  }

  template <typename I>
  value_type& operator()(I i) const {
    size_type const n = static_cast<size_type>(i);
    if (n >= size()) kokkos_standin::misuse("index out of bounds");
    if (memory_space::standin_device) {
      kokkos_standin::misuse("the host accessed an element in device memory");
    }
    auto* p = static_cast<value_type*>(st_->chunks[n >> st_->shift]->mem);
    return p[n & (chunk_size() - 1)];
  }

private:
  struct State {
    std::string label;
    unsigned shift = 0;
    size_type chunk_max = 0;
    size_type extent = 0;
    std::vector<std::shared_ptr<kokkos_standin::Record>> chunks;
  };
  std::shared_ptr<State> st_;
};

} // namespace Experimental
} // namespace Kokkos

#endif
