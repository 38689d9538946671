#ifndef VERIF_STANDIN_KOKKOS_STATICCRSGRAPH_HPP
#define VERIF_STANDIN_KOKKOS_STATICCRSGRAPH_HPP
#include <Kokkos_Core.hpp>

namespace Kokkos {

template <
  typename DataType, typename Arg1 = void, typename Arg2 = void, typename Arg3 = void,
  typename SizeType = std::size_t
>
class StaticCrsGraph {
public:
  using data_type = DataType;
  using size_type = SizeType;
  using array_layout = typename Impl::PickLayout<LayoutRight, Arg1, Arg2>::type;
  using row_map_type = View<size_type const*, array_layout, HostSpace>;
  using entries_type = View<data_type*, array_layout, HostSpace>;
  using row_block_type = View<size_type*, array_layout, HostSpace>;
  entries_type entries;
  row_map_type row_map;
  row_block_type row_block_offsets;

  StaticCrsGraph() = default;
  StaticCrsGraph(entries_type const& e, row_map_type const& r) : entries(e), row_map(r) {}
  size_type numRows() const { return row_map.extent(0) ? row_map.extent(0) - 1 : 0; }
};

template <typename Graph, typename Input>
Graph create_staticcrsgraph(std::string const& label, std::vector<Input> const& in) {
  View<typename Graph::size_type*, typename Graph::array_layout, HostSpace> rows(label, in.size() + 1);
  std::size_t total = 0;
  for (std::size_t i = 0; i < in.size(); i++) {
    rows(i) = total;
    total += in[i].size();
  }
  rows(in.size()) = total;
  typename Graph::entries_type e(label, total);
  std::size_t k = 0;
  for (auto const& r : in) for (auto const& x : r) e(k++) = x;
  Graph g;
  g.entries = e;
  g.row_map = rows;
  return g;
}

} // namespace Kokkos
#endif
