#ifndef VERIF_STANDIN_KOKKOSSPARSE_CRSMATRIX_HPP
#define VERIF_STANDIN_KOKKOSSPARSE_CRSMATRIX_HPP
#include <Kokkos_StaticCrsGraph.hpp>

namespace KokkosSparse {

template <
  typename Scalar, typename Ordinal, typename Device, typename MemTraits = void,
  typename SizeType = std::size_t
>
class CrsMatrix {
public:
  using ordinal_type = Ordinal;
  using size_type = SizeType;
  using StaticCrsGraphType = Kokkos::StaticCrsGraph<
    Ordinal, Kokkos::LayoutLeft, Device, MemTraits, SizeType
  >;
  using values_type = Kokkos::View<Scalar*, Kokkos::LayoutLeft, Kokkos::HostSpace>;
  StaticCrsGraphType graph;
  values_type values;

  CrsMatrix() = default;
  CrsMatrix(
    std::string const&, Ordinal ncols, values_type const& v, StaticCrsGraphType const& g
  ) : graph(g), values(v), cols_(ncols) {
    if (graph.row_map.extent(0) > 0 && graph.entries.extent(0) != values.extent(0)) {
      kokkos_standin::misuse("CrsMatrix with as many values as its graph has not entries");
    }
  }
  template <typename V, typename R, typename C>
  CrsMatrix(
    std::string const& label, Ordinal nrows, Ordinal ncols, SizeType nnz, V* val, R* rows, C* cols
  ) : cols_(ncols) {
    typename StaticCrsGraphType::row_block_type rm("row_map", nrows + 1);
    for (Ordinal i = 0; i <= nrows; i++) rm(i) = rows[i];
    typename StaticCrsGraphType::entries_type e(label + "::cols", nnz);
    values = values_type(label, nnz);
    for (SizeType i = 0; i < nnz; i++) { e(i) = cols[i]; values(i) = val[i]; }
    graph.entries = e;
    graph.row_map = rm;
  }

  struct Row {
    Ordinal const* c;
    Scalar* v;
    Ordinal length;
    Ordinal const& colidx(Ordinal i) const { return c[i]; }
    Scalar& value(Ordinal i) const { return v[i]; }
  };
  Row row(Ordinal i) const {
    auto b = graph.row_map(i), e = graph.row_map(i + 1);
    return Row{graph.entries.data() + b, values.data() + b, static_cast<Ordinal>(e - b)};
  }
  Row rowConst(Ordinal i) const { return row(i); }

  Ordinal numRows() const { return static_cast<Ordinal>(graph.numRows()); }
  Ordinal numCols() const { return cols_; }
  SizeType nnz() const { return graph.entries.extent(0); }

private:
  Ordinal cols_ = 0;
};

} // namespace KokkosSparse
#endif
