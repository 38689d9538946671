// A stand-in for the part of Kokkos (4.4 interface) that magistrate uses.
//
// Kokkos is not installed in the sandbox.  These headers implement the
// documented behaviour of the classes and functions magistrate touches, so
// that its Kokkos code can be compiled and run.  They are stricter than
// Kokkos: every access is bounds checked, memory of the "device" space can
// not be reached from the host, a deep_copy on an execution space instance
// happens only when that instance is fenced, and every allocation is
// registered.  A rule that is broken throws kokkos_standin::Misuse.
#ifndef VERIF_STANDIN_KOKKOS_CORE_HPP
#define VERIF_STANDIN_KOKKOS_CORE_HPP

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define KOKKOS_VERSION 40400
#define KOKKOS_VERSION_LESS(MAJOR, MINOR, PATCH) \
  (KOKKOS_VERSION < ((MAJOR)*10000 + (MINOR)*100 + (PATCH)))
#define KOKKOS_LAMBDA [=]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_INVALID_INDEX (~std::size_t(0))

namespace kokkos_standin {

struct Misuse : std::logic_error {
  using std::logic_error::logic_error;
};

[[noreturn]] inline void misuse(std::string const& what) { throw Misuse(what); }

struct Stats {
  long allocations = 0;
  long live = 0;
  long live_bytes = 0;
  long device_allocations = 0;
  long deep_copies = 0;
  long deferred = 0;
};

inline Stats& stats() {
  static Stats s;
  return s;
}

// One allocation: the elements are constructed on creation and destroyed with
// the last view that refers to them.
struct Record {
  std::string label;
  bool device = false;
  void* mem = nullptr;
  std::size_t bytes = 0;
  std::function<void(void*)> destroy;

  Record() { stats().allocations++; stats().live++; }
  Record(Record const&) = delete;
  ~Record() {
    if (mem) {
      destroy(mem);
      ::operator delete(mem, std::align_val_t(64));
    }
    stats().live--;
    stats().live_bytes -= static_cast<long>(bytes);
  }
};

template <typename T>
std::shared_ptr<Record> allocate(
  std::string const& label, bool device, std::size_t n, bool init
) {
  auto r = std::make_shared<Record>();
  r->label = label;
  r->device = device;
  if (device) stats().device_allocations++;
  r->bytes = n * sizeof(T);
  stats().live_bytes += static_cast<long>(r->bytes);
  // No allocation for a span of zero would give data() == nullptr with a
  // use_count() of one, as in Kokkos; a byte keeps the bookkeeping simple.
  r->mem = ::operator new(r->bytes ? r->bytes : 1, std::align_val_t(64));
  T* p = static_cast<T*>(r->mem);
  if (init) {
    for (std::size_t i = 0; i < n; i++) ::new (p + i) T();
  } else if (std::is_trivially_default_constructible<T>::value) {
    // Uninitialised: filled with a pattern, so that a missing copy shows.
    std::memset(r->mem, 0xC7, r->bytes);
  } else {
    for (std::size_t i = 0; i < n; i++) ::new (p + i) T;
  }
  r->destroy = [n](void* m) {
    T* q = static_cast<T*>(m);
    for (std::size_t i = n; i-- > 0;) q[i].~T();
    (void)q;
  };
  return r;
}

// A device address as the host sees it: not one that can be read.
inline std::uintptr_t disguise() { return std::uintptr_t(1) << 62; }

} // namespace kokkos_standin

namespace Kokkos {

static constexpr int ARRAY_LAYOUT_MAX_RANK = 8;

struct WithoutInitializing_t {};
inline constexpr WithoutInitializing_t WithoutInitializing{};
struct ALL_t {};
inline constexpr ALL_t ALL{};

enum : unsigned { Unmanaged = 0x01, RandomAccess = 0x02, Atomic = 0x04, Restrict = 0x08 };
template <unsigned T = 0>
struct MemoryTraits {
  static constexpr bool is_unmanaged = (T & Unmanaged) != 0;
  static constexpr bool is_atomic = (T & Atomic) != 0;
};
using MemoryManaged = MemoryTraits<0>;
using MemoryUnmanaged = MemoryTraits<Unmanaged>;

struct LayoutLeft {
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  static constexpr bool is_extent_constructible = true;
  explicit LayoutLeft(
    std::size_t a = KOKKOS_INVALID_INDEX, std::size_t b = KOKKOS_INVALID_INDEX,
    std::size_t c = KOKKOS_INVALID_INDEX, std::size_t d = KOKKOS_INVALID_INDEX,
    std::size_t e = KOKKOS_INVALID_INDEX, std::size_t f = KOKKOS_INVALID_INDEX,
    std::size_t g = KOKKOS_INVALID_INDEX, std::size_t h = KOKKOS_INVALID_INDEX
  ) : dimension{a, b, c, d, e, f, g, h} {}
};

struct LayoutRight {
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  static constexpr bool is_extent_constructible = true;
  explicit LayoutRight(
    std::size_t a = KOKKOS_INVALID_INDEX, std::size_t b = KOKKOS_INVALID_INDEX,
    std::size_t c = KOKKOS_INVALID_INDEX, std::size_t d = KOKKOS_INVALID_INDEX,
    std::size_t e = KOKKOS_INVALID_INDEX, std::size_t f = KOKKOS_INVALID_INDEX,
    std::size_t g = KOKKOS_INVALID_INDEX, std::size_t h = KOKKOS_INVALID_INDEX
  ) : dimension{a, b, c, d, e, f, g, h} {}
};

struct LayoutStride {
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  std::size_t stride[ARRAY_LAYOUT_MAX_RANK];
  static constexpr bool is_extent_constructible = false;
  explicit LayoutStride(
    std::size_t a = KOKKOS_INVALID_INDEX, std::size_t sa = KOKKOS_INVALID_INDEX,
    std::size_t b = KOKKOS_INVALID_INDEX, std::size_t sb = KOKKOS_INVALID_INDEX,
    std::size_t c = KOKKOS_INVALID_INDEX, std::size_t sc = KOKKOS_INVALID_INDEX,
    std::size_t d = KOKKOS_INVALID_INDEX, std::size_t sd = KOKKOS_INVALID_INDEX,
    std::size_t e = KOKKOS_INVALID_INDEX, std::size_t se = KOKKOS_INVALID_INDEX,
    std::size_t f = KOKKOS_INVALID_INDEX, std::size_t sf = KOKKOS_INVALID_INDEX,
    std::size_t g = KOKKOS_INVALID_INDEX, std::size_t sg = KOKKOS_INVALID_INDEX,
    std::size_t h = KOKKOS_INVALID_INDEX, std::size_t sh = KOKKOS_INVALID_INDEX
  ) : dimension{a, b, c, d, e, f, g, h}
    , stride{sa, sb, sc, sd, se, sf, sg, sh} {}
};

// ------------------------------------------------------------------- spaces

// An execution space instance: what is submitted to it runs when it is fenced.
class Serial {
public:
  using execution_space = Serial;
  using memory_space = struct HostSpace;
  using array_layout = LayoutRight;
  using size_type = std::size_t;

  struct Queue {
    std::vector<std::function<void()>> work;
    void run() {
      auto w = std::move(work);
      work.clear();
      for (auto& f : w) f();
    }
  };

  // Instances made by default stand for one and the same instance.
  static std::shared_ptr<Queue> const& defaultQueue() {
    static auto q = std::make_shared<Queue>();
    return q;
  }

  void fence(std::string const& = "") const { queue->run(); }
  std::shared_ptr<Queue> queue = defaultQueue();
};

struct HostSpace {
  using execution_space = Serial;
  using memory_space = HostSpace;
  static constexpr bool standin_device = false;
};

// Memory the host cannot reach, like that of an accelerator.
struct StandinDeviceSpace {
  using execution_space = Serial;
  using memory_space = StandinDeviceSpace;
  using array_layout = LayoutLeft;
  static constexpr bool standin_device = true;
};

template <typename Exec, typename Mem>
struct Device {
  using execution_space = Exec;
  using memory_space = Mem;
};

using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;

inline void initialize() {}
template <typename... Args> inline void initialize(Args&&...) {}
inline void finalize() {}
inline void fence(std::string const& = "") { Serial::defaultQueue()->run(); }

template <typename... Props>
struct RangePolicy {
  using member_type = std::size_t;
  std::size_t first = 0, last = 0;
  RangePolicy(std::size_t b, std::size_t e) : first(b), last(e) {}
  RangePolicy(Serial const&, std::size_t b, std::size_t e) : first(b), last(e) {}
};
template <typename... Props, typename Fn>
void parallel_for(RangePolicy<Props...> const& p, Fn const& fn) {
  for (std::size_t i = p.first; i < p.last; i++) fn(static_cast<int>(i));
}
template <typename Fn>
void parallel_for(std::size_t n, Fn const& fn) {
  for (std::size_t i = 0; i < n; i++) fn(static_cast<int>(i));
}
template <typename Policy, typename Fn>
auto parallel_for(std::string const&, Policy const& p, Fn const& fn) {
  return parallel_for(p, fn);
}

namespace Impl {

template <typename T> struct IsLayout : std::false_type {};
template <> struct IsLayout<LayoutLeft> : std::true_type {};
template <> struct IsLayout<LayoutRight> : std::true_type {};
template <> struct IsLayout<LayoutStride> : std::true_type {};

template <typename T> struct IsMemTraits : std::false_type {};
template <unsigned N> struct IsMemTraits<MemoryTraits<N>> : std::true_type {};

template <typename T, typename = void> struct SpaceOf { using type = void; };
template <typename T>
struct SpaceOf<T, std::enable_if_t<sizeof(typename T::memory_space*) != 0>> {
  using type = typename T::memory_space;
};

template <typename Default, typename... Props> struct PickLayout { using type = Default; };
template <typename Default, typename P, typename... Rest>
struct PickLayout<Default, P, Rest...> {
  using type = std::conditional_t<
    IsLayout<P>::value, P, typename PickLayout<Default, Rest...>::type
  >;
};

template <typename Default, typename... Props> struct PickSpace { using type = Default; };
template <typename Default, typename P, typename... Rest>
struct PickSpace<Default, P, Rest...> {
  using mine = typename SpaceOf<P>::type;
  using type = std::conditional_t<
    !std::is_void<mine>::value, mine, typename PickSpace<Default, Rest...>::type
  >;
};

template <typename... Props> struct PickTraits { using type = MemoryTraits<0>; };
template <typename P, typename... Rest>
struct PickTraits<P, Rest...> {
  using type = std::conditional_t<
    IsMemTraits<P>::value, P, typename PickTraits<Rest...>::type
  >;
};

template <typename T> struct DataAnalysis {
  static constexpr std::size_t rank = 0, dynamic = 0;
  using value = T;
  using add_const = T const;
  using remove_const = std::remove_const_t<T>;
  static std::size_t fixed(std::size_t) { return 0; }
};
template <typename T> struct DataAnalysis<T*> {
  using In = DataAnalysis<T>;
  static constexpr std::size_t rank = In::rank + 1, dynamic = In::dynamic + 1;
  using value = typename In::value;
  using add_const = typename In::add_const*;
  using remove_const = typename In::remove_const*;
};
template <typename T, std::size_t N> struct DataAnalysis<T[N]> {
  using In = DataAnalysis<T>;
  static constexpr std::size_t rank = In::rank + 1, dynamic = In::dynamic;
  using value = typename In::value;
  using add_const = typename In::add_const[N];
  using remove_const = typename In::remove_const[N];
};

// Static extents in order (zero for the dynamic ones).  A data type is written
// with its pointers first: T**[2][3].
template <typename T> struct StaticExtents {
  static void fill(std::size_t*, std::size_t) {}
};
template <typename T> struct StaticExtents<T*> {
  static void fill(std::size_t* out, std::size_t dyn) {
    (void)dyn;
    StaticExtents<T>::fill(out, dyn);
  }
};
template <typename T, std::size_t N> struct StaticExtents<T[N]> {
  static void fill(std::size_t* out, std::size_t at) {
    out[at] = N;
    StaticExtents<T>::fill(out, at + 1);
  }
};

} // namespace Impl

template <typename DataType, typename... Props>
struct ViewTraits {
  using Analysis = Impl::DataAnalysis<DataType>;
  using data_type = DataType;
  using const_data_type = typename Analysis::add_const;
  using non_const_data_type = typename Analysis::remove_const;
  using value_type = typename Analysis::value;
  using const_value_type = value_type const;
  using non_const_value_type = std::remove_const_t<value_type>;
  using memory_space = typename Impl::PickSpace<HostSpace, Props...>::type;
  using execution_space = typename memory_space::execution_space;
  using device_type = Device<execution_space, memory_space>;
  using array_layout = typename Impl::PickLayout<
    std::conditional_t<memory_space::standin_device, LayoutLeft, LayoutRight>, Props...
  >::type;
  using memory_traits = typename Impl::PickTraits<Props...>::type;
  using size_type = std::size_t;
  static constexpr bool is_managed = !memory_traits::is_unmanaged;
};

namespace Impl {

// What View, DynRankView and their copies share: where the elements are.
template <typename V>
struct Storage {
  using Elem = std::remove_const_t<V>;
  std::shared_ptr<kokkos_standin::Record> rec;
  Elem* base = nullptr;
  std::size_t dim[8] = {1, 1, 1, 1, 1, 1, 1, 1};
  std::size_t str[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  unsigned rank = 0;
  std::size_t span = 0;

  std::size_t size() const {
    std::size_t n = 1;
    for (unsigned i = 0; i < rank; i++) n *= dim[i];
    return n;
  }

  void computeSpan() {
    span = 1;
    for (unsigned i = 0; i < rank; i++) {
      if (dim[i] == 0) {
        span = 0;
        return;
      }
      span += (dim[i] - 1) * str[i];
    }
  }

  template <typename Layout>
  void fill(Layout const& l) {
    if constexpr (std::is_same<Layout, LayoutStride>::value) {
      for (unsigned i = 0; i < rank; i++) str[i] = l.stride[i];
    } else if constexpr (std::is_same<Layout, LayoutLeft>::value) {
      std::size_t n = 1;
      for (unsigned i = 0; i < rank; i++) { str[i] = n; n *= dim[i]; }
    } else {
      std::size_t n = 1;
      for (unsigned i = rank; i-- > 0;) { str[i] = n; n *= dim[i]; }
    }
  }

  template <typename Layout>
  Layout layout() const {
    Layout l;
    for (unsigned i = 0; i < 8; i++) {
      l.dimension[i] = i < rank ? dim[i] : KOKKOS_INVALID_INDEX;
      if constexpr (std::is_same<Layout, LayoutStride>::value) {
        l.stride[i] = i < rank ? str[i] : KOKKOS_INVALID_INDEX;
      }
    }
    return l;
  }

  void alloc(std::string const& label, bool device, bool init) {
    // Kokkos allocates max over i of dim*stride for a strided layout.
    std::size_t n = span;
    rec = kokkos_standin::allocate<Elem>(label, device, n, init);
    base = static_cast<Elem*>(rec->mem);
  }

  Elem& at(std::size_t off, bool device) const {
    if (device) kokkos_standin::misuse("the host accessed an element in device memory");
    if (base == nullptr) kokkos_standin::misuse("an element of an unallocated view was accessed");
    return base[off];
  }

  template <typename... Is>
  Elem& access(bool device, Is... is) const {
    std::size_t idx[sizeof...(Is) + 1] = {static_cast<std::size_t>(is)..., 0};
    std::size_t off = 0;
    for (std::size_t i = 0; i < sizeof...(Is); i++) {
      if (i < rank) {
        if (idx[i] >= dim[i]) kokkos_standin::misuse("index out of bounds");
        off += idx[i] * str[i];
      } else if (idx[i] != 0) {
        kokkos_standin::misuse("index out of bounds");
      }
    }
    return at(off, device);
  }
};

template <typename T>
class AtomicRef {
  T* p_;
public:
  explicit AtomicRef(T* p) : p_(p) {}
  operator const T() const { return *p_; }
  const T operator=(T const& v) const { *p_ = v; return v; }
  bool operator==(T const& v) const { return *p_ == v; }
};

// Copy element by element; both have the same extents.
template <typename A, typename B>
void copyElements(Storage<A> const& dst, Storage<B> const& src) {
  if (dst.rank != src.rank) kokkos_standin::misuse("deep_copy between different ranks");
  for (unsigned i = 0; i < dst.rank; i++) {
    if (dst.dim[i] != src.dim[i]) kokkos_standin::misuse("deep_copy between different extents");
  }
  if (dst.size() == 0) return;
  if (!dst.base && !src.base) return;
  if (!dst.base || !src.base) kokkos_standin::misuse("deep_copy with an unallocated view");
  std::size_t idx[8] = {};
  while (true) {
    std::size_t a = 0, b = 0;
    for (unsigned i = 0; i < dst.rank; i++) {
      a += idx[i] * dst.str[i];
      b += idx[i] * src.str[i];
    }
    if (&dst.base[a] != &src.base[b]) dst.base[a] = src.base[b];
    unsigned d = 0;
    for (; d < dst.rank; d++) {
      if (++idx[d] < dst.dim[d]) break;
      idx[d] = 0;
    }
    if (d == dst.rank) break;
  }
}

} // namespace Impl

template <typename DataType, typename... Props>
class DynRankView;

template <typename DataType, typename... Props>
class View {
public:
  using traits = ViewTraits<DataType, Props...>;
  using data_type = typename traits::data_type;
  using value_type = typename traits::value_type;
  using non_const_value_type = typename traits::non_const_value_type;
  using array_layout = typename traits::array_layout;
  using memory_space = typename traits::memory_space;
  using device_type = typename traits::device_type;
  using execution_space = typename traits::execution_space;
  using memory_traits = typename traits::memory_traits;
  using size_type = std::size_t;
  using pointer_type = value_type*;
  using Analysis = typename traits::Analysis;
  static constexpr std::integral_constant<std::size_t, Analysis::rank> rank{};
  static constexpr std::integral_constant<std::size_t, Analysis::dynamic> rank_dynamic{};
  static constexpr bool is_atomic = memory_traits::is_atomic;
  using reference_type = std::conditional_t<
    is_atomic, Impl::AtomicRef<non_const_value_type>, value_type&
  >;
  using HostMirror = View<typename traits::non_const_data_type, array_layout, HostSpace>;

  View() {
    st.rank = rank;
    for (unsigned i = 0; i < rank; i++) st.dim[i] = 0;
    Impl::StaticExtents<DataType>::fill(st.dim, rank_dynamic);
    st.fill(defaultLayout());
    st.computeSpan();
  }
  View(View const&) = default;
  View(View&&) = default;
  View& operator=(View const&) = default;
  View& operator=(View&&) = default;

  // With extents: all the dynamic ones, in order (static ones may follow).
  template <
    typename... Is,
    typename = std::enable_if_t<
      std::conjunction<std::is_integral<Is>...>::value &&
      !std::is_same<array_layout, LayoutStride>::value
    >
  >
  explicit View(std::string const& label, Is... is) {
    make(label, true, is...);
  }
  template <
    typename... Is,
    typename = std::enable_if_t<std::conjunction<std::is_integral<Is>...>::value>
  >
  explicit View(char const* label, Is... is) {
    make(std::string(label), true, is...);
  }

  explicit View(std::string const& label, array_layout const& l, bool init = true) {
    fromLayout(label, l, init);
  }
  explicit View(char const* label, array_layout const& l) {
    fromLayout(label, l, true);
  }

  // Conversions: adding const, memory traits, a compatible layout.
  template <typename D2, typename... P2>
  View(View<D2, P2...> const& o) { assign(o); }
  template <typename D2, typename... P2>
  View& operator=(View<D2, P2...> const& o) {
    assign(o);
    return *this;
  }

  size_type extent(std::size_t i) const { return i < rank ? st.dim[i] : 1; }
  size_type stride(std::size_t i) const { return st.str[i]; }
  size_type size() const { return st.size(); }
  size_type span() const { return st.span; }
  bool span_is_contiguous() const { return st.span == st.size(); }
  bool is_allocated() const { return st.rec != nullptr; }
  long use_count() const { return st.rec ? st.rec.use_count() : 0; }
  std::string label() const { return st.rec ? st.rec->label : std::string(); }
  array_layout layout() const { return st.template layout<array_layout>(); }

  pointer_type data() const {
    if (!st.base) return nullptr;
    if (memory_space::standin_device) {
      return reinterpret_cast<pointer_type>(
        reinterpret_cast<std::uintptr_t>(st.base) ^ kokkos_standin::disguise()
      );
    }
    return st.base;
  }

  template <typename... Is>
  reference_type operator()(Is... is) const {
    static_assert(sizeof...(Is) <= 8, "too many indices");
    auto& e = st.access(memory_space::standin_device, is...);
    if constexpr (is_atomic) {
      return reference_type(&e);
    } else {
      return e;
    }
  }
  template <typename I>
  reference_type operator[](I i) const { return (*this)(i); }

  Impl::Storage<value_type> st;

private:
  static array_layout defaultLayout() {
    array_layout l;
    if constexpr (std::is_same<array_layout, LayoutStride>::value) {
      for (auto& s : l.stride) s = 0;
    }
    return l;
  }

  template <typename... Is>
  void make(std::string const& label, bool init, Is... is) {
    std::size_t n[sizeof...(Is) + 1] = {static_cast<std::size_t>(is)..., 0};
    if (sizeof...(Is) != rank_dynamic && sizeof...(Is) != rank) {
      kokkos_standin::misuse("View constructed with the wrong number of extents");
    }
    st.rank = rank;
    for (unsigned i = 0; i < rank; i++) st.dim[i] = 0;
    Impl::StaticExtents<DataType>::fill(st.dim, rank_dynamic);
    for (unsigned i = 0; i < rank_dynamic; i++) st.dim[i] = n[i];
    st.fill(defaultLayout());
    st.computeSpan();
    st.alloc(label, memory_space::standin_device, init);
  }

  void fromLayout(std::string const& label, array_layout const& l, bool init) {
    unsigned given = 0;
    while (given < 8 && l.dimension[given] != KOKKOS_INVALID_INDEX) given++;
    if (given != rank && given != rank_dynamic) {
      kokkos_standin::misuse("View constructed with a layout of another rank");
    }
    st.rank = rank;
    for (unsigned i = 0; i < rank; i++) st.dim[i] = 0;
    Impl::StaticExtents<DataType>::fill(st.dim, rank_dynamic);
    // as in Kokkos, what the layout says about a static extent is ignored
    for (unsigned i = 0; i < rank_dynamic; i++) st.dim[i] = l.dimension[i];
    std::size_t total = 1;
    for (unsigned i = 0; i < rank; i++) {
      if (st.dim[i] > (std::size_t(1) << 32)) kokkos_standin::misuse("an absurd extent");
      total *= st.dim[i];
    }
    if (total > (std::size_t(1) << 32)) kokkos_standin::misuse("absurd extents");
    st.fill(l);
    if constexpr (std::is_same<array_layout, LayoutStride>::value) {
      for (unsigned i = 0; i < rank; i++) {
        if (st.str[i] > (std::size_t(1) << 32)) kokkos_standin::misuse("an absurd stride");
      }
    }
    st.computeSpan();
    st.alloc(label, memory_space::standin_device, init);
  }

  template <typename V2>
  void assign(V2 const& o) {
    using O = typename V2::traits;
    static_assert(
      std::is_same<typename O::memory_space, memory_space>::value,
      "views of different spaces are not convertible"
    );
    static_assert(
      std::is_same<typename O::non_const_value_type, non_const_value_type>::value &&
      (std::is_const<value_type>::value || !std::is_const<typename V2::value_type>::value),
      "incompatible element type"
    );
    static_assert(V2::rank() == rank(), "incompatible rank");
    Impl::Storage<value_type> n;
    n.rec = o.st.rec;
    n.base = o.st.base;
    n.rank = o.st.rank;
    n.span = o.st.span;
    for (int i = 0; i < 8; i++) { n.dim[i] = o.st.dim[i]; n.str[i] = o.st.str[i]; }
    // a strided view may become LayoutLeft/LayoutRight when its strides say so
    if (n.rec && rank > 0 && n.span > 0) {
      if (std::is_same<array_layout, LayoutLeft>::value && n.str[0] != 1) {
        kokkos_standin::misuse("strides do not fit LayoutLeft");
      }
      if (std::is_same<array_layout, LayoutRight>::value && n.str[rank - 1] != 1) {
        kokkos_standin::misuse("strides do not fit LayoutRight");
      }
    }
    st = n;
  }
};

// ---------------------------------------------------------------- DynRankView

template <typename DataType, typename... Props>
class DynRankView {
public:
  using traits = ViewTraits<DataType, Props...>;
  using data_type = typename traits::data_type;
  using value_type = typename traits::value_type;
  using non_const_value_type = typename traits::non_const_value_type;
  using array_layout = typename traits::array_layout;
  using memory_space = typename traits::memory_space;
  using device_type = typename traits::device_type;
  using memory_traits = typename traits::memory_traits;
  using size_type = std::size_t;
  using HostMirror = DynRankView<typename traits::non_const_data_type, array_layout, HostSpace>;

  DynRankView() = default;

  template <
    typename... Is,
    typename = std::enable_if_t<std::conjunction<std::is_integral<Is>...>::value>
  >
  explicit DynRankView(std::string const& label, Is... is) {
    static_assert(sizeof...(Is) <= 7, "at most seven dimensions");
    std::size_t n[sizeof...(Is) + 1] = {static_cast<std::size_t>(is)..., 0};
    st.rank = sizeof...(Is);
    for (unsigned i = 0; i < st.rank; i++) st.dim[i] = n[i];
    st.fill(array_layout{});
    st.computeSpan();
    st.alloc(label, memory_space::standin_device, true);
  }
  explicit DynRankView(std::string const& label, array_layout const& l, bool init = true) {
    unsigned r = 0;
    while (r < 8 && l.dimension[r] != KOKKOS_INVALID_INDEX) r++;
    if (r > 7) kokkos_standin::misuse("DynRankView of rank 8");
    for (unsigned i = r; i < 8; i++) {
      if (l.dimension[i] != KOKKOS_INVALID_INDEX) kokkos_standin::misuse("a layout with a hole");
    }
    st.rank = r;
    for (unsigned i = 0; i < r; i++) {
      st.dim[i] = l.dimension[i];
      if (st.dim[i] > (std::size_t(1) << 32)) kokkos_standin::misuse("an absurd extent");
    }
    st.fill(l);
    st.computeSpan();
    if (st.span > (std::size_t(1) << 32)) kokkos_standin::misuse("absurd extents");
    st.alloc(label, memory_space::standin_device, init);
  }
  // From a View of the same element type.
  template <typename D2, typename... P2>
  DynRankView(View<D2, P2...> const& o) {
    static_assert(std::is_same<typename View<D2, P2...>::array_layout, array_layout>::value, "");
    st.rec = o.st.rec;
    st.base = o.st.base;
    st.rank = o.st.rank;
    st.span = o.st.span;
    for (int i = 0; i < 8; i++) { st.dim[i] = o.st.dim[i]; st.str[i] = o.st.str[i]; }
  }

  unsigned rank() const { return st.rank; }
  size_type extent(std::size_t i) const { return i < st.rank ? st.dim[i] : 1; }
  size_type stride(std::size_t i) const { return st.str[i]; }
  size_type size() const { return (st.rank == 0 && !st.rec) ? 0 : st.size(); }
  size_type span() const { return st.span; }
  bool span_is_contiguous() const { return st.span == size(); }
  long use_count() const { return st.rec ? st.rec.use_count() : 0; }
  std::string label() const { return st.rec ? st.rec->label : std::string(); }
  array_layout layout() const { return st.template layout<array_layout>(); }
  bool is_allocated() const { return st.rec != nullptr; }

  value_type* data() const {
    if (!st.base) return nullptr;
    if (memory_space::standin_device) {
      return reinterpret_cast<value_type*>(
        reinterpret_cast<std::uintptr_t>(st.base) ^ kokkos_standin::disguise()
      );
    }
    return st.base;
  }

  template <typename... Is>
  value_type& operator()(Is... is) const {
    return st.access(memory_space::standin_device, is...);
  }

  Impl::Storage<value_type> st;
};

// -------------------------------------------------------------------- mirrors

namespace Impl {

template <typename V>
typename V::HostMirror mirror(V const& v, bool init) {
  using M = typename V::HostMirror;
  if constexpr (
    std::is_same<typename V::memory_space, HostSpace>::value &&
    std::is_same<typename V::data_type, typename M::data_type>::value
  ) {
    M m;
    m.st = v.st;
    return m;
  } else {
    return M(v.label(), v.layout(), init);
  }
}

} // namespace Impl

template <typename T, typename... P>
typename View<T, P...>::HostMirror create_mirror_view(View<T, P...> const& v) {
  return Impl::mirror(v, true);
}
template <typename T, typename... P>
typename View<T, P...>::HostMirror create_mirror_view(WithoutInitializing_t, View<T, P...> const& v) {
  return Impl::mirror(v, false);
}
template <typename T, typename... P>
typename DynRankView<T, P...>::HostMirror create_mirror_view(DynRankView<T, P...> const& v) {
  return Impl::mirror(v, true);
}
template <typename T, typename... P>
typename DynRankView<T, P...>::HostMirror
create_mirror_view(WithoutInitializing_t, DynRankView<T, P...> const& v) {
  return Impl::mirror(v, false);
}

template <typename V>
typename V::HostMirror create_mirror_view_and_copy(HostSpace, V const& v) {
  typename V::HostMirror m = Impl::mirror(v, false);
  Impl::copyElements(m.st, v.st);
  return m;
}

// ------------------------------------------------------------------ deep copy

namespace Impl {

template <typename D, typename S>
void checkCopy(D const&, S const&) {
  static_assert(
    !std::is_const<typename D::value_type>::value, "deep_copy needs a non-const destination"
  );
  static_assert(
    std::is_trivially_copyable<typename D::non_const_value_type>::value ||
    (!D::memory_space::standin_device && !S::memory_space::standin_device),
    "elements that are not trivially copyable can not go to a device"
  );
}

} // namespace Impl

// Complete when it returns.
template <typename D, typename... PD, typename S, typename... PS>
void deep_copy(View<D, PD...> const& dst, View<S, PS...> const& src) {
  Impl::checkCopy(dst, src);
  kokkos_standin::stats().deep_copies++;
  Impl::copyElements(dst.st, src.st);
}
template <typename D, typename... PD>
void deep_copy(
  View<D, PD...> const& dst, typename ViewTraits<D, PD...>::const_value_type& value
) {
  std::size_t idx[8] = {};
  if (dst.size() == 0) return;
  while (true) {
    std::size_t a = 0;
    for (unsigned i = 0; i < dst.st.rank; i++) a += idx[i] * dst.st.str[i];
    dst.st.base[a] = value;
    unsigned d = 0;
    for (; d < dst.st.rank; d++) {
      if (++idx[d] < dst.st.dim[d]) break;
      idx[d] = 0;
    }
    if (d == dst.st.rank) break;
  }
}

// Asynchronous: complete once the instance is fenced.
template <typename D, typename... PD, typename S, typename... PS>
void deep_copy(Serial const& exec, View<D, PD...> const& dst, View<S, PS...> const& src) {
  Impl::checkCopy(dst, src);
  kokkos_standin::stats().deep_copies++;
  kokkos_standin::stats().deferred++;
  auto d = dst.st;
  auto s = src.st;
  exec.queue->work.push_back([d, s] { Impl::copyElements(d, s); });
}
template <typename D, typename... PD, typename S, typename... PS>
void deep_copy(
  Serial const& exec, DynRankView<D, PD...> const& dst, DynRankView<S, PS...> const& src
) {
  Impl::checkCopy(dst, src);
  kokkos_standin::stats().deep_copies++;
  kokkos_standin::stats().deferred++;
  auto d = dst.st;
  auto s = src.st;
  exec.queue->work.push_back([d, s] { Impl::copyElements(d, s); });
}

// -------------------------------------------------------------------- subview

// The same rank, a range [lo, hi) in each dimension.
template <typename D, typename... P>
View<D, LayoutStride, typename View<D, P...>::memory_space>
standin_range(View<D, P...> const& v, std::vector<std::pair<std::size_t, std::size_t>> const& r) {
  using Out = View<D, LayoutStride, typename View<D, P...>::memory_space>;
  Out o;
  o.st.rec = v.st.rec;
  o.st.rank = v.st.rank;
  std::size_t off = 0;
  for (unsigned i = 0; i < v.st.rank; i++) {
    if (r.at(i).first > r[i].second || r[i].second > v.st.dim[i]) {
      kokkos_standin::misuse("subview out of bounds");
    }
    off += r[i].first * v.st.str[i];
    o.st.dim[i] = r[i].second - r[i].first;
    o.st.str[i] = v.st.str[i];
  }
  o.st.base = v.st.base + off;
  o.st.computeSpan();
  return o;
}

} // namespace Kokkos

#endif
