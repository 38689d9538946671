// The fixed list of composed types, in groups (one translation unit each).
#pragma once
#include "types.h"
#if GROUP == 6 || GROUP == 16 || GROUP == 30 || GROUP == 40 || GROUP == 99
#include "poly.h"
#endif
#if GROUP >= 20 && GROUP <= 22 || GROUP == 98
#include "tracked.h"
#elif GROUP >= 12 && GROUP <= 14
#include "poly12.h"
#elif GROUP >= 40 && GROUP <= 41
#include "foot.h"
#elif GROUP >= 50 && GROUP <= 56
#include "cons13.h"
#elif GROUP >= 60 && GROUP <= 64
#include "kk.h"
#endif
namespace vt {
template <class... T> struct TL {};
using std::string; using std::vector; using std::list; using std::deque; using std::map; using std::multimap; using std::set; using std::multiset;
using std::unordered_map; using std::unordered_multimap; using std::unordered_set; using std::unordered_multiset; using std::queue; using std::pair; using std::tuple;
using std::optional; using std::variant; using std::unique_ptr; using std::array; namespace chr = std::chrono;
template <class T> using up = unique_ptr<T>;
#if GROUP == 0   // leaves and user classes
using Types = TL<bool, char, signed char, unsigned char, int16_t, uint16_t, int, unsigned, long, uint64_t, wchar_t, char16_t, char32_t, float, double, long double,
  E8, EU8, E16, E32, EU64, EI64, EPlain, EBool, EChar, string, Plain, Empty, Mixed, NonIntr, Split, ByteTrait, ByteBase, ByteMacro, ByteNonIntr, ByteOdd, Tagged32, MoveOnly, TaggedOnly, TaggedMoveOnly, ReconMember, ReconFree, ReconSpec>;
#elif GROUP == 1 // vectors
using Types = TL<vector<int>, vector<char>, vector<bool>, vector<double>, vector<long double>, vector<string>, vector<vector<int>>, vector<vector<bool>>, vector<E8>, vector<EU64>, vector<ByteOdd>, vector<ByteTrait>, vector<ByteMacro>,
  vector<Plain>, vector<Mixed>, vector<MoveOnly>, vector<TaggedOnly>, vector<TaggedMoveOnly>, vector<ReconMember>, vector<ReconFree>, vector<ReconSpec>, vector<int, Alloc<int>>, vector<string, Alloc<string>>, vector<bool, Alloc<bool>>, vector<vector<TaggedOnly>>, vector<Empty>, vector<Split>>;
#elif GROUP == 2 // list, deque, queue, array
using Types = TL<list<int>, list<string>, list<MoveOnly>, list<TaggedOnly>, list<TaggedMoveOnly>, list<list<E16>>, list<bool>, deque<int>, deque<string>, deque<MoveOnly>, deque<ReconMember>, deque<TaggedMoveOnly>, deque<vector<string>>, queue<int>, queue<string>, queue<TaggedOnly>, queue<vector<int>>, queue<ByteTrait>,
  array<int, 7>, array<string, 3>, array<ByteOdd, 5>, array<int, 0>, array<vector<bool>, 2>, array<MoveOnly, 3>, array<array<E8, 3>, 4>, list<ReconFree>, deque<double>>;
#elif GROUP == 3 // ordered associative
using Types = TL<map<int, int>, map<string, int>, map<string, string>, map<Key, MoveOnly>, map<int, vector<string>>, map<double, E32>, map<int, int, Desc>, map<string, Plain, Desc>, multimap<int, string>, multimap<string, double>, multimap<int, int, ByLast>, multimap<Key, vector<int>>,
  set<int>, set<string>, set<Key>, set<long, Desc>, set<E16>, set<pair<int, string>>, multiset<int>, multiset<string, Desc>, multiset<int, ByLast>, set<vector<int>>, map<vector<string>, map<int, set<string>>>, map<bool, string>, map<int, up<string>>>;
#elif GROUP == 4 // unordered associative
using Types = TL<unordered_map<int, int>, unordered_map<string, string>, unordered_map<Key, NonIntr, KeyHash>, unordered_map<int, string, BadHash>, unordered_map<int, MoveOnly>, unordered_map<int, string, std::hash<int>, ModEq>, unordered_multimap<int, string>, unordered_multimap<string, int, BadHash>, unordered_multimap<Key, vector<E8>, KeyHash>,
  unordered_set<int>, unordered_set<string>, unordered_set<Key, KeyHash>, unordered_set<long, BadHash>, unordered_multiset<int>, unordered_multiset<string>, unordered_multiset<Key, KeyHash>, unordered_map<string, unordered_map<int, unordered_set<int>>>>;
#elif GROUP == 5 // products, sums, durations
using Types = TL<pair<int, string>, pair<string, vector<pair<int, int>>>, pair<MoveOnly, bool>, tuple<>, tuple<int>, tuple<char, double, string>, tuple<TaggedOnly, int, ReconMember>, tuple<vector<int>, tuple<string, tuple<bool>>>, tuple<MoveOnly, list<string>>, tuple<ByteOdd, long double, ByteOdd>,
  optional<int>, optional<string>, optional<vector<string>>, optional<TaggedOnly>, optional<optional<int>>, optional<up<string>>, optional<MoveOnly>, optional<ReconSpec>, optional<map<int, string>>, optional<tuple<int, string>>,
  variant<int, double>, variant<int, string>, variant<string, vector<int>, map<int, string>>, variant<MoveOnly, TaggedMoveOnly, int>, variant<int, ReconMember, TaggedOnly>, variant<float, char, bool, EU8>, variant<ByteTrait, uint8_t>, variant<int, variant<string, double>>,
  chr::duration<double>, chr::nanoseconds, chr::duration<int16_t, std::ratio<3, 7>>, vector<chr::milliseconds>, vector<optional<string>>, vector<variant<int, string, double>>, vector<tuple<int, string>>, vector<pair<bool, char>>, map<int, variant<string, int>>>;
#elif GROUP == 6 // pointers and polymorphic objects
using Types = TL<up<int>, up<string>, up<vector<int>>, up<Mixed>, up<MoveOnly>, up<TaggedOnly>, up<ReconFree>, up<up<int>>, unique_ptr<string, Del<string>>, unique_ptr<Plain, Del<Plain>>, up<ByteOdd>, up<E8>, up<tuple<int, string>>, up<variant<int, string>>,
  up<Shape>, up<Animal>, unique_ptr<Shape, Del<Shape>>, vector<up<Shape>>, list<up<Animal>>, deque<up<Shape>>, map<string, up<Animal>>, unordered_map<int, up<Shape>>, tuple<up<Shape>, int, up<Animal>>, pair<up<Animal>, up<Shape>>, variant<up<Shape>, up<Animal>, int>, Wrap<up<Shape>>, Both<up<Animal>, up<Shape>>, array<up<Shape>, 3>>;
#elif GROUP == 7 // deep mixtures
using Types = TL<Tree, Chain, ManyKinds, Wrap<ManyKinds>, Both<string, Wrap<vector<Mixed>>>, map<string, map<int, vector<optional<variant<int, string>>>>>, vector<map<Key, list<tuple<int, string, vector<bool>>>>>, vector<ManyKinds>, Wrap<Wrap<Wrap<string>>>, list<map<int, queue<string>>>,
  unordered_map<string, deque<pair<E8, optional<string>>>>, tuple<vector<up<Mixed>>, multimap<int, set<string>>, optional<list<double>>>, vector<array<optional<string>, 2>>, Both<unordered_multiset<string>, multiset<double>>, optional<Both<vector<bool>, queue<int>>>>;
#elif GROUP >= 12 && GROUP <= 14 // hierarchies whose every level is logged
namespace q = vp;
#if GROUP == 12
using Types = TL<up<q::A0>, up<q::A1>, up<q::A3>, up<q::B0>, up<q::B1>, up<q::M0>, up<q::M1>, up<q::H0>, vector<up<q::A0>>, list<up<q::B0>>, deque<up<q::M0>>, map<int, up<q::H0>>, unordered_map<string, up<q::A0>>, array<up<q::A0>, 3>>;
#elif GROUP == 13
using Types = TL<tuple<up<q::A0>, up<q::M0>, up<q::B0>>, pair<up<q::H0>, up<q::A3>>, optional<up<q::A0>>, variant<int, up<q::B0>, up<q::A0>>, vector<q::A1>, vector<q::A2>, list<q::A1>, deque<q::A2>, array<q::A1, 4>, map<int, q::A1>, optional<q::A2>, variant<int, q::A2, q::A1>, tuple<q::A1, q::A2, int, q::W<1>>, vector<q::W<2>>>;
#else
using Types = TL<q::A1, q::A4, q::A7, q::M2, q::H3<string, 1>, vector<q::M1>, unique_ptr<q::A0, Del<q::A0>>, q::Holder, q::Graph, up<q::Graph>, vector<vector<up<q::B0>>>>;
#endif
#elif GROUP == 40 // what only the footprint understands
using Types = TL<int*, char const*, string*, void*, FILE*, ompi_communicator_t*, int**, vector<int>*, Shape*, Animal*, Mixed*, Opaque, OpaqueSmall, Opaque*, vector<Opaque>, list<OpaqueSmall>, map<int, Opaque>, unordered_map<string, OpaqueSmall>, up<Opaque>, std::shared_ptr<Opaque>, std::shared_ptr<string>, std::shared_ptr<Shape>, std::shared_ptr<vector<std::shared_ptr<int>>>, vector<void*>, vector<ompi_win_t*>, vector<int*>, vector<string*>, list<Animal*>, map<string, Shape*>, set<up<int>>,
  std::stack<int>, std::stack<string>, std::priority_queue<int>, std::priority_queue<string>, std::priority_queue<double>, AtomicBox<int>, AtomicBox<double>, AtomicBox<bool>, std::function<int(int)>, vector<std::function<int(int)>>, std::thread, tuple<int*, Opaque, std::shared_ptr<int>>, pair<string, Opaque>, pair<void*, string*>, array<string*, 3>, array<Opaque, 2>, optional<Opaque>, optional<string*>, variant<int, Opaque>, variant<string, int*>, Arr<string, 3>, Arr<int, 5>, Arr<Opaque, 2>, Arr<vector<string>, 2>, Wrap<Opaque>, Wrap<std::shared_ptr<string>>, Both<int*, std::stack<int>>, list<int>::iterator, vector<vector<Opaque*>>, queue<up<int>>, queue<Opaque>, Twice<string>, Twice<Shape>, vector<Twice<int>>>;
#elif GROUP >= 15 && GROUP <= 18 // a few of everything, for threads
#if GROUP == 15
using Types = TL<int, double, E32, string, vector<int>, vector<bool>, vector<string>, list<string>, deque<int>, queue<string>, set<string>>;
#elif GROUP == 16
using Types = TL<up<Shape>, vector<up<Shape>>, Wrap<up<Shape>>, up<Animal>, map<string, up<Animal>>>;
#elif GROUP == 17
using Types = TL<map<string, vector<int>>, multimap<int, string>, unordered_map<int, string>, unordered_set<string>, array<string, 3>, tuple<int, string>, pair<int, string>, optional<up<string>>, variant<int, string>, chr::nanoseconds>;
#else
using Types = TL<TaggedOnly, ReconMember, ReconSpec, NonIntr, Split, Mixed, up<Mixed>, vector<ByteTrait>, Both<string, Wrap<vector<int>>>, Tree>;
#endif
#elif GROUP == 30 // a few of everything, for the file transport
using Types = TL<int, string, vector<string>, vector<double>, map<string, vector<int>>, Mixed, up<Shape>, vector<up<Animal>>, array<double, 700>, optional<up<string>>, Both<string, Wrap<vector<int>>>, vector<bool>>;
#elif GROUP >= 20 && GROUP <= 22
using tk::T0; using tk::T1; using tk::T2; using tk::T3; using tk::T4; using tk::T5; using tk::Pack;
#if GROUP == 20
using Types = TL<T0, T1, T2, T3, T4, T5, Pack, vector<T0>, vector<T1>, vector<T2>, vector<T3>, vector<T4>, vector<T5>, list<T0>, list<T1>, list<T2>, list<T3>, list<T4>, deque<T0>, deque<T1>, deque<T2>, deque<T3>>;
#elif GROUP == 21
using Types = TL<queue<T0>, queue<T1>, queue<T4>, array<T0, 3>, array<T2, 2>, set<T0>, multiset<T0>, unordered_set<T0, tk::T0Hash>, map<int, T0>, map<string, T2>, multimap<int, T0>, unordered_map<int, T2>, unordered_multimap<int, T0>, map<T0, T0>, optional<T0>, optional<T1>, optional<T4>, variant<int, T0, T1>, variant<T2, T3, string>, variant<T0, vector<T1>>, tuple<T0, T1, T4>, tuple<T2, string, T3>, tuple<int, tuple<T1, T5>>>;
#else
using TB = tk::Base;
using Types = TL<up<T0>, up<T1>, up<T3>, up<T4>, unique_ptr<T0, Del<T0>>, up<up<T0>>, up<TB>, vector<up<TB>>, list<up<T1>>, map<int, up<TB>>, tuple<up<TB>, T1>, vector<list<T1>>, list<vector<T1>>, map<string, vector<T1>>, vector<optional<T1>>, vector<tuple<T0, T1>>, pair<T0, T2>, vector<pair<int, T0>>, vector<Pack>, up<Pack>, Wrap<vector<T4>>, optional<tuple<T1, T0>>, variant<int, up<TB>, Pack>>;
#endif
#elif GROUP >= 50 && GROUP <= 56 // every means of construction in every place
template <class A, class B> struct TCat; template <class... A, class... B> struct TCat<TL<A...>, TL<B...>> { using t = TL<A..., B...>; };
template <class... L> struct TCats; template <class L> struct TCats<L> { using t = L; }; template <class L, class... R> struct TCats<L, R...> { using t = typename TCat<L, typename TCats<R...>::t>::t; };
template <class K> using Move = TL<K, up<K>, vector<K>, list<K>, deque<K>, set<K>, unordered_set<K, vk::Hash>, tuple<K, int, K>, optional<K>, variant<int, K>, vk::Ptr<K>>;
template <class K> using Copy = TL<K, up<K>, vector<K>, list<K>, deque<K>, queue<K>, multiset<K>, tuple<K, int, K>, optional<K>, variant<string, K>, vector<optional<K>>, vk::Ptr<K>>;
template <class K> using InPair = TL<pair<K, int>, map<int, K>, vector<pair<string, K>>, unordered_map<int, K>, map<K, int>, list<pair<K, K>>, optional<pair<int, K>>, up<map<string, K>>>;
template <template <class> class F, class... K> using Each = typename TCats<F<K>...>::t;
#if GROUP == 50
using Types = Each<Copy, vk::D, vk::T, vk::R, vk::F, vk::S>;
#elif GROUP == 51
using Types = Each<Copy, vk::DT, vk::DR, vk::DF, vk::DS, vk::TR>;
#elif GROUP == 52
using Types = Each<Copy, vk::TF, vk::TS, vk::DTR, vk::DTF, vk::DTS>;
#elif GROUP == 53
using Types = Each<Move, vk::mD, vk::mT, vk::mR, vk::mF, vk::mS, vk::mDT>;
#elif GROUP == 54
using Types = Each<Move, vk::mDR, vk::mDF, vk::mDS, vk::mTR, vk::mTF, vk::mDTR, vk::mDTF>;
#elif GROUP == 55
using Types = Each<InPair, vk::pD, vk::pDT, vk::pDR, vk::pDF, vk::pDS>;
#else
using Types = TL<vk::Inh, up<vk::Inh>, vector<vk::Inh>, list<vk::Inh>, tuple<vk::Inh, vk::DR>, vk::Agg, up<vk::Agg>, vector<vk::Agg>, deque<vk::Agg>, map<int, vk::Agg>, optional<vk::Agg>, tuple<vk::Agg, int>,
  vk::Member, vector<vk::Member>, up<vk::P0>, vector<up<vk::P0>>, list<up<vk::Q0>>, map<string, up<vk::P0>>, tuple<up<vk::P0>, up<vk::Q0>>, vk::Ptr<vk::P0>, vk::Ptr<vk::Q0>, optional<up<vk::P0>>, variant<int, up<vk::P0>, vk::T, vk::DTR, vk::mS>, variant<vk::D, vk::DT, vk::DR, string>, tuple<vk::D, vk::T, vk::R, vk::F, vk::S, vk::DT, vk::DS, vk::mTR>, tuple<tuple<vk::T, vk::DR>, vector<vk::DTF>>, deque<optional<vk::mT>>, vector<list<vk::TF>>, vector<vector<vk::mDT>>, map<int, vector<vk::S>>, list<tuple<int, vk::DS>>, vector<variant<int, vk::R, vk::DT>>, up<vk::PT>, up<vk::PDTR>, up<vk::PDeep>>;
#endif
#elif GROUP >= 60 && GROUP <= 64 // with Kokkos (a stand-in for it: harness/kokkos)
template <class... X> using V = kk::View<X...>;
#if GROUP == 60   // plain elements: every rank and layout up to four, static extents
using Types = TL<V<int>, V<double*>, V<int*, LL>, V<char*, LR>, V<float*, LS>, V<int[3]>, V<long double*>, V<double**>, V<int**, LL>, V<long**, LR>, V<short**, LS>, V<int*[4]>, V<double[2][3], LL>, V<unsigned*[2], LS>, V<int***>, V<double***, LL>, V<char***, LS>, V<int**[2], LR>, V<long*[3][2], LL>, V<int****, LL>, V<float****>, V<double**[2][2], LS>>;
#elif GROUP == 61 // higher ranks; const, atomic and random-access views; a memory space the host cannot reach
using Types = TL<V<int*****>, V<double*****, LL>, V<short******, LS>, V<int******, LR>, V<char*******, LL>, V<long*******>, V<int*******, LS>, V<int const*>, V<double const**, LL>, V<float const***, LS>, V<int const*[3]>, V<int const>, V<int, At>, V<float***, At>, V<double**, LL, At>, V<int const*, LR, Ra>, V<int*, Dev>, V<double**, LL, Dev>, V<float***, LR, Dev>, V<int const*, Dev>, V<short**, LS, Dev>, V<double*, LL, kk::Device<kk::Serial, Dev>, Ra>>;
#elif GROUP == 62 // dynamic rank, dynamic size
using Types = TL<kk::DynRankView<int>, kk::DynRankView<double, LL>, kk::DynRankView<char, LR>, kk::DynRankView<float, LS>, kk::DynRankView<long double>, kk::DynRankView<int, Dev>, kk::DynRankView<double, LS, Dev>, kk::DynRankView<string>, kk::Experimental::DynamicView<int*>, kk::Experimental::DynamicView<double*>, kk::Experimental::DynamicView<string*>, kk::Experimental::DynamicView<Both<int, string>*>, vector<kk::DynRankView<int>>, map<string, kk::DynRankView<float, LL>>>;
#elif GROUP == 63 // elements that are objects
using Types = TL<V<string*>, V<string**, LL>, V<vector<int>*, LS>, V<Both<int, string>*>, V<Plain**, LL>, V<E8*>, V<bool**, LS>, V<ByteTrait*>, V<string const*>, V<vector<int> const**, LL>, V<map<int, string>*>, V<kk::complex<double>*>, V<kk::pair<int, string>*>, V<kk::Array<double, 3>**, LL>, V<string>, V<optional<string>*[2]>, V<string***, LS>>;
#else             // pair, complex, array, unordered map, graph, matrix; views in containers and classes
using Types = TL<kk::pair<int, int>, kk::pair<string, double>, kk::pair<vector<string>, kk::pair<int, NonIntr>>, kk::pair<int, void>, kk::complex<float>, kk::complex<double>, kk::complex<long double>, vector<kk::complex<float>>, kk::Array<int, 5>, kk::Array<string, 3>, kk::Array<double, 0>, kk::Array<kk::Array<Mixed, 2>, 2>, vector<kk::pair<int, string>>,
  kk::UnorderedMap<int, int>, kk::UnorderedMap<short, string>, kk::UnorderedMap<unsigned, vector<int>>, kk::UnorderedMap<long, double>, kk::UnorderedMap<string, string>, kk::UnorderedMap<int, NonIntr>, vector<kk::UnorderedMap<int, string>>,
  kk::StaticCrsGraph<int, kk::DefaultExecutionSpace>, kk::StaticCrsGraph<double, LL, kk::DefaultExecutionSpace>, KokkosSparse::CrsMatrix<double, int, kk::DefaultExecutionSpace>, KokkosSparse::CrsMatrix<float, long, kk::DefaultExecutionSpace>,
  Mesh, vector<Mesh>, up<Mesh>, vector<V<int*>>, list<V<double**, LL>>, map<string, V<int*, LS>>, tuple<V<int>, string, V<float*, Dev>>, optional<V<string*>>, variant<int, V<int*>, V<string>>, array<V<int const*>, 2>, pair<V<int*>, V<int**>>, Wrap<V<int**>>>;
#endif
#elif GROUP == 98
using tk::T0; using tk::T1; using tk::T2; using tk::T3; using tk::T4; using tk::T5; using tk::Pack; using TB = tk::Base;
#include GENERATED_TYPES
#elif GROUP == 99
#include GENERATED_TYPES
#endif
} // namespace vt
