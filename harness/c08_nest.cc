// Classes whose serialize visits one type when packing and another when unpacking, at many positions.
#include "c08.h"
#ifdef SERIALIZATION_ERROR_CHECKING
#include <list>
#include <deque>
#include <queue>
#include <map>
#include <set>
#include <unordered_map>
#include <optional>
#include <variant>
#include <tuple>
#include <array>
using namespace m8;
enum class U8 : unsigned char { z = 0 };
template <class A, class B> struct Skew { A a{}; B b{}; template <class S> void serialize(S& s) { if (s.isUnpacking()) s | b; else s | a; } };
struct Few { int a[6] = {}; template <class S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, a, s.isUnpacking() ? 3 : 4); } };
template <class X> struct Out { int before = 1; X x{}; int after = 2; template <class S> void serialize(S& s) { s | before | x | after; } };
template <class X> struct Late { std::string s1 = "some text that comes first"; std::vector<X> v{3}; template <class S> void serialize(S& s) { s | s1 | v; } };
template <class X> struct PB : checkpoint::SerializableBase<PB<X>> { int a = 1; template <class S> void serialize(S& s) { s | a; } };
template <class X> struct PD : checkpoint::SerializableDerived<PD<X>, PB<X>> { X x{}; template <class S> void serialize(S& s) { s | x; } };
template <class X> struct Holder { std::unique_ptr<PB<X>> p = std::make_unique<PD<X>>(); template <class S> void serialize(S& s) { s | p; } };
template <class X> struct AsList { std::list<X> l = std::list<X>(2); template <class S> void serialize(S& s) { s | l; } };
template <class X> struct AsDeque { std::deque<X> l = std::deque<X>(2); template <class S> void serialize(S& s) { s | l; } };
template <class X> struct AsQueue { std::queue<X> q; AsQueue() { q.push(X{}); } template <class S> void serialize(S& s) { s | q; } };
template <class X> struct AsMap { std::map<int, X> m; AsMap() { m[4]; m[5]; } template <class S> void serialize(S& s) { s | m; } };
template <class X> struct AsUMap { std::unordered_map<int, X> m; AsUMap() { m[4]; } template <class S> void serialize(S& s) { s | m; } };
template <class X> struct AsPtr { std::unique_ptr<X> p = std::make_unique<X>(); template <class S> void serialize(S& s) { s | p; } };
template <class X> struct AsTuple { std::tuple<int, X, int> t; template <class S> void serialize(S& s) { s | t; } };
template <class X> struct AsPair { std::pair<X, int> t; template <class S> void serialize(S& s) { s | t; } };
template <class X> struct AsOpt { std::optional<X> t = X{}; template <class S> void serialize(S& s) { s | t; } };
template <class X> struct AsVar { std::variant<int, X> t{X{}}; template <class S> void serialize(S& s) { s | t; } };
template <class X> struct AsArr { std::array<X, 2> t; template <class S> void serialize(S& s) { s | t; } };
template <class X> struct AsRaw { X t[2]; template <class S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, t, 2); } };
template <class T> std::string nm() { return full(typeid(T)); }
template <class X> struct NIo { // no comparison: nothing may be returned
  static bool read(int via, char* b, size_t n, std::string const& file) {
    using T = X;
    switch (via) {
      case Mem: checkpoint::deserialize<T>(b); break;
      case Into: { std::unique_ptr<char[]> s(new char[sizeof(T) + 64]); auto p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(s.get()) + 63) / 64 * 64); T* y = checkpoint::deserialize<T>(b, p); y->~T(); break; }
      case InPlace: { T y{}; checkpoint::deserializeInPlace<T>(b, &y); break; }
      case File: checkpoint::deserializeFromFile<T>(file); break;
      case FileInPlace: { T y{}; checkpoint::deserializeInPlaceFromFile<T>(file, &y); break; }
      case Stream: { std::istringstream s(std::string(b, n)); checkpoint::deserializeFromStream<T>(s); break; }
      default: { std::istringstream s(std::string(b, n)); T y{}; checkpoint::deserializeInPlaceFromStream<T>(s, &y); }
    }
    return true;
  }
};
template <class T> void put(std::vector<std::string> chain) { nested().push_back({vr::typeName<T>(), Io<T>::image, NIo<T>::read, std::move(chain)}); }
// positions that every skew is put in
template <class K> void few(std::vector<std::string> c) { put<K>(c); auto d = c; d.push_back(nm<Out<K>>()); put<Out<K>>(d); d.push_back(nm<Late<Out<K>>>()); put<Late<Out<K>>>(d); auto e = c; e.push_back(nm<PD<K>>()); e.pop_back(); e.push_back(nm<Holder<K>>()); put<Holder<K>>(e); }
template <template <class> class P, class K> void at(std::vector<std::string> c) { c.push_back(nm<P<K>>()); put<P<K>>(c); }
template <class A, class B> std::vector<std::string> base() { return {nm<B>(), nm<Skew<A, B>>()}; }
template <class A, class B> void some() { few<Skew<A, B>>(base<A, B>()); }
template <class A, class B> void many() {
  using K = Skew<A, B>; auto c = base<A, B>();
  at<AsList, K>(c); at<AsDeque, K>(c); at<AsQueue, K>(c); at<AsMap, K>(c); at<AsUMap, K>(c); at<AsPtr, K>(c); at<AsTuple, K>(c); at<AsPair, K>(c); at<AsOpt, K>(c); at<AsVar, K>(c); at<AsArr, K>(c); at<AsRaw, K>(c);
  using D5 = Out<AsMap<Out<AsPtr<Late<K>>>>>; auto d = c; d.push_back(nm<Late<K>>()); d.push_back(nm<AsPtr<Late<K>>>()); d.push_back(nm<Out<AsPtr<Late<K>>>>()); d.push_back(nm<AsMap<Out<AsPtr<Late<K>>>>>()); d.push_back(nm<D5>()); put<D5>(d);
  auto h = c; h.push_back(nm<Holder<K>>()); h.push_back(nm<AsList<Holder<K>>>() ); 
}
static int fillAll() {
#if PART == 0
  some<int, unsigned>(); some<long, double>(); some<N<9001>, N<9002>>(); some<std::string, std::vector<char>>(); some<std::vector<int>, std::list<int>>();
#elif PART == 1
  some<std::unique_ptr<int>, std::unique_ptr<float>>(); some<U8, unsigned char>(); some<std::pair<int, int>, std::array<int, 2>>(); some<std::map<int, int>, std::multimap<int, int>>(); some<std::optional<int>, std::optional<float>>();
#elif PART == 2
  many<int, float>();
#else
  many<N<9003>, N<9004>>();
  // the same type, but another number of elements
  put<Few>({nm<Few>()}); put<Out<Few>>({nm<Few>(), nm<Out<Few>>()}); put<Late<Few>>({nm<Few>(), nm<Late<Few>>()});
#endif
  return 0;
}
static int done = fillAll();
#endif
