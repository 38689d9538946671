// Shared by the parts of the C08 driver: a table of types with every way to read them.
#pragma once
#include "rt.h"
#include <checkpoint/checkpoint.h>
#include <fstream>
#include <sstream>
#include <memory>
namespace m8 {
enum Via { Mem, Into, InPlace, File, FileInPlace, Stream, StreamInPlace, NVia };
struct Entry {
  std::string name; std::string (*image)(); bool (*read)(int via, char* b, size_t n, std::string const& file);   // true: gave an equal object
  std::vector<std::string> chain;                                                                                  // what the error must name, innermost first
};
std::vector<Entry>& plain(); std::vector<Entry>& nested();
template <class T> struct Sample { static T make() { return T{}; } };
template <class T> bool equal(T const& a, T const& b) { return a == b; }
template <class T> bool equal(std::unique_ptr<T> const& a, std::unique_ptr<T> const& b) { return bool(a) == bool(b); }
template <class T, bool Lite = false> struct Io {
  static std::string image() { T v = Sample<T>::make(); auto r = checkpoint::serialize<T>(v); return std::string(r->getBuffer(), r->getSize()); }
  static bool read(int via, char* b, size_t n, std::string const& file) {
    T want = Sample<T>::make(); std::unique_ptr<T> x;
    if constexpr (Lite) {           // the many small classes: two ways only (they are cheap to compile)
      if (via != InPlace) { x = checkpoint::deserialize<T>(b); return equal(*x, want); }
      T y = Sample<T>::make(); checkpoint::deserializeInPlace<T>(b, &y); return equal(y, want);
    } else switch (via) {
      case Mem: x = checkpoint::deserialize<T>(b); return equal(*x, want);
      case Into: { std::unique_ptr<char[]> s(new char[sizeof(T) + 64]); auto p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(s.get()) + 63) / 64 * 64); T* y = checkpoint::deserialize<T>(b, p); bool ok = equal(*y, want); y->~T(); return ok; }
      case InPlace: { T y = Sample<T>::make(); checkpoint::deserializeInPlace<T>(b, &y); return equal(y, want); }
      case File: x = checkpoint::deserializeFromFile<T>(file); return equal(*x, want);
      case FileInPlace: { T y = Sample<T>::make(); checkpoint::deserializeInPlaceFromFile<T>(file, &y); return equal(y, want); }
      case Stream: { std::istringstream s(std::string(b, n)); x = checkpoint::deserializeFromStream<T>(s); return equal(*x, want); }
      default: { std::istringstream s(std::string(b, n)); T y = Sample<T>::make(); checkpoint::deserializeInPlaceFromStream<T>(s, &y); return equal(y, want); }
    }
  }
};
inline std::string full(std::type_info const& t) { int st = 0; char* d = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st); std::string r = st == 0 ? d : t.name(); free(d); return r; }
template <class T, bool Lite = false> int add() { plain().push_back({vr::typeName<T>(), Io<T, Lite>::image, Io<T, Lite>::read, {}}); return 0; }
template <int K> struct N { int v = K; bool operator==(N const& o) const { return v == o.v; } template <class S> void serialize(S& s) { s | v; } };
template <int K> struct Filler { using isByteCopyable = std::true_type; int v = K; };
}
