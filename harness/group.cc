// Instantiates the table for one group of types (-DGROUP=n, -DOPS_... select the operations).
#include "groups.h"
#include "ops.h"
#include "traverser.h"
#ifdef OPS_FOOTMODEL
#include "foot.h"
#endif
#include <fstream>
#include <sstream>
#include <iostream>

#define VR_STR2(x) #x
#define VR_STR(x) VR_STR2(x)

namespace {
using namespace vr;
template <class T> struct IsVec : std::false_type {};
template <class T, class A> struct IsVec<std::vector<T, A>> : std::true_type {};

// does building the value twice give the same image?  Not with hash containers (iteration order depends on insertion
// history only, so it does), padding inside byte-copied variants (so it does not).
template <class T> struct T_ {
  static void* make(uint64_t s, long b) { vt::Rng r(s); vt::Budget bb; bb.left = b; return new T(vt::Gen<T>::make(r, bb)); }
  static void destroy(void* p) { delete static_cast<T*>(p); }
  static std::string diff(void const* a, void const* b) { return vt::diff(*static_cast<T const*>(a), *static_cast<T const*>(b)); }
  static void* fresh() { if constexpr (std::is_default_constructible<T>::value) return new T{};
#if GROUP >= 12 && GROUP <= 14
    else if constexpr (std::is_constructible<T, int>::value) return new T(0);
#endif
    else return make(424242, 3); }
  static Result wrap(checkpoint::SerializedReturnType r) {
    Result x; x.buf = r->getBuffer(); x.size = r->getSize(); x.owner = std::shared_ptr<void>(std::shared_ptr<checkpoint::SerializedInfo>(std::move(r))); return x;
  }
#ifdef OPS_IMAGE
  static size_t getSize(void* p) { return checkpoint::getSize<T>(*static_cast<T*>(p)); }
  static Result serNoCb(void* p) { return wrap(checkpoint::serialize<T>(*static_cast<T*>(p))); }
#endif
#ifdef OPS_MEM
  static size_t getSize(void* p) { return checkpoint::getSize<T>(*static_cast<T*>(p)); }
  static Result ser(void* p, std::function<char*(size_t)> f) { return wrap(checkpoint::serialize<T>(*static_cast<T*>(p), f)); }
  static Result serNoCb(void* p) { return wrap(checkpoint::serialize<T>(*static_cast<T*>(p))); }
  static void* des(char* b) { return checkpoint::deserialize<T>(b).release(); }
  static void* desResult(void* p) { return checkpoint::deserialize<T>(checkpoint::serialize<T>(*static_cast<T*>(p))).release(); }
  static void* desInto(char* b, char* o) { return checkpoint::deserialize<T>(b, o); }
  static void desIn(char* b, void* o) { checkpoint::deserializeInPlace<T>(b, static_cast<T*>(o)); }
#endif
  static void destroyAt(void* p) { static_cast<T*>(p)->~T(); }
  static size_t capacity(void const* p) { if constexpr (IsVec<T>::value) return static_cast<T const*>(p)->capacity(); else { (void)p; return 0; } }
#ifdef OPS_FILE
  static void toFile(void* p, std::string const& f) { checkpoint::serializeToFile<T>(*static_cast<T*>(p), f); }
  static void* fromFile(std::string const& f) { return checkpoint::deserializeFromFile<T>(f).release(); }
  static void inFile(std::string const& f, void* p) { checkpoint::deserializeInPlaceFromFile<T>(f, static_cast<T*>(p)); }
#endif
#ifdef OPS_STREAM
  template <class S> static void toS(void* p, std::ostream& s) { checkpoint::serializeToStream<T>(*static_cast<T*>(p), dynamic_cast<S&>(s)); }
  template <class S> static void* fromS(std::istream& s) { return checkpoint::deserializeFromStream<T>(dynamic_cast<S&>(s)).release(); }
  template <class S> static void inS(std::istream& s, void* p) { checkpoint::deserializeInPlaceFromStream<T>(dynamic_cast<S&>(s), static_cast<T*>(p)); }
#endif
#ifdef OPS_FOOT
  static size_t footprint(void* p, size_t o) { return checkpoint::getMemoryFootprint<T>(*static_cast<T*>(p), o); }
#endif
#ifdef OPS_TRAV
  static void travPack(void* p, Trace& t) { checkpoint::dispatch::Traverse::with<T, vt::RecPacker>(*static_cast<T*>(p), &t); }
  static void travSize(void* p, Trace& t) { checkpoint::dispatch::Traverse::with<T, vt::RecSizer>(*static_cast<T*>(p), &t); }
  static void travLook(void* p, Trace& t) { checkpoint::dispatch::Traverse::with<T, vt::RecLooker>(*static_cast<T*>(p), &t); }
  static void travUnpack(void* p, char const* b, size_t n, Trace& t) { checkpoint::dispatch::Traverse::with<T, vt::RecUnpacker>(*static_cast<T*>(p), &t, b, n); }
#endif
  static int reg() {
    static std::string const* name = new std::string(typeName<T>());
    TypeOps o{}; o.name = name->c_str(); if (name->size() > 150) o.name = (new std::string(name->substr(0, 130) + "...~" + std::to_string(hashStr(*name) % 1000000)))->c_str(); o.size = sizeof(T); o.align = alignof(T); o.group = VR_STR(GROUP);
    o.poly = name->find("vt::Shape") != std::string::npos || name->find("vt::Animal") != std::string::npos || name->find("tk::Base") != std::string::npos || name->find("vk::P") != std::string::npos || name->find("vk::Q0") != std::string::npos || (GROUP >= 12 && GROUP <= 14);
#if GROUP >= 12 && GROUP <= 14
    o.expect = [](void const* p, void* out) { vp::walk(*static_cast<vp::Out*>(out), *static_cast<T const*>(p), true); };
#endif
    o.hashed = name->find("unordered") != std::string::npos;
    o.stableImage = name->find("unordered") == std::string::npos && name->find("long double") == std::string::npos && name->find("Plain") == std::string::npos && name->find("ManyKinds") == std::string::npos && name->find("Graph") == std::string::npos
      && name->find("variant<int, double>") == std::string::npos && name->find("variant<vt::ByteTrait") == std::string::npos;   // padding, hash order
    o.make = make; o.destroy = destroy; o.diff = diff; o.fresh = fresh; o.destroyAt = destroyAt; o.capacity = IsVec<T>::value ? capacity : nullptr;
#ifdef OPS_IMAGE
    o.getSize = getSize; o.serNoCb = serNoCb;
#endif
#ifdef OPS_MEM
    o.getSize = getSize; o.ser = ser; o.serNoCb = serNoCb; o.des = des; o.desResult = desResult; o.desInto = desInto; o.desIn = desIn;
#endif
#ifdef OPS_FILE
    o.toFile = toFile; o.fromFile = fromFile; o.inFile = inFile;
#endif
#ifdef OPS_STREAM
    o.toStream[0] = toS<std::ostream>; o.fromStream[0] = fromS<std::istream>; o.inStream[0] = inS<std::istream>;
#ifdef OPS_STREAMS_ALL
    o.toStream[1] = toS<std::stringstream>; o.fromStream[1] = fromS<std::stringstream>; o.inStream[1] = inS<std::stringstream>;
    o.toStream[2] = toS<std::ofstream>; o.fromStream[2] = fromS<std::ifstream>; o.inStream[2] = inS<std::ifstream>;
    o.toStream[3] = toS<std::ostringstream>; o.fromStream[3] = fromS<std::istringstream>; o.inStream[3] = inS<std::istringstream>;
    o.toStream[4] = toS<std::fstream>; o.fromStream[4] = fromS<std::fstream>; o.inStream[4] = inS<std::fstream>;
#endif
#endif
#ifdef OPS_FOOT
    o.footprint = footprint;
#endif
#ifdef OPS_FOOTMODEL
    o.footModel = [](void const* p) { return vt::foot(*static_cast<T const*>(p)); };
    o.grow = [](void* p, uint64_t s) { vt::Rng r(s); return vt::Grow<T>::add(*static_cast<T*>(p), r); };
#endif
#ifdef OPS_TRAV
    o.travPack = travPack; o.travSize = travSize; o.travLook = travLook; o.travUnpack = travUnpack;
#endif
    ops().push_back(o); return 0;
  }
};
#if defined(OPS_TRAV) && defined(VT_HIERARCHIES)
template <class... C> void inst(vt::TL<C...>) { (checkpoint::instantiateObjSerializer<C, vt::RecPacker, vt::RecSizer, vt::RecLooker, vt::RecUnpacker>(), ...); }
int inst_ = (inst(vt::TL<vt::Shape, vt::Circle, vt::Poly, vt::Ring, vt::Animal, vt::Dog, vt::Cat, vt::Lion>{}), 0);
#endif
template <class... T> int regAll(vt::TL<T...>) { return (T_<T>::reg() + ... + 0); }
int done_ = regAll(vt::Types{});
}
