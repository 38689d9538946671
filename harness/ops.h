// A type-erased table of library operations, one entry per type. The type lists are compiled into group
// translation units; every check is ordinary code over these tables.
#pragma once
#include "rt.h"
#include <memory>
#include <iosfwd>
#include <stdexcept>

namespace vr {

// What a recording traverser saw: one entry per contiguousBytes call.
struct Leaf { uint64_t elem, num; };
struct Trace { std::vector<Leaf> leaves; std::string bytes; std::vector<std::string> types; bool outside = false; };

struct Result {                       // a serialized image and who owns it
  std::shared_ptr<void> owner; char* buf = nullptr; size_t size = 0;
};

struct TypeOps {
  char const* name; size_t size, align; char const* group;
  bool poly, stableImage, hashed;             // stableImage: building the value twice gives the same image
  void* (*make)(uint64_t seed, long budget);
  void (*destroy)(void*);
  std::string (*diff)(void const*, void const*);
  void* (*fresh)();                   // a default value (or what the class offers instead), to deserialize into
  // memory
  size_t (*getSize)(void*) = nullptr;
  Result (*ser)(void*, std::function<char*(size_t)>) = nullptr;
  Result (*serNoCb)(void*) = nullptr;
  void* (*des)(char*) = nullptr;
  void* (*desResult)(void*) = nullptr;             // serialize and hand the result object over
  void* (*desInto)(char*, char*) = nullptr;
  void (*desIn)(char*, void*) = nullptr;
  void (*destroyAt)(void*) = nullptr;
  size_t (*capacity)(void const*) = nullptr;       // null unless a vector
  // file
  void (*toFile)(void*, std::string const&) = nullptr;
  void* (*fromFile)(std::string const&) = nullptr;
  void (*inFile)(std::string const&, void*) = nullptr;
  // streams, by standard type: 0 ostream/istream, 1 stringstream, 2 ofstream/ifstream, 3 ostringstream/istringstream, 4 fstream
  void (*toStream[5])(void*, std::ostream&) = {};
  void* (*fromStream[5])(std::istream&) = {};
  void (*inStream[5])(std::istream&, void*) = {};
  // footprint
  size_t (*footprint)(void*, size_t) = nullptr;
  size_t (*footModel)(void const*) = nullptr;      // what the accounting model says
  bool (*grow)(void*, uint64_t) = nullptr;         // adds an element
  void (*expect)(void const*, void*) = nullptr;    // hierarchies: the calls a traversal must make (a vp::Out)
  // user traversers
  void (*travPack)(void*, Trace&) = nullptr;
  void (*travSize)(void*, Trace&) = nullptr;
  void (*travLook)(void*, Trace&) = nullptr;                           // mode None
  void (*travUnpack)(void*, char const*, size_t, Trace&) = nullptr;    // into an existing object
};
std::vector<TypeOps>& ops();
struct OpsReg { explicit OpsReg(TypeOps const& o) { ops().push_back(o); } };

// objects handled through the table
struct Obj {
  TypeOps const* t; void* p;
  Obj(TypeOps const& o, void* q) : t(&o), p(q) {}
  Obj(Obj const&) = delete; Obj(Obj&& o) : t(o.t), p(o.p) { o.p = nullptr; }
  ~Obj() { if (p) t->destroy(p); }
};
} // namespace vr
