// User-defined traversers that record what they are shown.
#pragma once
#include "ops.h"
#include <checkpoint/checkpoint.h>
namespace vt {
template <class Tr> struct RecBase : checkpoint::BaseSerializer {
  vr::Trace* t;
  RecBase(ModeType m, vr::Trace* x) : checkpoint::BaseSerializer(m), t(x) {}
};
struct RecPacker : checkpoint::BaseSerializer {
  vr::Trace* t; explicit RecPacker(vr::Trace* x) : checkpoint::BaseSerializer(ModeType::Packing), t(x) {}
  void contiguousBytes(void* p, size_t e, size_t n) { t->leaves.push_back({e, n}); t->bytes.append(static_cast<char*>(p), e * n); }
};
struct RecSizer : checkpoint::BaseSerializer {
  vr::Trace* t; explicit RecSizer(vr::Trace* x) : checkpoint::BaseSerializer(ModeType::Sizing), t(x) {}
  void contiguousBytes(void*, size_t e, size_t n) { t->leaves.push_back({e, n}); }
};
struct RecLooker : checkpoint::BaseSerializer {
  vr::Trace* t; explicit RecLooker(vr::Trace* x) : checkpoint::BaseSerializer(ModeType::None), t(x) {}
  void contiguousBytes(void* p, size_t e, size_t n) { t->leaves.push_back({e, n}); t->bytes.append(static_cast<char*>(p), e * n); }
};
struct RecUnpacker : checkpoint::BaseSerializer {
  vr::Trace* t; char const* b; size_t left; RecUnpacker(vr::Trace* x, char const* bb, size_t n) : checkpoint::BaseSerializer(ModeType::Unpacking), t(x), b(bb), left(n) {}
  void contiguousBytes(void* p, size_t e, size_t n) {
    t->leaves.push_back({e, n}); size_t k = e * n; if (k > left) { t->outside = true; throw std::runtime_error("traverser was asked for more bytes than the image holds"); }
    memcpy(p, b, k); b += k; left -= k;
  }
};
} // namespace vt
