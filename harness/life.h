// Ledger of objects, memory and descriptors around one library operation (C07, C09).
#pragma once
#include "ops.h"
#include "run.h"
#include "tracked.h"
#include <dirent.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#endif
#endif

namespace tk { Ledger L; }
static long liveAllocs = 0;
static long const traceN = 1 << 16; static void const* traceTab[traceN]; static bool tracing = false;
static void onMalloc(void const volatile* p, size_t) { if (p) liveAllocs++; }
static void onFree(void const volatile* p) { if (p) liveAllocs--; }
static void installHooks() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }
void* operator new(size_t n) { tk::L.point(tk::Memory); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { tk::L.point(tk::Memory); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

inline int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
inline int mapsOf(std::string const& what) { FILE* f = fopen("/proc/self/maps", "r"); char l[4400]; int n = 0; while (fgets(l, sizeof l, f)) if (strstr(l, what.c_str())) n++; fclose(f); return n; }

struct Snap { long live, allocs, errors; int fds; static Snap now(bool files) { Snap s; s.fds = files ? openFds() : 0; s.live = tk::L.live; s.allocs = liveAllocs; s.errors = tk::L.errors; return s; } };
enum Op { oSize, oSer, oSerUser, oDes, oDesInto, oDesIn, oDesResult, oToFile, oFromFile, oInFile, oToStream, oFromStream, oInStream, oFoot, NOps };
static char const* const opName[] = {"size", "serialize", "serialize to caller memory", "deserialize", "deserialize into caller storage", "deserialize in place", "deserialize from result", "write to file", "read from file", "in place from file", "write to stream", "read from stream", "in place from stream", "footprint"};
inline bool isFile(int o) { return o >= oToFile && o <= oInFile; }
