// C18: Kokkos views and containers, over a stand-in for Kokkos.
#include "ops.h"
#include "run.h"
#define GROUP 60
#include "groups.h"
#include <sanitizer/allocator_interface.h>
using namespace vr;
static long liveMem = 0;
static void onMalloc(void const volatile* p, size_t) { if (p) liveMem++; }
static void onFree(void const volatile* p) { if (p) liveMem--; }
static long before() { Kokkos::fence(); return kokkos_standin::stats().live; }
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 18); long bud = i % 9 == 8 ? 900 : 120;
  long live = before();
  try {
    phase("make"); Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud));
    auto same = [&](void* o, char const* w) { if (!o) { fail(std::string("null result: ") + w, ""); return; } std::string d = t.diff(ref.p, o); if (!d.empty()) fail(std::string("not equal: ") + w, d); count("objects compared"); };
    { std::string d = t.diff(ref.p, v.p); if (!d.empty()) { fail("harness: generator is not deterministic", d); return; } }
    phase("size"); size_t sz = t.getSize(v.p);
    phase("serialize"); Result im = t.serNoCb(v.p); noteImage(t, i, im.buf, im.size); same(v.p, "source after serialize");
    if (sz != im.size) fail("size differs from the image", std::to_string(sz) + "/" + std::to_string(im.size));
    std::string bytes = str(im);
    { phase("serialize to caller memory"); std::unique_ptr<char[]> m; size_t asked = 0; Result x = t.ser(v.p, [&](size_t n) { asked = n; m.reset(new char[n ? n : 1]); memset(m.get(), 0x5A, n); return m.get(); }); if (asked != bytes.size() || str(x) != bytes) fail("image in caller memory differs", firstDiff(bytes, str(x))); }
    { phase("twin"); std::string b2 = str(t.serNoCb(ref.p)); if (b2 != bytes && t.stableImage) fail("equally built objects give different images", firstDiff(bytes, b2)); }
    { Exact e(bytes); phase("deserialize"); Obj o(t, t.des(e.p)); same(o.p, "new object");
      phase("second generation"); if (t.stableImage) { std::string b2 = str(t.serNoCb(o.p)); Obj o2(t, t.des(&b2[0])); same(o2.p, "second generation"); } }
    { Exact e(bytes); phase("caller storage"); Storage m(t); void* o = t.desInto(e.p, m.p); same(o, "caller storage"); t.destroyAt(o); }
    { Exact e(bytes); phase("in place"); Obj o(t, i % 2 ? t.make(sd ^ 99, bud) : t.fresh()); t.desIn(e.p, o.p); same(o.p, i % 2 ? "in place over another value" : "in place into a fresh object"); }
    { phase("from result"); Obj o(t, t.desResult(v.p)); same(o.p, "from result object"); }
    { phase("stream"); std::stringstream s; s << "ab"; t.toStream[0](v.p, s); s << "tail"; s.get(); s.get(); Obj o(t, t.fromStream[0](s)); same(o.p, "stream"); std::string rest(4, 0); s.read(&rest[0], 4); if (rest != "tail" || s.str().size() != bytes.size() + 6) fail("stream position after reading", rest); }
    if (i % 4 == 0) { phase("file"); std::string f = opt().dir + "/k"; t.toFile(v.p, f); if (slurp(f) != bytes) fail("file differs from the image", firstDiff(bytes, slurp(f))); Obj o(t, t.fromFile(f)); same(o.p, "file"); Obj q(t, t.make(sd ^ 98, bud)); t.inFile(f, q.p); same(q.p, "in place from file"); }
    if (i % 4 == 1) { phase("footprint"); (void)t.footprint(v.p, 0); same(v.p, "source after footprint"); }
    { phase("memory ledger"); Exact e(bytes); std::stringstream s; s << bytes; Storage m(t); Obj w(t, t.fresh()); long k[6]; k[0] = liveMem; { Result x = t.serNoCb(v.p); } k[1] = liveMem; t.destroy(t.des(e.p)); k[2] = liveMem; t.destroyAt(t.desInto(e.p, m.p)); k[3] = liveMem; t.destroy(t.fromStream[0](s)); k[4] = liveMem; (void)t.getSize(v.p); k[5] = liveMem;
      static char const* const w5[] = {"serialize", "deserialize", "deserialize into caller storage", "read from stream", "size"}; for (int j = 0; j < 5; j++) if (k[j + 1] != k[j]) fail(std::string("memory not given back: ") + w5[j], std::to_string(k[j + 1] - k[j])); count("memory balances", 5); }
    same(v.p, "source at the end");
  } catch (kokkos_standin::Misuse const& e) { fail("Kokkos misused", e.what()); }
  catch (std::exception const& e) { fail("exception", e.what()); }
  long after = before(); if (after != live) fail("allocations behind views left over", std::to_string(after - live)); count("ledger balances");
}
// ---- the partial transfers
using namespace checkpoint;
template <class V> static V view(uint64_t s) { Rng r(s); vt::Budget b; b.left = 300; return vt::Gen<V>::make(r, b); }
template <class V> static void extentOnly(int i) {
  std::string id = "extents of " + typeName<V>() + "#" + std::to_string(i); if (!wanted(id)) return; beginCase(id); uint64_t sd = caseSeed(id, 3); long live = before();
  try {
    V v = view<V>(sd), keep = view<V>(sd), w = view<V>(sd ^ 5), alias = w; std::string before = "x";
    Sizer sz; serializeExtentOnly(sz, v, "given"); Packer p(sz.getSize()); serializeExtentOnly(p, v, "given"); auto buf = p.extractPackedBuffer();
    { std::string d = vt::diff(keep, v); if (!d.empty()) fail("source changed", d); }
    Exact e(buf->getBuffer(), buf->getSize()); Unpacker u(e.p); serializeExtentOnly(u, w, "given");
    for (unsigned k = 0; k < V::rank(); k++) if (w.extent(k) != v.extent(k)) fail("extent differs", std::to_string(k) + ": " + std::to_string(v.extent(k)) + "/" + std::to_string(w.extent(k)));
    if (w.label() != "given") fail("label differs", w.label());
    if (sz.getSize() > 1000) fail("extents take as much as the data", std::to_string(sz.getSize()));
    { std::string d = vt::diff(alias, view<V>(sd ^ 5)); if (!d.empty()) fail("another view of the old data changed", d); }
    distinct(hashBytes(e.p, e.n, hashStr(id.substr(0, id.find('#')))));
  } catch (std::exception const& e) { fail("exception", e.what()); }
  long after = before(); if (after != live) fail("allocations behind views left over", std::to_string(after - live));
}
template <class V> static void contentsOnly(int i) {
  std::string id = "contents of " + typeName<V>() + "#" + std::to_string(i); if (!wanted(id)) return; beginCase(id); uint64_t sd = caseSeed(id, 4); long live = before();
  try {
    V v = view<V>(sd), keep = view<V>(sd), w = view<V>(sd), alias = w; bool shared = w.use_count() > 0;
    Sizer sz; serializeContentsOnly(sz, v); Packer p(sz.getSize()); serializeContentsOnly(p, v); auto buf = p.extractPackedBuffer(); if (p.usedBufferSize() != sz.getSize()) fail("size differs from what was packed", "");
    { std::string d = vt::diff(keep, v); if (!d.empty()) fail("source changed", d); }
    if (w.st.base) vt::each(w.st, [&](size_t o) { w.st.base[o] = {}; });
    Exact e(buf->getBuffer(), buf->getSize()); Unpacker u(e.p); serializeContentsOnly(u, w);
    { std::string d = vt::diff(keep, w); if (!d.empty()) fail("not equal: contents", d); }
    if (shared) { std::string d = vt::diff(keep, alias); if (!d.empty()) fail("the other views of the same data do not see the contents", d); if (w.st.base != alias.st.base) fail("the view was moved to other memory", ""); }
    distinct(hashBytes(e.p, e.n, hashStr(id.substr(0, id.find('#')))));
  } catch (std::exception const& e) { fail("exception", e.what()); }
  long after = before(); if (after != live) fail("allocations behind views left over", std::to_string(after - live));
}
template <class... V> static void partial(vt::TL<V...>, int n) { for (int i = 0; i < n; i++) (contentsOnly<V>(i), ...); }
template <class... V> static void partialExt(vt::TL<V...>, int n) { for (int i = 0; i < n; i++) (extentOnly<V>(i), ...); }
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  for (auto& t : ops()) { int n = cases(16, 600); for (int i = 0; i < n; i++) one(t, i); }
  namespace K = Kokkos; using K::View; using K::LayoutLeft; using K::LayoutStride;
  partialExt(vt::TL<View<int*>, View<double**>, View<float***, LayoutLeft>, View<char****>, View<int**, LayoutLeft>, View<std::string*>, View<int*, vt::Dev>>{}, cases(20, 400));
  partial(vt::TL<View<int*>, View<double**, LayoutLeft>, View<float***, LayoutStride>, View<std::string**>, View<int*[3]>, View<double**, LayoutLeft, vt::Dev>, View<int>>{}, cases(20, 400));
  count("allocations made by views", uint64_t(kokkos_standin::stats().allocations)); count("device allocations", uint64_t(kokkos_standin::stats().device_allocations)); count("deep copies", uint64_t(kokkos_standin::stats().deep_copies)); count("deep copies left to a fence", uint64_t(kokkos_standin::stats().deferred));
  return finish();
}
