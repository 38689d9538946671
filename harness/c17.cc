// C17: images are position independent, need no alignment, hold no addresses.
#include "ops.h"
#include "run.h"
using namespace vr;
static std::vector<void*> churn;                            // keeps the heap in a different state each time
static void stir(Rng& r) { for (int k = 0; k < 8; k++) { if (churn.size() > 60) { size_t j = r.below(churn.size()); free(churn[j]); churn.erase(churn.begin() + long(j)); } void* p = malloc(1 + r.below(3000)); memset(p, int(r.below(256)), 1); churn.push_back(p); } }
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 17); long bud = i % 9 == 8 ? 2000 : 250;
  try {
    Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud)); Result im = t.serNoCb(v.p); std::string bytes = str(im); noteImage(t, i, im.buf, im.size); im.owner.reset();
    // every alignment, exact end, both heap and a mapping whose next page is unmapped
    int start = int(r.below(4));
    for (int a = start; a < 16; a += 1 + int(r.below(4))) {
      std::unique_ptr<char[]> m(new char[bytes.size() + size_t(a)]); char* p = m.get() + a; memcpy(p, bytes.data(), bytes.size());
      seen("source alignments", uint64_t(a)); count("relocations");
      auto same = [&](void* o, char const* w) { std::string d = t.diff(ref.p, o); if (!d.empty()) fail(std::string("not equal: ") + w, "alignment " + std::to_string(a) + ": " + d); };
      switch ((a + i) % 3) {
        case 0: { phase("new object, shifted bytes"); Obj o(t, t.des(p)); same(o.p, "new object"); break; }
        case 1: { phase("caller storage, shifted bytes"); Storage s(t); void* o = t.desInto(p, s.p); same(o, "caller storage"); t.destroyAt(o); break; }
        default: { phase("in place, shifted bytes"); Obj o(t, t.fresh()); t.desIn(p, o.p); same(o.p, "in place"); }
      }
    }
    { phase("bytes at the end of read-only pages"); size_t L = (bytes.size() + 4095) / 4096 * 4096; char* b = static_cast<char*>(mmap(nullptr, L + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); char* p = b + L - bytes.size(); memcpy(p, bytes.data(), bytes.size()); mprotect(b, L, PROT_READ); mprotect(b + L, 4096, PROT_NONE);
      Obj o(t, t.des(p)); std::string d = t.diff(ref.p, o.p); if (!d.empty()) fail("not equal: read-only pages", d); munmap(b, L + 4096); }
    // caller buffers of any alignment
    { int a = 1 + int(r.below(15)); phase("serialize to a shifted caller buffer"); std::unique_ptr<char[]> m; Result x = t.ser(v.p, [&](size_t n) { m.reset(new char[n + size_t(a)]); return m.get() + a; }); if (x.size != bytes.size() || memcmp(x.buf, bytes.data(), x.size)) fail("image in a shifted caller buffer differs", firstDiff(bytes, str(x))); }
    // no addresses: another object built the same way, elsewhere
    if (t.stableImage) { stir(r); phase("twin"); std::vector<Obj> keep; for (int k = 0; k < 2; k++) keep.emplace_back(t, t.make(sd + 7, 40)); Obj tw(t, t.make(sd, bud)); std::string b2 = str(t.serNoCb(tw.p)); if (b2 != bytes) fail("equally built objects give different images", firstDiff(bytes, b2)); count("twins compared"); }
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(20, 500); for (int i = 0; i < n; i++) one(t, i); }
  for (auto p : churn) free(p);
  return finish();
}
