// C01: round trip through memory.
#include "ops.h"
#include "run.h"
using namespace vr;
static void one(TypeOps const& t, int i) {
  std::string id = std::string(t.name) + "#" + std::to_string(i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i));
  long budget = i % 9 == 8 ? 4000 : 500;
  try {
    Obj v(t, t.make(sd, budget)), ref(t, t.make(sd, budget));
    phase("serialize"); Result im = t.serNoCb(v.p);
    noteImage(t, i, im.buf, im.size);
    auto same = [&](void const* p, char const* what) { if (!p) { fail(std::string("null result: ") + what, ""); return; } std::string d = t.diff(ref.p, p); if (!d.empty()) fail(std::string("not equal: ") + what, d); };
    phase("deserialize"); { Obj o(t, t.des(im.buf)); same(o.p, "new object");
      if (t.capacity && o.p && t.capacity(o.p) < t.capacity(v.p)) fail("vector capacity", std::to_string(t.capacity(v.p)) + " restored as " + std::to_string(t.capacity(o.p))); }
    if (i % 4 == 1) { phase("deserialize into caller storage"); char* mem = static_cast<char*>(aligned_alloc(t.align < 16 ? 16 : t.align, (t.size + 31) / 16 * 16)); memset(mem, 0xA5, t.size);
      void* o = t.desInto(im.buf, mem); if (o != mem) fail("result is not in the caller's storage", ""); same(o, "caller storage"); t.destroyAt(o); free(mem); }
    if (i % 4 == 2) { phase("deserialize from result"); Obj o(t, t.desResult(v.p)); same(o.p, "from result object"); }
    if (i % 4 == 3) { phase("second generation"); Obj o(t, t.des(im.buf)); Result im2 = t.serNoCb(o.p); Obj o2(t, t.des(im2.buf)); same(o2.p, "second generation"); }
    if (i % 4 == 0) { phase("deserialize in place into fresh"); Obj o(t, t.fresh()); t.desIn(im.buf, o.p); same(o.p, "in place into a fresh object"); }
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(60, 1200); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
