// C13: every object is built by the means its class asks for, before its serialize is called.
#include "ops.h"
#include "run.h"
#include "cons13.h"
using namespace vr;
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); long bud = i % 7 == 6 ? 600 : 120;
  auto& M = vk::mon();
  try {
    Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud)); Result im = t.serNoCb(v.p); noteImage(t, i, im.buf, im.size);
    M.unpacked.clear(); M.found.clear();
    auto check = [&](void* p, char const* w, bool inPlace = false) {
      if (!p) { fail(std::string("null result: ") + w, ""); return; } M.on = true; M.keepUser = inPlace; std::string d = t.diff(ref.p, p); M.on = false; if (!d.empty()) fail(d.find("built by") != std::string::npos ? std::string("built by the wrong means: ") + w : std::string("not equal: ") + w, d);
      if (M.early) { fail(std::string("serialize before construction: ") + w, ""); M.early = 0; } };
    phase("deserialize"); { Obj o(t, t.des(im.buf)); check(o.p, "new object"); }
    phase("caller storage"); { Storage m(t); void* o = t.desInto(im.buf, m.p); check(o, "caller storage"); t.destroyAt(o); }
    switch (i % 5) {
      case 0: { phase("from result"); Obj o(t, t.desResult(v.p)); check(o.p, "from result object"); break; }
      case 1: { phase("second generation"); Obj o(t, t.des(im.buf)); Result im2 = t.serNoCb(o.p); Obj o2(t, t.des(im2.buf)); check(o2.p, "second generation"); break; }
      case 2: if (t.toStream[0]) { phase("stream"); std::stringstream s; t.toStream[0](v.p, s); Obj o(t, t.fromStream[0](s)); check(o.p, "stream"); } break;
      case 3: { phase("in place into a small object"); Obj o(t, t.poly ? t.fresh() : t.make(sd ^ 98, 3)); t.desIn(im.buf, o.p); check(o.p, "in place into a small object", true); break; }
      default: { phase("in place over another value"); if (!t.poly) { Obj o(t, t.make(sd ^ 99, bud)); t.desIn(im.buf, o.p); check(o.p, "in place over another value", true); } break; }
    }
    for (auto& k : M.found) { count(std::string("restored objects found built by ") + vk::Core::name(k.first), k.second); seen("means", uint64_t(k.first)); }
    for (auto& k : M.unpacked) count(std::string("serialize calls while unpacking, on objects built by ") + vk::Core::name(k.first), k.second);
    if (i == 3 && im.size > 60) { std::string m; for (auto& k : M.found) m += std::string(" ") + k.first + "x" + std::to_string(k.second); sample(id + ": objects found, by means:" + m); }
  } catch (std::exception const& e) { M.on = false; M.early = 0; fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(25, 800); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
