// C14: the footprint against its accounting model.
#include "ops.h"
#include "run.h"
using namespace vr;
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 9); long bud = i % 9 == 8 ? 4000 : i % 3 ? 300 : 40;
  try {
    Obj v(t, t.make(sd, bud)), ref(t, t.make(sd, bud)); size_t cap = t.capacity ? t.capacity(v.p) : 0;
    auto model = [&] { size_t m = t.footModel(v.p); return m < t.size ? t.size : m; };
    size_t m = model(); phase("footprint"); size_t f = t.footprint(v.p, 0);
    distinct(hashStr(t.name) ^ mix(f)); seen("footprints", f); seen("types", hashStr(t.name)); count("bytes accounted", f);
    if (i % 37 == 3) sample(id + ": footprint " + std::to_string(f) + ", size of the object " + std::to_string(t.size));
    if (f < t.size) fail("less than the size of the object", std::to_string(f) + " < " + std::to_string(t.size));
    if (f != m) fail("not what the model says", std::to_string(f) + ", model " + std::to_string(m));
    if (t.footprint(v.p, 0) != f) fail("different on a second call", "");
    size_t offs[] = {1, t.size, size_t(r.next() & 0xFFFFF), size_t(1) << 40};
    for (size_t o : offs) { size_t g = t.footprint(v.p, o); count("offsets"); if (g != f + o) fail("not additive in the offset", std::to_string(g) + " with offset " + std::to_string(o) + ", without " + std::to_string(f)); }
    std::string d = t.diff(ref.p, v.p); if (!d.empty()) fail("object changed", d);
    if (t.capacity && t.capacity(v.p) != cap) fail("vector capacity changed", "");
    // a longer container is not smaller (an unused place of a vector may count more than the parts of the object put there)
    phase("grow"); size_t last = f; for (int k = 0; k < 6; k++) { if (!t.grow(v.p, r.next())) break; size_t g = t.footprint(v.p, 0), w = model(); count("elements added"); if (!t.capacity && g < last) fail("shrank when an element was added", std::to_string(last) + " -> " + std::to_string(g)); if (g != w) fail("not what the model says", std::to_string(g) + " after growing, model " + std::to_string(w)); last = g; }
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(60, 3000); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
