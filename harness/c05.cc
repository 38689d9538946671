// C05: pure, repeatable, independent.
#include "ops.h"
#include "run.h"
#include <sys/stat.h>
using namespace vr;
// memory that can be made read-only
struct Sealed {
  char* base; char* p; size_t len;
  Sealed(std::string const& s, size_t shift) { len = (s.size() + shift + 8191) / 4096 * 4096; base = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); p = base + shift; memcpy(p, s.data(), s.size()); mprotect(base, len, PROT_READ); }
  ~Sealed() { munmap(base, len); }
};
// takes a number of bytes, then fails; the stream reports that as an exception
struct FullSink : std::streambuf {
  size_t left; explicit FullSink(size_t n) : left(n) {}
  std::streamsize xsputn(char const*, std::streamsize n) override { size_t k = size_t(n) < left ? size_t(n) : left; left -= k; return std::streamsize(k); }
  int_type overflow(int_type c) override { if (!left) return traits_type::eof(); left--; return traits_type::not_eof(c); }
};
static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i)); Rng r(sd ^ 5); long bud = i % 9 == 8 ? 2500 : 300;
  try {
    auto v = std::make_unique<Obj>(t, t.make(sd, bud)); Obj ref(t, t.make(sd, bud));
    std::string first, f = opt().dir + "/f"; std::vector<int> hist; size_t foot = 0;
    size_t cap = t.capacity ? t.capacity(v->p) : 0;
    int n = 4 + int(r.below(5));
    for (int k = 0; k < n; k++) {
      std::string im; int op = int(r.below(8)); hist.push_back(op); bool image = true;
      switch (op) {
        case 0: { phase("getSize"); size_t s = t.getSize(v->p); if (!first.empty() && s != first.size()) fail("repeated size differs", std::to_string(s)); image = false; break; }
        case 1: { phase("serialize"); im = str(t.serNoCb(v->p)); break; }
        case 2: { phase("serialize to caller memory"); std::vector<char> m; Result x = t.ser(v->p, [&](size_t z) { m.resize(z + 1); return m.data(); }); im = str(x); break; }
        case 3: { phase("to file"); t.toFile(v->p, f); im = slurp(f); break; }
        case 4: { phase("to stream"); std::ostringstream o; t.toStream[0](v->p, o); im = o.str(); break; }
        case 5: { // an operation that fails half-way must leave the object alone as well
          phase("to a stream that fails"); size_t z = t.getSize(v->p); FullSink sink(z ? r.below(z) : 0); std::ostream o(&sink); o.exceptions(std::ios::badbit | std::ios::failbit);
          try { t.toStream[0](v->p, o); } catch (...) { count("writes failed half-way"); } image = false; break; }
        case 6: { phase("callback that throws"); struct No {}; try { t.ser(v->p, [](size_t) -> char* { throw No{}; }); } catch (...) {} image = false; break; }
        default: { phase("footprint"); size_t z = t.footprint(v->p, 0); if (foot && z != foot) fail("repeated footprint differs", ""); foot = z; image = false; }
      }
      if (image) { if (first.empty()) first = im; else if (im != first) fail("repeated output differs", firstDiff(first, im)); }
      std::string d = t.diff(ref.p, v->p); if (!d.empty()) { fail("source object changed", d); return; }
      if (t.capacity && t.capacity(v->p) != cap) fail("source vector capacity changed", "");
    }
    if (first.empty()) first = str(t.serNoCb(v->p));
    uint64_t hh = 0; for (int o : hist) hh = hh * 7 + uint64_t(o) + 1; seen("operation histories", hh); noteImage(t, i, first.data(), first.size());
    // the same bytes, read-only, several times
    auto sealed = std::make_unique<Sealed>(first, r.below(8));
    phase("deserialize from read-only memory"); Obj a(t, t.des(sealed->p)), b(t, t.des(sealed->p)); Obj c(t, t.fresh()); phase("in place from read-only memory"); t.desIn(sealed->p, c.p);
    if (std::string(sealed->p, first.size()) != first) fail("serialized bytes changed", "");
    phase("from read-only file"); { spit(f, first); chmod(f.c_str(), 0400); Obj x(t, t.fromFile(f)), y(t, t.fromFile(f)); if (slurp(f) != first) fail("reading changed the file", ""); if (!t.diff(ref.p, x.p).empty() || !t.diff(ref.p, y.p).empty()) fail("not equal: repeated from a file", ""); chmod(f.c_str(), 0600); unlink(f.c_str()); }
    // independence: the bytes go away, the source goes away, one copy is overwritten and destroyed
    phase("independence"); sealed.reset(); v.reset();
    auto same = [&](void* p, char const* w) { std::string d = t.diff(ref.p, p); if (!d.empty()) fail(std::string("not equal after ") + w, d); };
    same(a.p, "bytes and source were destroyed"); same(b.p, "bytes and source were destroyed"); same(c.p, "bytes and source were destroyed");
    if (!t.poly) { Obj o(t, t.make(sd + 1, 60)); Result im = t.serNoCb(o.p); t.desIn(im.buf, b.p); } else { Obj gone(t, b.p); b.p = nullptr; }
    same(a.p, "another copy was changed"); same(c.p, "another copy was changed");
  } catch (std::exception const& e) { fail("exception", e.what()); }
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(20, 500); for (int i = 0; i < n; i++) one(t, i); }
  return finish();
}
