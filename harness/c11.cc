// C11: what one process writes, another process of the same executable restores.  Roles: write, read.
#include "ops.h"
#include "run.h"
#include <algorithm>
#include <thread>
using namespace vr;
static std::string kv(char const* k) { auto i = opt().kv.find(k); return i == opt().kv.end() ? "" : i->second; }
// a past of its own: which types were used first, in which order, by which thread, and where memory happens to be
static std::vector<void*> ballast;
static void past(int hist) {
  Rng r(mix(uint64_t(hist) * 7919 + opt().seed)); auto& T = ops(); if (hist == 0) return;        // no past at all
  for (int i = 0; i < 200; i++) { void* p = malloc(1 + r.below(5000)); if (r.chance(60)) free(p); else ballast.push_back(p); }
  std::vector<size_t> order(T.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
  if (hist % 4 == 1) std::reverse(order.begin(), order.end()); else for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  if (hist % 3 == 0) order.resize(order.size() / 3);                                               // most types not used before
  auto use = [&](size_t from, size_t to) {
    for (size_t k = from; k < to; k++) {
      auto& t = T[order[k]]; Obj o(t, t.make(r.next(), 30)); std::string f = opt().dir + "/past";
      switch (r.below(4)) {
        case 0: t.getSize(o.p); break;
        case 1: { Result s = t.serNoCb(o.p); Obj x(t, t.des(s.buf)); break; }
        case 2: { t.toFile(o.p, f); Obj x(t, t.fromFile(f)); break; }
        default: { auto& u = T[order[(k + 1) % order.size()]]; Obj v(u, u.make(r.next(), 10)); Result s = u.serNoCb(v.p); std::string img(s.buf, s.size); try { std::istringstream is(img); if (&u != &t) { Obj x(t, t.fromStream[0](is)); } } catch (std::exception const&) { count("failed reads in the past"); } }
      }
      count("operations in the past");
    }
  };
  size_t n = order.size();
  if (hist % 2) { for (size_t c = 0; c < 4; c++) std::thread([&, c] { use(n * c / 4, n * (c + 1) / 4); }).join(); count("threads in the past", 4); }
  else use(0, n);
}
static std::string path(int writer, TypeOps const& t, int i, char const* ext) { char b[64]; snprintf(b, sizeof b, "/w%d-%016llx-%d.%s", writer, (unsigned long long)hashStr(t.name), i, ext); return kv("--share") + b; }
static long budget(int i) { return i % 3 == 2 ? 300 : 30; }
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  int hist = atoi(kv("--hist").c_str()), writers = atoi(kv("--writers").c_str()); bool writing = kv("--role") == "write"; int n = cases(3, 25);
  beginCase("history " + kv("--hist")); past(hist);
  if (writing) {
    auto& T = ops(); size_t off = size_t(hist) * 13 % T.size();
    for (size_t k = 0; k < T.size(); k++) { auto& t = T[(k + off) % T.size()]; for (int i = 0; i < n; i++) {
      std::string id = idOf(t, i); beginCase(id + " written by " + kv("--hist")); Obj o(t, t.make(caseSeed(t.name, uint64_t(i)), budget(i)));
      t.toFile(o.p, path(hist, t, i, "f")); { std::ofstream s(path(hist, t, i, "s"), std::ios::binary); s << "head"; t.toStream[0](o.p, s); }
      std::string a = slurp(path(hist, t, i, "f")); noteImage(t, i, a.data(), a.size()); } }
    return finish();
  }
  for (int w = 0; w < writers; w++) for (auto& t : ops()) for (int i = 0; i < n; i++) {
    std::string id = idOf(t, i) + " written by process " + std::to_string(w) + " read by process " + std::to_string(hist); if (!wanted(id)) continue; beginCase(id); distinct(hashStr(id));
    Obj ref(t, t.make(caseSeed(t.name, uint64_t(i)), budget(i))); std::string f = path(w, t, i, "f"), im = slurp(f), d;
    try {
      phase("file"); { Obj x(t, t.fromFile(f)); d = t.diff(ref.p, x.p); if (!d.empty()) fail("not equal: file of another process", d); }
      phase("in place from file"); { Obj x(t, t.poly ? t.fresh() : t.make(99, 20)); t.inFile(f, x.p); d = t.diff(ref.p, x.p); if (!d.empty()) fail("not equal: file of another process, in place", d); }
      phase("stream"); { std::ifstream s(path(w, t, i, "s"), std::ios::binary); s.ignore(4); Obj x(t, t.fromStream[0](s)); d = t.diff(ref.p, x.p); if (!d.empty()) fail("not equal: stream of another process", d); }
      phase("memory"); { Exact e(im); Obj x(t, t.des(e.p)); d = t.diff(ref.p, x.p); if (!d.empty()) fail("not equal: bytes of another process", d); }
      count("objects restored", 4);
    } catch (std::exception const& e) { fail("image of another process rejected", e.what()); }
    std::string mine = str(t.serNoCb(ref.p)), theirs = slurp(path(w, t, i, "s"));
    if (theirs.substr(0, 4) != "head" || theirs.size() != mine.size() + 4) fail("stream image of another length", std::to_string(theirs.size()) + " " + std::to_string(mine.size()));
    if (t.stableImage) { count("images compared"); if (mine != im) fail("image differs between processes", firstDiff(mine, im)); if (theirs.substr(4) != mine) fail("stream image differs between processes", firstDiff(theirs.substr(4), mine)); }
  }
  sample(std::to_string(ops().size()) + " types x " + std::to_string(n) + " values by " + std::to_string(writers) + " writers, read by process " + std::to_string(hist) + " whose past used " + (hist % 3 == 0 ? "a third of" : "all") + " the types in " + (hist % 4 == 1 ? "reverse" : "a random") + " order" + (hist % 2 ? " by four threads" : ""));
  return finish();
}
