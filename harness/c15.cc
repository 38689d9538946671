// C15: independent operations on different threads, from the very first use on.
#include "ops.h"
#include "run.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <sys/stat.h>
#include "types.h"
using namespace vr;
// visits other types when unpacking / fails in the middle
struct Liar { int a = 3; unsigned b = 4; template <class S> void serialize(S& s) { s | a; if (s.isUnpacking()) { float f = 0; s | f; } else s | b; } };
struct Throws { int n = 0; std::string t = "on the heap, because it is long enough"; template <class S> void serialize(S& s) { s | n | t; if (s.isUnpacking() && n % 3 == 0) throw std::runtime_error("user " + std::to_string(n)); } };
static int const NV = 3;                                             // values per type that the preparing process wrote
static std::string imageFile(size_t k, int v) { return opt().kv["--share"] + "/" + std::to_string(k) + "-" + std::to_string(v); }
static uint64_t valueSeed(TypeOps const& t, int v) { return caseSeed(t.name, uint64_t(v) + 5000); }
struct Shared { char* p = nullptr; size_t n = 0; };
static std::vector<std::vector<Shared>> shared_;
// an image in memory nobody may write to
static Shared load(std::string const& f) {
  std::string b = slurp(f); size_t pg = 4096, len = (b.size() + pg - 1) / pg * pg + pg; char* m = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  char* p = m + (len - pg) - b.size(); memcpy(p, b.data(), b.size()); mprotect(m, len, PROT_READ); mprotect(m + len - pg, pg, PROT_NONE); return {p, b.size()};
}
struct Rec { size_t type; int op; uint64_t seed; std::string got; };
enum { kSize, kSer, kSerUser, kRound, kInto, kIn, kFile, kInFile, kStream, kInStream, kFoot, kFootShared, kSharedNew, kSharedInto, kSharedIn, kBadMark, kWrongType, kShortStream, kEmptyFile, kNested, kUser, NK };
static char const* const kName[] = {"size", "serialize", "serialize to caller memory", "round trip", "caller storage", "in place", "file", "in place from file", "stream", "in place from stream", "footprint", "footprint of a restored object", "shared image", "shared image into storage", "shared image in place", "damaged mark", "wrong type", "short stream", "empty file", "nested disagreement", "user code throws"};
static std::string h(char const* b, size_t n) { return std::to_string(n) + ":" + std::to_string(hashBytes(b, n)); }
// one operation; its result as text ("ok" where it was compared with a regenerated object)
static std::string run(TypeOps const& t, size_t k, int op, uint64_t seed, std::string const& f) {
  auto& T = ops(); Rng r(seed); long bud = 60 + long(r.below(200)); auto same = [&](void const* want, void const* got) -> std::string { if (!got) return "null"; std::string d = t.diff(want, got); return d.empty() ? "ok" : "DIFFERENT " + d; };
  int v = int(seed % NV); Shared sh = shared_[k][size_t(v)];
  try {
    if (op <= kFoot) {
      Obj a(t, t.make(seed, bud)), ref(t, t.make(seed, bud)); auto src = [&](std::string s) { std::string d = t.diff(ref.p, a.p); return d.empty() ? s : "SOURCE CHANGED " + d; };
      switch (op) {
        case kSize: return std::to_string(t.getSize(a.p));
        case kSer: { Result im = t.serNoCb(a.p); return src(t.stableImage ? h(im.buf, im.size) : "ok"); }
        case kSerUser: { std::unique_ptr<char[]> m; size_t n = 0; t.ser(a.p, [&](size_t s) { n = s; m.reset(new char[s]); return m.get(); }); return src(t.stableImage ? h(m.get(), n) : std::to_string(n)); }
        case kRound: { Result im = t.serNoCb(a.p); Obj o(t, t.des(im.buf)); return src(same(ref.p, o.p)); }
        case kInto: { Result im = t.serNoCb(a.p); Storage m(t); void* o = t.desInto(im.buf, m.p); std::string s = same(ref.p, o); t.destroyAt(o); return s; }
        case kIn: { Result im = t.serNoCb(a.p); Obj o(t, t.fresh()); t.desIn(im.buf, o.p); return same(ref.p, o.p); }
        case kFile: { t.toFile(a.p, f); Obj o(t, t.fromFile(f)); return src(same(ref.p, o.p)); }
        case kInFile: { t.toFile(a.p, f); Obj o(t, t.fresh()); t.inFile(f, o.p); return same(ref.p, o.p); }
        case kStream: { std::stringstream s; t.toStream[0](a.p, s); Obj o(t, t.fromStream[0](s)); return src(same(ref.p, o.p)); }
        case kInStream: { std::stringstream s; t.toStream[0](a.p, s); Obj o(t, t.fresh()); t.inStream[0](s, o.p); return same(ref.p, o.p); }
        default: return src(std::to_string(t.footprint(a.p, 0)));
      }
    }
    Obj want(t, t.make(valueSeed(t, v), 200));
    switch (op) {
      case kFootShared: { Obj o(t, t.des(sh.p)); t.footprint(o.p, 3); return same(want.p, o.p); }
      case kSharedNew: { Obj o(t, t.des(sh.p)); return same(want.p, o.p); }
      case kSharedInto: { Storage m(t); void* o = t.desInto(sh.p, m.p); std::string s = same(want.p, o); t.destroyAt(o); return s; }
      case kSharedIn: { Obj o(t, t.fresh()); t.desIn(sh.p, o.p); return same(want.p, o.p); }
      case kBadMark: { std::string b(sh.p, sh.n); b[0] = char(b[0] ^ 0x55); Exact e(b); Obj o(t, t.des(e.p)); return "accepted"; }
      case kWrongType: { size_t k2 = (k + 1 + seed % (T.size() - 1)) % T.size(); Shared s2 = shared_[k2][0]; Obj o(t, t.des(s2.p)); return "accepted"; }
      case kShortStream: { std::istringstream s(std::string(sh.p, seed % (sh.n ? sh.n : 1))); Obj o(t, t.fromStream[0](s)); return "accepted"; }
      case kNested: {
#ifdef SERIALIZATION_ERROR_CHECKING
        std::vector<vt::Wrap<Liar>> v(1 + seed % 4); auto im = checkpoint::serialize(v); auto o = checkpoint::deserialize<std::vector<vt::Wrap<Liar>>>(im->getBuffer()); return "accepted";
#else
        return "threw (not checked in this configuration)";
#endif
      }
      case kUser: { std::vector<Throws> v(3); for (auto& x : v) x.n = int(seed % 1000) * 3; auto im = checkpoint::serialize(v); auto o = checkpoint::deserialize<std::vector<Throws>>(im->getBuffer()); return "accepted"; }
      default: { spit(f, ""); Obj o(t, t.fromFile(f)); return "accepted"; }
    }
  } catch (std::exception const& e) { std::string m = e.what(); size_t p; while ((p = m.find(f)) != std::string::npos) m.replace(p, f.size(), "<file>"); return "threw " + m; }
}
static void prepare() {
  auto& T = ops(); for (size_t k = 0; k < T.size(); k++) for (int v = 0; v < NV; v++) { auto& t = T[k]; beginCase(idOf(t, v)); Obj a(t, t.make(valueSeed(t, v), 200)); t.toFile(a.p, imageFile(k, v)); }
  distinct(1);
}
static void threads() {
  auto& T = ops(); int const N = opt().kv.count("--threads") ? atoi(opt().kv["--threads"].c_str()) : 6; uint64_t hist = strtoull(opt().kv["--hist"].c_str(), 0, 10), s0 = mix(opt().seed * 1000 + hist);
  shared_.resize(T.size()); for (size_t k = 0; k < T.size(); k++) for (int v = 0; v < NV; v++) shared_[k].push_back(load(imageFile(k, v)));
  // the types in a random order: the first rounds are everybody's first use of one type
  std::vector<size_t> order; { Rng r(s0); for (size_t k = 0; k < T.size(); k++) order.insert(order.begin() + long(r.below(k + 1)), k); }
  size_t const rounds = T.size() + size_t(cases(30, 200)); std::atomic<long> arrived{0}; std::vector<std::vector<Rec>> recs(static_cast<size_t>(N)); std::atomic<size_t> phaseNo{0};
  auto body = [&](int me) {
    Rng r(s0 ^ mix(uint64_t(me) + 9)); auto& my = recs[size_t(me)]; std::string f = opt().dir + "/t" + std::to_string(me);
    for (size_t round = 0; round < rounds; round++) {
      arrived.fetch_add(1, std::memory_order_acq_rel); while (arrived.load(std::memory_order_acquire) < long(N) * long(round + 1)) std::this_thread::yield();
      int burst = 4 + int(r.below(5)); bool mixed = round >= T.size() && r.chance(70);
      for (int i = 0; i < burst; i++) {
        size_t k = mixed ? r.below(T.size()) : order[round % T.size()]; int op = int(r.below(NK)); uint64_t seed = r.next() >> 8;
        if (r.chance(10)) std::this_thread::yield(); else if (r.chance(4)) usleep(useconds_t(r.below(200)));
        my.push_back({k, op, seed, run(T[k], k, op, seed, f)});
      }
    }
  };
  beginCase("threads of process " + std::to_string(hist)); std::vector<std::thread> ts; for (int i = 0; i < N; i++) ts.emplace_back(body, i); for (auto& t : ts) t.join();
  // what each operation gives alone
  std::string f = opt().dir + "/alone"; size_t fails = 0;
  for (size_t me = 0; me < recs.size(); me++) for (auto& x : recs[me]) {
    beginCase("process " + std::to_string(hist) + " thread " + std::to_string(me) + " " + T[x.type].name + " " + kName[x.op]); count(std::string("operations: ") + kName[x.op]); seen("types", hashStr(T[x.type].name));
    std::string alone = run(T[x.type], x.type, x.op, x.seed, f); bool threw = x.got.compare(0, 5, "threw") == 0; if (threw) count("failed as expected");
    if (x.op != kSize && x.op != kFoot) distinct(hashStr(x.got) ^ mix(x.seed)); else distinct(mix(x.seed));
    if (x.got != alone) { fail(std::string("another result than alone: ") + kName[x.op], "got " + x.got + ", alone " + alone); fails++; }
    bool ok = x.op >= kBadMark ? threw : x.got.compare(0, 2, "ok") == 0 || isdigit(static_cast<unsigned char>(x.got[0]));
    if (!ok) fail(std::string("wrong result: ") + kName[x.op], x.got);
  }
  std::string s; for (size_t i = 0; i < 6 && i < recs[0].size(); i++) s += std::string(i ? "; " : "") + T[recs[0][i].type].name + ": " + kName[recs[0][i].op] + " -> " + recs[0][i].got.substr(0, 60);
  sample("process " + std::to_string(hist) + ", " + std::to_string(N) + " threads, thread 0: " + s);
}
int main(int argc, char** argv) { if (int e = parse(argc, argv)) return e; if (opt().kv["--role"] == "prepare") prepare(); else threads(); return finish(); }
