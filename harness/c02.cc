// C02: one size everywhere; every byte written, none outside; passes that disagree are reported.
#include "ops.h"
#include "run.h"
#include "types.h"
using namespace vr;

static void one(TypeOps const& t, int i) {
  std::string id = idOf(t, i); if (!wanted(id)) return;
  beginCase(id); uint64_t sd = caseSeed(t.name, uint64_t(i));
  try {
    Obj v(t, t.make(sd, i % 9 == 8 ? 4000 : 400));
    phase("getSize"); size_t n = t.getSize(v.p);
    auto is = [&](char const* what, size_t got) { if (got != n) fail(std::string("size differs: ") + what, "size query " + std::to_string(n) + ", " + what + " " + std::to_string(got)); };
    // library memory
    phase("serialize"); Result im = t.serNoCb(v.p); is("result size", im.size); noteImage(t, i, im.buf, im.size);
    if (im.size != n) return;
    // caller memory, twice, over different backgrounds, between guards
    std::string seen[2]; unsigned char const fill[2] = {0x00, 0xFF};
    for (int k = 0; k < 2; k++) {
      phase("serialize into caller memory"); int calls = 0; size_t asked = 0; char* mem = nullptr; char* at = nullptr; size_t const G = 64;
      bool guards = k == 0;                     // once with canaries, once as an exact heap block
      Result r = t.ser(v.p, [&](size_t s) { calls++; asked = s; mem = static_cast<char*>(malloc(s + (guards ? 2 * G : 0) + 1)); at = mem + (guards ? G : 0); memset(mem, fill[k], s + (guards ? 2 * G : 0)); if (!guards) { free(mem); mem = at = static_cast<char*>(malloc(s ? s : 1)); memset(mem, fill[k], s); } return at; });
      if (calls != 1) fail("callback calls", std::to_string(calls)); is("callback argument", asked); is("result size (caller memory)", r.size);
      if (r.buf != at) fail("result is not in the caller's memory", "");
      if (guards) for (size_t g = 0; g < G; g++) if ((unsigned char)mem[g] != fill[k] || (unsigned char)mem[G + n + g] != fill[k]) { fail("byte outside the caller's buffer written", "offset " + std::to_string(g)); break; }
      seen[k] = std::string(at, n); r.owner.reset();
      if (std::string(at, n) != seen[k]) fail("caller's memory changed when the result was released", ""); free(mem);
    }
    if (seen[0] != seen[1]) fail("a byte was not written", firstDiff(seen[0], seen[1]) + " (memory filled with 00 and FF before)");
    if (seen[0] != str(im)) fail("caller memory image differs", firstDiff(seen[0], str(im)));
    phase("null callback"); { int calls = 0; Result r = t.ser(v.p, [&](size_t s) { calls++; is("callback argument (null)", s); return (char*)nullptr; }); if (calls != 1) fail("callback calls", std::to_string(calls)); is("result size (null callback)", r.size); if (!r.buf) fail("no buffer after a null callback", ""); else if (str(r) != seen[0]) fail("image after a null callback differs", ""); }
    phase("file"); { std::string f = opt().dir + "/f"; if (i & 1) spit(f, std::string(i % 3 ? 5 : 20000, 'x')); t.toFile(v.p, f); std::string got = slurp(f); is("file length", got.size()); unlink(f.c_str()); count("file bytes", got.size()); }
    phase("stream"); { std::stringstream s; s << "ab"; t.toStream[0](v.p, s); is("stream bytes", s.str().size() - 2); if (s.str().compare(0, 2, "ab")) fail("stream prefix overwritten", ""); }
    phase("getSize again"); is("second size query", t.getSize(v.p));
  } catch (std::exception const& e) { fail("exception", e.what()); }
}

// ---- classes whose passes disagree
namespace dis {
enum Kind { MoreBytes, FewerBytes, LongerVector, ShorterVector, ExtraString, BigMore, OnlySized, OnlyPacked, NK };
char const* const names[] = {"packs more bytes", "packs fewer bytes", "packs a longer vector", "packs a shorter vector", "packs another string", "packs 100 kB more", "field only sized", "field only packed"};
int kind = 0, amount = 0;
struct D {
  uint32_t a = 7; std::vector<int> v{1, 2, 3};
  template <class S> void serialize(S& s) {
    s | a; std::vector<uint8_t> bytes; std::vector<int> w = v; std::string x = "s"; bool pk = s.isPacking();
    switch (kind) {
      case MoreBytes: for (int i = 0; i < (pk ? 2 + amount : 2); i++) { uint8_t b = 1; s | b; } break;
      case FewerBytes: for (int i = 0; i < (pk ? 1 : 1 + amount); i++) { uint8_t b = 1; s | b; } break;
      case LongerVector: if (pk) w.resize(3 + size_t(amount)); s | w; break;
      case ShorterVector: if (!pk) w.resize(3 + size_t(amount)); s | w; break;
      case ExtraString: s | x; if (pk) s | x; break;
      case BigMore: bytes.resize(pk ? 100000u + unsigned(amount) : 10u); s | bytes; break;
      case OnlySized: if (s.isSizing()) s | x; break;
      case OnlyPacked: if (pk) s | x; break;
    }
    s | v;
  }
};
struct Base : checkpoint::SerializableBase<Base> { int i = 0; template <class S> void serialize(S& s) { s | i; } };
struct Der : checkpoint::SerializableDerived<Der, Base> { D d; template <class S> void serialize(S& s) { s | d; } };
template <class T> T build();
template <> D build<D>() { return D{}; }
template <> std::vector<D> build<std::vector<D>>() { return std::vector<D>(3); }
template <> std::map<int, D> build<std::map<int, D>>() { std::map<int, D> m; m[1]; m[5]; return m; }
template <> std::unique_ptr<D> build<std::unique_ptr<D>>() { return std::make_unique<D>(); }
template <> std::unique_ptr<Base> build<std::unique_ptr<Base>>() { return std::make_unique<Der>(); }
template <> std::tuple<std::string, D> build<std::tuple<std::string, D>>() { return {"hello", D{}}; }
template <class T> void go(char const* tn) {
  for (kind = 0; kind < NK; kind++) for (amount = 1; amount <= 5; amount += 2) for (int way = 0; way < 4; way++) {
    std::string id = std::string("disagreeing ") + tn + " " + names[kind] + "#" + std::to_string(way * 10 + amount); if (!wanted(id)) continue;
    beginCase(id); T t = build<T>(); bool err = false; char* mem = nullptr; std::string f = opt().dir + "/d";
    static char const* const ways[] = {"library memory", "caller memory", "file", "stream"}; phase(ways[way]);
    try {
      if (way == 0) checkpoint::serialize(t);
      else if (way == 1) checkpoint::serialize<T>(t, [&](size_t n) { return mem = static_cast<char*>(malloc(n)); });
      else if (way == 2) checkpoint::serializeToFile(t, f);
      else { std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(t, os); }
    } catch (checkpoint::dispatch::serialization_error const&) { err = true; }
    catch (std::exception const& e) { fail("wrong exception for disagreeing passes", e.what()); err = true; }
    free(mem); unlink(f.c_str());
    if (!err) fail(std::string("disagreement of sizing and packing not reported: ") + ways[way], names[kind]);
    count("disagreements provoked"); distinct(hashStr(id));
  }
}
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& t : ops()) { int n = cases(25, 500); for (int i = 0; i < n; i++) one(t, i); }
  dis::go<dis::D>("object"); dis::go<std::vector<dis::D>>("vector"); dis::go<std::map<int, dis::D>>("map"); dis::go<std::unique_ptr<dis::D>>("unique_ptr"); dis::go<std::unique_ptr<dis::Base>>("polymorphic"); dis::go<std::tuple<std::string, dis::D>>("tuple");
  return finish();
}
