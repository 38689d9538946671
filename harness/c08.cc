// C08: whatever is not an image of the type asked for is rejected.
#include "c08.h"
#include "ops.h"
#include "run.h"
using namespace vr; using namespace m8;
namespace m8 { std::vector<Entry>& plain() { static std::vector<Entry> v; return v; } std::vector<Entry>& nested() { static std::vector<Entry> v; return v; } }
static char const* const viaName[] = {"memory", "caller storage", "in place", "file", "in place from file", "stream", "in place from stream"};
static std::string fname;
enum Got { Object, Wrong, Rejected, Other };
static Got read(Entry const& e, int via, std::string const& im, std::string& what, bool spitFile = true) {
  phase(viaName[via]);
  if (spitFile && (via == File || via == FileInPlace)) spit(fname, im);
  Exact b(im);
  try { return e.read(via, b.p, b.n, fname) ? Object : Wrong; }
  catch (checkpoint::dispatch::serialization_error const& x) { what = x.what(); return Rejected; }
  catch (std::exception const& x) { what = x.what(); return Other; }
}
static void mustReject(Entry const& e, int via, std::string const& im, char const* key, std::string const& detail, bool spitFile = true) {
  std::string what; Got g = read(e, via, im, what, spitFile);
  count(std::string(key) + ", via " + viaName[via]);
  if (g == Other) fail(std::string(key) + ": other exception, via " + viaName[via], detail + ": " + what);
  else if (g != Rejected) fail(std::string(key) + ": accepted, via " + viaName[via], detail);
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  fname = opt().dir + "/image"; auto& P = plain(); std::vector<std::string> im; for (auto& e : P) im.push_back(e.image());
  count("types", P.size());
  std::map<uint32_t, std::string> marks;
  // matching reads
  for (size_t i = 0; i < P.size(); i++) { if (!wanted(P[i].name)) continue; beginCase(P[i].name); distinct(hashStr(P[i].name)); uint32_t m; memcpy(&m, im[i].data(), 4); seen("leading marks", m); count("image bytes", im[i].size());
    if (i % 61 == 3) { char b[100]; snprintf(b, sizeof b, "%s: %zu bytes, leading mark %08x", P[i].name.c_str(), im[i].size(), m); sample(b); }
    for (int v = 0; v < NVia; v++) { std::string what; Got g = read(P[i], v, im[i], what); count("matching reads"); if (g == Wrong) fail(std::string("not equal, via ") + viaName[v], ""); else if (g != Object) fail(std::string("matching read rejected, via ") + viaName[v], what); } }
  // every ordered pair of distinct types (an image as long as the longest, so that an accepted mismatch does not also read past the end)
  for (size_t i = 0; i < P.size(); i++) {
    if (!wanted("read as other types: " + P[i].name)) continue; beginCase("read as other types: " + P[i].name); Rng r(caseSeed(P[i].name, 1));
    std::string img = im[i]; img.resize(img.size() + 96, '\0'); spit(fname, img); distinct(hashStr(st().cur));
    for (size_t j = 0; j < P.size(); j++) { if (i == j) continue; int n = opt().thorough ? NVia : 2; for (int k = 0; k < n; k++) mustReject(P[j], opt().thorough ? k : k == 0 ? int((i + j) % 3) : 3 + int((i + 3 * j) % 4), img, "mismatch", P[i].name + " read as " + P[j].name, false); }
  }
  // damaged leading marks
  for (size_t i = 0; i < P.size(); i++) {
    if (!wanted("damaged mark: " + P[i].name)) continue; beginCase("damaged mark: " + P[i].name); Rng r(caseSeed(P[i].name, 2)); distinct(hashStr(st().cur));
    std::vector<uint32_t> xs; for (int b = 0; b < 32; b++) xs.push_back(1u << b); for (int k = 0; k < (opt().thorough ? 400 : 24); k++) { uint32_t x = uint32_t(r.next()) >> r.below(8); if (r.chance(30)) x &= 0x00FFFF00; if (r.chance(20)) x &= 0xFF0000FF; if (x) xs.push_back(x); } uint32_t orig; memcpy(&orig, im[i].data(), 4); for (uint32_t z : {0u, 0xFFFFFFFFu, 0xDE0000ADu, 0xADDEu, uint32_t(im[i].size())}) if (z != orig) xs.push_back(z ^ orig);
    for (size_t k = 0; k < xs.size(); k++) { std::string img = im[i]; uint32_t m = orig ^ xs[k]; memcpy(&img[0], &m, 4); char b[60]; snprintf(b, sizeof b, "mark %08x instead of %08x", m, orig); mustReject(P[i], int((k + i) % NVia), img, "damaged leading mark", b); }
  }
  // disagreement somewhere inside
  for (auto& e : nested()) {
    if (!wanted("nested: " + e.name)) continue; beginCase("nested: " + e.name); distinct(hashStr(st().cur)); std::string img = e.image(); img.resize(img.size() + 96, '\0');
    for (int v = 0; v < NVia; v++) {
      std::string what; Got g = read(e, v, img, what); count(std::string("nested mismatches, via ") + viaName[v]);
      if (g == Other) { fail(std::string("nested mismatch: other exception, via ") + viaName[v], what); continue; } if (g != Rejected) { fail(std::string("nested mismatch: accepted, via ") + viaName[v], ""); continue; }
      std::vector<std::string> lines; std::istringstream is(what); for (std::string l; std::getline(is, l);) lines.push_back(l);
      size_t at = 0; for (auto& c : e.chain) { while (at < lines.size() && !(lines[at] == c || (lines[at].size() > c.size() && lines[at].compare(lines[at].size() - c.size() - 1, c.size() + 1, " " + c) == 0))) at++; if (at == lines.size()) { fail("error does not identify the chain of types", "missing: " + c + " in: " + what); break; } }
      if (v == 0) seen("error texts", hashStr(what)); if (v == 0 && e.chain.size() > 5) sample(what);
    }
  }
  return finish();
}
