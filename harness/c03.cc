// C03: objects are self-delimiting in streams and buffers.
#include "ops.h"
#include "run.h"
#include <algorithm>
using namespace vr;

// an input stream buffer that delivers the data in small random chunks, cannot seek, and knows what was taken
struct ChunkBuf : std::streambuf {
  std::string const& d; size_t off = 0; Rng r; std::vector<char> b;
  ChunkBuf(std::string const& s, uint64_t seed) : d(s), r(seed), b(64) {}
  int underflow() override {
    if (off >= d.size()) return traits_type::eof();
    size_t n = 1 + r.below(17); if (n > d.size() - off) n = d.size() - off;
    memcpy(b.data(), d.data() + off, n); off += n; setg(b.data(), b.data(), b.data() + n); return traits_type::to_int_type(b[0]);
  }
  size_t taken() const { return off - size_t(egptr() - gptr()); }
};
struct Item { TypeOps const* t; void* ref; size_t begin, end; int via; };

static void sequence(int idx) {
  std::string id = "sequence#" + std::to_string(idx); if (!wanted(id)) return;
  beginCase(id); Rng r(caseSeed("sequence", uint64_t(idx)));
  std::vector<Item> items; std::string junk; uint64_t h = 0;
  auto noise = [&](size_t max) { std::string s(r.below(max + 1), 0); for (auto& c : s) c = char(r.next()); return s; };
  try {
    int n = 2 + int(r.below(10)); bool file = idx % 3 == 0; std::string f = opt().dir + "/seq";
    std::string head = noise(9), buffer = head;
    std::stringstream ss; std::ofstream fs; if (file) fs.open(f, std::ios::binary | std::ios::trunc);
    std::ostream& os = file ? static_cast<std::ostream&>(fs) : ss; os << head;
    for (int k = 0; k < n; k++) {
      auto& t = ops()[r.below(ops().size())]; uint64_t sd = r.next(); long bud = r.chance(10) ? 2000 : 120;
      Obj v(t, t.make(sd, bud)); Item it{&t, t.make(sd, bud), buffer.size(), 0, int(r.below(3))};
      phase("write to stream"); t.toStream[0](v.p, os);
      phase("serialize"); Result im = t.serNoCb(v.p); buffer += str(im); it.end = buffer.size(); h = hashBytes(im.buf, im.size, h);
      size_t pos = size_t(os.tellp()); std::string s = noise(r.chance(50) ? 0 : 40);
      if (pos != it.end) fail("stream position after writing", "object ends at " + std::to_string(it.end) + ", stream at " + std::to_string(pos));
      os << s; buffer += s; items.push_back(it);
    }
    os.flush(); count("objects in sequences", uint64_t(n)); distinct(h); count("sequence bytes", buffer.size());
    std::string content = file ? (fs.close(), slurp(f)) : ss.str();
    if (content != buffer) fail("stream content is not the concatenation of the images", firstDiff(buffer, content));
    // 1. from the stream
    std::ifstream fi; if (file) fi.open(f, std::ios::binary); std::istream& is = file ? static_cast<std::istream&>(fi) : ss;
    // 2. from a stream that trickles and cannot seek
    ChunkBuf cb(buffer, r.next()); std::istream ti(&cb);
    for (auto& it : items) {
      auto check = [&](void* p, char const* w) { std::string d = it.t->diff(it.ref, p); if (!d.empty()) fail(std::string("not equal: ") + w, std::string(it.t->name) + ": " + d); };
      is.seekg(std::streamoff(it.begin)); phase("read from stream");
      if (it.via == 0) { Obj o(*it.t, it.t->fresh()); it.t->inStream[0](is, o.p); check(o.p, "in place from stream"); } else { Obj o(*it.t, it.t->fromStream[0](is)); check(o.p, "from stream"); }
      if (!is || size_t(is.tellg()) != it.end) fail("stream position after reading", std::string(it.t->name) + ": object ends at " + std::to_string(it.end) + ", stream at " + (is ? std::to_string(size_t(is.tellg())) : "failure"));
      is.clear();
      std::string gap(it.begin - cb.taken(), 0); ti.read(gap.data(), std::streamsize(gap.size())); phase("read from a trickling stream");
      { Obj o(*it.t, it.t->fromStream[0](ti)); check(o.p, "from a trickling stream"); }
      if (cb.taken() != it.end) fail("bytes taken from a stream", std::string(it.t->name) + ": " + std::to_string(cb.taken() - it.begin) + " taken, " + std::to_string(it.end - it.begin) + " written");
      phase("read from the middle of a buffer"); { Exact e(buffer.data(), it.end); Obj o(*it.t, it.t->des(e.p + it.begin)); check(o.p, "from the middle of a buffer"); }
    }
    // 3. the objects again in another order, each in place over the next one's predecessor of the same type, from a buffer whose tail is cut exactly behind the object
    for (size_t k = items.size(); k-- > 0;) { auto& it = items[k]; Exact e(buffer.data() + it.begin, it.end - it.begin); phase("read from an exact buffer");
      if (it.via == 2) { Obj o(*it.t, it.t->fresh()); it.t->desIn(e.p, o.p); if (!it.t->diff(it.ref, o.p).empty()) fail("not equal: in place from an exact buffer", it.t->name); }
      else { Obj o(*it.t, it.t->des(e.p)); if (!it.t->diff(it.ref, o.p).empty()) fail("not equal: from an exact buffer", it.t->name); } }
    if (file) unlink(f.c_str());
    if (idx % 37 == 2) sample(id + ": " + std::to_string(n) + " objects, first " + items[0].t->name + ", " + std::to_string(buffer.size()) + " bytes");
  } catch (std::exception const& e) { fail("exception", e.what()); }
  for (auto& it : items) it.t->destroy(it.ref);
}
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  std::sort(ops().begin(), ops().end(), [](TypeOps const& a, TypeOps const& b) { return strcmp(a.name, b.name) < 0; });
  int n = cases(900, 20000); for (int i = 0; i < n; i++) sequence(i);
  return finish();
}
