// C19: which of the user's functions an operation calls, how often, in which order and in which mode.
#include "ops.h"
#include "run.h"
#include "trav16.h"
using namespace vr;
int main(int argc, char** argv) {
  if (int e = parse(argc, argv)) return e;
  for (auto& c : v16::disp()) { int n = cases(40, 1000); for (int i = 0; i < n; i++) {
    std::string id = c.name + "#" + std::to_string(i); if (!wanted(id)) continue;
    beginCase(id); try { c.run(caseSeed(c.name, uint64_t(i)), i); } catch (std::exception const& e) { fail("exception", e.what()); } } }
  return finish();
}
namespace v16 { std::vector<Case>& disp() { static std::vector<Case> v; return v; } }
