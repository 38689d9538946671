// PART 0..5: 25 small classes each, and index registrations of many more types around them; PART 6 and 7: types as users write them.
#include "c08.h"
using namespace m8;
#if PART < 6
template <int... I> static int many(std::integer_sequence<int, I...>) { return (add<N<PART * 25 + I>, true>() + ... + 0); }
template <int... I> static size_t fill(std::integer_sequence<int, I...>) { size_t n = 0; using F = size_t (*)(void*); F f[] = {[](void* p) { return size_t(checkpoint::getSize(*static_cast<Filler<PART * 1000 + I>*>(p))); }...}; int x[4] = {}; for (auto g : f) n += g(x); return n; }
static size_t filled = fill(std::make_integer_sequence<int, FILL>{});
static int done = many(std::make_integer_sequence<int, 25>{}) + int(filled & 0);
#else
#include <list>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <optional>
#include <variant>
#include <tuple>
#include <array>
enum class A8 : uint8_t { x = 3 }; enum class A32 { x = 9 };
struct B1 : checkpoint::SerializableBase<B1> { int a = 1; template <class S> void serialize(S& s) { s | a; } };
struct D1 : checkpoint::SerializableDerived<D1, B1> { int b = 2; template <class S> void serialize(S& s) { s | b; } };
struct B2 : checkpoint::SerializableBase<B2> { int a = 1; template <class S> void serialize(S& s) { s | a; } };
namespace m8 {
template <> struct Sample<std::unique_ptr<B1>> { static std::unique_ptr<B1> make() { return std::make_unique<B1>(); } };
template <> struct Sample<std::unique_ptr<D1>> { static std::unique_ptr<D1> make() { return std::make_unique<D1>(); } };
template <> struct Sample<std::unique_ptr<B2>> { static std::unique_ptr<B2> make() { return std::make_unique<B2>(); } };
template <> struct Sample<std::unique_ptr<int>> { static std::unique_ptr<int> make() { return std::make_unique<int>(7); } };
template <> struct Sample<std::unique_ptr<float>> { static std::unique_ptr<float> make() { return std::make_unique<float>(7.f); } };
}
template <class... T> static int all() { return (add<T>() + ... + 0); }
#if PART == 6
static int done = all<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, wchar_t, char16_t, char32_t, A8, A32, std::string, std::vector<int>, std::vector<unsigned>, std::vector<char>, std::vector<bool>, std::vector<float>, std::list<int>, std::deque<int>>();
#else
static int done = all<std::map<int, int>, std::map<int, unsigned>, std::multimap<int, int>, std::unordered_map<int, int>, std::set<int>, std::multiset<int>, std::pair<int, int>, std::pair<int, unsigned>, std::tuple<int, int>, std::tuple<int>, std::array<int, 1>, std::array<int, 2>, std::array<int, 3>, std::optional<int>, std::optional<unsigned>, std::variant<int, float>, std::variant<float, int>, std::unique_ptr<int>, std::unique_ptr<float>,
  std::unique_ptr<B1>, std::unique_ptr<D1>, std::unique_ptr<B2>, std::vector<std::vector<int>>, std::vector<std::string>, std::map<int, int, std::greater<int>>>();
#endif
#endif
