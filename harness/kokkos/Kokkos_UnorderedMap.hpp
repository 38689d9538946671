// Stand-in for Kokkos::UnorderedMap: a fixed capacity; entries live in slots;
// an erased slot keeps its old key and is not valid any more; key_at(i) does
// not check that slot i is in use.
#ifndef VERIF_STANDIN_KOKKOS_UNORDERED_MAP_HPP
#define VERIF_STANDIN_KOKKOS_UNORDERED_MAP_HPP
#include <Kokkos_Core.hpp>
#include <functional>

namespace Kokkos {

template <typename T> struct pod_hash {
  std::size_t operator()(T const& t) const { return std::hash<T>()(t) * 0x9E3779B97F4A7C15ull; }
};
template <typename T> struct pod_equal_to {
  bool operator()(T const& a, T const& b) const { return a == b; }
};

class UnorderedMapInsertResult {
  int s_;
  std::uint32_t i_;
public:
  UnorderedMapInsertResult(int s, std::uint32_t i) : s_(s), i_(i) {}
  bool success() const { return s_ == 0; }
  bool existing() const { return s_ == 1; }
  bool failed() const { return s_ == 2; }
  std::uint32_t index() const { return i_; }
};

template <
  typename Key, typename Value, typename Device = DefaultExecutionSpace,
  typename Hasher = pod_hash<std::remove_const_t<Key>>,
  typename EqualTo = pod_equal_to<std::remove_const_t<Key>>
>
class UnorderedMap {
public:
  using size_type = std::uint32_t;
  using key_type = Key;
  using value_type = Value;
  static constexpr size_type invalid_index = ~size_type(0);

  UnorderedMap(size_type hint = 0, Hasher h = Hasher(), EqualTo e = EqualTo())
    : st_(std::make_shared<State>(capacityFor(hint))), hash_(h), equal_(e) {}

  static size_type capacityFor(size_type hint) {
    return hint ? ((7u * hint / 6u + 127u) / 128u) * 128u : 128u;
  }

  size_type size() const { return st_->size; }
  size_type capacity() const { return static_cast<size_type>(st_->keys.size()); }
  bool failed_insert() const { return st_->failed; }

  void clear() { *st_ = State(capacity()); }

  bool rehash(size_type requested = 0) {
    size_type const want = std::max(requested, size());
    UnorderedMap n(want, hash_, equal_);
    for (size_type i = 0; i < capacity(); i++) {
      if (st_->used[i]) n.insert(st_->keys[i], st_->values[i]);
    }
    *this = n;
    return true;
  }

  UnorderedMapInsertResult insert(Key const& k, Value const& v = Value()) const {
    size_type const at = find(k);
    if (at != invalid_index) return {1, at};
    size_type const cap = capacity();
    size_type i = static_cast<size_type>(hash_(k) % cap);
    for (size_type n = 0; n < cap; n++, i = (i + 1) % cap) {
      if (!st_->used[i]) {
        st_->keys[i] = k;
        st_->values[i] = v;
        st_->used[i] = true;
        st_->size++;
        return {0, i};
      }
    }
    st_->failed = true;
    return {2, invalid_index};
  }

  bool erase(Key const& k) const {
    size_type const at = find(k);
    if (at == invalid_index) return false;
    st_->used[at] = false;
    st_->values[at] = Value();
    st_->size--;
    return true;
  }

  size_type find(Key const& k) const {
    size_type const cap = capacity();
    size_type i = static_cast<size_type>(hash_(k) % cap);
    for (size_type n = 0; n < cap; n++, i = (i + 1) % cap) {
      if (st_->used[i] && equal_(st_->keys[i], k)) return i;
    }
    return invalid_index;
  }
  bool exists(Key const& k) const { return find(k) != invalid_index; }
  bool valid_at(size_type i) const { return i < capacity() && st_->used[i]; }
  Key key_at(size_type i) const {
    if (i >= capacity()) kokkos_standin::misuse("key_at out of bounds");
    return st_->keys[i];
  }
  Value& value_at(size_type i) const {
    if (!valid_at(i)) kokkos_standin::misuse("value_at of a slot that is not in use");
    return st_->values[i];
  }

private:
  struct State {
    explicit State(size_type n) : keys(n), values(n), used(n, false) {
      kokkos_standin::stats().allocations++;
    }
    std::vector<Key> keys;
    std::vector<Value> values;
    std::vector<bool> used;
    size_type size = 0;
    bool failed = false;
  };
  std::shared_ptr<State> st_;
  Hasher hash_;
  EqualTo equal_;
};

} // namespace Kokkos
#endif
