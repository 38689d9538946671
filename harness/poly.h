// Two class hierarchies; kept apart because every file that mentions them pays for their instantiation.
#pragma once
#include "types.h"
#define VT_HIERARCHIES
namespace vt {
// -- hierarchies: (A) shim classes, (B) macros; three levels, abstract base, members of all sorts
struct Shape : checkpoint::SerializableBase<Shape> {
  int id = -1; std::string label;
  virtual bool vtEqual(Shape const& o, Diff& d) const { return vt::eq(id, o.id, d) && vt::eq(label, o.label, d); }
  virtual void vtFill(Rng& r, Budget& b) { id = int(r.next()); label = gen<std::string>(r, b); }
  static Shape* vtMakePoly(Rng& r, Budget& b);
  template <class S> void serialize(S& s) { s | id | label; }
};
struct Circle : checkpoint::SerializableDerived<Circle, Shape> {
  double radius = 0;
  bool vtEqual(Shape const& o, Diff& d) const override { return Shape::vtEqual(o, d) && vt::eq(radius, static_cast<Circle const&>(o).radius, d); }
  void vtFill(Rng& r, Budget& b) override { Shape::vtFill(r, b); radius = gen<double>(r, b); }
  template <class S> void serialize(S& s) { s | radius; }
};
struct Poly : checkpoint::SerializableDerived<Poly, Shape> {
  std::vector<std::pair<float, float>> pts; std::unique_ptr<Shape> inner;
  bool vtEqual(Shape const& o, Diff& d) const override { auto& q = static_cast<Poly const&>(o); return Shape::vtEqual(o, d) && vt::eq(pts, q.pts, d) && vt::eq(inner, q.inner, d); }
  void vtFill(Rng& r, Budget& b) override { Shape::vtFill(r, b); pts = gen<std::vector<std::pair<float, float>>>(r, b); if (b.left > 20 && r.chance(40)) { b.left -= 20; inner.reset(Shape::vtMakePoly(r, b)); } }
  template <class S> void serialize(S& s) { s | pts | inner; }
};
struct Ring : checkpoint::SerializableDerived<Ring, Circle> {
  double hole = 0; Wrap<std::map<int, int>> w;
  bool vtEqual(Shape const& o, Diff& d) const override { auto& q = static_cast<Ring const&>(o); return Circle::vtEqual(o, d) && vt::eq(hole, q.hole, d) && vt::eq(w, q.w, d); }
  void vtFill(Rng& r, Budget& b) override { Circle::vtFill(r, b); hole = gen<double>(r, b); w = gen<Wrap<std::map<int, int>>>(r, b); }
  template <class S> void serialize(S& s) { s | hole | w; }
};
inline Shape* Shape::vtMakePoly(Rng& r, Budget& b) {
  In in(b); Shape* s;
  switch (r.below(4)) { case 0: s = new Shape; break; case 1: s = new Circle; break; case 2: s = new Poly; break; default: s = new Ring; }
  s->vtFill(r, b); return s;
}

struct Animal {                       // abstract, macro style
  checkpoint_virtual_serialize_root()
  uint16_t legs = 0;
  Animal() = default; explicit Animal(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  virtual ~Animal() = default;
  virtual int noise() const = 0;
  virtual bool vtEqual(Animal const& o, Diff& d) const { return vt::eq(legs, o.legs, d); }
  virtual void vtFill(Rng& r, Budget&) { legs = uint16_t(r.next()); }
  static Animal* vtMakePoly(Rng& r, Budget& b);
  template <class S> void serialize(S& s) { s | legs; }
};
struct Dog : Animal {
  checkpoint_virtual_serialize_derived_from(Animal)
  std::string name;
  Dog() = default; explicit Dog(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : Animal(t) {}
  int noise() const override { return 1; }
  bool vtEqual(Animal const& o, Diff& d) const override { return Animal::vtEqual(o, d) && vt::eq(name, static_cast<Dog const&>(o).name, d); }
  void vtFill(Rng& r, Budget& b) override { Animal::vtFill(r, b); name = gen<std::string>(r, b); }
  template <class S> void serialize(S& s) { s | name; }
};
struct Cat : Animal {                 // no default constructor
  checkpoint_virtual_serialize_derived_from(Animal)
  int lives; std::unique_ptr<Animal> prey; std::vector<std::unique_ptr<Animal>> litter; std::unique_ptr<Shape> toy;
  explicit Cat(int l) : lives(l) {} explicit Cat(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : Animal(t), lives(-9) {}
  int noise() const override { return 2; }
  bool vtEqual(Animal const& o, Diff& d) const override { auto& q = static_cast<Cat const&>(o); return Animal::vtEqual(o, d) && vt::eq(lives, q.lives, d) && vt::eq(prey, q.prey, d) && vt::eq(litter, q.litter, d) && vt::eq(toy, q.toy, d); }
  void vtFill(Rng& r, Budget& b) override { Animal::vtFill(r, b); lives = int(r.next()); if (b.left > 20) { b.left -= 20; prey = gen<std::unique_ptr<Animal>>(r, b); int n = int(r.below(3)); for (int i = 0; i < n; i++) litter.push_back(gen<std::unique_ptr<Animal>>(r, b)); toy = gen<std::unique_ptr<Shape>>(r, b); } }
  template <class S> void serialize(S& s) { s | lives | prey | litter | toy; }
};
struct Lion : Cat {
  checkpoint_virtual_serialize_derived_from(Cat)
  std::list<int> mane;
  explicit Lion(int l) : Cat(l) {} explicit Lion(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : Cat(t) {}
  bool vtEqual(Animal const& o, Diff& d) const override { return Cat::vtEqual(o, d) && vt::eq(mane, static_cast<Lion const&>(o).mane, d); }
  void vtFill(Rng& r, Budget& b) override { Cat::vtFill(r, b); mane = gen<std::list<int>>(r, b); }
  template <class S> void serialize(S& s) { s | mane; }
};
inline Animal* Animal::vtMakePoly(Rng& r, Budget& b) {
  In in(b); Animal* a;
  switch (r.below(3)) { case 0: a = new Dog; break; case 1: a = new Cat(1); break; default: a = new Lion(2); }
  a->vtFill(r, b); return a;
}
} // namespace vt
