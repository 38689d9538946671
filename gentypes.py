"""Composed types drawn from a seed: every node is (text, default constructible, copyable, moves without throwing).
libstdc++ cannot grow a vector whose elements neither copy nor move without throwing (a deque of unique_ptr, by value), so none is drawn."""
import random

# text, default constructible, copyable (all leaves move without throwing, or copy)
LEAVES = [("int", 1, 1), ("bool", 1, 1), ("char", 1, 1), ("int16_t", 1, 1), ("uint64_t", 1, 1), ("float", 1, 1), ("double", 1, 1), ("char16_t", 1, 1),
          ("string", 1, 1), ("string", 1, 1), ("E8", 1, 1), ("E32", 1, 1), ("EU64", 1, 1), ("EBool", 1, 1), ("chr::nanoseconds", 1, 1), ("chr::duration<float>", 1, 1),
          ("Plain", 1, 1), ("Empty", 1, 1), ("Mixed", 1, 0), ("NonIntr", 1, 1), ("Split", 1, 1), ("ByteTrait", 1, 1), ("ByteBase", 1, 1), ("ByteMacro", 1, 1), ("ByteNonIntr", 1, 1), ("ByteOdd", 1, 1), ("Tagged32", 1, 1), ("Key", 1, 1),
          ("MoveOnly", 1, 0), ("TaggedOnly", 0, 1), ("TaggedMoveOnly", 0, 0), ("ReconMember", 0, 1), ("ReconFree", 0, 1), ("ReconSpec", 0, 1), ("Tree", 1, 1), ("Chain", 1, 0)]
POLY = [("up<Shape>", 1, 0), ("up<Animal>", 1, 0)]
# classes whose objects are counted (harness/tracked.h)
TRACKED = [("T0", 1, 1), ("T0", 1, 1), ("T1", 0, 1), ("T2", 1, 0), ("T3", 0, 0), ("T4", 0, 1), ("T5", 1, 1), ("Pack", 1, 0), ("string", 1, 1)]
TRACKED_POLY = [("up<TB>", 1, 0)]
ORDERED = ["int", "string", "Key", "E16", "long", "double", "bool", "char", "pair<int, string>", "vector<int>", "tuple<int, string>", "set<int>", "optional<int>", "array<int, 2>", "list<string>"]
HASHED = [("int", ""), ("string", ""), ("long", ", BadHash"), ("Key", ", KeyHash"), ("E16", "")]


class G:
    def __init__(self, rng, poly, tracked):
        self.r, self.poly = rng, poly
        self.leaves, self.polys = (TRACKED, TRACKED_POLY) if tracked else (LEAVES, POLY)
        self.ordered = ORDERED + ["T0"] * (15 * tracked)
        self.hashed = HASHED + [("T0", ", tk::T0Hash")] * (5 * tracked)

    def leaf(self, dc, copy):
        while True:
            t = self.r.choice(self.polys if self.poly and self.r.random() < 0.2 else self.leaves)
            if t[1] >= dc and t[2] >= copy:
                return t + (1,)

    def node(self, depth, dc=0, copy=0):
        r = self.r
        if depth <= 0 or r.random() < 0.08:
            return self.leaf(dc, copy)
        sub = lambda dc=0, copy=copy: self.node(depth - 1 - (r.random() < 0.2), dc, copy)
        k = r.choice("vector vector list deque queue array map map umap mmap ummap set mset uset umset optional variant variant tuple tuple pair up up wrap both".split())
        if k in ("vector", "list", "deque"):
            t = sub()
            while k == "vector" and not (t[2] or t[3]):
                t = sub()
            if k == "vector" and r.random() < 0.15 and t[0] in ("int", "string", "double"):
                return ("vector<%s, Alloc<%s>>" % (t[0], t[0]), 1, 1, 1)
            return ("%s<%s>" % (k, t[0]), 1, t[2], int(k != "deque"))
        if k == "queue":
            return ("queue<%s>" % sub(0, 1)[0], 1, 1, 0)
        if k == "array":
            t = sub(1)
            return ("array<%s, %d>" % (t[0], r.randint(1, 4)), 1, t[2], t[3])
        if k in ("map", "mmap"):
            t, key = sub(1), r.choice(self.ordered)
            return ("%s<%s, %s%s>" % ("map" if k == "map" else "multimap", key, t[0], ", Desc" if r.random() < 0.3 else ""), 1, t[2], 1)
        if k in ("umap", "ummap"):
            t, (key, h) = sub(1), r.choice(self.hashed)
            return ("unordered_%s<%s, %s%s>" % ("map" if k == "umap" else "multimap", key, t[0], h), 1, t[2], 1)
        if k in ("set", "mset"):
            return ("%s<%s%s>" % ("set" if k == "set" else "multiset", r.choice(self.ordered), ", Desc" if r.random() < 0.3 else ""), 1, 1, 1)
        if k in ("uset", "umset"):
            key, h = r.choice(self.hashed)
            return ("unordered_%s<%s%s>" % ("set" if k == "uset" else "multiset", key, h), 1, 1, 1)
        if k == "optional":
            t = sub()
            return ("optional<%s>" % t[0], 1, t[2], t[3])
        if k == "variant":
            ts = [sub(1)] + [sub() for _ in range(r.randint(0, 3))]
            ts.append(("string", 1, 1, 1))          # never byte copied as a whole: padding is not state
            first, rest = ts[0], ts[1:]
            r.shuffle(rest)
            ts = [first] + rest
            return ("variant<%s>" % ", ".join(t[0] for t in ts), 1, min(t[2] for t in ts), min(t[3] for t in ts))
        if k == "tuple":
            ts = [sub(dc) for _ in range(r.randint(1, 4))]
            return ("tuple<%s>" % ", ".join(t[0] for t in ts), min(t[1] for t in ts), min(t[2] for t in ts), min(t[3] for t in ts))
        if k == "pair":
            a, b = sub(1), sub(1)
            return ("pair<%s, %s>" % (a[0], b[0]), 1, min(a[2], b[2]), min(a[3], b[3]))
        if k == "up":
            if copy:
                return self.leaf(dc, copy)
            return ("up<%s>" % sub(0, 0)[0], 1, 0, 1)
        if k == "wrap":
            t = sub(1)
            return ("Wrap<%s>" % t[0], 1, t[2], t[3])
        a, b = sub(1), sub(1)
        return ("Both<%s, %s>" % (a[0], b[0]), 1, min(a[2], b[2]), min(a[3], b[3]))


def types(seed, what, n, poly=True, tracked=False):
    r = random.Random("%s/%s" % (seed, what))
    out, seen = [], set()
    while len(out) < n:
        t = G(r, poly, tracked).node(r.choice((2, 3, 3, 4)))[0]
        if tracked and not any(k in t for k in ("T0", "T1", "T2", "T3", "T4", "T5", "Pack", "TB")):
            continue
        if t not in seen and t.count("<") >= 2 and len(t) < 260:
            seen.add(t)
            out.append(t)
    return out


if __name__ == "__main__":
    import sys
    for t in types(sys.argv[1], sys.argv[2], int(sys.argv[3]), True, len(sys.argv) > 4):
        print(t)
