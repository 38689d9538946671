"""Builds harness binaries from the working tree of /repo (content-addressed object cache under /verif/build)."""
import hashlib, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)


class BuildError(Exception):
    def __init__(self, msg, source=None, real=False):
        super().__init__(msg)
        self.source = source      # harness source (and group) that failed
        self.real = real          # a diagnosed compile error, not a killed compiler


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def tree_hash(root, exts=(".h", ".hpp", ".cc", ".in", ".inc")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


_lock = threading.Lock()
_cfg = None


def config_dir():
    """cmake_config.h as CMake would generate it (same probes: does a program calling the function link?)."""
    global _cfg
    with _lock:
        if _cfg:
            return _cfg
        tmpl = open(os.path.join(SRC, "checkpoint", "cmake_config.h.in")).read()
        d = os.path.join(BUILD, "cfg-" + hashlib.sha256(tmpl.encode()).hexdigest()[:16])
        hdr = os.path.join(d, "checkpoint", "cmake_config.h")
        if not os.path.exists(hdr):
            os.makedirs(os.path.dirname(hdr), exist_ok=True)

            def has(fn):
                with tempfile.TemporaryDirectory() as t:
                    c = os.path.join(t, "p.c")
                    with open(c, "w") as f:
                        f.write("char %s(void);\nint main(void) { %s(); return 0; }\n" % (fn, fn))
                    return sh(["gcc", "-w", "-fno-builtin", "-o", os.path.join(t, "p"), c]).returncode == 0

            def sub(m):
                name = m.group(1)
                if name.startswith("checkpoint_has_") and has(name[len("checkpoint_has_"):]):
                    return "#define " + name
                return "/* #undef %s */" % name

            out = re.sub(r"#cmakedefine\s+(\w+).*", sub, tmpl)
            tmp = hdr + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                f.write(out)
            os.rename(tmp, hdr)
        _cfg = d
        return d


SAN = {
    "asan": (["clang++"], "-O0 -g0 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer".split()),
    "tsan": (["clang++"], "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer".split()),
    "gcc2": (["g++"], "-O2 -g0".split()),
    "gccasan": (["g++"], "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer".split()),
    "clang0": (["clang++"], "-O0 -g0".split()),
}


KOKKOS = ("MAGISTRATE_KOKKOS_ENABLED=1", "MAGISTRATE_KOKKOS_KERNELS_ENABLED=1")    # with the stand-in headers


class Binary:
    """name: driver (harness/<driver>.cc), groups, ops macros, error checking on/off, sanitizer set"""
    def __init__(self, driver, groups=(), ops=(), err=True, san="asan", defs=(), link=(), extra=(), gen=None, pch=True, name=None):
        self.driver, self.groups, self.ops, self.err, self.san = driver, tuple(groups), tuple(ops), err, san
        self.defs, self.link, self.extra, self.gen, self.pch = tuple(defs), tuple(link), tuple(extra), gen, pch
        self.name = name or "%s-%s-%s" % (driver, san, "err" if err else "noerr")

    def flags(self):
        cc, fl = SAN[self.san]
        f = ["-std=c++17", "-w"] + fl + (["-DSERIALIZATION_ERROR_CHECKING"] if self.err else []) + ["-D" + d for d in self.defs]
        return cc, f + ["-I" + SRC, "-I" + config_dir(), "-I" + H] + (["-I" + os.path.join(H, "kokkos")] if KOKKOS[0] in self.defs else [])


def drawn(seed, what, units, n, poly=True, tracked=False):
    """headers listing composed types drawn from the seed, one translation unit each"""
    import gentypes
    ts, r = gentypes.types(seed, what, units * n, poly, tracked), []
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    for k in range(units):
        txt = "using Types = TL<%s>;\n" % ",\n  ".join(ts[k * n:(k + 1) * n])
        p = os.path.join(BUILD, "gen", hashlib.sha256(txt.encode()).hexdigest()[:20] + ".h")
        if not os.path.exists(p):
            with open(p + ".%d" % os.getpid(), "w") as f:
                f.write(txt)
            os.rename(p + ".%d" % os.getpid(), p)
        r.append((98 if tracked else 99, p))
    return r


def lib_sources():
    r = []
    for d, ds, fs in os.walk(SRC):
        ds.sort()
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cc")]
    return r


def build(binaries, log=None):
    """Builds all, returns {name: path}; raises BuildError."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    base = tree_hash(SRC) + tree_hash(H)
    pool = ThreadPoolExecutor(JOBS)
    pchs, objs, lock = {}, {}, threading.Lock()

    def key(*a):
        return hashlib.sha256(("\0".join(map(str, a)) + base).encode()).hexdigest()[:24]

    def compile1(cmd, out, what):
        tmp = out + ".%d.tmp" % threading.get_ident()
        for attempt in (0, 1):
            r = sh(cmd + ["-o", tmp])
            if r.returncode == 0:
                os.rename(tmp, out)
                return
            txt = r.stdout.decode("utf-8", "replace")
            if re.search(r"\berror:", txt) and not re.search(r"Killed|out of memory|unable to execute|No space left|internal compiler error|PLEASE submit a bug", txt):
                raise BuildError(txt, what, True)
        raise BuildError(txt, what, False)

    def get_pch(b):
        cc, f = b.flags()
        out = os.path.join(BUILD, "obj", "pch-" + key("pch", cc, f) + (".pch" if cc[0] == "clang++" else ".h.gch"))
        with lock:
            ev = pchs.get(out)
            if ev is None:
                ev = pchs[out] = {"done": threading.Event(), "err": None}
                mine = True
            else:
                mine = False
        if mine:
            try:
                if not os.path.exists(out):
                    compile1(cc + f + ["-x", "c++-header", os.path.join(H, "pch.h")], out, "pch")
            except Exception as e:
                ev["err"] = e
            ev["done"].set()
        else:
            ev["done"].wait()
        if ev["err"]:
            raise ev["err"]
        if cc[0] == "g++":
            stub = out[:-4]
            if not os.path.exists(stub):
                with open(stub, "w") as fh:
                    fh.write('#include "%s"\n' % os.path.join(H, "pch.h"))
            return ["-include", stub]
        return ["-include-pch", out]

    def obj(b, src, defs, use_pch, what):
        cc, f = b.flags()
        gh = ""
        for d in defs:
            if d.startswith("GENERATED_TYPES="):
                gh = open(d.split("=", 1)[1].strip('"')).read()
        out = os.path.join(BUILD, "obj", key(src, cc, f, defs, use_pch, gh) + ".o")
        with lock:
            o = objs.get(out)
            if o is None:
                o = objs[out] = {"done": threading.Event(), "err": None}
                mine = True
            else:
                mine = False
        if mine:
            try:
                if not os.path.exists(out):
                    pch = get_pch(b) if use_pch else []
                    compile1(cc + f + pch + ["-D" + d for d in defs] + ["-c", src], out, what)
            except Exception as e:
                o["err"] = e
            o["done"].set()
        else:
            o["done"].wait()
        if o["err"]:
            raise o["err"]
        return out

    # precompiled headers first (they gate everything else)
    for b in binaries:
        if b.pch and b.groups:
            try:
                get_pch_f = pool.submit(get_pch, b)
            except Exception:
                raise
    plan = []
    for b in binaries:
        fs = []
        for g in b.groups:
            defs = list(b.ops) + ["GROUP=%s" % g]
            fs.append(pool.submit(obj, b, os.path.join(H, "group.cc"), defs, b.pch, "group %s (%s)" % (g, b.name)))
        for k, (gno, hdr) in enumerate(b.gen or ()):
            defs = list(b.ops) + ["GROUP=%d" % gno, 'GENERATED_TYPES="%s"' % hdr]
            fs.append(pool.submit(obj, b, os.path.join(H, "group.cc"), defs, b.pch, "drawn types %d (%s)" % (k, b.name)))
        fs.append(pool.submit(obj, b, os.path.join(H, b.driver + ".cc"), list(b.ops), False, b.driver + ".cc"))
        for e in b.extra:
            e, ed = e if isinstance(e, tuple) else (e, [])
            fs.append(pool.submit(obj, b, os.path.join(H, e), list(b.ops) + list(ed), b.pch and b.groups != (), "%s %s" % (e, " ".join(ed))))
        for s in lib_sources():
            fs.append(pool.submit(obj, b, s, [], False, os.path.relpath(s, REPO)))
        plan.append((b, fs))
    res = {}
    try:
        for b, fs in plan:
            os_ = [f.result() for f in fs]
            cc, f = b.flags()
            out = os.path.join(BUILD, "obj", key("link", cc, f, os_, b.link) + ".exe")
            if not os.path.exists(out):
                tmp = out + ".%d" % os.getpid()
                r = sh(cc + f + os_ + list(b.link) + ["-lpthread", "-o", tmp])
                if r.returncode:
                    raise BuildError(r.stdout.decode("utf-8", "replace"), "link " + b.name, True)
                os.rename(tmp, out)
            res[b.name] = out
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
    return res


def control_ok():
    """Does the library itself still compile and work for an int?  Separates 'a supported type stopped compiling' from a broken setup."""
    with tempfile.TemporaryDirectory() as t:
        c = os.path.join(t, "c.cc")
        with open(c, "w") as f:
            f.write('#include <checkpoint/checkpoint.h>\nint main() { int x = 7; auto r = checkpoint::serialize(x); auto y = checkpoint::deserialize<int>(r->getBuffer()); return *y == 7 ? 0 : 1; }\n')
        exe = os.path.join(t, "c")
        try:
            r = sh(["g++", "-std=c++17", "-w", "-I" + SRC, "-I" + config_dir(), c] + lib_sources() + ["-lpthread", "-o", exe])
            return r.returncode == 0 and sh([exe], timeout=60).returncode == 0
        except subprocess.TimeoutExpired:
            return False
