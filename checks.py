"""What each check builds and runs."""
import os, random
from concurrent.futures import ThreadPoolExecutor
from buildlib import Binary, BUILD, KOKKOS, drawn

ALL = (0, 1, 2, 3, 4, 5, 6, 7)


class Check:
    compile_error_violates = True
    level = "exploration"
    technique = "runtime monitoring under ASan/UBSan"
    note = "Assurance is for the executions observed, whose number and variety the evidence file records. Trusted: the generators and oracles in harness/, the compilers and sanitizer runtimes, libstdc++ and the kernel."
    rule = ""
    assumptions = ["the generators and comparators in harness/", "clang 18 / gcc 13 sanitizer runtimes"]
    def binaries(self, seed, thorough): return []
    def run(self, bins, out, scratch, go):
        with ThreadPoolExecutor(4) as pool:
            for f in [pool.submit(go, exe, name, []) for name, exe in bins.items()]:
                f.result()


class Table(Check):
    """drivers over the table of types"""
    def __init__(self, driver, ops, rule, noerr=(), groups=ALL, **kw):
        self.driver, self.ops, self.rule, self.noerr, self.groups = driver, list(ops), rule, noerr, groups
        self.__dict__.update(kw)
    drawn = True
    def gen(self, seed, thorough):
        """types drawn from the seed join the fixed table"""
        return drawn(seed, self.driver, 10 if thorough else 2, 12, tracked=self.groups[0] == 20) if self.drawn and self.groups[0] in (0, 20) else None
    def binaries(self, seed, thorough):
        b = [Binary(self.driver, self.groups, self.ops, err=True, gen=self.gen(seed, thorough))]
        if self.noerr:
            b.append(Binary(self.driver, self.groups if thorough else self.noerr, self.ops, err=False, gen=self.gen(seed, thorough) if thorough or self.noerr == ALL else None))
        return b


WRAPPED = "open open64 openat creat fstat fstat64 stat lseek lseek64 fallocate fallocate64 posix_fallocate ftruncate ftruncate64 truncate fsync fdatasync msync write pwrite read pread rename mmap mmap64 munmap close".split()


class Wrapped(Table):
    """the driver stands between the library and the file system"""
    def binaries(self, seed, thorough):
        return [Binary(self.driver, self.groups, self.ops, err=e, link=["-Wl,--wrap=" + w for w in WRAPPED]) for e in (True, False)]


class Mismatch(Check):
    rule = "one case = one type read back matching, read as every other type, or read with damaged marks, or one nesting position of a disagreement; distinct = different cases"
    technique = "rejection oracle over all type pairs, damaged marks and nested disagreements, under ASan/UBSan"
    def binaries(self, seed, thorough):
        fill = 900 if thorough else 120
        return [Binary("c08", err=e, extra=[("c08_part.cc", ["PART=%d" % p, "FILL=%d" % fill]) for p in range(8)] + [("c08_nest.cc", ["PART=%d" % p]) for p in range(4 if e else 0)]) for e in (True, False)]


class Construction(Check):
    rule = "one case = one (class offering a combination of means of construction, place it appears in, value) along several entry points; distinct = different (type, image)"
    technique = "construction-provenance monitor (every object records what built it) under ASan/UBSan"
    def binaries(self, seed, thorough):
        full = ["OPS_MEM", "OPS_STREAM"]
        if thorough:
            return [Binary("c13", (50, 51, 52, 53, 54, 55, 56), full, err=e) for e in (True, False)]
        return [Binary("c13", (50, 51, 52, 53, 54), ["OPS_MEM"], name="c13-all"), Binary("c13", (55, 56), full, name="c13-streams"), Binary("c13", (56,), full, err=False)]


class Traversals(Check):
    rule = "one case = one (type, value) traversed in four modes by recording traversers, or by dispatchers that announce, replace vectors or replace a class; distinct = different (type, image or event sequence)"
    technique = "event-trace comparison of user-defined traversers with the library's image and an independent walk of the object, under ASan/UBSan"
    def binaries(self, seed, thorough):
        parts = [("c16_part.cc", ["PART=%d" % p]) for p in range(4)]
        return [Binary("c16", ALL, ["OPS_IMAGE", "OPS_TRAV"], extra=parts, gen=drawn(seed, "c16", 10 if thorough else 2, 12)), Binary("c16", ALL if thorough else (6,), ["OPS_IMAGE", "OPS_TRAV"], extra=parts, err=False)]


class Calls(Check):
    """the calls of user functions that an operation makes"""
    rule = "one case = one (type, value) in 14 operations, every call of a user's serialize function recorded; distinct = different sequences of calls"
    technique = "call-trace comparison of user serialize functions with an independent walk of the object, under ASan/UBSan"
    def binaries(self, seed, thorough):
        parts = [("c19_part.cc", ["PART=%d" % p]) for p in range(4)]
        return [Binary("c19", (), [], extra=parts), Binary("c19", (), [], extra=parts if thorough else parts[3:], err=False)]


class Threads(Check):
    rule = "one case = one operation performed while other threads perform theirs; distinct = different (value, result)"
    technique = "ThreadSanitizer over concurrent first and later use, with every result compared with the same operation alone"
    assumptions = ["the generators and comparators in harness/", "ThreadSanitizer's happens-before analysis; libstdc++ and libc are not instrumented"]
    def binaries(self, seed, thorough):
        ops = ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_FOOT"]
        return [Binary("c15", (15, 16, 17, 18), ops, err=True, san="tsan", pch=False), Binary("c15", (15, 16, 17, 18), ops, err=False, san="tsan", pch=False), Binary("c15", (15, 16, 17, 18), ops, err=True, san="gccasan" if thorough else "clang0", pch=False)]
    def run(self, bins, out, scratch, go):
        import tempfile
        thorough = os.environ.get("VERIF_TIER") == "thorough"
        for name, exe in bins.items():
            share = tempfile.mkdtemp(prefix="share-", dir=scratch)
            tsan = "tsan" in name
            go(exe, name, ["--role=prepare", "--share=" + share], label=name + " prepare", timeout=120)
            def one(h):
                go(exe, name, ["--role=threads", "--hist=%d" % h, "--share=" + share, "--threads=%d" % (3 + h % 6)], label="%s process %d" % (name, h), tsan=tsan, timeout=150 if not thorough else 2000)
            with ThreadPoolExecutor(3) as pool:
                list(pool.map(one, range(80 if thorough else 24)))


class Processes(Check):
    """writers and readers are separate processes with different pasts"""
    rule = "one case = one object written by one process and restored by another; distinct = different (type, value, writer, reader)"
    technique = "cross-process event comparison: images and restored objects of processes with different histories"
    def binaries(self, seed, thorough):
        ops = ["OPS_MEM", "OPS_FILE", "OPS_STREAM"]
        return [Binary("c11", ALL, ops, err=True, san="clang0", gen=drawn(seed, "c11", 10 if thorough else 2, 12))] + ([Binary("c11", ALL, ops, err=False, san="clang0")] if thorough else [Binary("c11", (6,), ops, err=False, san="clang0")])
    def run(self, bins, out, scratch, go):
        import tempfile
        for name, exe in bins.items():
            share = tempfile.mkdtemp(prefix="share-", dir=scratch)
            thorough = os.environ.get("VERIF_TIER") == "thorough"
            nw, readers = (12, range(0, 24)) if thorough else (4, range(4, 10))
            def one(role, h):
                env = {"MALLOC_PERTURB_": str(1 + h * 37 % 254), "VERIF_PADDING": "x" * (h * 1013 % 5000)}
                go(exe, name, ["--role=" + role, "--hist=%d" % h, "--share=" + share, "--writers=%d" % nw], env=env, label="%s %s %d" % (name, role, h))
            with ThreadPoolExecutor(8) as pool:
                list(pool.map(lambda h: one("write", h), range(nw)))
                list(pool.map(lambda h: one("read", h), readers))


class Kokkos(Check):
    """the views and containers of a stand-in for Kokkos"""
    compile_error_violates = False   # it may as well be the stand-in that lacks something
    rule = "one case = one (Kokkos type, extents, layout, label, elements) along all entry points and back, with the allocations behind the views counted; or one extent-only or contents-only transfer; distinct = different (type, image)"
    technique = "round-trip oracle with allocation ledger over the library's Kokkos code compiled against a strict stand-in for Kokkos, under ASan/UBSan"
    note = Check.note + " Kokkos is not installed here: the library's Kokkos code runs against harness/kokkos, a stand-in written from Kokkos' documented behaviour and validated with the repository's own Kokkos tests; the verdict trusts it."
    assumptions = Check.assumptions + ["harness/kokkos behaves as Kokkos 4.4 does where magistrate uses it"]
    def binaries(self, seed, thorough):
        ops = ["OPS_MEM", "OPS_STREAM", "OPS_FILE", "OPS_FOOT"]
        return [Binary("c18", (60, 61, 62, 63, 64), ops, defs=KOKKOS)] + [Binary("c18", (60, 61, 62, 63, 64) if thorough else (62,), ops, err=False, defs=KOKKOS)]


CHECKS = {
    "C01": Table("c01", ["OPS_MEM"], "one case = one (type, value): generated from the seed, serialized, deserialized along several paths and compared deeply and bit-exactly with a regenerated twin; non-trivial = image longer than 24 bytes; distinct = different (type, image hash)", noerr=ALL),
    "C02": Table("c02", ["OPS_MEM", "OPS_FILE", "OPS_STREAM"], "one case = one (type, value) through all size sources, or one provoked disagreement (type, kind, transport); distinct = different (type, image) or disagreement", noerr=(6,)),
    "C03": Table("c03", ["OPS_MEM", "OPS_STREAM"], "one case = one sequence of 2-11 objects of random types with foreign bytes between, read back four ways; distinct = different image sequences", noerr=(0, 6)),
    "C04": Table("c04", ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_STREAMS_ALL"], "one case = one (type, value) through every producer and every consumer; distinct = different (type, image)", groups=(0, 3, 5, 6, 7)),
    "C05": Table("c05", ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_FOOT"], "one case = one (type, value) under a random history of operations; distinct = different (type, image)"),
    "C06": Table("c06", ["OPS_MEM", "OPS_FILE", "OPS_STREAM"], "one case = one target object overwritten by a chain of values; distinct = different chains", noerr=(2, 3)),
    "C07": Table("c07", ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_FOOT"], "one case = one (type of tracked elements, value) under a random sequence of 16 operations, each with its objects, allocations, descriptors and mappings counted before and after; distinct = different (type, image)", groups=(20, 21, 22), technique="object-lifetime and resource ledgers under ASan/UBSan"),
    "C08": Mismatch(),
    "C09": Table("c09", ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_FOOT"], "one case = one (type of tracked elements, value); in each of 14 operations a fault is injected at every (or, past a bound, a sample) construction, copy, assignment, user serialize step and allocation, at every (sampled) byte of the input, at damaged marks and in the callback; distinct = different (type, image)", groups=(20, 21, 22), noerr=(20,), level="fault_enumeration", technique="fault injection with object and resource ledgers under ASan/UBSan"),
    "C10": Wrapped("c10", ["OPS_MEM", "OPS_FILE"], "one case = one (type, value): every system call of its fault-free write and read made to fail with each of its errors, alone and together with a later one; every (past a bound: sampled) truncation; six kinds of earlier content; real unusable paths and resource limits; distinct = different images", groups=(30,), level="fault_enumeration", technique="system-call fault injection with descriptor/mapping ledger and file-content oracle under ASan/UBSan"),
    "C11": Processes(),
    "C12": Table("c12", ["OPS_MEM", "OPS_FILE", "OPS_STREAM", "OPS_STREAMS_ALL", "OPS_FOOT"], "one case = one (holder of polymorphic objects, value) along several transports; distinct = different (type, image)", groups=(12, 13, 14), noerr=(12, 13, 14), technique="per-level call traces and dynamic-type oracle under ASan/UBSan"),
    "C13": Construction(),
    "C14": Table("c14", ["OPS_FOOT", "OPS_FOOTMODEL"], "one case = one (type, value) at five offsets, then grown element by element; distinct = different (type, footprint)", groups=ALL + (40,), noerr=(0, 3, 6, 40), technique="reference-model oracle over the reported footprint under ASan/UBSan"),
    "C15": Threads(),
    "C16": Traversals(),
    "C17": Table("c17", ["OPS_MEM"], "one case = one (type, value), its image relocated to several alignments and pages; distinct = different (type, image)"),
    "C18": Kokkos(),
    "C19": Calls(),
}
