#!/usr/bin/env python3
"""run.py <property> : decides one property on the working tree of /repo.  run.py --replay FILE : re-runs one reported case."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
import buildlib
from buildlib import BuildError, VERIF, BUILD
import checks

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
DEFAULT_TIMEOUT = 420 if not THOROUGH else 5400


def known_findings():
    """committed file: one JSON object per line {property, key, case, what} ('case' may be a prefix ending in *); lines starting with "fixed:" and comments suppress nothing"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                r.append(json.loads(l))
    return r


def match(known, prop, key, case):
    for k in known:
        if k["property"] != prop or k["key"] != key:
            continue
        c = k.get("case", "*")
        if c == case or (c.endswith("*") and case.startswith(c[:-1])):
            return k
    return None


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1:max_allocation_size_mb=4096:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1",
})
for v in ("GTEST_OUTPUT", "LD_PRELOAD"):
    ENV.pop(v, None)


def crash_key(rc, err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        what = m.group(2)
        if m.group(1) == "UndefinedBehaviorSanitizer":
            m2 = re.search(r"runtime error: (.*)", err)
            return "undefined behaviour: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1))[:120] if m2 else "undefined behaviour"
        return m.group(1) + ": " + what
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "undefined behaviour: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:120]
    m = re.search(r"Reason: (.*)", err)
    if m:
        return "library assertion: " + re.sub(r"\d+", "N", m.group(1))[:120]
    m = re.search(r"terminate called.*|Assertion .* failed", err)
    if m:
        return "process ended: " + re.sub(r"\d+", "N", m.group(0))[:120]
    if rc < 0:
        return "killed by " + signal.Signals(-rc).name
    return "exit code %d" % rc


class Outcome:
    def __init__(self):
        self.viols = []      # (key, case, detail, replay dict)
        self.evals = 0
        self.distinct = 0
        self.counts = {}
        self.samples = []
        self.runs = []
        self.trouble = []    # inconclusive


def execute(cmd, env, cwd, timeout):
    errf = tempfile.TemporaryFile()
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=errf, stderr=errf, env=env, cwd=cwd, start_new_session=True)
    try:
        rc = p.wait(timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        os.killpg(p.pid, signal.SIGKILL)
        rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    errf.seek(0, 2)
    n = errf.tell()
    errf.seek(max(0, n - 200000))
    return rc, to, errf.read().decode("utf-8", "replace"), time.time() - t0


def read_progress(p):
    try:
        b = open(p, "rb").read()
        return (b[:4000].split(b"\0")[0].decode("utf-8", "replace") or "-", b[4000:].split(b"\0")[0].decode("utf-8", "replace"))
    except OSError:
        return "-", ""


def run_binary(exe, name, args, out, scratch, timeout=None, env=None, only=None, label=None, tsan=False):
    """one process; its lines, its death or its silence become parts of the outcome"""
    timeout = timeout or DEFAULT_TIMEOUT
    label = label or name
    e = dict(ENV)
    e.update(env or {})
    for attempt in (0, 1):
        d = tempfile.mkdtemp(prefix="run-", dir=scratch)
        res, prog = os.path.join(d, "out"), os.path.join(d, "progress")
        cmd = [exe, "--seed=%d" % SEED, "--out=" + res, "--progress=" + prog, "--dir=" + d] + (["--thorough"] if THOROUGH else []) + list(args)
        if only:
            cmd.append("--only=" + only)
        rc, to, err, wall = execute(cmd, e, d, timeout)
        lines = open(res, errors="replace").read().split("\n") if os.path.exists(res) else []
        case, phase = read_progress(prog)
        shutil.rmtree(d, ignore_errors=True)
        if not to:
            break
        out.trouble.append("%s: no end within %ds at %s" % (label, timeout, case))
    complete = "END" in lines
    o_e, viols = 0, []
    for l in lines:
        f = l.split("\t")
        if f[0] == "VIOL" and len(f) >= 4:
            viols.append((f[1], f[2], f[3]))
        elif f[0] == "EVALS":
            o_e = int(f[1]); out.evals += o_e
        elif f[0] == "DISTINCT":
            out.distinct += int(f[1])
        elif f[0] == "COUNT" and len(f) >= 3:
            k = label + ": " + f[1]
            out.counts[k] = out.counts.get(k, 0) + int(f[2])
        elif f[0] == "SAMPLE" and len(out.samples) < 30:
            out.samples.append(label + ": " + f[1])
    rep = {"binary": name, "args": list(args), "seed": SEED, "tier": TIER}
    for k, c, d in viols:
        out.viols.append((k, c, d, dict(rep, only=c, label=label)))
    if tsan:
        blocks = re.findall(r"WARNING: ThreadSanitizer: (.*?)\n={10,}", err, re.S)
        seen = set()
        for b in blocks:
            head = b.split("\n")[0].split("(pid")[0].strip()
            frames = re.findall(r"#\d+ (.*?) (?:/[^\s:]*/)?([\w.]+):\d+", b)
            lib = [f for f in frames if f[1] not in ("c15.cc", "ops.h", "group.cc")][:1]
            k = "race: %s in %s" % (head, re.sub(r"<.*", "", lib[0][0]) + " " + lib[0][1] if lib else "?")
            if k not in seen:
                seen.add(k)
                out.viols.append((k, case, re.sub(r"\s+", " ", b)[:1500], dict(rep, label=label)))
        if rc == 66 and not blocks and not viols:
            out.viols.append(("ThreadSanitizer report", case, err[-1500:], dict(rep, label=label)))
        if rc == 66:
            rc = 0
    out.runs.append({"run": label, "rc": rc, "wall_s": round(wall, 1), "evaluations": o_e, "violations": len(viols)})
    if to:
        # a hang that happens twice at the same place is a verdict; otherwise inconclusive
        if len([t for t in out.trouble if t.startswith(label + ":")]) >= 2 and case != "-":
            out.viols.append(("hang", case, "no progress within %d s, twice" % timeout, dict(rep, only=case, label=label)))
        return None
    if rc != 0 and not (rc == 3):
        if rc in (2, 126, 127) or (case == "-" and rc > 0 and rc != 77 and not complete):
            out.trouble.append("%s: harness error %d: %s" % (label, rc, err[-800:]))
        else:
            out.viols.append((crash_key(rc, err), case, "phase: %s; %s" % (phase, err[:200] + " ... " + err[-1800:] if len(err) > 2000 else err), dict(rep, only=case, label=label)))
    elif not complete:
        out.trouble.append("%s: run ended early without a verdict" % label)
    return lines


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    t0 = time.time()
    chk = checks.CHECKS[prop]
    out = Outcome()
    scratch = tempfile.mkdtemp(prefix="vmon-%s-" % prop)
    try:
        try:
            bins = buildlib.build(chk.binaries(SEED, THOROUGH))
        except BuildError as e:
            if e.real and chk.compile_error_violates and buildlib.control_ok():
                first = re.search(r"error: (.*)", str(e))
                out.viols.append(("does not compile", e.source or "?", str(e)[:3000], {"build": e.source, "seed": SEED, "tier": TIER}))
            else:
                print(str(e)[-6000:])
                print("ERROR: could not build %s" % e.source)
                return 2
            bins = None
        bt = time.time() - t0
        if bins:
            chk.run(bins, out, scratch, lambda *a, **k: run_binary(*a, out=out, scratch=scratch, **k))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings()
    new, listed = [], {}
    for v in out.viols:
        k = match(known, prop, v[0], v[1])
        if k:
            listed[k["what"]] = listed.get(k["what"], 0) + 1
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": chk.level,
        "coverage": {"evaluations": out.evals, "distinct_nontrivial": out.distinct, "rule": chk.rule,
                     "samples": out.samples[:12] or ["none"], "observed": out.counts, "runs": out.runs, "build_s": round(bt, 1)},
        "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, n in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, w, n))
    for t in out.trouble:
        print("NOTE: " + t[:1000])
    if new:
        shown = set()
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for i, (k, c, d, rep) in enumerate(new):
            if k in shown or len(shown) >= 8:
                continue
            shown.add(k)
            path = os.path.join(VERIF, "replay", "%s-%d.json" % (prop, len(shown)))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": k, "case": c, "detail": d, "replay": rep}, f, indent=1)
            print("  %s | %s | %s" % (k, c[:200], re.sub(r"\s+", " ", d)[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d observation(s) against the property, %d kind(s)" % (len(new), len(shown)))
        return 1
    if out.trouble:
        print("ERROR: inconclusive")
        return 2
    if out.evals == 0 or out.distinct == 0:
        print("ERROR: nothing was observed")
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial cases, %.0f s (build %.0f s)" % (prop, out.evals, out.distinct, time.time() - t0, bt))
    return 0


def replay(path):
    r = json.load(open(path))
    global SEED, THOROUGH, TIER
    rep = r["replay"]
    if "binary" not in rep:
        print(r["detail"]); return 1
    SEED, TIER = rep["seed"], rep["tier"]; THOROUGH = TIER == "thorough"
    chk = checks.CHECKS[r["property"]]
    bs = [b for b in chk.binaries(SEED, THOROUGH) if b.name == rep["binary"]]
    exe = list(buildlib.build(bs).values())[0]
    out = Outcome(); scratch = tempfile.mkdtemp(prefix="vmon-replay-")
    try:
        run_binary(exe, rep["binary"], rep["args"], out, scratch, only=rep.get("only"), tsan="tsan" in rep["binary"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v in out.viols:
        print("%s | %s | %s" % v[:3])
    print("reproduced" if out.viols else "not reproduced")
    return 1 if out.viols else 0


if __name__ == "__main__":
    sys.exit(main())
