"""Builds and runs generated programs against /repo's current headers, and reports one property's verdict."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GATL_REPO", "/repo")
INCLUDE = os.path.join(REPO, "cpp", "include")
CXX = os.environ.get("GATL_CXX", "/usr/bin/g++-11")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
STD = "-std=c++17"

ALL_HEADERS = ["ga"] + ["ga%d%s" % (d, m) for m, ds in (("e", "12345"), ("h", "1234"), ("p", "1234"), ("m", "123"), ("c", "123")) for d in map(int, ds)] + ["ga/model/general"]


class Prog:
    """A generated program: the body of one VT_PROG plus how it is to be compiled and run."""

    def __init__(self, text, body, cases=300, weight=1.0, flags=(), pre="", group=None, headers=None, tags=()):
        self.text, self.body, self.cases, self.weight = text, body, cases, weight
        self.flags, self.pre, self.headers, self.tags = tuple(flags), pre, headers, tuple(tags)
        key = "\n".join([text, body, pre, " ".join(self.flags), " ".join(headers or [])])
        self.hash = hashlib.sha256(key.encode()).hexdigest()[:16]
        self.name = "p" + self.hash
        self.group = group

    def source(self):
        t = self.text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", " ")
        return "%sVT_PROG(%s, \"%s\") {\n%s\n}\n" % (self.pre, self.name, t, self.body)


def sh(cmd, timeout=None, **kw):
    """Runs a command in its own process group; returns (returncode, stdout, stderr); returncode None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


class Builder:
    """Compiles translation units of generated programs, one precompiled header per distinct set of flags and headers."""

    def __init__(self, opt="-O1", base_flags=()):
        self.dir = tempfile.mkdtemp(prefix="gatl-vt-")
        self.base = [STD, opt, "-I" + INCLUDE, "-I" + os.path.join(VERIF, "harness"), "-w"] + list(base_flags)
        self.prepared = {}
        self.notes = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self, groups):
        """groups: set of (flags, headers). Returns None, or the compiler's message when the headers do not compile."""
        jobs = []
        objs = {}
        for flags in {f for f, _ in groups}:
            san = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
            k = hashlib.sha256(" ".join(san).encode()).hexdigest()[:8]
            for s in ("driver", "ref"):
                o = os.path.join(self.dir, "%s-%s.o" % (s, k))
                if o not in objs:
                    objs[o] = [CXX, STD, "-O2", "-w", "-I" + os.path.join(VERIF, "harness"), "-c", os.path.join(VERIF, "harness", s + ".cpp"), "-o", o] + san
            self.prepared[("objs", flags)] = [os.path.join(self.dir, "%s-%s.o" % (s, k)) for s in ("driver", "ref")]
        for o, c in objs.items():
            jobs.append(("harness", c))
        for flags, headers in groups:
            k = hashlib.sha256((" ".join(flags) + "|" + " ".join(headers)).encode()).hexdigest()[:8]
            h = os.path.join(self.dir, "all-%s.hpp" % k)
            with open(h, "w") as f:
                for x in headers:
                    f.write("#include <gatl/%s.hpp>\n" % x)
                f.write("#include \"vtga.hpp\"\n")
            self.prepared[("pch", flags, headers)] = h
            jobs.append(("headers", [CXX] + self.base + list(flags) + ["-x", "c++-header", h, "-o", h + ".gch"]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: (j, sh(j[1], 600)), jobs))
        for (kind, cmd), (rc, o, e) in res:
            if rc != 0:
                if kind == "harness":
                    raise RuntimeError("the harness does not build: " + e[:2000])
                return "the public headers do not compile: " + errors_of(e)
        return None

    def compile(self, progs, tag, timeout=240):
        """Returns (status, exe or message); status ok, error (the program does not compile) or trouble (the compiler died)."""
        flags, headers = progs[0].flags, progs[0].headers
        pch = self.prepared[("pch", flags, headers)]
        src = os.path.join(self.dir, tag + ".cpp")
        exe = os.path.join(self.dir, tag)
        with open(src, "w") as f:
            f.write("#include \"%s\"\n" % os.path.basename(pch))
            for p in progs:
                f.write(p.source())
        cmd = ["prlimit", "--as=%d" % (4 << 30), CXX] + self.base + list(flags) + ["-I" + self.dir, src] + self.prepared[("objs", flags)] + ["-o", exe]
        for attempt in (0, 1):
            rc, o, e = sh(cmd, timeout)
            if rc == 0:
                return "ok", exe
            dead = rc is None or rc < 0 or "internal compiler error" in e or "virtual memory exhausted" in e or "Killed signal" in e or "out of memory" in e or "No space left" in e or "instantiation depth exceeds" in e or "operation count exceeds" in e
            if not dead:
                return "error", errors_of(e)
            if rc is None:
                return "trouble", "the compiler did not finish"
        return "trouble", errors_of(e)


def errors_of(e):
    ls = [l[:400] for l in e.splitlines() if "error" in l]
    return " / ".join(ls[:3]) or e[:400]


def pack(progs, limit):
    """Groups programs with the same flags and headers into translation units of bounded weight."""
    by = {}
    for p in progs:
        by.setdefault((p.flags, p.headers), []).append(p)
    units = []
    for k, ps in by.items():
        cur, w = [], 0
        for p in ps:
            if cur and w + p.weight > limit:
                units.append(cur)
                cur, w = [], 0
            cur.append(p)
            w += p.weight
        if cur:
            units.append(cur)
    units.sort(key=lambda u: -sum(p.weight for p in u))
    return units


class Run:
    """Result of running the programs of one executable."""

    def __init__(self):
        self.results, self.problems, self.unfinished = {}, [], []


def run_exe(exe, progs, seed, timeout, env=None):
    """Runs every program in exe; returns {name: result dict}; a result has 'fail' or 'crash' on failure."""
    out = {}
    todo = list(progs)
    e = dict(os.environ)
    e.update(env or {})
    cases = max(p.cases for p in progs)
    rc, o, err = sh([exe, str(seed), str(cases)], timeout, env=e)
    parse(o, out)
    if rc == 0 and all(p.name in out for p in progs):
        return out
    # Something died or hung: run the missing ones by themselves.
    for p in progs:
        if p.name in out:
            continue
        one = {}
        rc, o, err = sh([exe, str(seed), str(p.cases), p.name], min(timeout, 120), env=e)
        parse(o, one)
        if p.name in one and rc == 0:
            out[p.name] = one[p.name]
            continue
        crash = None
        for l in o.splitlines():
            if l.startswith("CRASH\t"):
                f = l.split("\t")
                crash = {"why": f[2], "choices": [int(x) for x in f[3].split()] if len(f) > 3 else []}
            if l.startswith("LAST\t"):
                pass
        if crash is None:
            crash = {"why": "did not finish in time" if rc is None else "the process ended with status %s" % rc, "choices": None}
        crash["stderr"] = err[-1500:]
        r = one.get(p.name) or {"prog": p.name, "text": p.text, "cases": 0, "checks": 0, "nontrivial": 0, "distinct": 0, "discarded": 0, "sample": ""}
        r["crash"] = crash
        r["timeout"] = rc is None
        out[p.name] = r
    return out


def parse(o, out):
    for l in o.splitlines():
        if l.startswith("RESULT\t"):
            try:
                d = json.loads(l.split("\t", 1)[1])
                out[d["prog"]] = d
            except ValueError:
                pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def ok_list(pid):
    p = os.path.join(VERIF, "gen", "known_ok", pid + ".txt")
    if not os.path.exists(p):
        return set()
    with open(p) as f:
        return set(f.read().split())


def probe_prog(k):
    return Prog("known finding: " + k["what"], k["probe"]["body"], cases=k["probe"].get("cases", 50), pre=k["probe"].get("pre", ""), flags=tuple(k["probe"].get("flags", ())), headers=tuple(k["probe"].get("headers") or ALL_HEADERS))


def run_check(pid, progs, tier, seed, rule, assumptions=(), unit_weight=6.0, env=None, deadline=None, extra=None, record_ok=False, level="exploration"):
    """Compiles and runs progs, prints the verdict, writes the evidence file, and returns the exit status."""
    t0 = time.time()
    deadline = deadline or (700 if tier == "quick" else 6 * 3600)
    seen = {}
    for p in progs:
        p.headers = tuple(p.headers or ALL_HEADERS)
        seen.setdefault(p.name, p)
    progs = list(seen.values())
    known = [k for k in load_known() if k.get("property") == pid and k.get("probe")]
    probes = {}
    for k in known:
        q = probe_prog(k)
        probes[q.name] = (k, q)
    b = Builder()
    try:
        allp = progs + [q for _, q in probes.values()]
        msg = b.prepare({(p.flags, p.headers) for p in allp})
        if msg:
            path = write_replay(pid, {"kind": "headers", "why": msg})
            print(msg)
            return verdict(pid, tier, seed, t0, rule, assumptions, {}, progs, [(None, msg, path)], [], level, extra)
        ok = ok_list(pid)
        results, violations, skipped, trouble, hashes = {}, [], [], [], []

        def do(unit_i):
            i, unit = unit_i
            if time.time() - t0 > deadline:
                return unit, None, [("trouble", p, "not reached before the deadline") for p in unit]
            st, x = b.compile(unit, "u%d" % i)
            bad, good = [], {}
            if st == "ok":
                good = run_exe(x, unit, seed, 300, env)
                keep = any("fail" in r or "crash" in r for r in good.values())
                if not keep:
                    os.remove(x)
            elif len(unit) == 1:
                bad.append((st, unit[0], x))
            else:
                for j, p in enumerate(unit):
                    st, x = b.compile([p], "u%d_%d" % (i, j))
                    if st == "ok":
                        good.update(run_exe(x, [p], seed, 300, env))
                        if not any(k in good[p.name] for k in ("fail", "crash")):
                            os.remove(x)
                    else:
                        bad.append((st, p, x))
            return unit, good, bad

        units = pack(allp, unit_weight)
        byname = {p.name: p for p in allp}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for unit, good, bad in ex.map(do, list(enumerate(units))):
                results.update(good or {})
                for st, p, x in bad:
                    (trouble if st == "trouble" else skipped).append((p, x))
        # One program more or less that the library rejects is not held against it.
        broken = [q for q in skipped if q[0].name not in probes and q[0].hash in ok]
        if len(broken) >= 2:
            for q in broken:
                path = write_replay(pid, replay_of(q[0], None, "does not compile any more: " + q[1], seed))
                violations.append((q[0], "a program that used to compile does not: " + q[1], path))
        findings = []
        for name, r in results.items():
            p = byname[name]
            if "fail" not in r and "crash" not in r:
                if r["cases"] > 0:
                    hashes.append(p.hash)
                continue
            if name in probes:
                findings.append(probes[name][0])
                continue
            why, choices = (r["fail"]["why"], r["fail"]["choices"]) if "fail" in r else (r["crash"]["why"], r["crash"]["choices"])
            again = confirm(b, p, choices, seed, env)
            if again == "yes":
                if "fail" not in r and choices:
                    choices = shrink_crash(b, p, choices, env)
                inputs = r["fail"]["inputs"] if "fail" in r else r["crash"].get("stderr", "")
                path = write_replay(pid, replay_of(p, choices, why, seed, inputs))
                violations.append((p, why, path))
                continue
            found = confirm_history(b, p, seed, env) if "fail" in r else None
            if found:
                why, choices, inputs = found
                path = write_replay(pid, replay_of(p, choices, why, seed, inputs))
                violations.append((p, why, path))
            else:
                trouble.append((p, "a failure did not repeat: " + why))
        if record_ok:
            d = os.path.join(VERIF, "gen", "known_ok")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, pid + ".txt"), "w") as f:
                f.write("\n".join(sorted(ok | set(hashes))) + "\n")
        for p, x in skipped[:int(os.environ.get("VERIF_NOTES", "8"))]:
            print("note: does not compile: %s :: %s" % (p.text, x[:200]))
        for p, x in trouble[:8]:
            print("note: inconclusive: %s :: %s" % (p.text, x[:200]))
        for k in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ex2 = dict(extra or {})
        ex2.update({"programs": len(progs), "programs_run": len([1 for n in results if n not in probes]), "programs_not_compiling": len(skipped), "programs_inconclusive": len(trouble)})
        return verdict(pid, tier, seed, t0, rule, assumptions, {n: r for n, r in results.items() if n not in probes}, progs, violations, findings, level, ex2)
    finally:
        b.close()


def confirm(b, p, choices, seed, env=None):
    """Replays a failure three times in fresh processes."""
    st, x = b.compile([p], "c" + p.hash)
    if st != "ok":
        return "no"
    e = dict(os.environ)
    e.update(env or {})
    for _ in range(3):
        if choices is None:
            r = run_exe(x, [p], seed, 120, env)[p.name]
            if "fail" not in r and "crash" not in r:
                return "no"
        else:
            rc, o, err = sh([x, "--replay", p.name] + [str(c) for c in choices], 120, env=e)
            if rc == 0 or rc == 2:
                return "no"
    return "yes"


def confirm_history(b, p, seed, env=None):
    """A failure that needs earlier calls in the same process: the cases of the program, one after the other, reduced to few.

    Returns (reason, list of choice sequences, inputs), or None when no such history fails three times out of three."""
    exe = os.path.join(b.dir, "c" + p.hash)
    e = dict(os.environ)
    e.update(env or {})
    r = run_exe(exe, [p], seed, 120, env).get(p.name, {})
    if "fail" not in r:
        return None

    def fails(h):
        rc, o, err = sh([exe, "--replay", p.name] + " / ".join(" ".join(map(str, c)) for c in h).split(), 60, env=e)
        return o if rc == 1 else None
    best = r["fail"]["history"]
    if not fails(best):
        return None
    t0 = time.time()
    for first in reversed(best[:-1]):          # one earlier case often is enough
        if time.time() - t0 > 20:
            break
        if fails([first, best[-1]]):
            best = [first, best[-1]]
            break
    else:
        step = max(1, len(best) // 2)
        while step and time.time() - t0 < 40:
            i = 0
            while i < len(best) - 1:
                c = best[:i] + best[min(i + step, len(best) - 1):]
                if fails(c):
                    best = c
                else:
                    i += step
            step //= 2
    progress = True
    while progress and time.time() - t0 < 60:
        progress = False
        for k, c in enumerate(best):
            for i in range(len(c)):
                for v in sorted({0, 1, c[i] // 2}):
                    h = best[:k] + [c[:i] + [v] + c[i + 1:]] + best[k + 1:]
                    if v < c[i] and fails(h):
                        best, c, progress = h, h[k], True
                        break
    o = None
    for _ in range(3):
        o = fails(best)
        if not o:
            return None
    return "after earlier calls in the same process: " + o.strip().splitlines()[-1].strip(), best, o


def shrink_crash(b, p, choices, env=None, budget=80):
    """Simplifies the choices that end a program (each attempt in a process of its own)."""
    exe = os.path.join(b.dir, "c" + p.hash)
    e = dict(os.environ)
    e.update(env or {})

    def dies(c):
        rc, o, err = sh([exe, "--replay", p.name] + [str(x) for x in c], 60, env=e)
        return rc is not None and rc not in (0, 2)
    best = list(choices)
    t0 = time.time()
    progress = True
    while progress and budget > 0 and time.time() - t0 < 40:
        progress = False
        for i in range(len(best)):
            for v in sorted({0, 1, best[i] // 2}):
                if v < best[i] and budget > 0:
                    budget -= 1
                    c = best[:i] + [v] + best[i + 1:]
                    if dies(c):
                        best, progress = c, True
                        break
    return best


def replay_of(p, choices, why, seed, inputs=""):
    return {"kind": "program", "text": p.text, "body": p.body, "pre": p.pre, "flags": list(p.flags), "headers": list(p.headers), "cases": p.cases, "choices": choices, "seed": seed, "why": why, "inputs": inputs}


def write_replay(pid, d):
    path = os.path.join(VERIF, "replay")
    os.makedirs(path, exist_ok=True)
    d = dict(d, property=pid)
    s = json.dumps(d, indent=1)
    f = os.path.join(path, "%s-%s.json" % (pid, hashlib.sha256(s.encode()).hexdigest()[:12]))
    with open(f, "w") as o:
        o.write(s + "\n")
    return f


def replay(path):
    with open(path) as f:
        d = json.load(f)
    b = Builder()
    try:
        p = Prog(d.get("text", "headers"), d.get("body", ""), cases=d.get("cases", 1), pre=d.get("pre", ""), flags=tuple(d.get("flags", ())), headers=tuple(d.get("headers") or ALL_HEADERS))
        msg = b.prepare({(p.flags, p.headers)})
        if msg or d["kind"] == "headers":
            print(msg or "the headers compile")
            return 1 if msg else 0
        st, x = b.compile([p], "r")
        print("program: %s\n%s" % (p.text, p.source()))
        if st != "ok":
            print(st, x)
            return 1
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="print_stacktrace=1")
        if d["choices"] is None:
            rc, o, e = sh([x, str(d["seed"]), str(d["cases"])], 300, env=env)
            print(o, e)
            return 0 if rc == 0 and '"fail"' not in o else 1
        hist = d["choices"] if d["choices"] and isinstance(d["choices"][0], list) else [d["choices"]]
        rc, o, e = sh([x, "--replay", p.name] + " / ".join(" ".join(map(str, c)) for c in hist).split(), 300, env=env)
        print(o, e)
        return 0 if rc == 0 else 1
    finally:
        b.close()


def verdict(pid, tier, seed, t0, rule, assumptions, results, progs, violations, findings, level, extra):
    n = sum(r["cases"] for r in results.values())
    d = sum(r["distinct"] for r in results.values())
    samples = []
    rs = sorted(results.values(), key=lambda r: r["prog"])
    random.Random(7).shuffle(rs)
    for r in rs:
        if r.get("sample") and len(samples) < 12:
            samples.append({"program": r["text"][:400], "input": r["sample"][:600], "cases": r["cases"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": dict({"evaluations": n, "distinct_nontrivial": d, "rule": rule, "samples": samples,
                          "comparisons": sum(r["checks"] for r in results.values()),
                          "discarded": sum(r["discarded"] for r in results.values())}, **(extra or {})),
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d programs, %d cases, %d distinct non-trivial, %d violations, %.0f s" % (pid, len(results), n, d, len(violations), time.time() - t0))
    for p, why, path in violations[:10]:
        if p is not None:
            print("failing program: %s\n  %s" % (p.text, why[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not violations and n == 0:
        print("nothing was explored")
        return 2
    return 1 if violations else 0
