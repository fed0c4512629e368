#!/usr/bin/env python3
"""plant.py ID [PROPERTY...]: applies seeded/ID/patch.diff to /repo, runs the stable tests, the demonstration and the quick
checks (those of meta.json's property and any others named), and restores /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug = sys.argv[1]
d = os.path.join(V, "seeded", bug)
meta = json.load(open(os.path.join(d, "meta.json")))


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
a = sh("bash %s/demo.sh" % d, cwd="/repo")
print("demo on the clean tree:", a.returncode, a.stdout[-300:] if a.returncode else "")
assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, "does not apply"
try:
    b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    print("stable tests lost:", set(base) - set(json.load(open("/tmp/o.json"))["passed"]) if b.returncode == 0 else "BUILD " + b.stdout[-300:])
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo with the bug:", a.returncode, a.stdout[-200:])
    for p in [meta["property"]] + sys.argv[2:]:
        c = sh("VERIF_SEED=%s python3 gen/run.py %s quick" % (os.environ.get("VERIF_SEED", "1"), p), cwd=V)
        print(p, "exit", c.returncode, "\n".join(l[:300] for l in c.stdout.splitlines() if not l.startswith("note"))[-700:])
finally:
    sh("git -C /repo checkout -- .")
