#!/usr/bin/env python3
"""plant.py ID [CHECK...]: confirm a planted bug (tests still pass, demo fails with it and passes without)
and, for the named checks (default: the property of meta.json; '-' for none), whether they catch it."""
import json, subprocess, sys, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
bid = sys.argv[1]
d = os.path.join(V, "seeded", bid)
meta = json.load(open(d + "/meta.json"))
checks = sys.argv[2:] or [meta["property"]]
assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo not clean"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300).returncode
print("demo on clean tree:", r0, "OK" if r0 == 0 else "BAD")
p = sh("git -C /repo apply %s/patch.diff" % d)
assert p.returncode == 0, p.stdout
try:
    sh("bash /opt/vp/build.sh")
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    o = set(json.load(open("/tmp/plant.json"))["passed"])
    bad = sorted(stable - o)
    print("tests:", "OK" if not bad else "BAD " + str(bad[:5]))
    p = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    print("demo with patch:", p.returncode, "OK" if p.returncode else "BAD", p.stdout[-200:])
    for c in checks:
        if c == "-": continue
        t = time.time()
        p = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s" % (V, c))
        print("check %s: rc %d %.0f s; %s" % (c, p.returncode, time.time() - t, p.stdout[:500]))
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
