#!/usr/bin/env python3
"""seedtest.py [--nocheck] id...: confirms planted changes (build, stable tests, demonstration) and runs the check."""
import json, os, re, subprocess, sys
R = os.environ.get("VERIF_REPO", "/repo")                # another copy: with VP, the folder of its build.sh and test.sh
VP = os.environ.get("VP", "/opt/vp")
S = os.environ.get("VERIF_SEEDS", "/verif/seeded")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def build():
    r = sh("bash %s/build.sh" % VP)
    return r.returncode == 0, r.stdout[-1500:]
args = [a for a in sys.argv[1:] if not a.startswith("--")]
assert sh("git -C %s status --porcelain -uno" % R).stdout == "", "repo not clean"
ok, t = build()
assert ok, t
base = {}
for i in args:
    r = sh("bash %s/%s/demo.sh" % (S, i), cwd=R, timeout=300)
    base[i] = r.returncode
    if r.returncode:
        print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-800:])
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if True else set()
for i in args:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    try:
        r = sh("git -C %s apply %s/%s/patch.diff" % (R, S, i))
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        ok, t = build()
        if not ok:
            print(i, "DOES NOT BUILD", t); continue
        # the changed lines have to be lines of the original
        orig = sh("git -C %s log --reverse --format=%%H | head -1" % R).stdout.strip()
        new = []
        for f in sh("git -C %s diff --name-only" % R).stdout.split():
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh("git -C %s diff -U0 -- %s" % (R, f)).stdout, re.M):
                n = int(h[1] or 1)
                if n:
                    new += [l for l in sh("git -C %s blame -s -l -L %s,+%d HEAD -- %s" % (R, h[0], n, f)).stdout.splitlines() if orig[:39] not in l]
        if new:
            print(i, "CHANGES LINES OF FIXES", new)
        sh("bash %s/test.sh /tmp/seed_o.json" % VP)
        o = json.load(open("/tmp/seed_o.json"))
        fails = o.get("failed")
        r = sh("bash %s/%s/demo.sh" % (S, i), cwd=R, timeout=300)
        res = "tests %s demo %s/%d" % ("pass" if not fails else "FAIL %s" % fails[:2], base[i], r.returncode)
        if "--nocheck" not in sys.argv:
            c = sh("VERIF_SEED=1 python3 %s/check.py %s quick" % (HERE, m["property"]))
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            res += " check exit %d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-400:])
        print(i, m["property"], res, flush=True)
    finally:
        sh("git -C %s checkout -- ." % R)
build()
