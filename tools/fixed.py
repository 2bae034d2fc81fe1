"""Regenerates the "fixed:" lines of KNOWN_FINDINGS.txt from tools/fixes.txt: property|commit subject|what failed."""
import subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
out = []
for l in open(os.path.join(here, "fixes.txt"), encoding="utf-8"):
    if not l.strip():
        continue
    p, subj, what = l.rstrip("\n").split("|")
    full = "fix: " + subj
    assert full in log, full
    out.append("fixed: property=%s %s %s" % (p, log[full], what))
p = os.path.join(here, "..", "KNOWN_FINDINGS.txt")
keep = [l for l in open(p, encoding="utf-8").read().splitlines() if not l.startswith("fixed:")]
open(p, "w", encoding="utf-8").write("\n".join(keep + out) + "\n")
named = {l.split("|")[1] for l in open(os.path.join(here, "fixes.txt"), encoding="utf-8") if l.strip()}
for s in log:
    if s.startswith("fix: ") and s[5:] not in named:
        print("not in fixes.txt:", s)
