"""mkseed.add(id, property, edits=[(file, old, new)], needs, breaks, demo_cpp=None, demo_sh=None): writes /verif/seeded/<id>/"""
import json, os, subprocess
R = os.environ.get("VERIF_REPO", "/repo")
S = os.environ.get("VERIF_SEEDS", "/verif/seeded")
SH = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken.  Run in the repository after its build.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
g++ -std=gnu++11 -w -include cstdint -Isrc/tool1cd -Isrc/ctool1cd "$here/demo.cpp" -o "$d/demo" -L_build/lib -ltool1cd -Wl,-rpath,"$PWD/_build/lib" -lboost_filesystem -lboost_regex -lboost_system -lz -lpthread || exit 1
cd "$d" && timeout 120 ./demo "$d"
'''
def add(id, prop, edits, needs, breaks, cpp=None, sh=None, extra=None):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run("git -C %s status --porcelain -uno" % R, shell=True, capture_output=True, text=True).stdout == ""
    try:
        for f, a, b in edits:
            p = R + "/" + f
            s = open(p, encoding="utf-8", newline="").read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w", encoding="utf-8", newline="").write(s.replace(a, b))
        diff = subprocess.run("git -C %s diff" % R, shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.run("git -C %s checkout -- ." % R, shell=True, capture_output=True)
    if cpp:
        open(d + "/demo.cpp", "w").write(cpp)
    open(d + "/demo.sh", "w").write(sh or SH)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
