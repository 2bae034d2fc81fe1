import json
from vf import *
import pat, cffile

CFG = """SPECIFICATION Spec
CONSTANTS
 Names = {%s}
 Lens = {%s}
 Offs = {%s}
 Modes = {%s}
 MaxOps = %d
 MaxDepth = %d
 Sim = %s
 Acts = {%s}
INVARIANTS ParentsExist LeavesHaveBytes NoGhosts Record
%s
"""
def cfg(names, lens, offs, modes, ops, depth, sim, acts):
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    n = lambda xs: ", ".join(str(x) for x in xs)
    return CFG % (q(names), n(lens), n(offs), n(modes), ops, depth, "TRUE" if sim else "FALSE", q(acts),
                  "" if sim else "PROPERTY OthersKept")

def script(h):
    out = []
    for x in h:
        p = "/".join(x["p"]) if "p" in x else ""
        a = x["a"]
        if a == "W": out.append("W,%s,%d,%d,%d" % (p, x["t"], x["n"], x["m"]))
        elif a == "A": out.append("A,%s,%d,%d,%d,%d" % (p, x["o"], x["t"], x["n"], x["m"]))
        elif a == "D": out.append("D,%s,%d" % (p, x["m"]))
        elif a == "N": out.append("N,%s,%s" % (p, x["q"]))
        elif a in ("M", "X", "C"): out.append("%s,%s" % (a, p))
        else: out.append(a)
    return out

def expect(c):
    return sorted([("/".join(x["p"]), x["k"], pat.digest(pat.runs(x["r"])) if x["k"] == "file" else "") for x in c])

def cases(vals, ext, tmp):
    items = []
    for i, v in enumerate(vals):
        ops = script(v["h"]) + ["O", "R", "O"]
        exps = [expect(x["c"]) for x in v["h"] if x["a"] in "OS"] + [expect(v["c"])] * 2
        items.append(("C %s/c%d%s %s" % (tmp, i, ext, ";".join(ops)), dict(n=len(ops), obs=exps)))
    return items

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "an operation failed: " + g["exc"]
    if len(g["obs"]) != len(exp["obs"]):
        return "missing observations"
    for e, o in zip(exp["obs"], g["obs"]):
        got = sorted((bytes.fromhex(x["p"]).decode("utf8", "replace"), x["k"], x.get("d", "")) for x in o)
        if got != [tuple(x) for x in e]:
            return "members are %s, the specification has %s" % (got, e)
        for x in o:
            if not x["same"]:
                return "lookup by name does not give the listed member %s" % x["p"]
            if "mt" in x and x is not None and o is g["obs"][-2]:
                y = [z for z in g["obs"][-1] if z["p"] == x["p"]]
                if y and x["mt"] != y[0]["mt"] and x["k"] == "file":
                    return "the modification time of member %s changes by reopening" % x["p"]
                if y and x["ct"] != y[0]["ct"]:
                    return "the creation time of member %s changes by reopening" % x["p"]
            if x["k"] == "file" and not (x["d"] == x["d2"] == x["d3"] and str(x["len"]) == x["d"].split(":")[0]):
                return "reads of member %s disagree: %s" % (x["p"], x)
    return None

LENS = [0, 1, 30, 481, 511, 512, 513, 1500]
ACTS = ["W", "A", "M", "D", "N", "F", "R", "O", "X", "S", "C"]

def plans(ctx):
    t = ctx.thorough
    return [
        # name, ext, cfg, simulate
        ("small", ".bin", cfg(["a", "b"], [0, 600], [0], [0], 4 if not t else 5, 1, False, ["W", "D", "F", "R"]), None, None),
        ("small-zip", ".cf", cfg(["a", "B"], [3, 600], [1], [0, 1], 3 if not t else 4, 1, False, ["W", "A", "D", "X", "R"]), None, None),
        ("nest", ".bin", cfg(["a", "b"], [0, 40, 700], [5], [0], 3 if not t else 4, 2, False, ["W", "M", "D", "F"]), None, None),
        ("sim-flat", ".bin", cfg(["a", "b", "c", "Dd"], LENS, [0, 1, 481, 600, 99999], [0, 1, 2, 3], 14, 1, True, ACTS), 250 if t else 40, 20),
        ("sim-zip", ".cf", cfg(["a", "b", "c"], LENS + [16383, 16384, 20000], [0, 1, 481, 600, 99999], [0, 1, 2, 3], 14, 2, True, ACTS), 250 if t else 40, 20),
        ("sim-cfu", ".cfu", cfg(["a", "b"], LENS, [0, 600], [0, 1, 2, 3], 10, 2, True, ACTS), 60 if t else 10, 20),
        ("sim-deep", ".bin", cfg(["a", "b"], LENS, [0, 1, 600], [0, 1, 2], 20, 3, True, ACTS), 250 if t else 40, 30),
    ]

def run(ctx):
    exe = build(ctx, {"drv_cf": ["drv_cf.cpp"]})["drv_cf"]
    tmp = ctx.path("cf")
    for name, ext, c, num, depth in plans(ctx):
        vals = tlc(ctx, "CfMap", c, name="cfmap-" + name, simulate=num, depth=depth)
        os.makedirs(tmp, exist_ok=True)
        items = cases(vals, ext, tmp)
        if items:
            ctx.sample(dict(plan=name, script=items[len(items) // 2][0].split(" ", 2)[2]))
        compare(ctx, exe, items, differs, lambda c, e: c.split(" ", 2)[2], what="history-" + name)
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions.append("member contents are the pattern bytes of lib/pat.py, compared by length and CRC-32")
