"""Configuration storages: histories of StorePath.tla are replayed on directories, container files and the tables
of an information base (built here) through the storage classes of the tool."""
import os, random, shutil
from vf import *
import cffile, infobase, pat
from infobase import base, row

CFG = """SPECIFICATION Spec
CONSTANTS
 Kind = "%s"
 Names = {%s}
 Lens = {%s}
 Seps = {%s}
 MaxOps = %d
 MaxBuild = %d
 MaxDepth = %d
 Sim = %s
INVARIANTS Tree Readback Record
PROPERTIES OthersKept NothingLost
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)
# names of several forms; the last group is stored without packing in the tables
NAMES = dict(a="a", b="ab", c="Module", d="Форма.xml", e="x.y.z", f="0")
PLAIN = dict(a="a", b="versions.inf", c="Meta.PF", d="{7c2b}", e="my_FO_Version1", f="siVersions")

def path(p, sep, names, up=False):
    s = ("/" if sep == "/" else "\\").join(names[x] for x in p)
    return s.swapcase() if up else s

def op(x, names):
    if x["a"] == "O":
        return "O"
    p = path(x["p"], x["s"], names, x.get("u", False)).encode().hex()
    if x["a"] == "W":
        return "W,%s,%d,%d" % (p, x["t"], x["n"])
    if x["a"] == "B":
        return "B,%s,%s" % (p, path(x["q"], x["s"], names).encode().hex())
    return "%s,%s" % (x["a"], p)

def final(c):
    return [dict(a="R", p=x["p"], s="/", u=False, ok=True, r=x["r"]) for x in c]

def table(v, names, file, seed, which):
    """the tree of the history as an information base"""
    rng = random.Random(seed)
    tree = {}
    for x in v["c"]:
        t = tree
        for n in x["p"][:-1]:
            t = t.setdefault(n, {})
        t[x["p"][-1]] = pat.runs(x["r"])
    def flat(t):
        ns = list(t.items())
        rng.shuffle(ns)
        return cffile.build([(names[n], flat(s) if isinstance(s, dict) else s) for n, s in ns])
    old = rng.random() < 0.3
    multi = rng.random() < 0.5
    db, ts = base("8.2.14.0" if old else "8.3.8.0", partno=multi or not old)
    rows = []
    for n, s in tree.items():
        name = names[n]
        b = flat(s) if isinstance(s, dict) else s
        packed = not (name in ("versions.inf", "Meta.PF", "{7c2b}", "my_FO_Version1", "siVersions"))
        if packed:
            b = cffile.deflate(b)
        if not b:
            return False            # an unpacked file without contents is not stored
        k = rng.randint(1, 3) if multi and len(b) > 3 else 1
        cut = [len(b) * i // k for i in range(k + 1)]
        rows += [(name, b[cut[i]:cut[i + 1]], i) for i in range(k)]
    rng.shuffle(rows)
    for n, b, part in rows:
        row(ts[which if rng.random() < 0.5 else "CONFIG"] if k == 1 and not multi else ts["CONFIG"], n, b, 1, part)
    db.write(file)
    return True

def items(ctx, kind, vals, tmp, names):
    out = []
    for i, v in enumerate(vals):
        v["h"] = [x for x in v["h"] if x["a"] != "-"]
        t = "%s/%s%d" % (tmp, kind, i) + (".cf" if kind == "cf" and i % 2 else "")
        dk = kind
        h = v["h"]
        if kind == "table":
            dk = "table" if i % 2 else "tablesave"
            if not table(v, names, t, i, "CONFIG" if i % 2 else "CONFIGSAVE"):
                continue
            h = [x for x in h if x["a"] != "W"]
        elif kind == "dir":
            os.makedirs(t)
        steps = h + final(v["c"]) + ([dict(a="O")] + final(v["c"]) if kind != "dir" else [])
        if steps:
            out.append(("Y %s %s %s" % (dk, t, ";".join(op(x, names) for x in steps)), dict(kind=kind, steps=steps, names=names)))
    return out

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "%s: %s" % (exp["kind"], g["exc"])
    hist = []
    for x, r in zip(exp["steps"], g["r"]):
        if x["a"] == "O":
            hist.append("reopen")
            continue
        what = "%s %s" % (dict(W="write", R="read", E="test", B="read both")[x["a"]], path(x["p"], x["s"], exp["names"], x.get("u", False)))
        ctxt = "%s storage, %s after %s" % (exp["kind"], what, ", ".join(hist[-6:]) or "nothing")
        hist.append(what)
        if not x["ok"]:
            if r.get("ok"):
                return ctxt + ": the path names nothing but is accepted"
            if "exc" in r and x["a"] != "W":
                return ctxt + ": error instead of absence: " + r["exc"]
            continue
        if "exc" in r or not r["ok"]:
            return ctxt + ": fails (%s)" % r.get("exc")
        if x["a"] in "RB" and r["d"] != pat.digest(pat.runs(x["r"])):
            return ctxt + ": gives %s instead of %s" % (r["d"], pat.digest(pat.runs(x["r"])))
        if x["a"] == "B" and not r["d2"] == r["d3"] == pat.digest(pat.runs(x["r2"])):
            return ctxt + ": the second file gives %s and %s instead of %s" % (r["d2"], r["d3"], pat.digest(pat.runs(x["r2"])))
    return None

def run(ctx):
    exe = build(ctx, {"drv_conf": ["drv_conf.cpp"]})["drv_conf"]
    T = ctx.thorough
    for kind in ("dir", "cf", "table"):
        seps = ["/"] if kind == "dir" else ["/", "back"]
        depth = 2 if T else 1
        small = CFG % (kind, q("ab"), "0, 5", q(["/"]), 4 if kind == "table" else 3, 2, 2, "FALSE")
        vals = tlc(ctx, "StorePath", small, name=kind + "-all")
        jobs = [("all", pick(ctx, vals, 8000 if T else 800), NAMES)]
        for n, (names, lens, ops, dep) in enumerate([("abc", "0, 1, 600", 14, 3), ("abcdef", "1, 470, 512, 3000", 24, 2), ("ab", "3, 20000", 16, 4)]):
            if kind == "table":
                lens = lens.replace("0, 1,", "1,")
            vals = tlc(ctx, "StorePath", CFG % (kind, q(names), lens, q(seps), ops, ops // 2, dep, "TRUE"),
                       name="%s-sim%d" % (kind, n), simulate=1000 if T else 60, depth=ops + 1)
            jobs.append(("random", pick(ctx, vals, 3000 if T else 250), PLAIN if kind == "table" and n == 1 else NAMES))
        for label, vals, names in jobs:
            tmp = ctx.path("st")
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            compare(ctx, exe, items(ctx, kind, vals, tmp, names), differs, lambda c, e: "path-" + e["kind"], what="%s-%s" % (kind, label))
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions += ["an empty member used as a catalogue is left open", "names of one catalogue differ in more than letter case"]

def pick(ctx, vals, n):
    u = sorted({json.dumps(v, sort_keys=True) for v in vals})
    r = random.Random(ctx.seed)
    if len(u) > n:
        u = r.sample(u, n)
    return [json.loads(x) for x in u]
