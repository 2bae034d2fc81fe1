import json
from vf import *
import pat, cffile, p13

ALLOC = """SPECIFICATION Spec
CONSTANTS
 Files = {%s}
 Sizes = {%s}
 PageCap = 24
 HdrLen = 2
 MaxOps = %d
INVARIANTS StructureOK SavedOK LengthsOK
PROPERTY GrowsOnlyWhenFull
"""

def flushed(h):
    """the script with a save (and a snapshot) after every operation"""
    out = []
    for k, op in enumerate(p13.script(h)):
        out += [op] if op in ("F", "R") else [op, "R" if k % 3 == 2 else "F"]
    return out

def images(base, n, ext):
    """Images of the snapshots of one history, nested containers included."""
    res, names = [], []
    for k in range(n):
        with open("%s.%d.snap" % (base, k), "rb") as f:
            b = f.read()
        os.unlink("%s.%d.snap" % (base, k))
        if ext == ".cfu":
            try:
                b = cffile.inflate(b)
            except Exception as e:
                res.append(dict(err="the compressed file is damaged", top=True, step=False, end=0, head=0, blk=[], toc=[]))
                continue
        collect(b, True, ext == ".cf", res)
    return res

def collect(b, top, zipped, res):
    img = cffile.image(b)
    if isinstance(img, str):
        res.append(dict(err=img, top=top, step=top, end=0, head=0, blk=[], toc=[]))
        return
    res.append(dict(err="", top=top, step=top, end=img["end"], head=img["head"], toc=img["toc"],
                    blk=[dict(a=a, **x) for a, x in img["blk"].items()]))
    # nested containers
    nested = []
    for e in img["toc"]:
        d = cffile.read_chain(b, img["blk"], e["d"]) if e["d"] in img["blk"] else None
        if d is None:
            continue
        if zipped:
            try:
                d = cffile.inflate(d)
            except Exception:
                res[-1]["err"] = "a compressed member is damaged"
                continue
        if len(d) >= 16 and d[:16] == b"\xff\xff\xff\x7f\x00\x02\x00\x00\0\0\0\0\0\0\0\0" or d[16:18] == b"\r\n":
            nested.append(d)
    for d in nested:
        collect(d, False, False, res)

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "an operation failed: " + g["exc"]
    return None

LENS = [0, 1, 30, 481, 511, 512, 513, 1500]
ACTS = ["W", "W", "A", "M", "D", "N", "X", "C"]

def plans(ctx):
    t = ctx.thorough
    C = p13.cfg
    return [
        ("small", ".bin", C(["a", "b"], [0, 600], [0], [0], 4 if t else 3, 1, False, ["W", "D"]), None, None),
        ("grow", ".bin", C(["a", "b"], [20, 50, 90], [0], [1], 4 if t else 3, 1, False, ["W", "D"]), None, None),
        ("nest", ".bin", C(["a"], [0, 40], [5], [0], 5 if t else 4, 2, False, ["W", "M", "D"]), None, None),
        ("sim-flat", ".bin", C(["a", "b", "c", "Dd"], LENS, [0, 1, 481, 600, 99999], [0, 1, 2, 3], 16, 1, True, ACTS), 60 if t else 14, 20),
        ("sim-churn", ".bin", C(["a", "b", "c", "d"], [1, 20, 45, 70, 100], [0, 30], [0, 1], 24, 1, True, ["W", "D"]), 60 if t else 14, 30),
        ("sim-zip", ".cf", C(["a", "b", "c"], LENS + [16384, 20000], [0, 1, 600], [0, 1, 2, 3], 12, 2, True, ACTS), 60 if t else 10, 20),
        ("sim-cfu", ".cfu", C(["a", "b"], LENS, [0, 600], [0, 1, 2, 3], 8, 2, True, ACTS), 20 if t else 3, 20),
        ("sim-deep", ".bin", C(["a", "b"], LENS, [0, 1, 600], [0, 1, 2], 16, 3, True, ACTS), 60 if t else 10, 30),
    ]

def judge(ctx, data):
    """verdicts of the specification for a list of histories of images"""
    out = {}
    vals = tlc(ctx, "CfTrace", "SPECIFICATION Spec\nINVARIANT Report\n", name="cftrace",
               files={"images.json": json.dumps(data)}, workers=JOBS)
    for v in vals:
        out[v["i"] - 1] = v["v"]
    return [out[i] for i in range(len(data))]

def run(ctx):
    tlc(ctx, "CfAlloc", ALLOC % ("f1, f2, f3" if ctx.thorough else "f1, f2", "0, 1, 3, 5", 5), name="cfalloc", timeout=800)
    exe = build(ctx, {"drv_cf": ["drv_cf.cpp"]})["drv_cf"]
    tmp = ctx.path("cf")
    total = 0
    for name, ext, c, num, depth in plans(ctx):
        vals = tlc(ctx, "CfMap", c, name="cfmap-" + name, simulate=num, depth=depth)
        for lo in range(0, len(vals), 2500):
            part = vals[lo:lo + 2500]
            os.makedirs(tmp, exist_ok=True)
            items = []
            for i, v in enumerate(part):
                items.append(("C %s/c%d%s %s" % (tmp, i, ext, ";".join(flushed(v["h"]) + ["R"])), None))
            if lo == 0:
                ctx.sample(dict(plan=name, script=items[len(items) // 2][0].split(" ", 2)[2]))
            bad = compare(ctx, exe, items, differs, lambda c, e: c.split(" ", 2)[2], what="history-" + name)
            if bad:
                continue
            snaps = [it[0].split(" ")[2].split(";") for it in items]
            data = []
            for i, it in enumerate(items):
                n = sum(1 for o in it[0].split(" ")[2].split(";") if o in ("F", "R"))
                data.append(images("%s/c%d%s" % (tmp, i, ext), n, ext))
            total += sum(len(d) for d in data)
            n = 0
            for it, v in zip(items, judge(ctx, data)):
                first = next((x for x in v if x), None)
                if first:
                    n += 1
                    if n <= 5:
                        ctx.violation(it[0].split(" ", 2)[2], "%s: image %d: %s" % (name, v.index(first), first), dict(case=it[0]))
            ctx.count("images-" + name, sum(len(d) for d in data))
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.extra["images_judged"] = total
    ctx.assumptions.append("images are extracted by lib/cffile.py, which knows the file layout but no code of the tool")
