import json
from vf import *
import p01
from onecd import *

ALLOC = """SPECIFICATION Spec
CONSTANTS
 Objs = {a, b}
 Sizes = {0, 1, 2, 3, 5}
 PerTab = 2
 RootCap = 3
 FreePer = 2
 MaxOps = %d
 OneLevel = %s
 KeepsFree = %s
INVARIANTS OneOwner NoneLost Shape FreeFits
"""
K = 4096

def flushed(v):
    """the history with a save after every operation (every third one followed by a reopening)"""
    hs = []
    for k, h in enumerate(v["h"]):
        if h["a"] in "FRGCOZ":
            hs.append(dict(h, s=[]) if h["a"] != "Z" else h)
        else:
            hs += [h, dict(a="R" if k % 3 == 2 else "F", s=[])]
    return hs + [dict(a="R", s=[])]

def image(b, roots):
    r = dict(err="", hdr=0, n=0, keeps=False, lost=-1, ftab=[], free=[], objs=[])
    try:
        im = Image(b)
        if len(b) % im.ps:
            r["err"] = "the file is not a whole number of pages"
        r.update(hdr=im.length, n=len(b) // im.ps, keeps=not im.new)
        r["ftab"], r["free"] = im.free_list()
        r["objs"] = [im.obj(x) for x in roots]
    except Bad as e:
        r["err"] = str(e)
    return r

def used(m):
    return 2 + len(m["ftab"]) + len(m["free"]) + sum(1 + len(o["tabs"]) + len(o["data"]) for o in m["objs"])

def differs(hs, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "an operation failed: " + g["exc"]
    return None

def plans(ctx):
    t = ctx.thorough
    small = p01.edges(0, K, 2 * K)
    C, RW = p01.cfg, ["N", "N", "W", "A", "L", "L", "L", "D", "F", "G"]
    return [
        ("x82", "8.2.14.0", K, C([("p", 5000)], ["a", "p"], [0, 1, K + 1, 3 * K], [0], [0], 4 if t else 3, False, ["N", "L", "D"]), None, None, 0, None),
        ("x82f", "8.2.14.0", K, C([("p", 5000)], ["a", "p"], [0, 1, K + 1, 3 * K], [0], [0], 4 if t else 3, False, ["N", "L", "D"]), None, None, 2, None),
        ("x83", "8.3.8.0", K, C([("p", 5000)], ["a", "p"], [0, 1, K + 1, 3 * K], [0], [0], 4 if t else 3, False, ["N", "L", "D"]), None, None, 0, None),
        ("s82", "8.2.14.0", K, C([("p", 3 * K), ("q", 70)], list("abcp"), small + [30000], [0, -1, 5 * K], [0, 1], 18, True, RW), 60 if t else 12, 24, 3, None),
        ("s82-1023", "8.2.14.0", K, C([("p", 3 * K), ("q", 70)], list("abcp"), small + [30000], [0, -1, 5 * K], [0, 1], 18, True, RW), 30 if t else 5, 24, 1022, None),
        ("s80", "8.1.0.0", K, C([("p", 3 * K)], list("abp"), small + [30000], [0, 1, -1, K], [0, 1], 14, True, RW), 20 if t else 4, 20, 2047, None),
        ("s83", "8.3.8.0", K, C([("p", 3 * K), ("q", 70)], list("abcp"), small + [30000], [0, -1, 5 * K], [0, 1], 18, True, RW), 60 if t else 12, 24, 0, None),
        ("s83-64", "8.3.8.0", 16 * K, C([("p", 30 * K)], list("abp"), p01.edges(0, 16 * K, 32 * K), [0, -1, 16 * K, -16 * K], [0, 1], 12, True, RW), 20 if t else 4, 20, 0, None),
        ("b82", "8.2.14.0", K, C([("p", 1023 * K)], list("abp"), p01.edges(0, 1023 * K) + [1024 * K + 5, 2046 * K + 9], [0, -1, -K, 1022 * K], [0, 1], 8, True, RW), 12 if t else 4, 12, 0, None),
        ("b83", "8.3.8.0", K, C([("p", 1018 * K)], list("abp"), p01.edges(0, 1018 * K) + [1024 * K + 1, 2048 * K + 7], [0, -1, -K, 1017 * K], [0, 1], 8, True, RW), 12 if t else 4, 12, 0, None),
        ("l83", "8.3.8.0", K, C([("p", 3 * K), ("q", 70)], list("apq"), small + [1018 * K, 1018 * K + 1], [0, -1, K, -K], [0, 1], 10, True, RW), 20 if t else 3, 14, 0, 1),
    ]

def run(ctx):
    for one in (True, False):
        for keeps in (True, False):
            tlc(ctx, "PageAlloc", ALLOC % (8 if ctx.thorough else 6, str(one).upper(), str(keeps).upper()),
                name="pagealloc-%d%d" % (one, keeps))
    exe = build(ctx, {"drv_obj": ["drv_obj.cpp"]})["drv_obj"]
    total = 0
    for plan in plans(ctx):
        name, version, ps, (_, _, built), num, depth, free, level = plan
        vals = p01.models(ctx, plan)
        base, raw, blocks, static = p01.make_base(ctx, name, version, ps, built, free, level)
        first = image(raw, static + [b for _, b in blocks])
        lost = first["n"] - used(first)
        assert lost == 0 and not first["err"], (lost, first["err"])
        for lo in range(0, len(vals), 1500):
            items = []
            for i, v in enumerate(vals[lo:lo + 1500]):
                hs = flushed(v)
                items.append(("O %s %s %s %s" % (base, ctx.path("w%d.1CD" % i), ",".join("%s:%d" % b for b in blocks),
                                                 ";".join(p01.step(h) for h in hs)), hs))
            if lo == 0:
                ctx.sample(dict(plan=name, script=items[len(items) // 2][0].split(" ")[4]))
            got = {}
            def judge(hs, g):
                d = differs(hs, g)
                got[id(hs)] = None if d else g
                return d
            compare(ctx, exe, items, judge, lambda c, e: c.split(" ")[4], what="history-" + name, timeout=800)
            data, who = [], []
            for c, hs in items:
                g = got.get(id(hs))
                if g is None:
                    continue
                obs, ims, i, n = g["obs"], [], 0, 0
                for h in hs:
                    if h["a"] in "NWALD":
                        continue
                    o = obs[i]
                    i += 1
                    if h["a"] in "FR":
                        fn = "%s.%d.snap" % (c.split(" ")[2], n)
                        n += 1
                        with open(fn, "rb") as f:
                            b = f.read()
                        os.unlink(fn)
                        im = image(b, static + [x["root"] for x in o])
                        im["lost"] = 0
                        ims.append(im)
                data.append(ims)
                who.append(c)
            p01.drop_snaps(ctx)
            total += sum(len(d) for d in data)
            ctx.count("images-" + name, sum(len(d) for d in data))
            bad = 0
            if not data:
                continue
            for v in tlc(ctx, "PageTrace", "SPECIFICATION Spec\nINVARIANT Report\n", name="pagetrace-" + name,
                         files={"images.json": json.dumps(data)}):
                fail = next(((k, x) for k, x in enumerate(v["v"]) if x), None)
                if fail:
                    bad += 1
                    if bad <= 5:
                        c = who[v["i"] - 1]
                        ctx.violation(c.split(" ")[4], "%s: saved file %d: %s" % (name, fail[0], fail[1]), dict(case=c))
    ctx.extra["images_judged"] = total
    ctx.assumptions += ["images are extracted by lib/onecd.py, which shares no code with the tool",
                        "the contents of the 8.3.8 free page list are unknown to the tool: released pages stay unused there"]
