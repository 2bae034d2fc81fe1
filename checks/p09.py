"""Traversal: every table and index tree of IndexTree.tla is rendered and walked by the code."""
import os
from vf import *
import onecd
from onecd import F, T, Db, leaf_page

MC = """---- MODULE MCTree ----
EXTENDS IndexTree
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 MaxRec = %d
 KeyMax = %d
 LeafMin = %d
 LeafMax = %d
 Fans = {%s}
 Orders = {%s}
 Stale = TRUE
 Emit = TRUE
INVARIANTS SameWalk EachOnce InKeyOrder Record
"""
ALLO = '"asc", "desc", "odd"'

def keyof(k, width, style):
    """an order-preserving key of the given width for the number k"""
    if style == 0:
        return k.to_bytes(width, "big")
    if style == 1:                       # long common prefix
        return b"\x5a" * (width - 2) + k.to_bytes(2, "big") if width > 2 else k.to_bytes(width, "big")
    return k.to_bytes(2, "big")[-min(2, width):] + bytes(max(0, width - 2))      # long zero tail

def render_tree(v, ps, new, width, style, opts, kmul, rmul, base):
    """the pages of one tree, placed from page `base` of the index file on"""
    unit = 1 if new else ps
    num = lambda p: (base + p - 1) * unit if p else 0xffffffff
    out = []
    for p in v["pages"]:
        items = [(keyof(i["k"] * kmul, width, style), i["r"] * rmul) for i in p["items"]]
        if p["leaf"]:
            b = leaf_page(items, width, ps, 1 if p["root"] else 0, num(p["prev"]), num(p["nxt"]), opts)
            assert b is not None
        else:
            b = struct.pack("<HHII", 1 if p["root"] else 0, len(items), num(p["prev"]), num(p["nxt"]))
            for (k, r), i in zip(items, p["items"]):
                b += k + struct.pack(">II", r, num(i["page"]))
            assert len(b) <= ps
        out.append(b.ljust(ps, b"\0"))
    return b"".join(out), num(v["root"])

import struct
def build_db(v, n, path, conf, pad=0):
    ver, ps, width, style, opts = conf
    t = T("_T", [F("_KEYF", "B", 0, 4, 0, "CS"), F("_PAD", "B", 0, 1 + pad, 0, "CS")], [("BYKEY", 1, [("_KEYF", 4)]), ("BYREV", 0, [("_KEYF", 4)])])
    for i, r in enumerate(v["recs"]):
        t.add({"_KEYF": struct.pack("<I", i), "_PAD": bytes([r["k"] & 255]) * (1 + pad)}, deleted=r["del"])
    db = Db(ver, ps)
    new = ver.startswith("8.3.8")
    unit = 1 if new else ps
    tree1, root1 = render_tree(v, ps, new, width, style, opts, 1, 1, 2)
    b2 = 2 + len(v["pages"])
    # the second index orders the live records by storage position, backwards
    rev = list(reversed(v["storage"]))
    pages2 = [b""] * b2
    start2 = len(pages2)
    pages2.append(b"")
    root2 = db.tree(pages2, [(struct.pack(">I", k), r) for k, r in enumerate(rev)], 4, unit, {"leaf": 1 + len(rev) // 3} if rev else {})
    head = struct.pack("<III", 0, 1 * unit, start2 * unit).ljust(ps, b"\0")
    s1 = struct.pack("<Ih", root1, width).ljust(ps, b"\0")
    pages2[start2] = struct.pack("<Ih", root2 * unit, 4)
    t.raw_index = head + s1 + tree1 + b"".join(p.ljust(ps, b"\0") for p in pages2[start2:])
    db.tables.append(t)
    db.write(path)
    return dict(seq=v["storage"], fill=v["storage"], nums=v["nums"], live=v["live"], rev=rev)

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    def short(x):
        return str(x)[:150]
    if g["seq"] != exp["seq"]:
        return "walking without an index visits %s, not %s" % (short(g["seq"]), short(exp["seq"]))
    if g["fill"] != exp["fill"]:
        return "the list of live records is %s, not %s" % (short(g["fill"]), short(exp["fill"]))
    for k, (nums, live) in enumerate(((exp["nums"], exp["live"]), (exp["rev"], exp["rev"]))):
        if g["idx"][k]["nums"] != nums:
            return "index %d lists %s, not %s" % (k, short(g["idx"][k]["nums"]), short(nums))
        if g["idx"][k]["it"] != live:
            return "walking index %d visits %s, not %s" % (k, short(g["idx"][k]["it"]), short(live))
    return None

CONFS = [("8.3.8.0", 4096, 4, 0, {}), ("8.2.14.0", 4096, 4, 0, {"numrecbits": 11}), ("8.3.8.0", 4096, 30, 1, {"numrecbits": 20}), ("8.1.0.0", 4096, 17, 2, {"leftbits": 8, "rightbits": 8}),
         ("8.3.8.0", 16384, 8, 2, {"numrecbits": 32, "recbytes": 6}), ("8.2.14.0", 4096, 200, 1, {"recbytes": 7}), ("8.3.8.0", 65536, 2, 0, {}), ("8.0.5.0", 4096, 4, 0, {"numrecbits": 13})]

def run(ctx):
    exe = build(ctx, {"drv_db": ["drv_db.cpp"]})["drv_db"]
    d = ctx.path("dbs")
    os.makedirs(d, exist_ok=True)
    t = ctx.thorough
    runs = [("small", (4 if t else 3, 2, 1, 2, "2, 3", '"asc", "desc"'), None, None, 1),
            ("deep", (14, 4, 1, 2, "2", ALLO), 800 if t else 40, 40, 1),
            ("wide", (40, 9, 1, 6, "2, 3, 7", ALLO), 400 if t else 20, 90, 1)]
    for name, c, sim, depth, step in runs:
        vals = tlc_inline(ctx, "MCTree", MC, CFG % c, name="tree-" + name, simulate=sim, depth=depth)
        ctx.extra.setdefault("trees", {})[name] = len(vals)
        big = max(vals, key=lambda v: len(v["pages"]))
        ctx.sample(dict(run=name, recs=big["recs"][:8], pages=len(big["pages"]), root=big["root"], walk=big["nums"][:12]))
        confs = CONFS if t else None
        items, files = [], []
        for i, v in enumerate(vals):
            if not t and name == "small" and (i + ctx.seed) % 2 and len(v["pages"]) < 2:
                continue
            for conf in (confs or [CONFS[(i + ctx.seed) % len(CONFS)]]):
                p = os.path.join(d, "%s-%d-%d.1CD" % (name, i, CONFS.index(conf)))
                items.append((conf, v, i, p))
        CH = 600
        for base in range(0, len(items), CH):
            cases = [("W %s _T" % p, build_db(v, i, p, conf, pad=(i % 5) * 37)) for conf, v, i, p in items[base:base + CH]]
            compare(ctx, exe, cases, differs, lambda c, e: os.path.basename(c.split()[1]), what="walk-" + name, chunk=20)
            for _, _, _, p in items[base:base + CH]:
                os.unlink(p)
    # tables as large as pages allow: leaves filled to the brim by the writer, two and three levels
    cases = []
    for k, (ver, ps, width, n, opts) in enumerate([("8.3.8.0", 4096, 1, 2033, {}), ("8.2.14.0", 4096, 4, 12000, {}), ("8.3.8.0", 4096, 340, 4000, {"leaf": 3}), ("8.3.8.0", 65536, 1, 32753, {}), ("8.3.8.0", 8192, 2, 20000, {"numrecbits": 15})]
                                                  + ([("8.2.14.0", 4096, 100, 70000, {}), ("8.3.8.0", 16384, 600, 3000, {"leaf": 2})] if t else [])):
        tb = T("_T", [F("_KEYF", "B", 0, 4, 0, "CS")], [("BYKEY", 0, [("_KEYF", 4)])])
        for i in range(n):
            tb.add({"_KEYF": struct.pack("<I", i)}, deleted=(i % 11 == 5))
        live = [i for i in range(n) if i % 11 != 5]
        order = sorted(live, key=lambda i: ((i * 7919) % n, i))
        if width == 1:
            order = [i for i in range(n)][::-1]          # all records, equal keys: a full page of entries without key bytes
            tb.keys = [[(b"\0", i) for i in order]]
        else:
            tb.keys = [[((j).to_bytes(width, "big") if width < 10 else j.to_bytes(4, "big") + bytes(width - 4), i) for j, i in enumerate(order)]]
        tb.index_opts = dict(opts, length=width)
        db = Db(ver, ps)
        db.tables.append(tb)
        p = os.path.join(d, "big%d.1CD" % k)
        db.write(p)
        ls = [i for i in order if i % 11 != 5]
        cases.append(("W %s _T" % p, dict(seq=live, fill=live, nums=order, live=ls, rev=None)))
    def diff1(exp, g):
        if "idx" in g and len(g["idx"]) == 1:
            g = dict(g, idx=g["idx"] * 2)
        return differs(dict(exp, rev=exp["nums"]), g) if "idx" not in g or exp["nums"] == exp["live"] else \
            ("walk of a large table differs" if g["seq"] != exp["seq"] or g["fill"] != exp["fill"] or g["idx"][0]["nums"] != exp["nums"] or g["idx"][0]["it"] != exp["live"] else None)
    compare(ctx, exe, cases, diff1, lambda c, e: os.path.basename(c.split()[1]), what="walk-large", chunk=1)
    ctx.assumptions += ["the key encoding of string fields is not examined: keys are opaque byte strings"]
