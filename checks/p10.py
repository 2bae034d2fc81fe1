"""Leaf packing: every list of LeafPack.tla is packed and unpacked by the code."""
import os, struct
from vf import *
from onecd import F, T, Db, leaf_page

MC = """---- MODULE MCLeaf ----
EXTENDS LeafPack
P(a, c, w, z, step, r0, rs) == [a |-> a, c |-> c, w |-> w, z |-> z, step |-> step, r0 |-> r0, rs |-> rs]
MCPat == {%s}
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 Len0s = {%s}
 KBytes = {%s}
 Recs = {%s}
 MaxN = %d
 Patterns <- MCPat
 Room = {%s}
 Emit = TRUE
INVARIANTS NothingLost NoOverlap AreaLength ShortForm Record
"""

def expand(v):
    if "list" in v:
        return [(bytes(e["k"]), e["r"]) for e in v["list"]]
    p = v["pat"]
    return [(bytes([p["c"]]) * p["a"] + (i * p["step"]).to_bytes(p["w"], "big") + bytes(p["z"]), p["r0"] + i * p["rs"]) for i in range(v["n"])]

def raw(keys):
    return b"".join(struct.pack("<I", r) + k for k, r in keys)

def read_page(page, L):
    """an independent reading of a leaf page"""
    flags, n, prv, nxt, free, rm, lm, gm, nb, lb, gb, rec = struct.unpack_from("<HHIIHIHHHHHH", page, 0)
    out, tail, prev = [], len(page), bytes(L)
    low = 30 + n * rec
    for i in range(n):
        x = int.from_bytes(page[30 + i * rec:30 + (i + 1) * rec], "little")
        r, l, g = x & rm, (x >> nb) & lm, (x >> (nb + lb)) & gm
        m = L - l - g
        if m < 0 or tail - m < low:
            raise ValueError("entry %d" % i)
        k = prev[:l] + page[tail - m:tail] + bytes(g)
        tail -= m
        out.append((k, r))
        prev = k
    return flags, out, free, tail - low

def differs(exp, g):
    v, keys = exp["v"], None
    tag = "key length %d, %s" % (v["L"], "pattern %s, %d entries" % (v["pat"], v["n"]) if "n" in v else v["list"])
    if "crash" in g:
        return "%s: crash: %s %s" % (tag, g["crash"], g.get("where"))
    if "exc" in g:
        return "%s: error: %s" % (tag, g["exc"])
    if not g["kept"]:
        return "%s: the list was changed" % tag
    if not g["ok"]:
        return ("%s: a list of %d bytes is refused by a page with room for %d" % (tag, v["used"], v["room"])) if v["fits"] else None
    want = raw(expand(v)).hex()
    if "exc" in g["un"]:
        return "%s: the packed page is not unpacked: %s" % (tag, g["un"]["exc"])
    if g["un"]["d"] != want:
        return "%s: unpacking gives another list" % tag
    try:
        flags, keys, free, gap = read_page(bytes.fromhex(g["page"]), v["L"])
    except ValueError as e:
        return "%s: the page is damaged at %s" % (tag, e)
    if raw(keys).hex() != want or not flags & 2:
        return "%s: the page holds another list" % tag
    if free != gap:
        return "%s: the page records %d free bytes, it has %d" % (tag, free, gap)
    return None

def diff_un(exp, g):
    if "crash" in g:
        return "%s: crash: %s %s" % (exp["tag"], g["crash"], g.get("where"))
    if "exc" in g:
        return "%s: error: %s" % (exp["tag"], g["exc"])
    return None if g["d"] == exp["d"] and g["n"] == exp["n"] else "%s: a valid page is unpacked to another list" % exp["tag"]

def run(ctx):
    exe = build(ctx, {"drv_leaf": ["drv_leaf.cpp"]})["drv_leaf"]
    t = ctx.thorough
    dbs = {}
    def db(L, ps):
        k = (L, ps)
        if k not in dbs:
            p = ctx.path("leaf-%d-%d.1CD" % k)
            tb = T("_T", [F("_F", "B", 0, 4, 0, "CS")], [("IX", 0, [("_F", 4)])])
            tb.add({"_F": b"abcd"})
            tb.keys = [[(bytes(L), 0)]]
            tb.index_opts = {"length": L}
            d = Db("8.3.8.0", ps)
            d.tables.append(tb)
            d.write(p)
            dbs[k] = p
        return dbs[k]
    P = lambda *a: "P(%s)" % ", ".join(map(str, a))
    pats = []
    for a, c, w, z in [(0, 0, 1, 0), (0, 0, 2, 0), (0, 0, 4, 0), (3, 90, 2, 3), (0, 0, 2, 14), (14, 7, 2, 0), (5, 0, 2, 2), (100, 65, 4, 96), (1, 1, 4, 250), (250, 200, 4, 0), (0, 0, 4, 1000)]:
        for step in (0, 1, 3, 255, 256, 257, 65537):
            if w < 4 and step > 300:
                continue
            for r0, rs in [(0, 0), (0, 1), (2047, -1), (65000, 3), (2147483647, 0)][:5 if t else 5]:
                pats.append(P(a, c, w, z, step, r0, rs))
    if not t:
        pats = pats[ctx.seed % 2::2]
    runs = [("explicit", "1, 2", "0, 1, 255", "0, 1, 256", 3, [], "4066"), ("explicit3", "3", "0, 1", "0, 65535", 2, [], "4066"),
            ("explicit4", "4", "0, 7", "5, 1048576, 2147483647", 2 if not t else 3, [], "4066"), ("zero", "1, 2", "0", "0, 1, 2, 3, 4", 5, [], "4066"),
            ("patterns", "", "0", "0", 1, pats, "4066"), ("large", "", "0", "0", 1, pats[::3] if t else pats[::9], "16354, 65506" if t else "16354")]
    for name, ls, kb, rs, mx, ps_, room in runs:
        vals = tlc_inline(ctx, "MCLeaf", MC % ", ".join(ps_), CFG % (ls, kb, rs, mx, room), name="leaf-" + name, timeout=800)
        ctx.sample(dict(run=name, case={k: v for k, v in vals[len(vals) // 2].items() if k != "slots"}))
        ctx.extra.setdefault("lists", {})[name] = dict(total=len(vals), fit=sum(v["fits"] for v in vals))
        for base in range(0, len(vals), 400):
            part = [v for v in vals[base:base + 400] if (v.get("n", 0) * (v["L"] + 4) < 4000000)]
            items = [("P %s %d %s" % (db(v["L"], v["room"] + 30), v["room"] + 30, hx(raw(expand(v)))), dict(v=v)) for v in part]
            compare(ctx, exe, items, differs, lambda c, e: "pack-%s" % json.dumps(e["v"].get("pat") or e["v"]["list"])[:80].replace(" ", ""), what="pack-" + name)
            # the same lists as pages of another writer, with wider and narrower slots
            un = []
            for i, v in enumerate(part):
                keys = expand(v)
                o = [{}, {"numrecbits": 11}, {"numrecbits": 32}, {"recbytes": 8}, {"leftbits": 12, "rightbits": 12}, {"numrecbits": 21, "recbytes": 6}][(i + ctx.seed) % 6]
                pg = leaf_page(keys, v["L"], v["room"] + 30, i % 2, 0xffffffff, 0xffffffff, o)
                if pg:
                    un.append(("U %s %s" % (db(v["L"], v["room"] + 30), pg.hex()), dict(n=len(keys), d=raw(keys).hex(), tag="key length %d, %d entries, %s" % (v["L"], len(keys), o))))
            compare(ctx, exe, un, diff_un, lambda c, e: e["tag"].replace(" ", ""), what="unpack-" + name)
    ctx.assumptions += ["record numbers stay below 2^31", "lists are sorted; equal keys occur only in indexes that are not primary"]
