"""Packing: every history of Pack.tla (pack, unpack, unpack optionally, damage) is run on real bytes."""
import os, zlib
from vf import *
from pat import pattern, digest
from onecd import F, T, Db

CFG = """SPECIFICATION Spec
CONSTANTS
 Contents <- MCContents
 Styles = {%s}
 Cuts = {"1", "half", "most"}
 MaxOps = %d
 MaxLayers = %d
 Emit = TRUE
INVARIANTS Inverse Through Record
PROPERTY Kept
"""
MC = """---- MODULE MCPack ----
EXTENDS Pack
MCContents == {%s}
====
"""
def wrap(data, style):
    if style == "fit":          # the packed form is a whole number of the 16 KB pieces the tool reads
        for pad in range(0, 17000):
            c = zlib.compressobj(0, zlib.DEFLATED, -15)
            r = c.compress(data) + c.flush(zlib.Z_SYNC_FLUSH)
            want = -(-(len(r) + 10) // 16384) * 16384
            # fill up with empty stored blocks (5 bytes each) and empty fixed blocks
            gap = want - len(r) - 5
            if gap % 5 == 0:
                return r + b"\0\0\0\xff\xff" * (gap // 5) + b"\1\0\0\xff\xff"
            # a final fixed empty block takes 2 bytes: 03 00
            if (want - len(r) - 2) % 5 == 0:
                return r + b"\0\0\0\xff\xff" * ((want - len(r) - 2) // 5) + b"\3\0"
            return r + b"\1\0\0\xff\xff"
    level, bits, strat = dict(best=(9, -15, 0), fast=(1, -9, 0), stored=(0, -15, 0), huffman=(6, -15, 2), small=(9, -9, 4))[style]
    c = zlib.compressobj(level, zlib.DEFLATED, bits, 8, strat)
    return c.compress(data) + c.flush()

def broken(data, style):
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush(zlib.Z_SYNC_FLUSH) + b"\x07\xff\xff"

def is_packed(b):
    d = zlib.decompressobj(-15)
    try:
        d.decompress(b)
    except zlib.error:
        return False
    return d.eof

def cutb(b, how):
    return b[:-1] if how == "1" else b[:len(b) // 2] if how == "half" else b[:min(1, len(b) - 1)]

def build_bytes(x):
    """bytes of a state without own layers, or None where only the code's bytes can tell"""
    b = pattern(x["pat"], 0, x["len"])
    ls = list(x["layers"])
    marks = {"1", "half", "most", "broken"}
    dmg = x["damage"]
    todo = []
    i = 0
    if dmg != "none":
        if not ls or ls[0] == "own":
            return None
        todo.append((ls[0], dmg))
        i = 1
    while i < len(ls):
        if ls[i] == "own":
            return None
        if ls[i] in marks:
            if i + 1 >= len(ls) or ls[i + 1] == "own":
                return None
            todo.append((ls[i + 1], ls[i]))
            i += 2
        else:
            todo.append((ls[i], "none"))
            i += 1
    for style, d in reversed(todo):
        b = broken(b, style) if d == "broken" else wrap(b, style)
        if d in ("1", "half", "most"):
            b = cutb(b, d)
    return b

def split_own(x):
    """(number of own layers outside, state below them)"""
    if x["damage"] != "none":
        return 0, x
    ls, n = list(x["layers"]), 0
    while ls and ls[0] == "own":
        ls = ls[1:]
        n += 1
        if ls and ls[0] in ("1", "half", "most", "broken"):
            return n, dict(x, layers=ls[1:], damage=ls[0])
    return n, dict(x, layers=ls)

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    known = dict(exp["known"])
    for i, (o, r) in enumerate(zip(exp["hist"], g["res"])):
        what = "%s of a sequence of %d bytes (pattern %d), step %d of %s" % (o["op"], o["x"]["len"], o["x"]["pat"], i + 1, exp["ops"])
        if o["op"] != "cut":
            if o["ok"] != (r["err"] == ""):
                return "%s %s" % (what, "fails: %s" % r["err"] if o["ok"] else "is accepted")
            if o["ok"] and not r["prefix"]:
                return "%s changes what the destination held" % what
            if o["ok"] and not r["end"]:
                return "%s leaves the destination position before its end" % what
        n, y = split_own(o["x"])
        if not r["layers"]:
            return "%s: the packed bytes are not one complete stream" % what
        k = json.dumps([y["layers"], y["damage"]])
        if known.setdefault(k, r["dig"]) != r["dig"]:
            return "%s gives %s, not %s" % (what, r["dig"], known[k])
    return None

def run(ctx):
    ex = build(ctx, {"drv_pack": ["drv_pack.cpp"], "drv_db": ["drv_db.cpp"]})
    exe = ex["drv_pack"]
    t = ctx.thorough
    C = 16384
    small = [(p, n) for p in (0, 2, 65) for n in (0, 1, 2, 7)]
    edge = [(p, n) for p in (0, 2) for n in (C - 6, C - 5, C - 1, C, C + 1, 2 * C - 1, 2 * C, 2 * C + 1, 3 * C, 5 * C - 25, 65535, 65536, 100000)] + [(65, 4 * C), (255, C)]
    if t:
        edge += [(p, n) for p in (4, 97, 255) for n in list(range(C - 12, C + 4)) + [4 * C - 20, 8 * C, 300000]] + [(0, 3000000), (2, 1000003)]
    runs = [("small", small, '"best", "stored", "huffman"', 3 if t else 2, 2, None), ("edge", edge, '"fit", "best"', 2, 1, None),
            ("mixed", small + edge, '"fast", "stored", "huffman", "small", "fit", "best"', 6, 3, 400 if t else 40)]
    d = ctx.path("bytes")
    os.makedirs(d, exist_ok=True)
    files = {}
    for name, cont, styles, ops, layers, sim in runs:
        vals = tlc_inline(ctx, "MCPack", MC % ", ".join("[pat |-> %d, len |-> %d]" % c for c in cont), CFG % (styles, ops, layers), name="pack-" + name, simulate=sim, depth=ops + 2 if sim else None)
        seen, items, skipped = set(), [], 0
        for i, v in enumerate(vals):
            key = json.dumps(v, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            ini = v["ini"]
            if name == "edge" and not t and len(ini["layers"]) == 2 and (i + ctx.seed) % 3:
                continue
            b = build_bytes(ini)
            fk = json.dumps(ini, sort_keys=True)
            if fk not in files:
                p = os.path.join(d, "f%d" % len(files))
                with open(p, "wb") as f:
                    f.write(b)
                plain = pattern(ini["pat"], 0, ini["len"])
                ok = not (is_packed(plain) or (ini["layers"] and ini["damage"] == "broken" and is_packed(b)))
                known, x = {}, ini
                while True:
                    known[json.dumps([x["layers"], x["damage"]])] = digest(build_bytes(x))
                    if not x["layers"]:
                        break
                    x = dict(x, layers=x["layers"][1:], damage="none")
                for how in ("1", "half", "most"):
                    x = ini
                    while x["layers"]:
                        y = dict(x, damage=how)
                        known[json.dumps([y["layers"], how])] = digest(build_bytes(y))
                        x = dict(x, layers=x["layers"][1:])
                files[fk] = (p, known, ok)
            p, known, ok = files[fk]
            if not ok:
                skipped += 1
                continue
            toks = []
            for o in v["hist"]:
                toks.append("%s:%s%d" % (o["op"], o["how"] + ":" if o["op"] == "cut" else "", split_own(o["x"])[0]))
            j = i + ctx.seed
            pres, kinds = [(0, 0), (5, 0), (0, 7), (C, 3), (C - 1, C)], [("mem", "mem"), ("mem", "temp"), ("file", "mem"), ("temp", "file"), ("file", "temp")]
            pre, (k1, k2) = pres[j % 5], kinds[(j // 5) % 5]
            items.append(("P %s %s %s %d %d %s" % (p, k1, k2, pre[0], pre[1], " ".join(toks)), dict(hist=v["hist"], known=known, ops=" ".join(toks))))
        ctx.extra.setdefault("histories", {})[name] = len(items)
        ctx.extra["skipped"] = ctx.extra.get("skipped", 0) + skipped
        ctx.sample(dict(run=name, ini=v["ini"], ops=items[len(items) // 2][1]["ops"]))
        compare(ctx, exe, items, differs, lambda c, e: "%d-%d-%s" % (e["hist"][0]["x"]["pat"], e["hist"][0]["x"]["len"], e["ops"].replace(":", "_").replace(" ", "-")[:60]), what="pack-" + name, chunk=60)
    # the same sequences as long values of records, which the tool unpacks where they are packed
    byini, dbs = {}, []
    for fk, (p, known, ok) in files.items():
        x = json.loads(fk)
        if ok and x["len"] < 70000:
            byini[fk] = x
    keys = sorted(byini, key=lambda k: (len(k), k))
    for base in range(0, len(keys), 40):
        part = keys[base:base + 40]
        tb = T("_T", [F("_FLD0", "I", 1)])
        exp = []
        for i, k in enumerate(part):
            x = byini[k]
            b = build_bytes(x)
            y = x if x["damage"] != "none" or not x["layers"] else dict(x, layers=x["layers"][1:])       # OrCopy
            if len(b) == 0:
                exp.append(("", ""))
            else:
                exp.append((digest(b), digest(build_bytes(y))))
            tb.add({"_FLD0": tb.long(b)})
        db = Db(*[("8.3.8.0", 4096), ("8.2.14.0", 4096)][(base // 40) % 2])
        db.tables.append(tb)
        p = ctx.path("v%d.1CD" % base)
        db.write(p)
        dbs.append(("U %s _T _FLD0" % p, exp))
    def diff_db(exp, g):
        if "crash" in g:
            return "crash: %s %s" % (g["crash"], g.get("where"))
        if "exc" in g:
            return "error: %s" % g["exc"]
        for i, ((raw, un), r) in enumerate(zip(exp, g["recs"])):
            for k, want in (("raw", raw), ("un", un)):
                got = r[k]
                if "exc" in got:
                    return "long value %d: error %s" % (i, got["exc"])
                d = digest(bytes.fromhex(got["d"])) if got["ok"] else ""
                if d != want:
                    return "long value %d %s is %s, not %s" % (i, "as stored" if k == "raw" else "unpacked", d or "absent", want or "absent")
        return None if len(g["recs"]) == len(exp) else "%d records" % len(g["recs"])
    compare(ctx, ex["drv_db"], dbs, diff_db, lambda c, e: os.path.basename(c.split()[1]), what="values", chunk=2)
    ctx.assumptions += ["a sequence that by chance begins with a complete packed stream counts as packed", "raw deflate carries no checksum: damage that still decodes cannot be seen"]
