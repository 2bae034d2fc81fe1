"""Long values: every chain of BlobChain.tla is laid out in a table's file of long values and read."""
import os, struct
from vf import *
import onecd
from onecd import F, T, Db, Blob
from pat import pattern

CFG = """SPECIFICATION Spec
CONSTANTS
 NBlocks = %d
 Lens = {%s}
 MaxPiece = 250
 Emit = TRUE
INVARIANTS InOrder WholeWhenOk Bounded Record
"""

def content(uid, b, n):
    return pattern(2 + 2 * ((uid * 37 + b) % 5000), b * 31, n)

def lay(vals, n, ver, ps, path, pad=b""):
    """all the chains in one file of long values, each in its own blocks; returns [(start, chains)]"""
    db = Db(ver, ps)
    t = T("LONG", [F("A", "N", 0, 5, 0), F("V", "I", 0)])
    bl = Blob()
    total = 1 + sum(len(v["chain"]) for v in vals)
    queries = []
    for uid, v in enumerate(vals):
        used = [c["b"] for c in v["chain"]]
        # block numbers are kept in the order of the specification's numbers, packed
        num = {b: len(bl.blocks) + k for k, b in enumerate(sorted(used))}
        num[0] = 0
        num[n + 1] = total if uid % 3 else 0xffffffff if uid % 2 else total + 7
        bl.blocks += [None] * len(used)
        for c in v["chain"]:
            body = content(uid, c["b"], min(c["len"], 250))
            bl.blocks[num[c["b"]]] = struct.pack("<IH", num.get(c["next"], 0), c["len"]) + body + b"\xee" * (250 - len(body))
        queries.append((num[v["start"]] if v["start"] else 0, num))
    assert len(bl.blocks) == total
    t.blob = bl
    if pad:
        raw = bl.bytes() + pad
        t.blob = type("Raw", (), {"bytes": lambda s: raw})()
    db.tables.append(t)
    db.write(path)
    return queries

def expected(uid, v):
    return b"".join(content(uid, c["b"], c["len"]) for c in v["chain"] if c["len"] <= 250)

def judge(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "the table cannot be read: %s" % g["exc"]
    for q, r in zip(exp, g["r"]):
        want, ok, length, start = q["data"], q["res"] == "ok", q["len"], q["start"]
        right = ok and length == len(want) // 2
        for k in ("t", "buf"):
            x = r[k]
            if right:
                if x.get("d") != want:
                    return "%s at block %d: %s instead of the %d bytes stored" % (k, start, str(x)[:80], length)
                if x.get("msgs"):
                    return "%s at block %d: a warning for a sound value" % (k, start)
            elif "exc" not in x and not x["msgs"]:
                return "%s at block %d: a damaged value (%s, recorded length %d, %d bytes) is not reported" % (k, start, q["res"], length, len(want) // 2)
        if right and r["app"].get("d") != "4142" + want:
            return "appended value at block %d differs" % start
        if q["file"]:
            if right and r["o"].get("d") != want:
                return "object reading at block %d: %s" % (start, str(r["o"])[:80])
            if not right and "exc" not in r["o"]:
                return "object reading at block %d: damage (%s) is not reported" % (start, q["res"])
            if ok and r["un"].get("d") != want and start:
                return "reading of unknown length at block %d: %s" % (start, str(r["un"])[:80])
            if not ok and "exc" not in r["un"]:
                return "reading of unknown length at block %d: damage (%s) is not reported" % (start, q["res"])
    return None

def run(ctx):
    exe = build(ctx, {"drv_db": ["drv_db.cpp"]})["drv_db"]
    d = ctx.path("dbs")
    os.makedirs(d, exist_ok=True)
    t = ctx.thorough
    runs = [("all", 3, "0, 1, 250, 251", None), ("pieces", 2, "0, 1, 2, 125, 249, 250, 251, 255, 256, 32767, 32768, 65535", None)]
    if t:
        runs.append(("deep", 4, "0, 7, 250, 251", None))
    runs.append(("long", 40, "0, 1, 100, 249, 250", 400 if t else 40))
    runs.append(("huge", 300, "250, 249", 30 if t else 4))
    for name, n, lens, sim in runs:
        cfg = CFG % (n, lens)
        if not sim:
            cfg += "PROPERTY Terminates\n"
        vals = tlc(ctx, "BlobChain", cfg, name="chains-" + name, simulate=sim, depth=(n + 3) if sim else None)
        seen, uniq = set(), []
        for v in vals:
            k = json.dumps(v)
            if k not in seen:
                seen.add(k)
                uniq.append(v)
        if name == "deep":
            uniq = uniq[ctx.seed % 7::7]
        ctx.sample(uniq[len(uniq) // 2])
        res = {}
        for v in uniq:
            res[v["res"]] = res.get(v["res"], 0) + 1
        ctx.extra.setdefault("chains", {})[name] = res
        items = []
        confs = [("8.3.8.0", 4096), ("8.2.14.0", 4096)] + ([("8.3.8.0", 65536), ("8.1.0.0", 4096), ("8.3.8.0", 16384)] if t else [("8.3.8.0", 65536)] if name == "long" else [])
        step = 12 if sim else 150
        for ver, ps in confs:
            for base in range(0, len(uniq), step):
                part = uniq[base:base + step]
                p = os.path.join(d, "%s-%s-%d-%d.1CD" % (name, ver, ps, base))
                qs = lay(part, n, ver, ps, p)
                line, exp = "B %s LONG" % p, []
                for uid, (v, (start, num)) in enumerate(zip(part, qs)):
                    data = expected(uid, v)
                    if v["start"] == n + 1:
                        start = num[n + 1]
                    for length in sorted({len(data), max(0, len(data) - 1), len(data) + 1, 0, len(data) + 250}):
                        line += " %d:%d" % (start, length)
                        exp.append(dict(data=data.hex(), res=v["res"], len=length, start=start, file=True))
                items.append((line, exp))
        compare(ctx, exe, items, judge, lambda c, e: c.split("/")[-1][:60], what="chains-" + name, chunk=2)
        ctx.traces += sum(len(e) for _, e in items) - len(items)
    # no file of long values; a file of long values whose length is not whole blocks
    one = dict(start=1, chain=[dict(b=1, len=10, next=0)], res="ok", total=10)
    items = []
    for ver, ps in (("8.3.8.0", 4096), ("8.2.14.0", 4096)):
        p = os.path.join(d, "none-%s.1CD" % ver)
        db = Db(ver, ps)
        db.tables.append(T("LONG", [F("A", "N", 0, 5, 0), F("V", "I", 0)]))
        db.write(p)
        items.append(("B %s LONG 0:0 0:5 1:5" % p, [dict(data="", res="ok", len=0, start=0, file=False), dict(data="", res="outside", len=5, start=0, file=False), dict(data="", res="outside", len=5, start=1, file=False)]))
        for k in (1, 100, 255):
            p = os.path.join(d, "odd%d-%s.1CD" % (k, ver))
            lay([one], 3, ver, ps, p, pad=bytes(k))
            items.append(("B %s LONG 1:10" % p, [dict(data="", res="outside", len=10, start=1, file=True)]))
    compare(ctx, exe, items, judge, lambda c, e: c.split("/")[-1][:60], what="odd files")
    ctx.assumptions += ["blocks of 256 bytes with 250 bytes of the value, as the format has", "a wrong total is reported by a warning (table) or an error (object)"]
