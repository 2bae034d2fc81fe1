"""Table descriptions: every description of TableDescr.tla is written into a file and read by the code."""
import os
from vf import *
import onecd
from onecd import F, T, Db

TYPES = {"B": 0, "L": 1, "N": 2, "NC": 3, "NVC": 4, "RV": 5, "NT": 6, "T": 7, "I": 8, "DT": 9, "VB": 11}
NAMES = ["ID", "_FLD%d", "_IDRREF", "ИМЯ%d", "_FLD%dTREF", "F%d", "_CODE%d", "DESCRIPTION%d", "Поле с пробелом %d", "a,b{}%d"]
MC = """---- MODULE MCDescr ----
EXTENDS TableDescr
K(t, l, p, n, c) == [t |-> t, len |-> l, prec |-> p, null |-> n, case |-> c]
MCKinds == {%s}
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 Kinds <- MCKinds
 MaxFields = %d
 MaxIndexes = %d
 MaxIdxFields = %d
 Records = {%s}
 Emit = TRUE
INVARIANTS Tiled VersionFirst Record
"""
def kind(t, l=0, p=0, n=False, c="CS"):
    return 'K("%s", %d, %d, %s, "%s")' % (t, l, p, "TRUE" if n else "FALSE", c)
ALL = [kind("B", 16), kind("B", 1, n=True), kind("B", 20), kind("L"), kind("L", n=True), kind("N", 5), kind("N", 6, 2), kind("N", 7, 7, True), kind("NC", 3), kind("NC", 4, 0, True, "CI"),
       kind("NVC", 10, 0, False, "CI"), kind("NVC", 1, 0, True), kind("RV"), kind("NT"), kind("NT", n=True), kind("T"), kind("I"), kind("I", n=True), kind("DT"), kind("DT", n=True), kind("VB", 5), kind("VB", 8, n=True)]
NAMEOF = {}

def name(i, v):
    n = NAMES[(i * 7 + len(v["fields"]) + v["nrec"]) % len(NAMES)]
    return (n % i if "%d" in n else "%s%d" % (n, i) if i else n)

def build_db(vals, ver, ps, path):
    db = Db(ver, ps)
    exp = []
    for u, v in enumerate(vals):
        names = [name(i, v) for i in range(len(v["fields"]))]
        fs = [F(n, x["k"]["t"], int(x["k"]["null"]), x["k"]["len"], x["k"]["prec"], x["k"]["case"]) for n, x in zip(names, v["fields"])]
        ix = [("IX%d_%d" % (u, k), int(i["primary"]), [(names[f - 1], 3 + 2 * j) for j, f in enumerate(i["fs"])]) for k, i in enumerate(v["indexes"])]
        t = T("_TAB%d" % u, fs, ix, recordlock=int(v["lock"]))
        t.records = [bytes([1 if r == 0 else 0]) + bytes((r * 3 + k) & 255 for k in range(v["reclen"] - 1)) for r in range(v["nrec"])]
        if u % 3 == 1:
            t.long(b"x" * 300)
        db.tables.append(t)
        exp.append((t, names, v))
    db.write(path)
    want = []
    for t, names, v in exp:
        fl = [dict(name=n.encode().hex(), type=TYPES[x["k"]["t"]], len=x["k"]["len"], prec=x["k"]["prec"], null=x["k"]["null"], cs=x["k"]["case"] == "CS", size=x["size"], off=x["off"])
              for n, x in zip(names, v["fields"])]
        il = [dict(name=n.encode().hex(), primary=bool(p), fields=[dict(f=f.encode().hex(), l=l) for f, l in fs], start=db.ps * (1 + 2 * k), length=4) for k, (n, p, fs) in enumerate(t.indexes)]
        want.append(dict(name=t.name.encode().hex(), fields=fl, indexes=il, recordlen=v["reclen"], phys=v["nrec"], lock=v["lock"], files=list(t.files), hidden=v["hidden"], hoff=v["hoff"]))
    return want

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "the database is refused: %s" % g["exc"]
    if len(g["tables"]) != len(exp):
        return "%d tables instead of %d" % (len(g["tables"]), len(exp))
    for w, x in zip(exp, g["tables"]):
        w, x = dict(w), dict(x)
        hid, hoff = w.pop("hidden"), w.pop("hoff")
        n = len(w["fields"])
        extra = x["fields"][n:]
        x["fields"] = x["fields"][:n]
        if extra and not (hid and len(extra) == 1 and extra[0]["off"] == hoff and extra[0]["size"] == 8):
            return "table %s has fields that are not described: %s" % (w["name"], extra)
        for k in w:
            if w[k] != x[k]:
                if k == "fields":
                    for p, q in zip(w[k], x[k]):
                        if p != q:
                            return "table %s: field %s, described as %s" % (w["name"], q, p)
                return "table %s: %s is %s, described as %s" % (w["name"], k, x[k], w[k])
    return None

def run(ctx):
    exe = build(ctx, {"drv_db": ["drv_db.cpp"]})["drv_db"]
    d = ctx.path("dbs")
    os.makedirs(d, exist_ok=True)
    t = ctx.thorough
    few = [kind("B", 16), kind("L"), kind("RV"), kind("NVC", 2, 0, True), kind("N", 6, 2), kind("VB", 3)]
    runs = [("pairs", ALL, 2, 0, 0, "0, 2", None), ("single", [kind("N", l, p) for l in range(0 if False else 1, 33) for p in (0, l // 2)] + [kind(x, l, 0, n, c) for x in ("B", "NC", "NVC", "VB") for l in (1, 2, 16, 255, 1000) for n in (False, True) for c in ("CS", "CI")], 1, 0, 0, "0, 1, 7", None),
            ("indexes", few[:3], 3, 1, 3, "3", None), ("order", few, 4 if t else 3, 0, 0, "1", None),
            ("long", ALL, 25, 6, 5, "0, 5", 300 if t else 25)]
    if t:
        runs.append(("triples", ALL, 3, 0, 0, "1", None))
    for name_, kinds, mf, mi, mif, recs, sim in runs:
        mod = MC % ", ".join(dict.fromkeys(kinds))
        vals = tlc_inline(ctx, "MCDescr", mod, CFG % (mf, mi, mif, recs), name="descr-" + name_, simulate=sim, depth=mf + mi + 2 if sim else None)
        if name_ == "triples":
            vals = vals[ctx.seed % 3::3]
        ctx.sample(vals[len(vals) // 2])
        ctx.extra.setdefault("descriptions", {})[name_] = len(vals)
        confs = [("8.3.8.0", 4096), ("8.2.14.0", 4096)] + ([("8.1.0.0", 4096), ("8.3.8.0", 32768), ("8.0.5.0", 4096)] if t else [])
        items = []
        for ver, ps in confs:
            for base in range(0, len(vals), 40):
                p = os.path.join(d, "%s-%s-%d-%d.1CD" % (name_, ver, ps, base))
                items.append(("D %s" % p, build_db(vals[base:base + 40], ver, ps, p)))
        compare(ctx, exe, items, differs, lambda c, e: c.split("/")[-1], what="descr-" + name_, chunk=3)
        ctx.traces += sum(len(e) for _, e in items) - len(items)
        for c, _ in items:
            os.unlink(c[2:])
    ctx.assumptions += ["a table has at most one version field", "names do not contain quotes"]
