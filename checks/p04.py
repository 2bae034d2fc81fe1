"""Opening: every header of OpenDb.tla is made into a file and opened by the code."""
import os, struct, sys
from vf import *
import onecd
from onecd import F, T, Db

CFG = """SPECIFICATION Spec
CONSTANTS
 Sigs <- MCSigs
 Vers <- MCVers
 PageSizes <- MCPs
 Pages <- MCPages
 Extras <- MCExtras
 Deltas <- MCDeltas
 Langs <- MCLangs
 TableSets <- MCTables
 Modes <- MCModes
 Emit = TRUE
INVARIANTS OnlyValidOpened Faithful MCRecord
"""
VERS = ["<<8,0,3,0>>", "<<8,0,5,0>>", "<<8,1,0,0>>", "<<8,2,0,0>>", "<<8,2,14,0>>", "<<8,3,8,0>>",
        "<<0,0,0,0>>", "<<8,3,8,1>>", "<<8,3,9,0>>", "<<8,2,14,1>>", "<<8,0,4,0>>", "<<8,1,1,0>>", "<<9,3,8,0>>", "<<8,2,15,0>>", "<<8,28,0,0>>", "<<83,8,0,0>>"]
MC = """---- MODULE MCOpen ----
EXTENDS OpenDb
MCSigs == %(sigs)s
MCVers == {%(vers)s}
MCPs == %(ps)s
MCPages == {20}
MCExtras == %(extras)s
MCDeltas == %(deltas)s
MCLangs == %(langs)s
MCTables == %(tables)s
MCModes == {TRUE, FALSE}
B(x) == IF x THEN 1 ELSE 0
Damage(x) == B(x.sig # "ok") + B(x.ver \\notin Supported) + B(EffPage(x) \\notin PowersOK) + B(x.extra # 0) + B(x.delta # 0)
Useful(x) == (x.ver # <<8,3,8,0>> => x.ps \\in {4096, 0}) /\\ Damage(x) <= %(dmg)d
MCRecord == Useful(f) => Record
====
"""
INFO = ["CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"]
DEPOT = ["DEPOT", "USERS", "OBJECTS", "VERSIONS", "LABELS", "HISTORY", "LASTESTVERSIONS", "EXTERNALS", "SELFREFS", "OUTREFS"]

def tset(lists):
    return "{%s}" % ", ".join("<<%s>>" % ", ".join('"%s"' % n for n in l) for l in lists)

def render(rec, path, lower):
    f = rec["f"]
    ver = ".".join(map(str, f["ver"]))
    real = ver if ver in onecd.OLD + ("8.3.8.0",) else "8.2.14.0"
    ps = f["ps"] if ver == "8.3.8.0" and f["ps"] in (4096, 8192, 16384, 32768, 65536) else 4096
    db = Db(real, ps, f["lang"])
    for n in f["tables"]:
        db.tables.append(T(n.lower() if lower else n, [F("A", "N", 0, 5, 0)]))
    b = bytearray(db.bytes())
    n = len(b) // db.ps
    b[8:12] = bytes(f["ver"])
    struct.pack_into("<I", b, 12, n + f["delta"])
    struct.pack_into("<I", b, 20, f["ps"] & 0xffffffff if ver == "8.3.8.0" else f["ps"] & 0xffff)
    e = f["extra"]
    b = b + bytes(e) if e >= 0 else b[:e]
    if f["sig"] == "bit":
        b[7] ^= 1
    elif f["sig"] == "zero":
        b[:8] = bytes(8)
    elif f["sig"] == "short":
        b = b[:7]
    elif f["sig"] == "case":
        b[:8] = b"1cdbmsv8"
    with open(path, "wb") as fh:
        fh.write(b)

def differs(exp, g):
    o, lower = exp["o"], exp["lower"]
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if o["res"] == "refused":
        return None if "exc" in g else "a file that is not valid is opened: %s" % json.dumps(g)
    if "exc" in g:
        return "a valid file is refused: %s" % g["exc"]
    names = [(n.lower() if lower else n).encode().hex() for n in o["tables"]]
    want = dict(ver=".".join(map(str, o["ver"])), ps=o["ps"], lang=o["lang"].encode().hex(), tables=names,
                infobase=o["kind"] == "infobase", depot=o["kind"] == "depot", readonly=o["readonly"])
    bad = {k: (g.get(k), v) for k, v in want.items() if g.get(k) != v}
    return "reported (code, file): %s" % json.dumps(bad) if bad else None

def run(ctx):
    exe = build(ctx, {"drv_db": ["drv_db.cpp"]})["drv_db"]
    one = [["CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"]]
    full = ctx.thorough
    runs = [("headers", dict(sigs='{"ok", "bit", "zero", "short", "case"}', vers=",".join(VERS),
                             ps="{4096, 8192, 16384, 32768, 65536, 0, 1, 512, 2048, 4095, 4097, 12288, 131072, -1}",
                             extras="{0, 1, 100, 4095, 4096, -1, 8192}", deltas="{0, 1, -1, 2, 1000}", langs='{"ru_RU"}', tables=tset(one), dmg=3 if full else 2))]
    subs = [[n for k, n in enumerate(INFO) if m >> k & 1] for m in range(32)]
    subs += [[n for n in DEPOT if n != x] for x in DEPOT] + [[x] for x in DEPOT] + [DEPOT, DEPOT[::-1], INFO + DEPOT, DEPOT[:3] + INFO, DEPOT + INFO[:1], INFO[1:] + DEPOT]
    subs += [["_REFERENCE%d" % i for i in range(k)] + t for k in (1, 2, 53, 54, 55, 107, 116, 117, 200) for t in ([], INFO)]
    subs += [INFO + ["CONFIGCAS", "CONFIGCASSAVE", "_EXTENSIONSINFO", "_YEAROFFSET"], ["Config1", "XCONFIG"], ["V8USERS"]]
    runs.append(("tables", dict(sigs='{"ok"}', vers=",".join(VERS[:6]), ps="{4096, 65536}" if not full else "{4096, 8192, 16384, 32768, 65536}", extras="{0}", deltas="{0}",
                                langs='{"ru_RU", ""}' if not full else '{"ru_RU", "", "en", "uk_UA"}', tables=tset(subs), dmg=0)))
    runs.append(("locales", dict(sigs='{"ok"}', vers=",".join(VERS[2:6]), ps="{4096}", extras="{0}", deltas="{0}",
                                 langs="{%s}" % ", ".join('"%s"' % ("abcdefghij" * 4)[:k] for k in range(32)), tables=tset([["X"]] + one), dmg=0)))
    d = ctx.path("dbs")
    os.makedirs(d, exist_ok=True)
    for name, p in runs:
        vals = tlc_inline(ctx, "MCOpen", MC % p, CFG, name="open-" + name, heap="8g")
        if not full and name == "tables":
            vals = [v for i, v in enumerate(vals) if len(v["f"]["tables"]) < 60 or i % 7 == 0]
        ctx.sample(vals[len(vals) // 2])
        opened = sum(v["o"]["res"] == "opened" for v in vals)
        ctx.extra.setdefault("outcomes", {})[name] = dict(opened=opened, refused=len(vals) - opened)
        for base in range(0, len(vals), 400):
            part = vals[base:base + 400]
            items = []
            for i, v in enumerate(part):
                p = os.path.join(d, "%d.1CD" % i)
                lower = (base + i) % 5 == 4
                render(v, p, lower)
                items.append(("O %s %d" % (p, v["f"]["excl"]), dict(v, lower=lower)))
            compare(ctx, exe, items, differs, lambda c, e: json.dumps(e["f"]), what="open-" + name, chunk=25)
            if len(ctx.violations) > 5:
                return
    ctx.assumptions += ["files are rendered by lib/onecd.py; the header and table list are what varies, page contents are well formed"]
