"""Databases beyond 4 GB: layouts of LargeDb.tla are rendered as sparse files with shared pages and read through the
command line (sizes of tables, XML export) and the library (walks, long values, positions in the file)."""
import os, re, shutil, struct
from vf import *
import onecd
from onecd import F, T, Db, SparsePages

MC = """---- MODULE MCLarge ----
EXTENDS LargeDb
MCChains == {%(chains)s}
MCLeaves == {%(leaves)s}
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 RecUnits = %(ru)d
 WrapUnits = %(wrap)d
 Slots = {%(slots)s}
 Points = {%(points)s}
 Chains <- MCChains
 StoreLens = {%(stores)s}
 Leaves <- MCLeaves
 Roots = {%(roots)s}
 Heads = {%(heads)s}
 Gaps = {%(gaps)s}
 MaxRecs = %(recs)d
 Sim = %(sim)s
 Emit = %(emit)s
INVARIANTS WholeRecords WholeValues InsideTable SameRecords Emitted
"""
UNIT = 8192
G4 = 1 << 32
seq = lambda c: "<<%s>>" % ", ".join(str(x) for x in c)
nums = lambda xs: ", ".join(str(x) for x in xs)

def config(ver, ps, reclen, top, sim, recs=5, emit=True):
    """top: the length (bytes) the table and the stores go up to"""
    ru = reclen // UNIT
    w = G4 // reclen                   # the record at (or across) 2^32
    h = (G4 // 2) // reclen
    last = top // reclen
    points = {1, 2, h - 1, h, h + 1, last - 1} | {x for x in (w - 1, w, w + 1, w + 2) if x < last}
    wb, hb = 1 << 24, 1 << 23
    tb = top // 256
    pages = G4 // ps
    tp = top // ps
    if top > G4:
        far = [wb, wb + 1, wb + 2, wb + 3]
        fp = [pages + i for i in range(1, 6)]
    else:
        far = [hb, hb + 1, tb - 1, tb - 2]
        fp = [pages // 2 + i for i in range(1, 4)] + [tp - 2, tp - 1]
    chains = [[], [1], [2, 3], [far[1]], [far[2], far[3]], [3, far[1], 2], [far[3], 1, far[2]], [far[0], 4]]
    leaves = [[3], [fp[0]], [3, 4, 5], [fp[0], 4, fp[2]], [4, fp[1]], [fp[2], fp[1]], [fp[2]]]
    return dict(ru=ru, wrap=G4 // UNIT, slots=nums(sorted({last, last - 1 if sim else last})), points=nums(sorted(points)), chains=", ".join(seq(c) for c in chains), leaves=", ".join(seq(c) for c in (leaves if sim else leaves[:2])),
                stores=nums(sorted({tb, 64} if sim else {tb})), roots=nums(sorted(set([3, fp[0], fp[2], 6, fp[3]]))), heads=nums([1, fp[4]] if sim else [fp[4]]), gaps=nums([0, pages] if sim else [pages]), recs=recs,
                sim="TRUE" if sim else "FALSE", emit="TRUE" if emit else "FALSE")

def text(tag, part):
    return ("v%d.%d " % (tag, part)).ljust(125 if part % 3 else 124, "abcdefghij"[tag % 10])

def render(v, ver, ps, reclen, path):
    """Writes the file; returns {tag: (id, text, pad)}"""
    db = Db(ver, ps)
    db.pages = SparsePages(db.pages)
    db.pages.skip(v["gap"])
    free = db.page(b"".join(b"\1".ljust(256, b"\0") for _ in range(ps // 256)))      # removed records
    junk = db.page(b"".join(struct.pack("<IH", 0, 250) + b"#" * 250 for _ in range(ps // 256)))      # pieces nobody refers to
    leaf = db.page(onecd.leaf_page([], 4, ps, 0, 0xffffffff, 0xffffffff))
    t = T("BIG", [F("ID", "N", 0, 9, 0), F("V", "NT"), F("PAD", "B", 0, reclen - 1 - 5 - 8)], [("BYID", 1, [("ID", 9)])])
    off, n = t.layout()
    assert n == reclen
    contents, parts, sparts = {}, {}, {}
    def put(parts, pos, data, page):
        while data:
            p, o = divmod(pos, ps)
            b = parts.setdefault(p, bytearray(db.pages[page]))
            k = min(len(data), ps - o)
            b[o:o + k] = data[:k]
            pos, data = pos + k, data[k:]
    for i, r in enumerate(v["rows"]):
        tag = i + 1
        c = r["chain"]
        vals = [text(tag, k + 1) for k in range(len(c))]
        for k, b in enumerate(c):
            d = onecd.utf16(vals[k])
            put(sparts, b * 256, struct.pack("<IH", c[k + 1] if k + 1 < len(c) else 0, len(d)) + d.ljust(250, b"\0"), junk)
        pad = bytes((x * 7 + tag * 31 + (x >> 8)) & 255 for x in range(reclen - 14))
        rec = t.record(dict(ID=onecd.number(1, str(tag * 1000 + r["slot"] % 1000), 9), V=struct.pack("<II", c[0], sum(len(onecd.utf16(x)) for x in vals)) if c else bytes(8), PAD=pad), deleted=not r["live"])
        put(parts, r["slot"] * reclen, rec, free)
        contents[r["slot"]] = (str(tag * 1000 + r["slot"] % 1000), "".join(vals), pad.hex())
    # the index: head, leaves in key order, root
    unit = 1 if db.new else ps
    keys = [(struct.pack(">I", k), s) for k, s in enumerate(v["bykey"])]
    ls = v["leaves"]
    per = (len(keys) + len(ls) - 1) // len(ls)
    idx = {}
    groups = [keys[i * per:(i + 1) * per] for i in range(len(ls))]
    ups = []
    for i, p in enumerate(ls):
        idx[p] = onecd.leaf_page(groups[i], 4, ps, 1 if len(ls) == 1 else 0, ls[i - 1] * unit if i else 0xffffffff, ls[i + 1] * unit if i + 1 < len(ls) else 0xffffffff)
        key, rec = groups[i][-1] if groups[i] else (b"\xff\xff\xff\xff", 0)
        ups.append(key + struct.pack(">II", rec, p * unit))
    if len(ls) > 1:
        idx[v["root"]] = struct.pack("<HHII", 1, len(ups), 0xffffffff, 0xffffffff) + b"".join(ups)
    idx[v["head"]] = struct.pack("<Ih", v["root"] * unit, 4)
    idx[0] = struct.pack("<II", 0, v["head"] * unit)
    ilen = (max(idx) + 2) * ps
    d = db.store_virtual(v["slots"] * reclen, {k: bytes(b) for k, b in parts.items()}, free)
    where = {s: db.own[s * reclen // ps] * ps + s * reclen % ps for s in contents}
    b = db.store_virtual(v["store"] * 256, {k: bytes(b) for k, b in sparts.items()}, junk)
    x = db.store_virtual(ilen, idx, leaf)
    t.files = (d, b, x)
    u = T("SAME", t.fields)
    u.files = (d, b, 0)
    s = T("SMALL", [F("A", "N", 0, 5, 0)])
    s.add(dict(A=onecd.number(1, "42", 5)))
    db.tables += [t, u, s]
    db.write_sparse(path)
    sizes = [("BIG", v["slots"], v["units"] * UNIT, v["store"] * 256, ilen), ("SAME", v["slots"], v["units"] * UNIT, v["store"] * 256, 0), ("SMALL", 1, len(s.records[0]), 0, 0)]
    return contents, sizes, where

def parse(path):
    b = open(path, "rb").read().decode("utf-8-sig")
    out = []
    for r in re.findall(r"\t\t<Record>\r\n(.*?)\t\t</Record>\r\n", b, re.S):
        out.append(tuple(re.findall(r"\t\t\t<%s>(.*?)</%s>" % (f, f), r, re.S)[0:1] for f in ("ID", "V", "PAD")))
    return [tuple(x[0] if x else None for x in r) for r in out]

def first_diff(got, want):
    if len(got) != len(want):
        return "%d records instead of %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for f, x, y in zip(("ID", "V", "PAD"), g, w):
            if (x or "").lower() != y.lower():
                return "record %d of %d: %s is %.60r instead of %.60r" % (i + 1, len(want), f, x, y)

def run(ctx):
    exes = build(ctx, {"drv_db": ["drv_db.cpp"], "ctool1cd": ["CLI"]}, asan=False)
    ctx.memory = 3000       # records are not kept: a table of 4 GB is read in little memory
    th = ctx.thorough
    T4 = G4 + (1 << 20)
    confs = [("8.3.8.0", 65536, 32768, T4), ("8.3.8.0", 65536, 65536, T4), ("8.3.8.0", 65536, 40960, T4), ("8.3.8.0", 32768, 131072, T4), ("8.2.14.0", 4096, 65536, 3 << 30), ("8.3.8.0", 16384, 65536, G4 + (5 << 20)),
             ("8.3.8.0", 65536, 65536, (3 << 30)), ("8.1.0.0", 4096, 40960, G4 - (1 << 20)), ("8.3.8.0", 8192, 98304, T4 + (1 << 20))]
    cases = []
    confs += [("8.3.8.0", 65536, 65536, 3 * G4 + (1 << 20)), ("8.3.8.0", 16384, 32768, 2 * G4 + (6 << 20))]
    for n, (ver, ps, rl, top) in enumerate(confs if th else confs[:6] + confs[-2:-1]):
        sim = tlc_inline(ctx, "MCLarge", MC % config(ver, ps, rl, top, True), CFG % config(ver, ps, rl, top, True), name="large-%d" % n, simulate=100 if th else 40, depth=10)
        seen = {}
        for v in sim:
            seen[json.dumps(v, sort_keys=True)] = v
        vs = sorted(seen.values(), key=lambda v: (-v["decoys"], -sum(len(r["chain"]) for r in v["rows"]), -len(v["rows"]), json.dumps(v, sort_keys=True)))
        k = 16 if th else 8
        vs = vs[:k] + vs[k::max(1, len(vs) // (2 * k))][:k]
        ctx.extra.setdefault("layouts", {})["%s %d %d" % (ver, ps, rl)] = dict(layouts=len(vs), decoys=sum(v["decoys"] for v in vs), gaps=sum(v["gap"] > 0 for v in vs))
        cases += [(v, ver, ps, rl) for v in vs]
    # small instance, all reachable layouts, properties only
    m = config("8.3.8.0", 65536, 65536, T4, False, recs=2, emit=False)
    tlc_inline(ctx, "MCLarge", MC % m, CFG % m, name="large-all", want=False)
    ctx.sample(cases[0][0])

    def one(case):
        k, (v, ver, ps, rl) = case
        d = ctx.path("case%d" % k)
        os.makedirs(d + "/x", exist_ok=True)
        p = os.path.join(d, "db.1CD")
        rows, sizes, where = render(v, ver, ps, rl, p)
        out = []
        name = "%s-%d-%d" % (ver, ps, rl)
        rc, so, se = run_cli(ctx, exes["ctool1cd"], ["db.1CD", "-q", "-ne", "-sts", "s.txt", "-ex", "x", "*"], d)
        want = "\ufefftable_name|records_count|data_size|blob_size|index_size\r\n" + "".join("%s|%d|%d|%d|%d\r\n" % x for x in sizes)
        try:
            got = open(d + "/s.txt", "rb").read().decode("utf-8")
        except OSError:
            got = "(no report) %s" % so[-200:]
        if got != want:
            bad = [a for a in got.split("\r\n") if a not in want.split("\r\n")]
            out.append(("sizes-" + name, "the report of sizes has %s instead of %s" % (bad, [a for a in want.split("\r\n") if a not in got.split("\r\n")])))
        for tab, order in (("BIG", v["bykey"]), ("SAME", v["walk"])):
            try:
                g = parse(os.path.join(d, "x", tab + ".xml"))
            except OSError:
                out.append(("export-" + name, "table %s is not exported: %s" % (tab, so[-300:])))
                continue
            w = first_diff(g, [rows[s] for s in order])
            if w:
                out.append(("export-" + name, "table %s: %s" % (tab, w)))
        if rc != 0:
            out.append(("exit-" + name, "exit code %s: %s" % (rc, (so + se)[-300:])))
        for x in drive(ctx, exes["drv_db"], ["L %s BIG" % p]):
            if "exc" in x or "crash" in x:
                out.append(("walk-" + name, "walking the table: %s" % (x.get("exc") or x["crash"])))
                continue
            for f, w in (("walk", [rows[s][0] for s in v["walk"]]), ("keys", [rows[s][0] for s in v["bykey"]]), ("fill", v["walk"]), ("index", v["bykey"]),
                         ("pos", [where[s] for s in v["walk"]]), ("text", [rows[s][1] for s in v["walk"]]), ("object", [rows[s][1] for s in v["walk"]])):
                if x[f] != w:
                    out.append((f + "-" + name, "%s of the table gives %.200s instead of %.200s" % (f, x[f], w)))
        shutil.rmtree(d)
        return out
    for (k, c), res in zip(enumerate(cases), pmap(one, list(enumerate(cases)), 8)):
        ctx.count("layouts", 1)
        ctx.traces += 1
        for key, msg in res:
            ctx.violation(key, "%s %s, pages of %d, records of %d: %s" % (c[1], key.split("-")[0], c[2], c[3], msg), dict(layout=c[0], version=c[1], page=c[2], record=c[3]))
    ctx.assumptions += ["pages of an object are shared to keep the files small: a table of 4 GB consists of removed records on one page except where something is stored",
                        "a single long value is shorter than 4 GB"]
