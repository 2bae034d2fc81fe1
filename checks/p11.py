"""Export to binary files and import: every history of ExportImport.tla is carried out by the command line tool on
databases written by an independent builder; the objects of the tables are read from the files independently."""
import os, shutil, random, struct, zlib
from vf import *
import onecd
from onecd import F, T, Db, Image
from pat import pattern

CFG = """SPECIFICATION Spec
CONSTANTS
 Bases = {%s}
 Tables = {%s}
 Contents = {%s}
 Long = {"few", "big", "huge"}
 Patterns <- MCPatterns
 Old = %s
 MaxOps = %d
 Sim = %s
INVARIANTS Sound Back Carried Record
PROPERTY Others
"""
MC = """---- MODULE MCExportImport ----
EXTENDS ExportImport
MCPatterns == %s
====
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)
NAME = dict(T="_REFERENCE1", U="_REFERENCE10", W="CONFIG2")
PAT = {"one": ("_Reference1", "T"), "other": ("_reference1?", "U"), "both": ("_REF*", "TU"), "all": ("*", "TUW"), "list": ("config2, _reference1", "TW")}
SIZES = dict(none=0, one=1, few=5, big=1200, huge=60000)

def fill(name, c, blob):
    """a table with these contents"""
    t = T(name, [F("_ID", "B", 0, 16), F("_CODE", "NVC", 0, 9), F("_TEXT", "NT", 1), F("_IMG", "I", 1)], [("BYID", 1, [("_ID", 16)])])
    if blob:
        t.getblob()
    n = SIZES[c]
    rng = random.Random(len(name) * 1000 + n)
    for i in range(n):
        ln = c in ("few", "big", "huge")
        t.add({"_ID": struct.pack(">QQ", i, len(name)), "_CODE": onecd.nvc("%s%d" % (name[-2:], i), 9),
               "_TEXT": t.long(("%s %s " % (c, name)).encode("utf-16-le") * rng.randint(0, 40)) if ln and i % 3 else None,
               "_IMG": t.long(pattern(i % 251, 0, rng.choice([1, 250, 251, 700, 9000 if i < 40 else 3]))) if ln and i % 2 else None},
              deleted=(i % 7 == 4))
    t.keys = [[(struct.pack(">QQ", i, len(name)), i) for i in range(n) if i % 7 != 4]]
    t.index_opts = dict(length=16)
    return t

CACHE = {}
def parts(ver, ps, t, x):
    """what the objects of a table in that state hold"""
    k = (ver, ps, t, x["c"], x["blob"])
    if k not in CACHE:
        db = Db(ver, ps)
        tb = fill(NAME[t], x["c"], x["blob"])
        CACHE[k] = (b"".join(tb.records), tb.blob.bytes() if tb.blob else None, db.index_file(tb))
    return CACHE[k]

def make(ver, ps, tables, path):
    db = Db(ver, ps)
    for t, x in sorted(tables.items()):
        if x["c"] != "-":
            db.tables.append(fill(NAME[t], x["c"], x["blob"]))
    db.write(path)

def state(ver, ps, path, want):
    im = Image(open(path, "rb").read())
    tabs = im.tables()
    names = sorted(NAME[t] for t in want if want[t]["c"] != "-")
    if sorted(tabs) != names:
        return "%s has the tables %s instead of %s" % (os.path.basename(path), sorted(tabs), names)
    for t, x in want.items():
        if x["c"] == "-":
            continue
        files = tabs[NAME[t]][2]
        exp = parts(ver, ps, t, x)
        for what, root, e in zip(("records", "long values", "indexes"), files, exp):
            if what == "long values" and x["c"] not in ("few", "big", "huge"):
                continue
            if not root:
                return "%s of %s: there is no object (the table holds %s)" % (what, NAME[t], x["c"])
            g = im.read(root)
            if g != e:
                at = next((i for i, (a, b) in enumerate(zip(g, e)) if a != b), min(len(g), len(e)))
                return "%s of %s differ at byte %d (%d bytes, expected are %d of %r)" % (what, NAME[t], at, len(g), len(e), x["c"])
    return None

def exported(ver, ps, d, dirs):
    for t, x in dirs.items():
        p = os.path.join(d, NAME[t])
        if x["c"] == "-":
            if os.path.exists(p):
                return "%s is exported" % NAME[t]
            continue
        for what, e in zip(("data", "blob", "index"), parts(ver, ps, t, x)):
            if what in x["lost"] or e is None or (what == "blob" and not (x["blob"] and x["c"] in ("few", "big", "huge"))):
                continue
            f = os.path.join(p, what)
            if not os.path.isfile(f):
                return "no file %s of %s is written" % (what, NAME[t])
            if open(f, "rb").read() != e:
                return "file %s of %s has other contents" % (what, NAME[t])
    return None

def brief(v):
    out = ["start " + ", ".join("%s.%s=%s%s" % (b, t, x["c"], "" if x["blob"] else " without storage") for b, ts in sorted(v["start"].items()) for t, x in sorted(ts.items()))]
    for h in v["hist"]:
        out.append("%s %s %s%s" % (h["op"], h["base"], h["p"], "" if h["ok"] else " (refused)"))
    return "; ".join(out)

def play(ctx, exe, v, ver, ps, tag):
    d = ctx.path(tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "x"))
    try:
        for b, ts in v["start"].items():
            make(ver, ps, ts, os.path.join(d, b + ".1CD"))
        for k, h in enumerate(v["hist"]):
            f = os.path.join(d, h["base"] + ".1CD")
            before = {b: open(os.path.join(d, b + ".1CD"), "rb").read() for b in v["start"]}
            if h["op"] == "lose":
                os.unlink(os.path.join(d, "x", NAME[h["p"]], h["base"]))
                continue
            if h["op"] == "create":
                r = drive(ctx, exe["drv_db"], ["C %s %s" % (f, os.path.join(d, "x", NAME[h["p"]]))])[0]
                ok = "exc" not in r and "crash" not in r and r.get("ok")
                msg = str(r)
                if "crash" in r:
                    return "step %d: crash %s" % (k, r)
            else:
                sw = {"export": "-eb", "import": "-ib"}[h["op"]]
                rc, out, err = run_cli(ctx, exe["ctool1cd"], [f, sw, os.path.join(d, "x"), PAT[h["p"]][0]])
                if rc in (-999, 134, 139, 99) or rc < 0 or "AddressSanitizer" in err:
                    return "step %d: the program crashes or hangs (%d) %s" % (k, rc, err[-300:])
                ok = rc == 0
                msg = out + err
            if ok != h["ok"]:
                return "step %d (%s %s %s) %s: %s" % (k, h["op"], h["base"], h["p"], "fails" if h["ok"] else "is not refused", msg[-300:])
            for b in v["start"]:
                now = open(os.path.join(d, b + ".1CD"), "rb").read()
                if b != h["base"] or h["op"] == "export" or not h["ok"]:
                    if now != before[b]:
                        return "step %d (%s %s %s): %s.1CD is changed" % (k, h["op"], h["base"], h["p"], b)
                else:
                    try:
                        w = state(ver, ps, os.path.join(d, b + ".1CD"), h["after"][b])
                    except (onecd.Bad, struct.error, UnicodeDecodeError, AttributeError) as e:
                        w = "the database is damaged: %s" % e
                    if w:
                        return "step %d (%s %s %s): %s" % (k, h["op"], h["base"], h["p"], w)
                    # and the tool itself opens it
                    r = drive(ctx, exe["drv_db"], ["D " + os.path.join(d, b + ".1CD")])[0]
                    if "exc" in r or "crash" in r:
                        return "step %d (%s %s %s): the database does not open: %s" % (k, h["op"], h["base"], h["p"], r)
            w = exported(ver, ps, os.path.join(d, "x"), h["dir"])
            if w:
                return "step %d (%s %s %s): %s" % (k, h["op"], h["base"], h["p"], w)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(ctx):
    exe = build(ctx, {"drv_db": ["drv_db.cpp"], "ctool1cd": ["CLI"]})
    t = ctx.thorough
    def gen(bases, tables, contents, pats, old, n, sim, tag):
        mc = MC % " @@ ".join('("%s" :> {%s})' % (p, q([x for x in PAT[p][1] if x in tables])) for p in pats)
        v = tlc_inline(ctx, "MCExportImport", mc, CFG % (q(bases), q(tables), q(contents), "TRUE" if old else "FALSE", n, "TRUE" if sim else "FALSE"),
                       name="ei-" + tag, simulate=sim, depth=2 * n + 6 if sim else None)
        seen, out = set(), []
        for x in v:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(x)
        ctx.extra.setdefault("histories", {})[tag] = len(out)
        ctx.sample(dict(run=tag, history=brief(out[len(out) // 2])))
        return out
    jobs = []
    def take(vals, n, vers):
        vals.sort(key=lambda x: json.dumps(x, sort_keys=True))
        rng = random.Random(ctx.seed)
        for i, v in enumerate(vals if len(vals) <= n else rng.sample(vals, n)):
            jobs.append((v, *vers[i % len(vers)]))
    OLDV = [("8.1.0.0", 4096), ("8.2.14.0", 4096), ("8.2.0.0", 4096)]
    NEWV = [("8.3.8.0", 4096), ("8.3.8.0", 8192), ("8.3.8.0", 65536)]
    for old, vers in ((True, OLDV), (False, NEWV)):
        tag = "old" if old else "new"
        take(gen("ab", "T", ["none", "few"], ["one"], old, 2, None, tag + "-pairs"), 2000 if t else 150, vers)
        take(gen("ab", "TU", ["none", "one", "few", "big"], ["one", "other", "both"], old, 6, 40 if t else 12, tag + "-long"), 2000 if t else 150, vers)
        take(gen("abc", "TUW", ["none", "few", "big", "huge"] if t else ["none", "few", "big"], ["one", "other", "both", "all", "list"], old, 8, 20 if t else 6, tag + "-wide"), 600 if t else 20, vers)
    bad = 0
    def one(iv):
        i, j = iv
        return j, play(ctx, exe, *j, "h%d" % i)
    for (v, ver, ps), d in pmap(one, list(enumerate(jobs))):
        ctx.count("history")
        ctx.traces += 1
        if d and bad < 8:
            bad += 1
            d = play(ctx, exe, v, ver, ps, "again")
            if d:
                ctx.violation("%s-%d-%s" % (ver, ps, zlib.crc32(d.encode()) % 100000), "%s, pages of %d: %s" % (ver, ps, d), dict(history=brief(v), v=v))
    ctx.assumptions += ["a table is described by its data, long-value and index objects; the storage of long values is not compared where no record has one",
                        "which tables are loaded before a refusal in the same command is left open"]
