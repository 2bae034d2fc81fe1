"""Access to the database file: sessions and runs of the program generated from DbAccess.tla are replayed, and the file
is compared before and after every step."""
import hashlib, os, random, shutil
from vf import *
import depot, onecd, pat
from onecd import F, T, nvc
from infobase import base, row
import cffile

CFG = """SPECIFICATION Spec
CONSTANTS
 Formats = {%s}
 Reads = {%s}
 Writes = {%s}
 Harmless = {%s}
 Programs = {%s}
 Importers = {%s}
 MaxSteps = %d
 Sim = %s
INVARIANTS OldKeeps Inv
PROPERTIES Kept SharedKeeps RefusedKeeps
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)
READS = "rows deleted numbered index long xml export whole object config saved supplier streams names lost lostsave blocks".split()
WRITES = ("part beyond whole stream streampart grow shrink nothing newversion setversion newobject page lastpage free take insert delete import "
          "create drop restore edit").split()
HARMLESS = "part beyond grow newversion setversion page edit".split()
PROG = dict(xml=["-eax", "X", ], xmlsome=["-ex", "X", "CONFIG, _REF1", "-bf", "1", "-pb", "1"], config=["-dc", "X"], dbconfig=["-ddc", "X"], vendors=["-dvc", "X"],
            all=["-dac", "X"], binary=["-eb", "X", "*"], lost=["-slo", "X"], streams=["-sts", "X/s.txt"], list=["-l"])
DEPOT = dict(xml=["-eax", "X"], binary=["-eb", "X", "*"], lost=["-slo", "X"], streams=["-sts", "X/s.txt"], last=["-drc", "0", "X"], first=["-drc", "1", "X/f.cf"], list=["-l"],
             part=["-dpc", "1:2", "X"])
IMP = dict(importone=["-ib", "IMP", "_REF1"], importall=["-ib", "IMP", "*"])

def ref(name, n, tag):
    t = T(name, [F("_ID", "B", 0, 16), F("_CODE", "NVC", 0, 9), F("_N", "N", 1, 6), F("_D", "DT", 1)], [("BYID", 1, [("_ID", 16)])])
    ids = [hashlib.md5(b"%d %d" % (tag, i)).digest() for i in range(n)]
    for i, d in enumerate(ids):
        t.add({"_ID": d, "_CODE": nvc("c%d" % i, 9), "_N": onecd.number(1, str(i), 6) if i % 3 else None, "_D": onecd.bcd_date(2001 + i % 20, 1, 2) if i % 2 else None},
              deleted=(i % 5 == 4))
    t.keys = [sorted((d, i) for i, d in enumerate(ids) if i % 5 != 4)]
    t.index_opts = dict(length=16)
    return t

def make(fmt, file, seed, n=40, extra=False):
    r = random.Random(seed)
    db, ts = base(fmt, ps=4096)
    z = cffile.deflate
    for name, d in [("root", b"\xef\xbb\xbf{1,0}"), ("version", b"\xef\xbb\xbf{{216,0}}"), ("DBNames", b"\xef\xbb\xbf{0}"), ("de6f6288-2bfc-4b7d-b4a6-6c755cafb063", pat.pattern(seed % 200, 0, 9000))]:
        t = "PARAMS" if name == "DBNames" else "CONFIG"
        row(ts[t], name, z(d), 1 + seed % 9)
    row(ts["CONFIGSAVE"], "de6f6288-2bfc-4b7d-b4a6-6c755cafb063", z(b"changed"), 3)
    row(ts["CONFIG"], "gone", z(b"old"), 3, deleted=True)
    db.tables.append(ref("_REF1", n, seed))
    if extra:
        db.tables.append(ref("_REF9", 5, seed))
    # a lost object
    for k in range(r.randint(0, 2)):
        db.obj(b"lost" * (k + 1) * 100)
    db.write(file)

def expectations(v):
    """the steps of sessions, and the runs of the program between them"""
    parts, cur = [], None
    for s in v["log"]:
        if s["op"] in ("program", "shared"):
            parts.append(("cli", s))
        elif s["op"] == "open":
            cur = [s]
            parts.append(("lib", cur))
        else:
            cur.append(s)
    return parts

def word(s):
    return {"open": "xopen" if s["arg"] == "exclusive" else "sopen", "read": "r:" + s["arg"], "write": "w:" + s["arg"]}.get(s["op"], s["op"])

def skip(fmt, s):
    """what has no meaning for a storage generation"""
    return s["op"] == "write" and s["arg"] in ("drop", "restore", "free") and fmt.startswith("8.3")

def judge(s, g, where):
    if s["op"] == "open" and g["r"] != s["res"]:
        return ("open", "%s: opened for %s use it is %s, not %s" % (where, s["arg"], g["r"], s["res"]))
    if s["op"] == "write" and g["r"].split(" ")[0] != s["res"]:
        return ("write-" + s["arg"], "%s: the write %r is %s, not %s" % (where, s["arg"], g["r"], s["res"]))
    if s["file"] == "same" and not g["same"]:
        return ("changed-" + (s["arg"] or s["op"]), "%s: the file is changed by %s %s" % (where, s["op"], s["arg"]))
    return None

def one(ctx, e, k, v, tmp):
    d = "%s/%d" % (tmp, k)
    os.makedirs(d)
    f = d + "/b.1CD"
    shutil.copy("%s/%s.1CD" % (tmp, v["fmt"]), f)
    imp = "%s/%s.exp" % (tmp, v["fmt"])
    os.makedirs(d + "/w")
    os.symlink(imp, d + "/w/import")
    os.symlink(imp + "/_REF9", d + "/w/create")
    res, done = [], []
    for kind, p in expectations(v):
        if kind == "lib":
            p = [s for s in p if not skip(v["fmt"], s)]
            g = drive(ctx, e["drv_ro"], ["R %s %s %s" % (f, d + "/w", ",".join(word(s) for s in p))])[0]
            if "steps" not in g:
                if all(s["op"] != "write" or s["res"] == "refused" for s in p):
                    res.append(("crash", "%s: the session %s ends abnormally: %s" % (v["fmt"], [word(s) for s in p], g)))
                break
            for s, x in zip(p, g["steps"]):
                done.append(word(s))
                b = judge(s, x, "%s, after %s" % (v["fmt"], done[-6:-1]))
                if b:
                    res.append(b)
        else:
            a = [x.replace("IMP", imp).replace("X", d + "/w/x%d" % len(done), 1) if x.startswith(("X", "IMP")) else x for x in (PROG if p["arg"] in PROG else IMP)[p["arg"]]]
            for x in a:
                if x.startswith(d + "/w/x"):
                    os.makedirs(d + "/w/x%d" % len(done), exist_ok=True)
            before = open(f, "rb").read()
            rc, so, se = run_cli(ctx, e["ctool1cd"], [f, "-q"] + (["-ne"] if p["op"] == "shared" else []) + a, d)
            same = open(f, "rb").read() == before
            done.append(p["arg"])
            where = "%s, after %s%s" % (v["fmt"], done[-6:-1], " with -ne" if p["op"] == "shared" else "")
            if rc is None or rc < 0 or "Sanitizer" in se:
                if not any(s["res"] == "accepted" for s in v["log"]):
                    res.append(("crash-" + p["arg"], "%s: %s ends abnormally: %s" % (where, p["arg"], (so + se)[-200:])))
            elif p["res"] == "refused" and rc == 0:
                res.append(("import-accepted", "%s: the import is not refused" % where))
            elif p["file"] == "same" and not same:
                res.append(("changed-" + p["arg"], "%s: the file is changed by %s" % (where, " ".join(a[:1]))))
    shutil.rmtree(d, ignore_errors=True)
    return res

def depots(ctx, e, tmp):
    """the programs that read a repository"""
    import p18
    cases = [h for h in p18.histories(ctx, "depot", 3)][-12 if not ctx.thorough else -60:]
    def play(kv):
        k, h = kv
        d = "%s/d%d" % (tmp, k)
        os.makedirs(d)
        dp = depot.Depot(h, d, k)
        f, res = d + "/1cv8ddb.1CD", []
        for name, args in DEPOT.items():
            for sh in (False, True):
                x = "%s/x%s%d" % (d, name, sh)
                os.makedirs(x)
                before = open(f, "rb").read()
                rc, so, se = run_cli(ctx, e["ctool1cd"], [f, "-q"] + (["-ne"] if sh else []) + [a.replace("X", x, 1) if a.startswith("X") else a for a in args], d)
                if rc is None or rc < 0 or "Sanitizer" in se:
                    res.append(("crash-depot-" + name, "repository: %s ends abnormally: %s" % (args[0], (so + se)[-200:])))
                if open(f, "rb").read() != before:
                    res.append(("changed-depot-" + name, "repository%s: the file is changed by %s" % (" with -ne" if sh else "", args[0])))
        shutil.rmtree(d, ignore_errors=True)
        return res
    for h, bad in zip(cases, pmap(play, list(enumerate(cases)))):
        ctx.count("repositories")
        ctx.count("steps", 2 * len(DEPOT))
        for key, t in bad:
            ctx.violation("access-" + key, t, h)

FORMATS = ["8.3.8.0", "8.2.14.0", "8.1.0.0", "8.0.5.0", "8.0.3.0", "8.2.0.0"]
def run(ctx):
    e = build(ctx, {"drv_ro": ["drv_ro.cpp"], "ctool1cd": ["CLI"]})
    T = ctx.thorough
    tmp = ctx.path("ro")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for i, f in enumerate(FORMATS):
        make(f, "%s/%s.1CD" % (tmp, f), 11 + i, n=60 if i % 2 else 300)
        make(f, "%s/%s.other" % (tmp, f), 50 + i, n=80, extra=True)
        os.makedirs("%s/%s.exp" % (tmp, f))
        rc, so, se = run_cli(ctx, e["ctool1cd"], ["%s/%s.other" % (tmp, f), "-q", "-eb", "%s/%s.exp" % (tmp, f), "*"], tmp)
        if rc != 0 or not os.path.isdir("%s/%s.exp/_REF9" % (tmp, f)):
            raise CheckError("the tables to import cannot be prepared: " + so + se)
    cases = []
    for name, args, sim, take in [
            ("each", (q(FORMATS), q(READS), q(WRITES), q(HARMLESS), q(PROG), q(IMP), 2, "FALSE"), None, None),
            ("pairs", (q(FORMATS), q(["rows"]), q(WRITES), q(["part"]), q(["binary"]), q(["importone"]), 3, "FALSE"), None, 1500 if T else 250),
            ("long", (q(FORMATS), q(READS), q(WRITES), q(HARMLESS), q(PROG), q(IMP), 14, "TRUE"), 900 if T else 150, 3000 if T else 250)]:
        vals = tlc(ctx, "DbAccess", CFG % args, name=name, simulate=sim, depth=18 if sim else None)
        u = sorted({json.dumps(v, sort_keys=True) for v in vals})
        if take and len(u) > take:
            u = random.Random(ctx.seed).sample(u, take)
        cases += [json.loads(x) for x in u]
    for v, bad in zip(cases, pmap(lambda kv: one(ctx, e, kv[0], kv[1], tmp), list(enumerate(cases)))):
        ctx.count("histories")
        ctx.count("steps", len(v["log"]))
        ctx.traces += 1
        for key, t in bad:
            ctx.violation("access-" + key, t, v)
    for v in cases[-2:]:
        ctx.sample(v)
    depots(ctx, e, tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions += ["after an accepted write the contents of the file are the business of other properties",
                        "giving a page back does nothing in 8.3.8, where the layout of free pages is unknown",
                        "editing of single fields of a record (used by no command) is not attempted"]
