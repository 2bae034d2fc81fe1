"""Command lines: every argument sequence of CommandLine.tla is parsed, and a part is run, by the tool."""
import os, random, shutil, hashlib
from vf import *
import cffile, depot, infobase
from onecd import F, T, Db
P25 = __import__("p25")

CFG = """SPECIFICATION Spec
CONSTANTS
 Tokens <- MCTokens
 MaxArgs = %d
 Random = %s
 Emit = TRUE
INVARIANTS Accounted Complete OneContent Record
PROPERTY Grows
"""
MC = """---- MODULE MCCommandLine ----
EXTENDS CommandLine
MCTokens == {%s}
====
"""
NAMES = dict(help=["h", "help", "?"], noverbose=["nv", "noverbose"], quit=["q", "quit"], eax=["eax", "exportalltoxml"], bf=["bf", "blobtofile"], pb=["pb", "parseblob"], ex=["ex", "exporttoxml"], ne=["ne", "notexclusively"], ddc=["ddc", "dumpdbconfig"], dc=["dc", "dumpconfig"], dvc=["dvc", "dumpvendorsconfigs"], dac=["dac", "dumpallconfigs"], drc=["drc", "dumpdepotconfig"], dpc=["dpc", "dumppartdepotconfig"], log=["l", "logfile"], eb=["eb", "exporttobinary"], ib=["ib", "importfrombinary"], slo=["slo", "savelostobjects"], sts=["sts", "savetablessize"])

def opt(k, style="lower"):
    return '[kind |-> "opt", key |-> "%s", style |-> "%s"]' % (k, style)

def val(t, q="none"):
    return '[kind |-> "val", text |-> "%s", quote |-> "%s"]' % (t, q)

def text(tok):
    """the argument as typed"""
    if tok["kind"] == "opt":
        k, s = tok["key"], tok["style"]
        return "-" + (k if s == "lower" else k.upper() if s == "upper" else k.title() if s == "title" else "".join(c.upper() if i % 2 else c for i, c in enumerate(k)))
    t, q = tok["text"].replace("{b}", BASE).replace("{d}", "o"), tok["quote"]
    return dict(none=t, both='"' + t + '"', tail=t + '"', tails=t + '""', more='"' + t + '""')[q]

BASE = "base.1CD"

def plain(p):
    """a parameter: a value with its quotes removed, or whatever stands there"""
    if p["raw"]:
        return text(p["text"])
    return text(dict(kind="val", text=p["text"], quote="none"))

def differs(exp, g):
    if "crash" in g:
        return "%s: crash: %s %s" % (exp["args"], g["crash"], g.get("where"))
    if "exc" in g:
        return "%s: error: %s" % (exp["args"], g["exc"])
    # bf and pb carry an internal second parameter
    got = [[c[0], c[1], c[2] if c[0] in ("ex", "drc", "dpc", "eb", "ib") else ""] for c in g["cmds"]]
    if got != exp["cmds"]:
        return "%s is understood as %s, not %s" % (exp["args"], got, exp["cmds"])
    if g["file"] != exp["file"]:
        return "%s: the database is %r, not %r" % (exp["args"], g["file"], exp["file"])
    if (g["errors"] > 0) != (exp["errors"] > 0) or g["errors"] < exp["errors"]:
        return "%s: %d errors reported, not %d" % (exp["args"], g["errors"], exp["errors"])
    return None

def item(v):
    args = [text(t) for t in v["args"]]
    cmds = []
    for c in v["cmds"]:
        p = [plain(x) for x in c["par"]] + ["", ""]
        cmds.append([c["cmd"], p[0], p[1]])
    return ("A " + " ".join(hx(a.encode()) for a in args), dict(args=args, cmds=cmds, file=v["file"].replace("{b}", BASE), errors=len([b for b in v["bad"] if b != "empty"])))

def tree(d):
    r = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            r[os.path.relpath(os.path.join(root, x), d) + "/"] = ""
        for x in files:
            with open(os.path.join(root, x), "rb") as f:
                r[os.path.relpath(os.path.join(root, x), d)] = hashlib.sha256(f.read()).hexdigest()
    return r

def run(ctx):
    ex = build(ctx, {"drv_args": ["drv_args.cpp", "CLILIB"], "ctool1cd": ["CLI"]})
    t = ctx.thorough
    key = lambda c, e: "-".join(e["args"])[:50].replace("/", "_").replace(" ", "_")
    def gen(tokens, n, rnd, num, tag):
        v = tlc_inline(ctx, "MCCommandLine", MC % ",\n ".join(tokens), CFG % (n, "TRUE" if rnd else "FALSE"), name="args-" + tag, simulate=num if rnd else None, depth=n + 3 if rnd else None)
        seen, out = set(), []
        for x in v:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(x)
        ctx.extra.setdefault("command lines", {})[tag] = len(out)
        ctx.sample(dict(run=tag, args=[text(a) for a in out[len(out) // 2]["args"]]))
        return out
    allkeys = [k for ks in NAMES.values() for k in ks]
    vals = [val("{b}"), val("{b}", "both"), val("p q", "both"), val("x", "tail"), val("", "none"), val("", "both"), val("yes"), val("0")]
    # every option in every style, alone and before a few arguments
    every = [opt(k, s) for k in allkeys for s in ("lower", "upper", "title", "mixed")] + [opt(k, "lower") for k in ("zzz", "", "-help", "e", "eaxx", "hel")]
    v = gen(every + vals[:2], 2, False, None, "options")
    few = [opt("nv"), opt("eax"), opt("ex", "upper"), opt("bf"), opt("drc"), opt("zzz"), val("{b}"), val("p q", "both"), val("x", "tails")]
    v += gen(few + ([opt("h")] if t else []), 5 if t else 4, False, None, "short")
    v += gen(every + vals * 12 + [val("z", "more"), val("7:9"), val("a b c", "more")] * 6, 9, True, 4000 if t else 300, "long")
    compare(ctx, ex["drv_args"], [item(x) for x in v], differs, key, what="parse", chunk=2000)

    # effects: the whole program on a database with two tables
    db = Db("8.2.14.0", 4096)
    for n in ("_T", "_U"):
        tb = T(n, [F("_A", "N", 0, 5, 0), F("_B", "I", 1)])
        tb.add({"_A": b"\x10\x00\x70", "_B": tb.long(b"some long value")})
        db.tables.append(tb)
    good = ctx.path("good.1CD")
    db.write(good)
    opts = [opt(k) for k in ("eax", "exporttoxml", "ex", "eb", "sts", "eax", "sts", "eb", "ex")]
    flags = [opt(k) for k in ("nv", "ne", "q", "bf", "pb", "l", "bf")]
    V = [val("{b}"), val("{b}"), val("{b}", "both"), val("d1"), val("d2"), val("d 3", "both"), val("_T"), val("_*", "both"), val("f1"), val("f2", "both"), val("yes"), val("no"), val("d1", "tail"), val("gone")]
    lines = []
    for n, num in ((3, 300), (5, 500), (8, 500)) if not t else ((3, 3000), (5, 4000), (8, 5000), (12, 3000)):
        lines += gen(opts + flags + V + [opt("h"), opt("zzz"), opt("slo"), opt("dc"), opt("drc"), opt("dpc"), opt("dvc")], n, True, num, "run%d" % n)
    # complete ones: option, parameters, database in all orders
    lines += gen([opt("eax"), opt("ex"), opt("bf"), opt("sts"), opt("ne"), val("{b}"), val("d1"), val("d 3", "both"), val("_T"), val("yes")], 4, False, None, "complete")
    lines.sort(key=lambda x: json.dumps(x, sort_keys=True))
    cfgs = [opt(k) for k in ("ddc", "dc", "dvc", "dac", "drc", "dumpconfig", "dumpdbconfig", "dumpvendorsconfigs", "dumpallconfigs", "dumpdepotconfig", "ex")]
    V = [val("{b}"), val("{b}"), val("{b}", "both"), val("{b}"), val("d1"), val("d2"), val("d 3", "both"), val("gone"), val("a.cf"), val("B.CF", "both"), val("0"), val("3"), val("1"), val("-1"), val("9"), val("_T")]
    conf = []
    conf += gen(cfgs[:5] + [val("{b}"), val("d1"), val("a.cf"), val("0"), val("-1")], 4, False, None, "configurations")
    for n, num in ((4, 1000), (6, 2500), (9, 4000)) if t else ((4, 400), (6, 900), (9, 1200)):
        conf += gen(cfgs + [opt("ne"), opt("nv")] + V, n, True, num, "configurations%d" % n)
    conf.sort(key=lambda x: json.dumps(x, sort_keys=True))
    known = ("0", "1", "2", "3", "-1", "-2", "9")
    def told(c):
        return c["cmd"] in ("ddc", "dc", "dvc", "dac") or c["cmd"] == "drc" and plain(c["par"][0]) in known or c["cmd"] == "ex" and wellformed(c)
    conf = [x for x in conf if x["plan"]["outcome"] == "open" and x["file"] == "{b}" and x["plan"]["work"] and all(told(c) for c in x["plan"]["work"])
            and any(c["cmd"] in CONFIGS for c in x["plan"]["work"])]
    want = 30000 if t else 4000
    over = lambda c: c["cmd"] in ("sts", "log") and plain(c["par"][0]).rstrip('"') in (BASE,) + DIRS
    lines = [x for x in lines if not any(over(c) for c in x["cmds"])]         # nobody asks to write over the database
    pick = [x for x in lines if x["plan"]["outcome"] == "open"]
    real = [x for x in pick if x["file"] == "{b}" and any(wellformed(c) for c in x["plan"]["work"])]
    rest = [x for x in lines if x["plan"]["outcome"] != "open" or x["file"] != "{b}"]
    def thin(l, n):
        return l if len(l) <= n else [l[i] for i in range((ctx.seed * 7) % (len(l) // n + 1), len(l), len(l) // n + 1)]
    pick = thin(real, want) + thin([x for x in pick if x["file"] == "{b}"], want // 4) + thin(rest, want // 4)
    others = {k: other(ctx, ex["ctool1cd"], k) for k in ("infobase", "depot")}
    # half of them where the commands can be carried out
    r = random.Random(ctx.seed)
    def kinds(x):
        ok = [k for k in ("infobase", "depot") if x["after"][k]["files"]]
        return r.choice(ok) if ok and r.random() < .8 else r.choice(["infobase", "depot"])
    conf = [x for x in conf if any(x["after"][k]["files"] for k in others)] + [x for x in conf if not any(x["after"][k]["files"] for k in others)][:: 1 if t else 8]
    pick = [(x, None) for x in pick] + [(x, kinds(x)) for x in thin(conf, want // 2)]
    ctx.extra["command lines about configurations"] = len(conf)
    def one(iv):
        i, (x, kind) = iv
        return (x, kind), attempt(ctx, ex["ctool1cd"], others[kind] if kind else good, x, "r%d" % i, kind)
    bad = 0
    for (x, kind), (d, case) in pmap(one, list(enumerate(pick))):
        ctx.count("run")
        ctx.traces += 1
        if d and bad < 10:
            bad += 1
            d2, case2 = attempt(ctx, ex["ctool1cd"], others[kind] if kind else good, x, "again%d" % bad, kind)
            if d2:
                ctx.violation("run-" + "-".join(case2["args"])[:50].replace("/", "_").replace(" ", "_"), "run: " + d2, case2)
    reports(ctx, ex["ctool1cd"], good)
    ctx.extra["runs with work"] = len([x for x, k in pick if x["plan"]["work"]])
    ctx.extra["runs that save configurations"] = len([x for x, k in pick if k and x["after"][k]["files"]])
    ctx.assumptions += ["an option that takes a parameter takes the next argument, also where the help shows the parameter in brackets"]

CFGR = """SPECIFICATION Spec
CONSTANTS
 Paths = {%s}
 Commands = {%s}
 MaxCommands = %d
 MaxRuns = %d
 Emit = TRUE
 Sim = %s
INVARIANTS DirectoriesStay OthersStay LastRun NeverBoth Record
"""
ACTS = dict(all=["-eax", "x1"], one=["-ex", "x1", "_T"], nothing=["-ex", "x1", "none"], sizes=["-sts", "x2"], nodir=["-eax", "none"], config=["-dc", "x1"],
            binary=["-eb", "x1", "*"], ne=["-ne"])

def reports(ctx, exe, good):
    """where the messages go: runs of ReportFile.tla"""
    def clean(s):
        return [l for l in s.replace("\r", "").split("\n") if l.strip()]
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    cases = []
    for name, paths, cmds, mc, mr, sim in [("log", ["p"], ["one", "nodir"], 1, 2, None), ("logs", ["p", "q"], sorted(ACTS), 3, 4, 500 if ctx.thorough else 40)]:
        vals = tlc(ctx, "ReportFile", CFGR % (q(paths), q(cmds), mc, mr, "TRUE" if sim else "FALSE"), name=name, simulate=sim, depth=30 if sim else None)
        u = sorted({json.dumps(v, sort_keys=True) for v in vals})
        take = 1500 if ctx.thorough else 150
        if len(u) > take:
            u = random.Random(ctx.seed).sample(u, take)
        cases += [json.loads(x) for x in u]
    def one(kv):
        k, v = kv
        d = ctx.path("log%d" % k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/work/x1")
        try:
            w = d + "/work"
            shutil.copy(good, w + "/" + BASE)
            at = {}
            for p, x in sorted(v["runs"][0]["before"].items()):
                at[p] = "no/" + p if x["k"] == "lost" else p
                if x["k"] == "file":
                    with open(w + "/" + p, "w") as f:
                        f.write("older messages\n" * 3)
                elif x["k"] in ("empty", "full"):
                    os.makedirs(w + "/" + p)
                    if x["k"] == "full":
                        os.makedirs(w + "/%s/in/deep" % p)
                        for n in ("a", "in/b", "in/deep/c"):
                            with open(w + "/%s/%s" % (p, n), "w") as f:
                                f.write("mine")
            mine = lambda: {n: y for n, y in tree(w).items() if n.split("/")[0] in tuple(at) + ("no",)}
            for r in v["runs"]:
                acts = [ACTS[c] for c in r["cmds"]]
                # the messages of the same commands without a log
                ref = run_cli(ctx, exe, [BASE, "-q"] + sum(acts, []), cwd=w)
                before = mine()
                opt = ([["-l", at[r["log"]]]] if r["log"] != "-" else []) + ([["-nv"]] if r["quiet"] else [])
                rc, out, err = run_cli(ctx, exe, sum([[BASE, "-q"]] + acts[:r["at"]] + opt + acts[r["at"]:], []), cwd=w)
                after = mine()
                what = "%s with%s" % (r["cmds"], " -l to a path that is %s" % r["before"][r["log"]]["k"] if r["log"] != "-" else "out a log") + (", quiet" if r["quiet"] else "")
                if rc < 0 or "Sanitizer" in err:
                    return "%s ends abnormally: %s" % (what, err[-200:])
                if rc != ref[0]:
                    return "%s ends with %d, and with %d where its messages are shown" % (what, rc, ref[0])
                if r["written"]:
                    try:
                        with open(w + "/" + at[r["log"]], encoding="utf-8") as f:
                            got = clean(f.read())
                    except OSError:
                        return "%s: no log is written" % what
                    if got != clean(ref[2]):
                        return "%s: the log holds %s instead of the messages of the run %s" % (what, got[:12], clean(ref[2])[:12])
                    after.pop(at[r["log"]], None)
                    before.pop(at[r["log"]], None)
                if after != before:
                    return "%s: changes %s" % (what, sorted(n for n in set(after) | set(before) if after.get(n) != before.get(n)))
                if r["shown"] and clean(err) != clean(ref[2]):
                    return "%s: shows %s instead of %s" % (what, clean(err)[:8], clean(ref[2])[:8])
                if not r["shown"] and clean(err):
                    return "%s: shows %s" % (what, clean(err)[:5])
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for v, e in zip(cases, pmap(one, list(enumerate(cases)))):
        ctx.count("logs", len(v["runs"]))
        ctx.traces += 1
        if e:
            ctx.violation("log-" + hashlib.md5(e.encode()).hexdigest()[:8], "log: " + e, v)

DIRS = ("d1", "d2", "d 3")
CONFIGS = ("ddc", "dc", "dvc", "dac", "drc", "dpc")
VENDOR = dict(tag=1, upper=False, fmt=216, props=36, before=1, after=0, big=False, name="plain", sup="plain", ver="num")

class Other:
    """a database with a configuration, or with versions of one; what each command has to save comes from other ways of saving it"""

def other(ctx, exe, kind):
    o = Other()
    o.kind, o.dir, o.what = kind, ctx.path("other-" + kind), {}
    shutil.rmtree(o.dir, ignore_errors=True)
    os.makedirs(o.dir)
    member = lambda b: cffile.deflate(b"\xef\xbb\xbf" + b)
    if kind == "infobase":
        db, ts = infobase.base("8.3.8.0")
        for n in ("_T", "_U"):
            tb = T(n, [F("_A", "N", 0, 5, 0), F("_B", "I", 1)])
            tb.add({"_A": b"\x10\x00\x70", "_B": tb.long(b"some long value")})
            db.tables.append(tb)
        g = ["de6f6288-2bfc-4b7d-b4a6-6c755cafb06%d" % i for i in range(3)]
        for i in (0, 1):
            infobase.row(ts["CONFIG"], g[i], member(b"{stored %d}" % i), 1)
        for i in (1, 2):
            infobase.row(ts["CONFIGSAVE"], g[i], member(b"{pending %d}" % i), 2)
        vendor = P25.config(VENDOR)
        infobase.row(ts["CONFIG"], g[0] + "." + g[1], cffile.deflate(cffile.deflate(vendor)), 1)
        db.write(o.dir + "/" + BASE)
        o.vendor = "%s %s.cf" % (P25.name_of(VENDOR), P25.ver_of(VENDOR))
        o.what = dict(stored={g[i]: b"{stored %d}" % i for i in (0, 1)}, vendor=vendor,
                      pending={g[0]: b"{stored 0}", g[1]: b"{pending 1}", g[2]: b"{pending 2}"})
        o.tables = {"_T", "_U"}
    else:
        cs = "abc"
        case = dict(fmt="v5", vers=[dict(num=i + 1, snap="none", view=dict(a=dict(c=cs[i], id=i + 1, e={}), b=dict(c="a", id=1, e={}))) for i in range(3)],
                    hist=[dict(o="a", v=i + 1, k="data", s="inline", c=cs[i]) for i in range(3)] + [dict(o="b", v=1, k="data", s="inline", c="a")], ext=[])
        for seed in range(50):
            d = o.dir + "/%d" % seed
            dp = depot.Depot(case, d, seed)
            if not dp.off:
                break
            shutil.rmtree(d)
        os.rename(d + "/1cv8ddb.1CD", o.dir + "/" + BASE)
        shutil.rmtree(d)
        o.what = {"version %d" % (i + 1): dp.view(i)[0] for i in range(3)}
        o.tables, o.vendor = set(), ""
    return o

def holds(o, path, what):
    """does the file hold what the specification says is saved there?"""
    with open(path, "rb") as f:
        b = f.read()
    w = o.what[what]
    if isinstance(w, bytes):
        return b == w
    try:
        m = {n.lower(): data for n, data, _ in cffile.members(b)}
    except Exception:
        return False
    m = {n: v for n, v in m.items() if n not in ("root", "version", "versions")}
    strip = lambda v: v[3:] if v[:3] == b"\xef\xbb\xbf" else v
    def plain_(v):
        try:
            return strip(cffile.inflate(v))
        except Exception:
            return strip(v)
    return {n: plain_(v) for n, v in m.items() if len(n) < 60} == {n.lower(): v for n, v in w.items()}

def judge_configs(o, x, args, rc, out, err, before, after, d):
    plan, exp, name = x["plan"], x["after"][o.kind], "%s (%s)" % (" ".join(args), o.kind)
    new = {k for k, v in after.items() if before.get(k) != v}
    if [k for k in before if k not in after] or any(k in before and not k.startswith(DIRS) for k in new):
        return "%s: changes files it has not been told to change: %s" % (name, sorted(new))
    fails = exp["fails"] or bool([b for b in x["bad"] if b != "empty"])
    want = {f["name"].replace("{vendor}", o.vendor): f["what"] for f in exp["files"]}
    xml = set()
    for c in plan["work"]:
        if c["cmd"] == "ex":
            p = [plain(y) for y in c["par"]]
            xml |= {p[0] + "/" + tb + ".xml" for tb in o.tables if p[1] == "_*" or p[1] == tb}
    for n in sorted(want):
        if n not in after:
            return "%s: %s is not saved" % (name, n)
        if not holds(o, os.path.join(d, n), want[n]):
            return "%s: %s does not hold what is %s" % (name, n, want[n])
    for n in sorted(xml):
        if n not in after:
            return "%s: %s is not written" % (name, n)
    extra = new - set(want) - xml - {"d1/", "d2/", "d 3/"}
    if extra:
        return "%s: writes %s, which no command asks for" % (name, sorted(extra))
    if fails != (rc != 0):
        return "%s: %s, but the program ends with %d: %s" % (name, "a command fails" if fails else "every command is carried out", rc, (out + err)[-300:])
    return None

def wellformed(c):
    p = [plain(x) for x in c["par"]]
    return (c["cmd"] in ("eax",) and p[0] in DIRS) or (c["cmd"] in ("ex", "eb") and p[0] in DIRS and p[1] in ("_T", "_*")) or (c["cmd"] == "sts" and p[0] in ("f1", "f2"))

def attempt(ctx, exe, good, x, tag, kind=None):
    d = ctx.path(tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(good.dir + "/" + BASE if kind else good, os.path.join(d, BASE))
    for n in DIRS:
        os.mkdir(os.path.join(d, n))
    before = tree(d)
    args = [text(a) for a in x["args"]]
    rc, out, err = run_cli(ctx, exe, args, cwd=d, timeout=60)
    if rc in (-999, 134, 139, 99) or (rc < 0 and rc != -999) or "AddressSanitizer" in err:
        res = "%s: the program crashes or hangs (%d) %s" % (" ".join(args), rc, err[-300:])
    elif kind:
        res = judge_configs(good, x, args, rc, out, err, before, tree(d), d)
    else:
        res = judge(x, args, rc, out, err, before, tree(d), d)
    shutil.rmtree(d, ignore_errors=True)
    return res, dict(args=args, rc=rc, out=out[-1500:], err=err[-1500:], plan=x["plan"])

def judge(x, args, rc, out, err, before, after, d):
    plan = x["plan"]
    name = " ".join(args)
    new = {k: v for k, v in after.items() if before.get(k) != v}
    gone = [k for k in before if k not in after]
    if gone or any(k in before for k in new if k not in ("f1", "f2") and not k.startswith(tuple(DIRS))):
        return "%s: changes files it has not been told to change: %s" % (name, sorted(gone + list(new)))
    bf = plan["bf"] and plain(plan["bf"][0]).lower() in ("1", "y", "yes", "д", "да")
    expect, errors, free = {}, len([b for b in x["bad"] if b != "empty"]), set()
    log = plain(plan["log"][0]) if plan["log"] else ""
    if plan["outcome"] in ("hint", "help"):
        if new:
            return "%s: writes %s, though only help is asked for" % (name, sorted(new))
        if plan["outcome"] == "help" and "-ExportAllToXML" not in out:
            return "%s: no help is shown" % name
        return None
    missing = plan["outcome"] == "no file" or x["file"] != "{b}"
    if missing:
        # nothing may be carried out; a log may be written
        extra = [k for k in new if k != log]
        if extra:
            return "%s: writes %s without a database" % (name, sorted(extra))
        if rc == 0:
            return "%s: succeeds without a database" % name
        return None
    order, sizes = [], set()
    for c in plan["work"]:
        p = [plain(y) for y in c["par"]]
        k = c["cmd"]
        if k in ("eax", "ex", "eb") and p[0] in DIRS and (k == "eax" or p[1] in ("_T", "_*")):
            for tb in ["_T", "_U"] if k == "eax" or p[1] == "_*" else ["_T"]:
                order.append((k, p[0]))
                if k == "eb":
                    expect[p[0] + "/" + tb + "/"] = "dir"
                else:
                    expect[p[0] + "/" + tb + ".xml"] = "xml"
                    if bf:
                        expect[p[0] + "/" + tb + ".blob/"] = "blobs"
        elif k == "sts" and p[0] in ("f1", "f2"):
            expect[p[0]] = "sizes"
        elif k in ("ex", "eb") and p[0] in DIRS and p[1].strip():
            pass                  # selects no table
        elif k in ("eax", "ex", "eb", "dc", "ddc", "dvc", "dac", "drc", "dpc"):
            errors += 1           # cannot be carried out on this database, or without the directory
        else:
            free.add(k)
            if k == "sts" and "/" not in p[0]:
                sizes.add(p[0])
    if log and "/" not in log:
        if log not in after and log not in DIRS and log != "gone" and log != BASE:
            return "%s: no log %s is written" % (name, log)
    for k in expect:
        if k == log:
            continue
        if k not in after and not (k.endswith(".blob/") and any(a.startswith(k[:-len("blob/")]) or a.startswith(k[:-len(".blob/")] + "/") for a in new)):
            return "%s: %s is not written" % (name, k)
    tables = lambda k: any(k.startswith(e[:-len(".blob/")]) for e in expect if e.endswith(".blob/"))
    for k in new:
        if k in expect or k == log or k in sizes or any(e.endswith("/") and k.startswith(e) for e in expect) or tables(k):
            continue
        if free & {"slo", "ib"} and k.startswith(DIRS):
            continue
        return "%s: writes %s, which no command asks for" % (name, k)
    if not bf:
        for k in new:
            if "blob" in k.lower() and not any(e.endswith("/") and k.startswith(e) for e in expect):
                return "%s: writes long values to files without being told to" % name
    if errors and rc == 0 and not free:
        return "%s: %d errors, but the program reports success" % (name, errors)
    if not errors and rc != 0 and not free and not (log and (log in DIRS or log == BASE)):
        return "%s: fails with %d: %s" % (name, rc, (out + err)[-300:])
    text_ = out + err
    if plan["nv"] and not log and not x["bad"]:
        if len(err.strip()) > 0 or len(out.strip()) > 0:
            return "%s: prints, though told not to: %s" % (name, text_[:200])
    if not plan["nv"] and not log:
        if not text_.strip():
            return "%s: prints nothing" % name
        if plan["ne"] != ("Только чтение" in text_):
            return "%s: opens the database %s exclusive use" % (name, "with" if plan["ne"] else "without")
        # order: every export is reported with its path
        got, at = 0, []
        for k, dd in order:
            got = text_.find(os.path.join(dd) + ("" if k == "eb" else "/"), got)
            if got < 0:
                return "%s: the commands are not reported in their order (%s)" % (name, order)
            got += 1
    return None
