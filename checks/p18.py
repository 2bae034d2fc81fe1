"""Versions dumped from configuration repositories: histories of Depot.tla (every commit, removal and move of objects
and of their parts) are built as repositories of every format, and -drc has to give what was there at that version."""
import os, random, re, shutil
from vf import *
import cffile, depot

CFG = """SPECIFICATION Spec
CONSTANTS
 Objs = {%s}
 Names = {%s}
 Contents = {%s}
 Formats = {%s}
 MaxVer = %d
 MaxGap = %d
 MaxRows = %d
 Sim = %s
INVARIANTS RowsTell DiffHasRow
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)

def histories(ctx, name, n):
    T = ctx.thorough
    # the rule of reading rows back, for every history of these sizes
    tlc(ctx, "Depot", CFG % (q("o"), q("0"), q("ab"), q(["v5"]), 4 if T else 3, 1, 4 if T else 3, "FALSE"), name=name + "-one")
    tlc(ctx, "Depot", CFG % (q("op"), q("0"), q("a"), q(["v81"]), 4 if T else 3, 2 if T else 1, 5 if T else 4, "FALSE"), name=name + "-two")
    out = []
    for k, (objs, names, cont, fmts, mv, rows) in enumerate([
            ("opr", "01", "abke", ["v5", "v7"], 5, 14), ("op", "0", "ab", ["v3", "v81", "v5", "v6", "v7"], 6, 12),
            ("opqrstuv", "012", "abek", ["v6", "v7"], 4, 26), ("o", "0", "a", ["v5", "v7"], 7, 7)]):
        vals = tlc(ctx, "Depot", CFG % (q(objs), q(names), q(cont), q(fmts), mv, 2, rows, "TRUE"), name="%s-sim%d" % (name, k),
                   simulate=n * 2, depth=2 * rows + mv + 3)
        u = sorted({json.dumps(v, sort_keys=True) for v in vals})
        r = random.Random(ctx.seed + k)
        # the longer ones tell more
        u = sorted(u, key=lambda s: (-len(json.loads(s)["hist"]) * (0.5 + r.random()), s))
        u = u[:n] + sorted((s for s in u[n:] if len(json.loads(s)["hist"]) < 2), key=lambda s: len(json.loads(s)["hist"]))[:3]
        out += [json.loads(x) for x in u]
    return out

def get(d, names):
    return {n.lower(): v for n, v in d.items() if n.lower() not in names}

def tree(text):
    return re.findall(r'"((?:[^"]|"")*)"|([0-9a-f]{8}-[0-9a-f-]{27})|([0-9]+)', text)

def check_cf(dp, i, data):
    mem, ids = dp.view(i)
    try:
        top = {n: cffile.inflate(d) for n, d, h in cffile.members(data)}
    except Exception as e:
        return "the file is not a readable container (%s)" % e
    want = {k.lower(): v for k, v in mem.items()}
    wids = {k.lower(): v for k, v in ids.items()}
    major = dp.major
    parts = set(n for n in want if not any(n == depot.ms(dp.obj(o)) for o in dp.case["vers"][i]["view"]))
    for n in ("version", "versions") + (() if dp.old else ("root",)):
        if n not in top:
            return "no member %s" % n
    v = top["version"].decode("utf-8-sig")
    if re.sub(r"\s", "", v) != "{{%d,%d}}" % (major, dp.minor):
        return "the version of the format is %r instead of %d,%d" % (v, major, dp.minor)
    got = get(top, ("version", "versions", "root", "metadata") if dp.old else ("version", "versions", "root"))
    objs = dict(got)
    if dp.old:
        if "metadata" not in top:
            return "no catalogue metadata"
        meta = {n: d for n, d, h in cffile.members(top["metadata"])}
        root = meta.pop("root", None)
        clash = set(meta) & set(got)
        objs.update({n.lower(): d for n, d in meta.items()})
        misplaced = [n for n in meta if n.lower() in parts] + [n for n in got if n not in parts]
        if clash or misplaced:
            return "members stand in the wrong place: %s" % sorted(set(misplaced) | clash)
    else:
        root = top["root"]
    if root is None:
        return "no member root"
    for n in sorted(set(want) | set(objs)):
        kind = "part" if n in parts or "." in n else "object"
        if n not in objs:
            return "%s is missing" % kind
        if n not in want:
            return "%s is there but was not at that version" % kind
        if objs[n] != want[n]:
            return "%s has the contents of another version" % kind
    # identifiers
    f = [a or b or c for a, b, c in tree(root.decode("utf-8-sig"))]
    rootguid = depot.ms(dp.root)
    head = ["1", rootguid] if dp.old else ["2", rootguid]
    if f[:2] != head:
        return "root begins with %s" % f[:2]
    if dp.old:
        k = {n: v for n, v in wids.items() if n not in parts}
        if int(f[2]) != len(k) or dict(zip([x.lower() for x in f[3::2]], f[4::2])) != k:
            return "root lists other objects or versions"
    elif len(f) > 2:
        return "root lists more than the root object"
    f = [a or b or c for a, b, c in tree(top["versions"].decode("utf-8-sig"))]
    pairs = dict(zip([x.lower() for x in f[2::2]], f[3::2]))
    k = {n: v for n, v in wids.items() if not dp.old or n in parts}
    have = {n: v for n, v in pairs.items() if n not in ("", "version", "versions", "root")}
    if f[0] != "1" or int(f[1]) != len(pairs) or len(f) != 2 + 2 * len(pairs):
        return "versions counts %s members, there are %d" % (f[1], len(pairs))
    if have != k:
        return "versions lists other members or identifiers"
    return None

def one(ctx, exe, seed, case, tmp):
    """(number of dumps, [(key, text)])"""
    d = "%s/%d" % (tmp, seed)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    dp = depot.Depot(case, d, seed)
    bad, n = [], 0
    rng = random.Random(seed)
    asks = [(a, i) for a, i in case["asks"] if a <= 0 or dp.off == 0]
    asks += [(v["num"], k + 1) for k, v in enumerate(case["vers"])] if dp.off else []
    asks = sorted(set((a, i) for a, i in asks))
    before = open(d + "/1cv8ddb.1CD", "rb").read()
    for a, i in asks:
        arg = a + dp.off if a > 0 else a
        out = "%s/out%d" % (d, len(os.listdir(d)))
        num = (case["vers"][i - 1]["num"] + dp.off) if i else None
        if rng.random() < .5:
            os.makedirs(out)
            file = "%s/v%s.cf" % (out, num)
            given = out
        else:
            file = given = out + ".cf"
            if rng.random() < .3:
                with open(file, "wb") as f:
                    f.write(b"an older file" * 100)
                if not i:
                    os.remove(file)
        mode = [] if rng.random() < .3 else ["-ne"]
        rc, so, se = run_cli(ctx, exe, ["1cv8ddb.1CD", "-q"] + mode + ["-drc", str(arg), given], d)
        n += 1
        what = "repository %s of %d versions, %d rows (%s): version asked %d" % (case["fmt"], len(case["vers"]), len(case["hist"]) + len(case["ext"]), " ".join(v["snap"] for v in case["vers"]), arg)
        if rc is None or rc < 0 or rc > 230 or "Sanitizer" in se:
            bad.append(("crash", what + ": crash or no end: " + (re.search(r"#\d+ .*? in (\S+) .*src", se) or [0, se[-200:]])[1]))
            continue
        if not i:
            if rc == 0 or os.path.exists(file) and given == file or (given == out and os.listdir(out)):
                bad.append(("nonexistent", what + ": there is no such version but something is dumped"))
            continue
        if not os.path.exists(file):
            bad.append(("nothing", what + ": no file (code %s) %s" % (rc, (so + se)[-300:])))
            continue
        data = open(file, "rb").read()
        if case["vers"][i - 1]["num"] in dp.snap:
            if data != dp.snap[case["vers"][i - 1]["num"]]:
                bad.append(("snapshot", what + ": the dump is not the stored snapshot"))
            continue
        if rc != 0:
            bad.append(("code", what + ": error code %s %s" % (rc, (so + se)[-300:])))
            continue
        r = check_cf(dp, i - 1, data)
        if r:
            bad.append(("contents", what + ": " + r))
    if open(d + "/1cv8ddb.1CD", "rb").read() != before:
        bad.append(("changed", "dumping versions changes the repository"))
    if not bad:
        shutil.rmtree(d, ignore_errors=True)
    return n, bad

def run(ctx):
    exe = build(ctx, {"ctool1cd": ["CLI"]})["ctool1cd"]
    tmp = ctx.path("depots")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cases = histories(ctx, "depot", 500 if ctx.thorough else 50)
    for c, (n, bad) in zip(cases, pmap(lambda x: one(ctx, exe, x[0], x[1], tmp), list(enumerate(cases)))):
        ctx.count("dumps", n)
        ctx.count("histories", 1)
        ctx.traces += 1
        for key, text in bad:
            ctx.violation("dump-" + key, text, c)
    for c in cases[:2]:
        ctx.sample(c)
    shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions += ["a row that carries no data brings no rows of parts of the same version",
                        "a part that was dropped comes back with its data"]
