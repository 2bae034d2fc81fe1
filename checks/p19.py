"""Differences between versions of configuration repositories: histories of Depot.tla are built as repositories of every
format and -dpc has to write what differs, with the contents of the later version, and to list what was deleted."""
import os, random, re, shutil
from vf import *
import cffile, depot
from p18 import histories

def read(path):
    """bytes of a file, or {member: bytes} of an extracted catalogue"""
    if os.path.isdir(path):
        return {n: open(path + "/" + n, "rb").read() for n in os.listdir(path)}
    return open(path, "rb").read()

def same(tag, got):
    want = depot.content(tag)
    if got == want:
        return True
    return tag == "k" and isinstance(got, dict) and got == {n: d for n, d, h in cffile.members(want)}

def judge(dp, x, out):
    """x: a record of the model about two versions; out: the directory written"""
    view = next(v["view"] for v in dp.case["vers"] if v["num"] == x["b"])
    files = {}
    base = out + "/metadata" if dp.old and os.path.isdir(out + "/metadata") else out
    for d in {out, base}:
        for n in os.listdir(d):
            if not (d == out and n in ("metadata", "deleted")):
                files[n.lower()] = d + "/" + n
    gone = []
    if os.path.exists(out + "/deleted"):
        gone = open(out + "/deleted", "rb").read().decode("utf-8-sig").replace("\r\n", "\n").split("\n")
        if gone[-1] != "":
            return "the list of deleted objects ends without an end of line"
        gone = [g.lower() for g in gone[:-1]]
    if len(set(gone)) != len(gone):
        return "an object is listed as deleted twice"
    for o in x["own"]:
        names = {depot.ms(dp.obj(o))}
        for kind, need, tag, ns in [("object", x["own"][o], view[o]["c"], names)] + [
                ("part", x["part"][o][n], view[o]["e"][n]["c"], {dp.part(o, n)}) for n in x["part"][o]]:
            f = [files.pop(n) for n in list(files) if n in ns]
            if len(f) > 1:
                return "%s is written twice" % kind
            if not f and need == "must":
                return "a changed %s is not written" % kind
            if f and need == "no":
                return "%s is written though nothing was changed" % kind
            if f and not same(tag, read(f[0])):
                return "%s is written with contents other than those of the later version" % kind
        g = [n for n in gone if n in names]
        gone = [n for n in gone if n not in names and not n.startswith(depot.ms(dp.obj(o)) + ".")]
        if not g and x["lost"][o] == "must":
            return "a deleted object is not listed"
        if g and x["lost"][o] == "no":
            return "an object is listed as deleted though it is there"
    if files:
        return "unknown files %s are written" % sorted(files)
    if gone:
        return "unknown names %s are listed as deleted" % gone
    return None

def one(ctx, exe, seed, case, tmp):
    d = "%s/%d" % (tmp, seed)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    dp = depot.Depot(case, d, seed)
    rng = random.Random(seed)
    back = {v["num"]: k - len(case["vers"]) + 1 for k, v in enumerate(case["vers"])}
    before = open(d + "/1cv8ddb.1CD", "rb").read()
    bad = []
    diffs = [x for x in case["diffs"] if x["a"] <= x["b"]]
    if len(diffs) > 12:
        diffs = rng.sample(diffs, 12)
    for k, x in enumerate(diffs):
        arg = lambda v: str(v + dp.off if rng.random() < .7 else back[v])
        if x["a"] == x["b"] and rng.random() < .6:
            text = arg(x["a"])
        else:
            text = ":".join([arg(x["a"]), arg(x["b"])][::rng.choice([1, 1, -1])])
        out = "%s/out%d" % (d, k)
        rc, so, se = run_cli(ctx, exe, ["1cv8ddb.1CD", "-q"] + ([] if rng.random() < .3 else ["-ne"]) + ["-dpc", text, out], d)
        what = "repository %s of %d versions, %d rows, format %d: difference %d..%d asked as %s" % (
            case["fmt"], len(case["vers"]), len(case["hist"]) + len(case["ext"]), dp.major, x["a"] + dp.off, x["b"] + dp.off, text)
        if rc is None or rc < 0 or rc > 230 or "Sanitizer" in se:
            bad.append(("crash", what + ": crash or no end: " + (re.search(r"#\d+ .*? in (\S+) .*src", se) or [0, se[-200:]])[1]))
        elif rc != 0 or not os.path.isdir(out):
            bad.append(("nothing", what + ": nothing is written (code %s) %s" % (rc, (so + se)[-300:])))
        else:
            r = judge(dp, x, out)
            if r:
                bad.append((re.sub("[^a-z]+", "-", r)[:40], what + ": " + r))
    # versions that do not exist
    num = max(v["num"] for v in case["vers"]) + dp.off + 1
    for text in ("%d" % num, "%d:%d" % (num, num + 1), "%d:%d" % (case["vers"][0]["num"] + dp.off, num)):
        out = d + "/none"
        rc, so, se = run_cli(ctx, exe, ["1cv8ddb.1CD", "-q", "-ne", "-dpc", text, out], d)
        left = [f for p, ds, fs in os.walk(out) for f in fs] if os.path.exists(out) else []
        if rc == 0 or left:
            bad.append(("nonexistent", "difference %s: there is no such version but %s is written (code %s)" % (text, left, rc)))
    if open(d + "/1cv8ddb.1CD", "rb").read() != before:
        bad.append(("changed", "writing differences changes the repository"))
    if not bad:
        shutil.rmtree(d, ignore_errors=True)
    return len(diffs), bad

def run(ctx):
    exe = build(ctx, {"ctool1cd": ["CLI"]})["ctool1cd"]
    tmp = ctx.path("depots")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cases = histories(ctx, "diff", 400 if ctx.thorough else 30)
    for c, (n, bad) in zip(cases, pmap(lambda x: one(ctx, exe, x[0], x[1], tmp), list(enumerate(cases)))):
        ctx.count("differences", n)
        ctx.count("histories", 1)
        ctx.traces += 1
        for key, text in bad:
            ctx.violation("diff-" + key, text, c)
    for c in cases[:2]:
        ctx.sample(c)
    shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions += ["whether a rewritten object with equal contents is written again is left open",
                        "dropped parts may be listed or not"]
