"""Lost objects: every page history of LostObjects.tla is rendered into a database; the files the tool saves are
compared with the objects the specification counts as lost."""
import os, random, shutil, struct
from vf import *
import onecd
from onecd import F, T, Db
from pat import pattern

CFG = """SPECIFICATION Spec
CONSTANTS
 Old = %s
 Sizes = {%s}
 Looks = {"plain", "head", "bad"}
 MaxObjs = %d
 MaxOps = %d
 Sim = %s
INVARIANTS Found Apart FreeApart Covered Record
"""

def head(old, ps, length, tabs, ver=(1, 2, 3), level=0):
    if old:
        return onecd.OSIG + struct.pack("<I3I", length, *ver) + struct.pack("<%dI" % len(tabs), *tabs)
    return b"\x1c\xfd" + struct.pack("<h3IQ", level, *ver, length) + struct.pack("<%dI" % len(tabs), *tabs)

def bad(old, ps, rng):
    """the beginning of a page that only looks like an object"""
    if old:
        return rng.choice([onecd.OSIG + b"\xff" * 300, onecd.OSIG + struct.pack("<I3I", 5000, 1, 0, 0) + struct.pack("<I", 0x7fffffff),
                           onecd.OSIG[:7] + b"X" + bytes(40)])
    return rng.choice([b"\x1c\xfd" + b"\xff" * 300, b"\x1c\xfd\0\0" + b"\xff" * 60, b"\x1c\xfd\1\0" + struct.pack("<3IQ", 1, 0, 0, 3 * ps) + struct.pack("<I", 0x7fffffff),
                       b"\x1c\xfd\0\0" + struct.pack("<3IQ", 1, 0, 0, ps + 1) + struct.pack("<2I", 1, 0x00ffffff)])

def render(v, path, ver, ps, seed):
    """writes the database, returns {page: contents} of its objects"""
    rng = random.Random(seed)
    old = ver in onecd.OLD
    db = Db(ver, ps)
    db.pages += [pattern(200 + i % 50, 0, db.ps) if rng.random() < 0.7 else bytes(db.ps) for i in range(v["last"] - 2)]
    heads, data = [], {}
    for o in sorted(v["objs"], key=lambda x: x["id"]):
        n = len(o["data"])
        ln = 0 if n == 0 else (n - 1) * db.ps + rng.choice([1, 2, db.ps - 1, db.ps, db.ps // 2])
        if o["live"]:
            ln -= ln % 5
            if n and ln <= (n - 1) * db.ps:
                ln = ((n - 1) * db.ps // 5 + 1) * 5
        c = pattern(o["id"] * 3 + 1, 0, ln)
        o["level"] = 1 if (not old and n > 1 and len(o["data"]) > 1 and rng.random() < 0.4) else 0
        data[o["head"]] = c
        if o["live"] and n >= 3 and o["look"] == "plain":       # an empty index
            x = T("X", [F("_A", "L")], [("I", 1, [("_A", 1)])])
            c = db.index_file(x).ljust(n * db.ps, b"\0")
            ln = len(c)
        pieces = [c[i * db.ps:(i + 1) * db.ps].ljust(db.ps, b"\0") for i in range(n)]
        if o["look"] != "plain":
            k = rng.randrange(n)
            if k == n - 1 and ln - k * db.ps < 400:
                k = 0
            if len(pieces) > 0 and min(ln - k * db.ps, db.ps) >= 400:
                if o["look"] == "bad":
                    h = bad(old, db.ps, rng)
                else:
                    x = rng.choice(v["objs"])
                    h = head(old, db.ps, len(x["data"]) * db.ps, x["tabs"] if old else x["data"])
                pieces[k] = h + pieces[k][len(h):]
        if not old and o["level"]:
            tabs = [db.page(struct.pack("<%dI" % n, *o["data"]))]
        else:
            tabs = o["tabs"] if old else o["data"]
            if old and n:
                db.pages[tabs[0]] = (struct.pack("<i", n) + struct.pack("<%dI" % n, *o["data"])).ljust(db.ps, b"\0")
        for p, d in zip(o["data"], pieces):
            db.pages[p] = d
        data[o["head"]] = b"".join(pieces)[:ln]
        db.pages[o["head"]] = head(old, db.ps, ln, tabs, level=o["level"]).ljust(db.ps, b"\0")
    for p in v["stale"]:
        k = rng.randint(0, 3)
        pick = [rng.randint(3, v["last"]) for _ in range(k)]
        db.pages[p] = head(old, db.ps, k * db.ps, pick[:1] if old else pick).ljust(db.ps, b"\0")
    for p in v["leak"]:
        db.pages[p] = bad(old, db.ps, rng).ljust(db.ps, b"\x11")
    db.free = list(v["free"])
    # tables refer to the live objects: records, maybe long values and an index
    live = [o for o in v["objs"] if o["live"]]
    rng.shuffle(live)
    isx = lambda o: len(o["data"]) >= 3 and o["look"] == "plain"
    index = [o["head"] for o in live if isx(o)]
    live = [o["head"] for o in live if not isx(o)]
    k = 0
    while live or index:
        ix = index and rng.random() < 0.8
        t = T("_T%d" % k, [F("_A", "L")], [("I", 1, [("_A", 1)])] if ix or not live else [])
        d = live.pop() if live else db.obj(b"")
        b = live.pop() if live and rng.random() < 0.5 else 0
        t.files = (d, b, index.pop() if t.indexes else 0)
        db.tables.append(t)
        k += 1
    db.write(path)
    return data

def attempt(ctx, exe, v, ver, ps, tag, seed):
    d = ctx.path(tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "out"))
    try:
        f = os.path.join(d, "a.1CD")
        data = render(v, f, ver, ps, seed)
        before = open(f, "rb").read()
        rc, out, err = run_cli(ctx, exe, [f, "-slo", os.path.join(d, "out")] + (["-ne"] if seed % 2 else []))
        if rc != 0:
            return "the program fails (%d): %s" % (rc, (out + err)[-400:])
        if open(f, "rb").read() != before:
            return "the database is changed"
        if sorted(os.listdir(d)) != ["a.1CD", "out"]:
            return "files outside the directory: %s" % sorted(os.listdir(d))
        want = {"block%d" % o["head"]: data[o["head"]] for o in v["objs"] if o["id"] in v["lost"]}
        got = {n: open(os.path.join(d, "out", n), "rb").read() for n in os.listdir(os.path.join(d, "out"))}
        if sorted(want) != sorted(got):
            return "saved are %s, lost are %s" % (sorted(got), sorted(want))
        for n in want:
            if want[n] != got[n]:
                return "%s has other contents (%d bytes, the object has %d)" % (n, len(got[n]), len(want[n]))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(ctx):
    exe = build(ctx, {"ctool1cd": ["CLI"]})["ctool1cd"]
    t = ctx.thorough
    jobs = []
    for old in (True, False):
        vers = [("8.1.0.0", 4096), ("8.2.14.0", 4096), ("8.0.5.0", 4096), ("8.2.0.0", 4096), ("8.0.3.0", 4096)] if old else [("8.3.8.0", 4096), ("8.3.8.0", 8192), ("8.3.8.0", 65536), ("8.3.8.0", 32768)]
        tag = "old" if old else "new"
        O = "TRUE" if old else "FALSE"
        for nm, (sizes, no, n, sim, cap) in dict(short=("0, 1, 2", 3, 4 if t else 3, None, 3000 if t else 150), long=("0, 1, 2, 3", 12, 16, 60 if t else 20, 3000 if t else 150),
                                                wide=("0, 1, 5, 40", 20, 40, 30 if t else 8, 800 if t else 40)).items():
            v = tlc(ctx, "LostObjects", CFG % (O, sizes, no, n, "TRUE" if sim else "FALSE"), name="lo-%s-%s" % (tag, nm), simulate=sim, depth=2 * n if sim else None)
            seen, out = set(), []
            for x in v:
                k = json.dumps(x, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    out.append(x)
            out.sort(key=lambda x: json.dumps(x, sort_keys=True))
            ctx.extra.setdefault("histories", {})["%s-%s" % (tag, nm)] = len(out)
            if len(out) > cap:
                out = random.Random(ctx.seed).sample(out, cap)
            for i, x in enumerate(out):
                jobs.append((x,) + vers[i % len(vers)])
            ctx.sample(dict(run=tag + "-" + nm, state=out[len(out) // 2]))
    def one(iv):
        i, (v, ver, ps) = iv
        return i, attempt(ctx, exe, v, ver, ps, "l%d" % i, i)
    nbad = 0
    for i, d in pmap(one, list(enumerate(jobs))):
        ctx.count("database")
        ctx.traces += 1
        if d and nbad < 8:
            nbad += 1
            v, ver, ps = jobs[i]
            d = attempt(ctx, exe, v, ver, ps, "again", i)
            if d:
                ctx.violation("%s-%d-%d" % (ver, ps, i), "%s, pages of %d: %s" % (ver, ps, d), dict(v=v))
    ctx.extra["lost objects"] = sum(len(j[0]["lost"]) for j in jobs)
    ctx.assumptions += ["a page inside a lost object that looks like a head, and a lost object that is damaged, are left open",
                        "in the 8.3.8 format free pages are not listed; a head that nobody refers to counts as lost there"]
