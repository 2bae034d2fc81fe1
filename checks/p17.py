"""Saved configurations: every stored state of Overlay.tla and ExtOverlay.tla is rendered into a database; the
containers the tool saves are read by an independent parser and compared with the views of the specification."""
import os, random, hashlib, base64, struct
from vf import *
import cffile, infobase
from infobase import base, row, cf_time
from pat import pattern

CFG = """SPECIFICATION Spec
CONSTANTS
 Stems = {%s}
 Objects = {%s}
 Exts = {%s}
 Updates = {%s}
 Listable = {%s}
 Forms = {%s}
 MaxRows = %d
 MaxSteps = %d
 Sim = %s
INVARIANTS PendingFirst DbIgnoresPending NewestWins DeletedGone Record
"""
CFGX = """SPECIFICATION Spec
CONSTANTS
 Names = {%s}
 Exts = {%s}
 Vers = {%s}
 Contents = {%s}
 MaxRows = %d
 Sim = %s
INVARIANTS PendingFirst NoPendingSame Record
PROPERTY OthersApart
"""
STEM = dict(a="de6f6288-2bfc-4b7d-b4a6-6c755cafb063", b="de6f6288-2bfc-4b7d-b4a6-6c755cafb064", c="937d733f-7c91-4083-b9a5-41fbb05b6121",
            r="root", v="versions")
EXT = {"": "", "0": "0", "1": "1", "s": "de6f6288-2bfc-4b7d-b4a6-6c755cafb063"}
UPD = dict(g="11223344-5566-7788-99aa-bbccddeeff00", h="00ff1122-3344-5566-7788-99aabbccddee", i="fedcba98-7654-3210-0123-456789abcdef",
           bad="not-an-identifier")
UID = dict(e="8321edb4-d273-493d-9e99-122891d4c705", f="8321edb4-d273-493d-9e99-122891d4c706")
XN = dict(m="500b4e71-675d-4886-ad6d-4e8e3d385097", n="500b4e71-675d-4886-ad6d-4e8e3d385097.2", o="dfb218ca-575a-4e0e-97fd-2e6047164fba", p="Версия")
q = lambda xs: ", ".join('"%s"' % x for x in xs)

def body(t, forms):
    n = {"one": 1 + (t * 131) % 700, "long": 5000 + t * 97, "two": 900 + t * 13, "three": 2500 + t, "removed": 40, "empty": 0, "tiny": 1}[forms]
    return pattern(2 * t, 0, n)

def lname(f):
    return STEM[f["s"]] + ("." + EXT[f["e"]] if f["e"] else "")

def pname(f):
    n = STEM[f["s"]]
    if f["u"] not in ("none", "new"):
        n += "_dynupdate_" + UPD[f["u"]]
    if f["e"]:
        n += "." + EXT[f["e"]]
    return n + (".new" if f["u"] == "new" else "")

def put(t, rng, name, x, rows):
    ln = len(STEM[x["f"]["s"]])
    d = body(x["t"], x["m"])
    k = dict(two=2, three=3).get(x["m"], 1)
    cut = [len(d) * i // k for i in range(k + 1)]
    for i in range(k):
        nm = name
        if rng.random() < 0.3:
            nm = name[:ln].upper() + name[ln:] if rng.random() < 0.5 else name.capitalize()
        if i == 0:
            first = nm
        rows.append((nm, d[cut[i]:cut[i + 1]], x["t"] + (0 if i == 0 else 7), i, x["m"] == "removed"))

def guidlist(gs, up=False):
    return ("\ufeff{1,%d%s}" % (len(gs), "".join("," + (g.upper() if up else g) for g in gs))).encode("utf-8")

def render(v, path, seed):
    rng = random.Random(seed)
    multi = any(x["m"] in ("two", "three") for x in v["db"] + v["save"])
    old = rng.random() < 0.35
    db, ts = base("8.2.14.0" if old else "8.3.8.0", partno=multi or not old, ps=rng.choice([4096, 8192]))
    rows = {"CONFIG": [], "CONFIGSAVE": []}
    for x in v["db"]:
        put(ts["CONFIG"], rng, pname(x["f"]), x, rows["CONFIG"])
    for x in v["save"]:
        put(ts["CONFIGSAVE"], rng, lname(x["f"]), x, rows["CONFIGSAVE"])
    if v["listed"] or rng.random() < 0.3:
        rows["CONFIG"].append(("DynamicallyUpdated", guidlist([UPD[u] for u in v["listed"]]), 3, 0, False))
    if v["deleted"] or rng.random() < 0.2:
        rows["CONFIGSAVE"].append((rng.choice(["deleted", "Deleted"]), cffile.deflate(guidlist([STEM[s] for s in v["deleted"]], rng.random() < 0.3)), 4, 0, False))
    for n, rs in rows.items():
        rng.shuffle(rs)
        for nm, d, tag, part, rem in rs:
            row(ts[n], nm, d, tag, part, rem, order=lambda k: rng.sample(range(k), k))
    db.write(path)

def members(path):
    b = open(path, "rb").read()
    got = {}
    for name, d, h in cffile.members(b):
        if name.lower() in got:
            return "two members named %s" % name
        got[name.lower()] = (d,) + struct.unpack_from("<qq", h, 0)
    return got

def view(exp, path):
    got = members(path)
    if isinstance(got, str):
        return got
    if sorted(got) != sorted(exp):
        return "members are %s instead of %s" % (sorted(got), sorted(exp))
    for n, (d, ct, mt) in exp.items():
        if got[n][0] != d:
            return "member %s has other contents (%d bytes, stored are %d)" % (n, len(got[n][0]), len(d))
        if ct is not None and got[n][1:] != (ct, mt):
            return "member %s has other times %s instead of %s" % (n, got[n][1:], (ct, mt))
    return None

def expect(vs):
    return {lname(x["f"]).lower(): (body(x["t"], x["m"]), cf_time(x["t"]), cf_time(x["t"], 1)) for x in vs}

def overlay(ctx, exe, vals, label):
    tmp = ctx.path("ov")
    os.makedirs(tmp, exist_ok=True)
    for at in range(0, len(vals), 400):
        part = vals[at:at + 400]
        items = []
        for i, v in enumerate(part):
            p = "%s/%d.1CD" % (tmp, i)
            render(v, p, at + i)
            for kind, key in (("db", "vdb"), ("main", "vmain")):
                items.append(("S %s %s %s.%s.cf" % (p, kind, p, kind), dict(kind=kind, want=v[key], v=v, out="%s.%s.cf" % (p, kind))))
        compare(ctx, exe, items, differs, lambda c, e: "overlay-" + e["kind"], what=label)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "the %s configuration of %s is not saved: %s" % (exp["kind"], brief(exp["v"]), g["exc"])
    if not g["ok"]:
        return "the %s configuration is not saved" % exp["kind"]
    d = view(expect(exp["want"]), exp["out"])
    return d and "%s configuration of %s: %s" % (exp["kind"], brief(exp["v"]), d)

def brief(v):
    return "CONFIG %s, CONFIGSAVE %s, updates %s, deleted %s" % ([pname(x["f"]) for x in v["db"]], [lname(x["f"]) for x in v["save"]],
            [UPD[u] for u in v["listed"]], [STEM[s] for s in v["deleted"]])

# ------------------------------------------------------------ extensions
def content(c):
    return cffile.deflate(pattern(2 * c, 0, 10 + c * 211))

def sha(b):
    return hashlib.sha1(b).hexdigest()

def listfile(names):
    t = "{0,\r\n{216,0,\r\n{80310,0}\r\n}\r\n},\r\n{2,dfb218ca-575a-4e0e-97fd-2e6047164fba,A6hCpBSQsADf3l+9h3uyrlsgGMKcZxb8S4KtDorjSr8ogR3dNkRJ+pNw/W9IFtTd\r\r\nqgYgUSq0+3x+T4RmrlBJ4g==},\r\n"
    t += "{%d%s}" % (len(names), "".join(',"%s",%s' % (n, base64.b64encode(bytes.fromhex(h)).decode()) for n, h in names))
    return cffile.deflate(("\ufeff" + t).encode("utf-8"))

def render_ext(v, path, seed):
    rng = random.Random(seed)
    db, ts = base("8.3.8.0", cas=True)
    rows, lists = [], {}
    for c in v["cas"]:
        rows.append((sha(content(c)), content(c), c))
    for ver, m in v["list"].items():
        ns = [(XN[x["n"]], sha(content(x["c"]))) for x in m]
        rng.shuffle(ns)
        b = listfile(ns)
        lists[ver] = b
        rows.append((sha(b + ver.encode()), b, 40))
    rng.shuffle(rows)
    for n, d, tag in rows:
        row(ts["CONFIGCAS"], n, d, tag)
    rows = []
    for e, m in v["pend"].items():
        for x in m:
            rows.append(("%s__%s" % (UID[e], XN[x["n"]]), content(x["c"]), x["c"]))
    for e, p in v["plist"].items():
        if p["there"]:
            b = listfile([(XN[x["n"]].upper() if rng.random() < 0.3 else XN[x["n"]], sha(content(x["c"]))) for x in p["m"]])
            lists["pending" + e] = b
            rows.append(("%s__configinfo" % UID[e], b, 41))
    rng.shuffle(rows)
    for n, d, tag in rows:
        row(ts["CONFIGCASSAVE"], n, d, tag)
    db.write(path)
    return lists

def extensions(ctx, exe, vals, label):
    tmp = ctx.path("ext")
    os.makedirs(tmp, exist_ok=True)
    for at in range(0, len(vals), 300):
        items = []
        for i, v in enumerate(vals[at:at + 300]):
            p = "%s/%d.1CD" % (tmp, i)
            lists = render_ext(v, p, at + i)
            want = lambda r, e: {XN[x["n"]].lower(): (content(x["c"]), None, None) for x in r["m"]} if not r["ok"] else \
                dict([("configinfo", (lists["pending" + e if r["list"] == "pending" else r["list"]], None, None))] +
                     [(XN[x["n"]].lower(), (content(x["c"]), None, None)) for x in r["m"]])
            for ver, r in v["db"].items():
                out = "%s.%s.cf" % (p, ver)
                items.append(("S %s cas %s %s" % (p, out, sha(lists[ver] + ver.encode())), dict(ok=r["ok"], want=want(r, ""), out=out, v=v, kind="cas")))
            for e, m in v["main"].items():
                for ver, r in m.items():
                    out = "%s.%s.%s.cf" % (p, e, ver)
                    items.append(("S %s cassave %s %s %s" % (p, out, UID[e], sha(lists[ver] + ver.encode())),
                                  dict(ok=r["ok"], want=want(r, e), out=out, v=v, kind="cassave")))
            out = "%s.none.cf" % p
            items.append(("S %s cas %s %s" % (p, out, "00" * 20), dict(ok=False, out=out, v=v, kind="cas", want={})))
        compare(ctx, exe, items, differs_ext, lambda c, e: "extension-" + e["kind"], what=label)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))

def differs_ext(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if not exp["ok"]:
        return None if "exc" in g or not g["ok"] else "an extension with missing files is saved"
    if "exc" in g or not g["ok"]:
        return "%s: the extension is not saved: %s" % (exp["kind"], g.get("exc"))
    d = view(exp["want"], exp["out"])
    return d and "%s: %s" % (exp["kind"], d)

def run(ctx):
    exe = build(ctx, {"drv_conf": ["drv_conf.cpp"]})["drv_conf"]
    vals = tlc(ctx, "Overlay", CFG % (q("ab"), q("ab"), q(["", "0"]), q("gh"), q("gh"), q(["one"]), 3 if ctx.thorough else 2, 4 if ctx.thorough else 3, "FALSE"), name="all")
    overlay(ctx, exe, pick(ctx, vals, 12000 if ctx.thorough else 1200), "overlay-exhaustive")
    for n, cfg in enumerate([CFG % (q("abcr"), q("abc"), q(["", "0", "1"]), q("ghi"), q("ghi"), q(["one", "long", "two", "three", "empty", "removed", "tiny"]), 12, 14, "TRUE"),
                             CFG % (q("acv"), q("ac"), q(["", "0", "s"]), q(["g", "h", "i", "bad"]), q("ghi"), q(["one", "two", "removed"]), 9, 11, "TRUE")]):
        vals = tlc(ctx, "Overlay", cfg, name="sim%d" % n, simulate=1500 if ctx.thorough else 150, depth=16)
        overlay(ctx, exe, pick(ctx, vals, 6000 if ctx.thorough else 500), "overlay-random")
    vals = tlc(ctx, "ExtOverlay", CFGX % (q("mn"), q("e"), q("v"), "1, 2", 4 if ctx.thorough else 3, "FALSE"), name="ext")
    extensions(ctx, exe, pick(ctx, vals, 4000 if ctx.thorough else 400), "extension-exhaustive")
    vals = tlc(ctx, "ExtOverlay", CFGX % (q("mnop"), q("ef"), q("vw"), "1, 2, 3, 4, 5", 14, "TRUE"), name="extsim", simulate=600 if ctx.thorough else 60, depth=16)
    extensions(ctx, exe, pick(ctx, vals, 2000 if ctx.thorough else 200), "extension-random")
    ctx.assumptions += ["two stored files equally new for one name, and further files of a deleted object, are left open",
                        "file names are compared without regard to case"]

def pick(ctx, vals, n):
    u = sorted({json.dumps(v, sort_keys=True) for v in vals})
    r = random.Random(ctx.seed)
    if len(u) > n:
        u = r.sample(u, n)
    return [json.loads(x) for x in u]
