"""Supplier configurations: every state of SupplierConfigs.tla is built as an infobase; what the tool reports and
extracts is compared with the configurations the specification says are there."""
import os, random, shutil
from vf import *
import cffile, pat
from infobase import base, row

CFG = """SPECIFICATION Spec
CONSTANTS
 Ids = {%s}
 Props = {%s}
 Formats = {%s}
 Texts = {%s}
 Noise = {%s}
 MaxOps = %d
 MaxParts = %d
 Sim = %s
INVARIANTS Living TwoPerSupplier PendingNewer
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)
ID = dict(a="de6f6288-2bfc-4b7d-b4a6-6c755cafb063.8321edb4-d273-493d-9e99-122891d4c705", b="0000aaaa-2bfc-4b7d-b4a6-6c755cafb064.ffff0000-d273-493d-9e99-122891d4c706",
          c="FE6F6288-2BFC-4B7D-B4A6-6C755CAFB063.8321EDB4-D273-493D-9E99-122891D4C705", d="de6f6288-2bfc-4b7d-b4a6-6c755cafb063.8321edb4-d273-493d-9e99-122891d4c706")
GENERAL = "9cd510cd-abfc-11d4-9434-004095e12fc7"
OTHER = ["9cd510cd-abfc-11d4-9434-004095e12fc8", "9fcd25a0-4822-11d4-9414-008048da11f9"]
TEXT = dict(plain="Demo", quote='ООО "Ромашка"', comma="a, {b}, 1", empty="", long="Торговля" * 30, lines="one\ntwo", num="37", guid=GENERAL)

def text(s):
    return '"%s"' % s.replace('"', '""')

def name_of(x):
    # the name becomes part of a file name; an identifier of the language
    return {"plain": "Demo", "quote": "УправлениеТорговлей", "long": "Торговля" * 4}.get(x["name"], "Conf_1") + str(x["tag"])

def ver_of(x):
    return {"plain": "1.0", "num": "3", "long": "3.0.44.115", "quote": "8-rc", "comma": "1, 2 {3}"}.get(x["ver"], "2.1") + "." + str(x["tag"])

def sup_of(x):
    return TEXT[x["sup"]]

def config(x, name=None, ver=None):
    """the stored configuration of a supplier: a container with root, version, metadata and other files"""
    name = name_of(x) if name is None else name
    ver = ver or ver_of(x)
    rng = random.Random(x["tag"])
    bom = lambda s: b"\xef\xbb\xbf" + s.encode()
    meta = "%08x-2bfc-4b7d-b4a6-6c755cafb0%02d" % (rng.getrandbits(32), x["tag"] % 100)
    info = ["%d" % x["props"], "{0,\n{2,\n{0,0,%s},%s,\n{1,\"ru\",%s},\"\"},0}" % (meta, text(name), text("Синоним " + name))]
    info[1] = "{0,\n{3,\n{0,0,%s},%s,\n{1,\"ru\",%s}},0}" % (meta, text(name), text("Синоним " + name))
    at = 11 if x["props"] == 15 else 14
    while len(info) < 22:
        k = len(info)
        info.append(text(sup_of(x)) if k == at else text(ver) if k == at + 1 else rng.choice(["0", '"x"', "{0}", GENERAL]))
    gen = "{%s,{1,\n{%s},{0}}}" % (GENERAL.upper() if x["upper"] else GENERAL, ",".join(info))
    nodes = ["{%s,{1,{%d,{0,{1,2,\"no\"}}}}}" % (OTHER[k % 2], k) for k in range(x["before"])] + [gen] + [
        "{%s,{1,{7}}}" % OTHER[k % 2] for k in range(x["after"])]
    m = "{2,\n{%s},%d,%s}" % (meta, len(nodes), ",\n".join(nodes))
    old = x["fmt"] < 100
    files = [("root", bom("{%d,%s}" % (1 if old else 2, meta))), (meta, bom(m)), (meta + ".0", pat.pattern(x["tag"], 0, 20000 if x["big"] else 300))]
    rng.shuffle(files)
    z = cffile.deflate
    vf = ("version", z(bom("{\n{%d,0}\n}" % x["fmt"])))
    if old:
        top = [vf, ("metadata", z(cffile.build(files))), ("versions", z(bom("{1,0}")))]
    else:
        top = [(n, z(d)) for n, d in files] + [vf, ("versions", z(bom("{1,0}")))]
    rng.shuffle(top)
    return cffile.build(top)

NOISE = dict(plain="de6f6288-2bfc-4b7d-b4a6-6c755cafb063", ext="de6f6288-2bfc-4b7d-b4a6-6c755cafb063.0", root="root",
             odd="N" * 36 + "." + "8321edb4-d273-493d-9e99-122891d4c705", dash="de6f6288-2bfc-4b7d-b4a6-6c755cafb063-8321edb4-d273-493d-9e99-122891d4c705",
             longer="de6f6288-2bfc-4b7d-b4a6-6c755cafb063.8321edb4-d273-493d-9e99-122891d4c7050", shorter="de6f6288-2bfc-4b7d-b4a6-6c755cafb063.8321edb4-d273-493d-9e99-122891d4c70",
             dyn="A" * 26 + "_dynupdate_" + "8321edb4-d273-493d-9e99-122891d4c705")

def build_db(v, file, seed):
    rng = random.Random(seed)
    old = rng.random() < .4
    multi = any(c["parts"] > 1 for c in v["main"] + v["pend"])
    db, ts = base(rng.choice(["8.2.14.0", "8.2.0.0", "8.1.0.0"]) if old else "8.3.8.0", partno=multi or not old)
    rows = []
    def put(t, name, d, k, deleted=False):
        k = min(k, len(d))
        cut = [len(d) * i // k for i in range(k + 1)]
        for i in range(k):
            rows.append((t, name, d[cut[i]:cut[i + 1]], i, deleted))
    for t, cs in (("CONFIG", v["main"]), ("CONFIGSAVE", v["pend"])):
        for c in cs:
            put(t, ID[c["id"]], cffile.deflate(cffile.deflate(config(c))), c["parts"])
    for g in v["gone"]:
        put(g["t"], ID[g["c"]["id"]], cffile.deflate(cffile.deflate(config(g["c"]))), g["c"]["parts"] if multi or not old else 1, True)
    used = set()
    for x in v["noise"]:
        if (x["t"], x["k"]) not in used:
            used.add((x["t"], x["k"]))
            put(x["t"], NOISE[x["k"]], cffile.deflate(pat.pattern(x["tag"], 0, 500)), 1)
    rng.shuffle(rows)
    for t, name, d, i, dead in rows:
        row(ts[t], name, d, 1, i, deleted=dead)
    db.write(file)

def one(ctx, exe, cli, k, v, tmp):
    d = "%s/%d" % (tmp, k)
    os.makedirs(d + "/lib")
    os.makedirs(d + "/out")
    build_db(v, d + "/b.1CD", k)
    want = sorted((name_of(x), sup_of(x), ver_of(x), config(x)) for x in v["reported"])
    res = []
    g = drive(ctx, exe, ["V %s %s" % (d + "/b.1CD", d + "/lib")])[0]
    where = "%d in CONFIG, %d in CONFIGSAVE, %d deleted, others %s" % (len(v["main"]), len(v["pend"]), len(v["gone"]), [x["k"] for x in v["noise"]])
    if "crash" in g or "exc" in g:
        res.append(("list-fails", "%s: listing fails: %s" % (where, g.get("exc") or g.get("crash"))))
    else:
        got = sorted((bytes.fromhex(s["n"]).decode(), bytes.fromhex(s["s"]).decode(), bytes.fromhex(s["v"]).decode(),
                      open(d + "/lib/%d" % i, "rb").read() if s["ok"] else None) for i, s in enumerate(g["l"]))
        if [x[:3] for x in got] != [x[:3] for x in want]:
            res.append(("list", "%s: reported %s instead of %s" % (where, [x[:3] for x in got], [x[:3] for x in want])))
        elif got != want:
            res.append(("bytes", "%s: an extracted configuration is not the stored one" % where))
    opt = "-dvc" if k % 2 else "-dac"
    extra = 1 if k % 2 else 2
    rc, so, se = run_cli(ctx, cli, ["b.1CD", "-q", opt, "out"], d)
    have = {n: open(d + "/out/" + n, "rb").read() for n in os.listdir(d + "/out") if n not in ("cf.cf", "dbcf.cf")}
    exp = {"%s %s.cf" % (x[0], x[2]): x[3] for x in want}
    if rc is None or rc < 0 or "Sanitizer" in se:
        res.append(("crash", "%s: %s ends abnormally: %s" % (where, opt, (so + se)[-200:])))
    elif sorted(have) != sorted(exp):
        res.append(("files", "%s: %s writes %s instead of %s (code %s) %s" % (where, opt, sorted(have), sorted(exp), rc, (so + se)[-300:])))
    elif have != exp:
        res.append(("files-bytes", "%s: %s writes other bytes than the stored ones" % (where, opt)))
    elif rc != 0 and opt == "-dvc":
        res.append(("code", "%s: %s ends with code %s %s" % (where, opt, rc, (so + se)[-300:])))
    shutil.rmtree(d, ignore_errors=True)
    return res

def run(ctx):
    e = build(ctx, {"drv_conf": ["drv_conf.cpp"], "ctool1cd": ["CLI"]})
    T = ctx.thorough
    tmp = ctx.path("sup")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cases = []
    for name, args, sim, take in [
            ("states", (q("ab"), "15", "216", q(["plain"]), q(["plain"]), 6 if T else 5, 1, "FALSE"), None, 3000 if T else 250),
            ("texts", (q("abcd"), "15, 22, 32, 34, 36, 37, 50", "80, 99, 100, 106, 216, 80316", q(TEXT), q(NOISE), 14, 3, "TRUE"), 1500 if T else 120, 3000 if T else 400)]:
        vals = tlc(ctx, "SupplierConfigs", CFG % args, name=name, simulate=sim, depth=18 if sim else None)
        u = sorted({json.dumps(v, sort_keys=True) for v in vals})
        r = random.Random(ctx.seed)
        if len(u) > take:
            u = r.sample(u, take)
        cases += [json.loads(x) for x in u]
    for v, bad in zip(cases, pmap(lambda kv: one(ctx, e["drv_conf"], e["ctool1cd"], kv[0], kv[1], tmp), list(enumerate(cases)))):
        ctx.count("infobases")
        ctx.count("configurations", len(v["reported"]))
        ctx.traces += 1
        for key, t in bad:
            ctx.violation("supplier-" + key, t, v)
    for v in cases[-2:]:
        ctx.sample(v)
    shutil.rmtree(tmp, ignore_errors=True)
    ctx.assumptions += ["names and versions of configurations can be parts of a file name, and no two reported ones have the same name and version (other ones: P27)",
                        "every stored supplier configuration is readable"]
