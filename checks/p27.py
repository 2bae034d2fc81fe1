"""Where data are written: names of OutputPlaces.tla are given to tables, container members, supplier
configurations and external files of generated databases, and the tool has to write below its destination."""
import os, random, shutil
from vf import *
import cffile, depot, infobase, onecd
from onecd import F, T, Db
import p25

CFG = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 Tokens = {%s}
 MaxTokens = %d
 MaxItems = %d
 Emit = TRUE
 Sim = %s
INVARIANTS Contained Apart Faithful Record
"""
q = lambda xs: ", ".join('"%s"' % x for x in xs)
SYM = {"bs": "\\", "lt": "<", "gt": ">", "bar": "|", "quote": '"', "nul": "\x01", "nl": "\n"}

def spell(name, top):
    """the name as text; a name that starts at the root starts at the scratch directory instead"""
    s = "".join(SYM.get(c, c) for c in name)
    return top + s if s.startswith("/") else s

def data_of(i):
    return b"\xff\xfe%d " % i + random.Random(i).randbytes(40 + 17 * i)

def expected(items, up=0):
    """{index: bytes or {…}} of the items below up"""
    return {i: expected(items, i) if it["box"] else data_of(i) for i, it in enumerate(items, 1) if it["up"] == up}

def box(items, top, up=0):
    return cffile.build([(spell(it["name"], top), box(items, top, i) if it["box"] else data_of(i)) for i, it in enumerate(items, 1) if it["up"] == up])

def tree(p):
    if os.path.isdir(p):
        return {n: tree(os.path.join(p, n)) for n in os.listdir(p)}
    with open(p, "rb") as f:
        return f.read()

def same(items, want, got):
    if isinstance(want, dict):
        return isinstance(got, dict) and match(items, want, got, "") is None
    return got == want

def match(items, want, got, top, lower=False):
    """None or what is wrong with the entries {name: bytes or {…}} of a directory"""
    left = dict(got)
    rest = []
    for i, w in want.items():
        if items[i - 1]["kept"]:
            n = "".join(SYM.get(c, c) for c in items[i - 1]["name"])
            n = next((x for x in left if x == n or (lower and x.lower() == n.lower())), None)
            if n is None:
                return "%r is not there: %s" % ("".join(items[i - 1]["name"]), sorted(got))
            if not same(items, w, left.pop(n)):
                return "%r holds something else" % n
        else:
            rest.append((i, w))
    for i, w in rest:
        n = next((x for x in sorted(left) if same(items, w, left[x])), None)
        if n is None:
            return "what is named %r has no place of its own: %s" % ("".join(items[i - 1]["name"]), sorted(got))
        left.pop(n)
    if left:
        return "there is also %s" % sorted(left)
    return None

class Repo(depot.Depot):
    def part(self, o, n):
        return self.case["names"][n]

def contents(tag):
    return bytes.fromhex(tag[1:]) if tag.startswith("x") else tag.encode()
depot.content = contents                  # contents of this check are given by their bytes

class Case:
    def __init__(self, ctx, cli, k, v):
        self.ctx, self.cli, self.v, self.items, self.kind, self.k = ctx, cli, v, v["items"], v["kind"], k
        self.base = ctx.path("places/%d" % k)
        shutil.rmtree(self.base, ignore_errors=True)
        # the destination lies deep below the scratch directory, so that no name leads out of it
        self.parents = [self.base + "/" + "/".join("rstuvw"[:n]) for n in range(1, 7)]
        self.work = self.parents[-1]
        self.out = self.work + "/out"
        os.makedirs(self.out)
        for p in [self.base] + self.parents:
            for n in "ab":
                with open("%s/%s" % (p, n), "w") as f:
                    f.write("mine")

    def others(self):
        """everything below the scratch directory except the destination and the database"""
        res = {}
        for d, ds, fs in os.walk(self.base):
            if d == self.work:
                ds[:] = [x for x in ds if x not in ("out", "repo")]
                fs = [f for f in fs if f != "b.1CD"]
            for f in fs:
                with open(d + "/" + f, "rb") as h:
                    res[d + "/" + f] = h.read()
            for x in ds:
                res[d + "/" + x] = "directory"
        return res

    def cmd(self, *args, ok=(0,)):
        rc, so, se = run_cli(self.ctx, self.cli, list(args), self.work)
        if rc not in ok:
            return "%s ends with %s: %s" % (" ".join(a for a in args if a.startswith("-")), rc, (so + se)[-300:])
        return None

    def tables(self):
        db = Db(["8.3.8.0", "8.2.14.0"][self.k % 2])
        for i, it in enumerate(self.items, 1):
            t = T(spell(it["name"], self.base), [F("_ID", "NVC", 0, 20), F("_DATA", "I", 1)])
            t.add(dict(_ID=onecd.nvc("r%d" % i), _DATA=t.long(data_of(i))))
            db.tables.append(t)
        db.write(self.work + "/b.1CD")
        before = open(self.work + "/b.1CD", "rb").read()
        for args in (["-eax", "out"], ["-bf", "1", "-eax", "out"], ["-eb", "out", "*"]):
            shutil.rmtree(self.out)
            os.makedirs(self.out)
            e = self.cmd("b.1CD", "-q", *args)
            if e:
                return e
            e = self.unchanged() if hasattr(self, "was") else None
            if e:
                return "%s: %s" % (args[-2], e)
            got = tree(self.out)
            if args[0] == "-eb":
                # every table has a directory with its files
                want = {i: None for i in range(1, len(self.items) + 1)}
                for n, x in got.items():
                    if not (isinstance(x, dict) and {"root", "data"} <= set(x) <= {"root", "data", "blob", "index", "descr"}):
                        return "-eb: %r is no exported table: %s" % (n, sorted(x) if isinstance(x, dict) else x)
                if len(got) != len(self.items):
                    return "-eb: %d tables are exported to %s" % (len(self.items), sorted(got))
                e = self.names(got, "")
                if e:
                    return "-eb: " + e
                e = self.cmd("b.1CD", "-q", "-ib", "out", "*")
                if e:
                    return e
                if onecd_tables(self.work + "/b.1CD") != onecd_tables_bytes(before):
                    return "-ib: importing what was exported changes the tables"
            else:
                xs = {n[:-4]: x for n, x in got.items() if n.endswith(".xml")}
                if len(xs) != len(self.items):
                    return "%s: %d tables are exported to %s" % (args[-2], len(self.items), sorted(got))
                e = self.names(xs, ".xml")
                if e:
                    return "-eax: " + e
                for i in range(1, len(self.items) + 1):
                    if sum(b">r%d<" % i in x for x in xs.values()) != 1:
                        return "-eax: table %r has no file of its own" % "".join(self.items[i - 1]["name"])
                blobs = {n for n in got if not n.endswith(".xml")}
                if blobs != ({n + ".xml.blob" for n in xs} if "-bf" in args else set()):
                    return "-eax: there is also %s" % sorted(blobs)
        return None

    def names(self, got, ext):
        for it in self.items:
            n = "".join(SYM.get(c, c) for c in it["name"])
            if it["kept"] and n not in got:
                return "table %r is not there: %s" % (n, sorted(got))
        return None

    def members(self):
        db, ts = infobase.base(["8.3.8.0", "8.2.14.0"][self.k % 2])
        b = box(self.items, self.base)
        infobase.row(ts["PARAMS"], "box.inf", cffile.deflate(b) if self.k % 3 else b, 1)
        db.write(self.work + "/b.1CD")
        e = self.cmd("b.1CD", "-q", "-bf", "1", "-pb", "1", "-ex", "out", "PARAMS")
        if e:
            return e
        got = tree(self.out)
        b = got.get("PARAMS.xml.blob")
        if set(got) != {"PARAMS.xml", "PARAMS.xml.blob"} or not isinstance(b, dict) or len(b) != 1:
            return "the destination holds %s" % {n: sorted(x) if isinstance(x, dict) else 0 for n, x in got.items()}
        b = list(b.values())[0]
        if not isinstance(b, dict):
            return "the container is written as a file"
        return match(self.items, expected(self.items), b, self.base)

    def suppliers(self):
        db, ts = infobase.base("8.3.8.0")
        want, same = [], {}
        for i, it in enumerate(self.items, 1):
            n = spell(it["name"], self.base)
            x = dict(tag=i, props=15, fmt=216, name="plain", sup="plain", ver="plain", before=1, after=0, parts=1, big=False, upper=False)
            d = p25.config(x, name=n, ver="1.0")
            want.append(d)
            ident = "%08x-2bfc-4b7d-b4a6-6c755cafb063.8321edb4-d273-493d-9e99-122891d4c705" % i
            infobase.row(ts["CONFIG" if i % 2 else "CONFIGSAVE"], ident, cffile.deflate(cffile.deflate(d)), 1)
        db.write(self.work + "/b.1CD")
        e = self.cmd("b.1CD", "-q", "-dvc", "out")
        if e:
            return e
        got = tree(self.out)
        for it, d in zip(self.items, want):
            n = "".join(SYM.get(c, c) for c in it["name"]) + " 1.0.cf"
            if it["kept"] and got.get(n) != d:
                return "the configuration %r is not in its file: %s" % (n, sorted(got))
        if sorted(map(str, got.values())) != sorted(map(str, want)):
            return "%d configurations are written to %s" % (len(want), sorted(got))
        return None

    def externals(self):
        names = {str(i): spell(it["name"], self.base) for i, it in enumerate(self.items, 1)}
        fmt = ["v5", "v6", "v7"][self.k % 3]
        tag = lambda i: "x" + (cffile.build([("../m%d" % i, data_of(i)), ("n", b"n")]) if i == 2 and self.k % 2 else data_of(i)).hex()
        case = dict(fmt=fmt, names=names, vers=[dict(num=n, snap="none", view={}) for n in (1, 2)],
                    hist=[dict(o="o", v=n, k="data", s="inline", c="own%d" % n) for n in (1, 2)],
                    ext=[dict(o="o", v=2, n=str(i), id=1, p=True, s="inline", c=tag(i)) for i in range(1, len(self.items) + 1)])
        os.makedirs(self.work + "/repo")
        r = Repo(case, self.work + "/repo", self.k)
        e = self.cmd("repo/1cv8ddb.1CD", "-q", "-ne", "-dpc", "%d:%d" % (r.off + 1, r.off + 2), "out")
        if e:
            return e
        got = tree(self.out)
        got.pop("deleted", None)
        own = depot.ms(r.obj("o"))
        got = got.pop("metadata") if r.old and "metadata" in got else got
        o = next((n for n in got if n.lower() == own), None)
        if o is None or got.pop(o) != b"own2":
            return "the object is not written: %s" % sorted(got)
        want = expected(self.items)
        if self.k % 2 and 2 in want:
            x = next((n for n in got if isinstance(got[n], dict)), None)
            if x is None or sorted(got[x].values()) != sorted([data_of(2), b"n"]):
                return "the external file %r is not extracted below its directory: %s" % (names["2"], {n: sorted(y) if isinstance(y, dict) else 0 for n, y in got.items()})
            got[x] = want[2]
        return match(self.items, want, got, self.base, lower=True)

    def unchanged(self):
        now = self.others()
        if now != self.was:
            new = sorted(set(now) - set(self.was))
            old = sorted(n for n in self.was if now.get(n) != self.was[n])
            cut = lambda ns: [n[len(self.base):] for n in ns]
            return "outside of the destination %s" % ("%s are created" % cut(new) if new else "%s are changed" % cut(old))
        return None

    def run(self):
        try:
            self.was = self.others()
            e = dict(table=self.tables, member=self.members, supplier=self.suppliers, external=self.externals)[self.kind]()
            u = self.unchanged()
            return "; ".join(x for x in (u, e) if x) or None
        finally:
            shutil.rmtree(self.base, ignore_errors=True)

def onecd_tables(path):
    with open(path, "rb") as f:
        return onecd_tables_bytes(f.read())

def onecd_tables_bytes(b):
    """the bytes of the files of every table"""
    im = onecd.Image(b)
    return {n: [im.read(f) if f else None for f in fs] for n, (_, _, fs) in im.tables().items()}

def run(ctx):
    cli = build(ctx, {"ctool1cd": ["CLI"]})["ctool1cd"]
    t = ctx.thorough
    cases = []
    every = ["a", "A", "b", ".", "..", "/", "bs", ":", "*", "?", "lt", "gt", "bar", "quote", "nl"]
    for name, kinds, toks, mt, mi, sim, take in [
            ("one", q(["table", "member", "external", "supplier"]), q(["a", ".", "..", "/", "bs"]), 4 if t else 3, 1, None, 2000 if t else 300),
            ("pairs", q(["member", "supplier"]), q(["a", "A", "..", "/"]), 2, 2, None, 3000 if t else 250),
            ("many", q(["table", "member", "external", "supplier"]), q(every), 5, 6, 1500 if t else 60, 4000 if t else 350)]:
        vals = tlc(ctx, "OutputPlaces", CFG % (kinds, toks, mt, mi, "TRUE" if sim else "FALSE"), name=name, simulate=sim, depth=40 if sim else None)
        u = sorted({json.dumps(v, sort_keys=True) for v in vals})
        r = random.Random(ctx.seed)
        # names that would lead out of the destination come first
        r.shuffle(u)
        u.sort(key=lambda s: '"leaves": true' not in s)
        u = [s for s in u if not ('"kind": "table"' in s and '"quote"' in s)]
        cases += [json.loads(s) for s in u[:take * 3 // 4] + r.sample(u[take * 3 // 4:], min(take // 4, max(0, len(u) - take * 3 // 4)))]
    for v, e in zip(cases, pmap(lambda kv: Case(ctx, cli, kv[0], kv[1]).run(), list(enumerate(cases)))):
        ctx.count("databases-" + v["kind"])
        ctx.count("names", len(v["items"]))
        ctx.count("names-leading-out", sum(it["leaves"] for it in v["items"]))
        ctx.traces += 1
        if e:
            ctx.violation("place-%s-%s" % (v["kind"], "out" if "outside" in e else "in"), "%s named %s: %s" % (v["kind"], ["".join(it["name"]) for it in v["items"]], e), v)
    for v in cases[-2:]:
        ctx.sample(v)
    shutil.rmtree(ctx.path("places"), ignore_errors=True)
    ctx.assumptions += ["names of tables, and of external files, differ in more than the characters that cannot be part of a file name",
                        "the destination holds no links to other places"]
