"""Damaged databases: the faults of Damage.tla are written into generated databases and the tool reads them."""
import os, random, re, shutil, struct, zlib
from vf import *
import cffile, infobase, onecd
from onecd import F, T, Db, Image

CFG = """SPECIFICATION Spec
CONSTANTS
 Tables = {%s}
 Indexed = {%s}
 NData = 2
 NBlob = 2
 Chains <- MCChains
 Used <- MCUsed
 AllBlocks = 20
 NLeaves = 3
 PerLeaf = 20
 Gone <- MCGone
 MaxFaults = %d
 Commands = {"xml", "copy", "sizes", "config", "lost", "vendor"}
 Only = "%s"
 Emit = TRUE
 Sim = %s
INVARIANTS Sound Local Ends NothingOutside FreeUnread EndlessIsSeen Record
"""
MC = """---- MODULE MCDamage ----
EXTENDS Damage
MCChains == <<<<1, 2, 3>>, <<4, 5>>>>
MCUsed == <<250, 250, 66, 250, 136>>
MCGone == [x \\in Tables |-> IF x = "_B" THEN 3 ELSE 0]
====
"""
EVERY = ('"CONFIG", "_A", "_B"', '"_A", "_B"')
GONE = {"_A": 0, "_B": 3}
NAMES = ["CONFIG", "_A", "_B"]
OUT, END, ROOT = -1, -2, -3
FULL = 0xffffffff

def noise(n, seed):
    return random.Random(seed).randbytes(n)

class Base:
    """An undamaged database and the places of its parts."""
    def __init__(self, version, ps=4096):
        db, ts = infobase.base(version, True, ps)
        c = ts["CONFIG"]
        rows = [("root", cffile.deflate(b"{2,x}")), ("version", cffile.deflate(b"{{216,0}}"))]
        # two values of three and two blocks on different pages of the store
        big, fill, small = [cffile.deflate(noise(n, n)) for n in (561, (16 * (ps // 4096) - 2) * 250 - 20, 381)]
        assert len(big) == 566 and len(small) == 386
        rows += [("m1", big), ("m2", fill), ("m3", small)] + [("n%d" % i, b"") for i in range(ps // 290)]
        self.row = {"CONFIG": {1: 2, 2: 4}}
        self.chain = {}
        for i, (n, d) in enumerate(rows):
            before = len(c.blob.blocks) if c.blob else 1
            infobase.row(c, n, d, i + 1)
            if n in ("m1", "m3"):
                self.chain.setdefault("CONFIG", []).extend(range(before, len(c.blob.blocks)))
        self.field = {"CONFIG": c.layout()[0]["BINARYDATA"]}
        for name, kind in (("_A", "NT"), ("_B", "I")):
            w = (77 * (ps // 4096) - 27) // 2
            t = T(name, [F("_ID", "B", 0, 16), F("_N", "NVC", 0, w), F("_V", kind)], [("PK", 1, [("_ID", 16)])])
            keys = []
            self.row[name] = {1: 3, 2: 40}
            self.chain[name] = []
            text = lambda n, s: (noise(n, s).hex()[:n // 2]).encode("utf-16-le")
            for i in range(60 + GONE[name]):
                k = bytes(13) + bytes([i // 9 + 1, 7, i])
                dead = i < GONE[name]
                v = b""
                before = len(t.blob.blocks) if t.blob else 1
                if i in (3, 20, 40):
                    n = {3: 566, 20: (16 * (ps // 4096) - 2) * 250, 40: 386}[i]
                    v = text(n, i) if kind == "NT" else noise(n, i)
                t.add(dict(_ID=k, _N=onecd.nvc("r%d" % i, w), _V=t.long(v)), deleted=dead)
                if i in (3, 40):
                    self.chain[name].extend(range(before, len(t.blob.blocks)))
                if not dead:
                    keys.append((k, i))
            t.keys = [keys]
            t.index_opts = dict(leaf=20)
            self.field[name] = t.layout()[0]["_V"]
            db.tables.append(t)
            ts[name] = t
        if not db.new:
            # some free pages
            db.layout_hook = None
        self.bytes = db.bytes()
        self.ts, self.ps, self.new, self.version = ts, ps, db.new, version
        self.im = Image(self.bytes)
        self.npages = len(self.bytes) // ps
        self.objs = {n: dict(zip(("data", "blob", "index"), f)) for n, (_, _, f) in self.im.tables().items()}
        self.info = {(n, o): self.im.obj(r) for n, os_ in self.objs.items() for o, r in os_.items() if r}
        self.unit = 1 if self.new else ps
        for n in NAMES:
            assert len(self.chain[n]) == 5 and len(self.info[n, "data"]["data"]) == 2 and len(self.info[n, "blob"]["data"]) == 2, (n, self.chain, self.info[n, "blob"])

    # ------------------------------------------------ places
    def addr(self, info, off):
        return info["data"][off // self.ps] * self.ps + off % self.ps

    def head(self, info):
        """(place of the length, place of the list of pages)"""
        r = info["root"] * self.ps
        if self.new:
            return r + 16, r + 24
        return r + 8, (info["tabs"][0] * self.ps + 4 if info["tabs"] else r + 24)

    def text(self, name):
        """places of the characters of the description of a table, and the text"""
        root = self.im.obj(2)
        d, text, _ = self.im.tables()[name]
        if not self.new:
            o = self.im.obj(d)
            return [self.addr(o, 2 * i) for i in range(len(text))], text
        raw = self.im.read(2)
        n, = struct.unpack_from("<I", self.bytes, self.entry(name))
        pos = []
        while n:
            nx, k = struct.unpack_from("<IH", raw, n * 256)
            pos += [self.addr(root, n * 256 + 6 + j) for j in range(k)]
            n = nx
        return pos, text

    def count(self):
        root = self.im.obj(2)
        return self.addr(root, 256 + 6 + 32 if self.new else 8 if self.version.startswith("8.0") else 32)

    def entry(self, name):
        return self.count() + 4 + 4 * list(self.im.tables()).index(name)

    # ------------------------------------------------ faults
    def edits(self, f, r):
        """[(place, format, value)] of a fault, or None if this format has no such place"""
        at, v = f["at"], f["v"]
        x = at[0]
        pick = lambda *c: r.choice(c)
        far = pick(self.npages, self.npages + 7, 0x7fffffff, FULL)
        if x == "base":
            root = self.im.obj(2)
            if at[1] == "sig":
                return [(r.randrange(8), "B", 0x5a)]
            if at[1] == "version":
                return [(8 + r.randrange(2), "B", 9)]
            if at[1] == "length":
                return [(12, "I", pick(self.npages - 1, self.npages + 1, 0, FULL))]
            if at[1] == "pagesize":
                return [(20, "I", pick(0, 1, 512, 4097, self.ps * 2, self.ps // 2 if self.ps > 4096 else 0x20000, FULL))] if self.new else None
            if at[1] == "root":
                ln, pg = self.head(root)
                if at[2] == "sig":
                    return [(2 * self.ps + r.randrange(2), "B", 0x77)]
                if at[2] == "len":
                    return [(ln, "I", {"none": 0, "less": root["len"] - (256 if self.new else 4), "huge": FULL}[v])]
                return [(pg, "I", far)]
            if at[1] == "count":
                n, = struct.unpack_from("<I", self.bytes, self.count())
                return [(self.count(), "I", {"negative": pick(FULL, 0x80000000), "more": n + 1, "huge": pick(0x7fffffff, 0x40000000)}[v])]
            if at[1] == "entry":
                n = len(self.im.read(2)) // 256 if self.new else self.npages
                return [(self.entry(at[2]), "I", {"out": n + pick(0, 3), "huge": pick(FULL, 0x7fffffff)}[v])]
            if at[1] == "text":
                pos, s = self.text(at[2])
                if v == "pages":
                    d = self.im.tables()[at[2]][0]
                    return None if self.new else [(self.im.obj(d)["tabs"][0] * self.ps, "I", pick(0, FULL))]
                if v == "cut":
                    if not self.new:
                        d = self.im.tables()[at[2]][0]
                        return [(d * self.ps + 8, "I", 2 * len(s) - 4)]
                    raw, n = self.im.read(2), struct.unpack_from("<I", self.bytes, self.entry(at[2]))[0]
                    while struct.unpack_from("<I", raw, n * 256)[0]:
                        n, = struct.unpack_from("<I", raw, n * 256)
                    k, = struct.unpack_from("<H", raw, n * 256 + 4)
                    return [(self.addr(root, n * 256 + 4), "H", k - 2)] if k > 2 else None
                if v in ("nofile", "length", "index", "lock"):
                    m = re.search({"nofile": r'\{"Files",(\d+)', "length": r'"NVC",0,(\d+)|"N",0,(\d+)', "index": r'"_ID",16\}', "lock": r'"Recordlock","(.)"'}[v], s)
                    if v == "index":
                        return [(pos[m.start() + 1], "B" if self.new else "H", ord("x"))] if m else None
                    a, e = m.span(1) if m.span(1)[0] >= 0 else m.span(2)
                    if v == "nofile" and 10 ** (e - a) - 1 < self.npages:
                        return None
                    return [(pos[i], "B" if self.new else "H", ord("9")) for i in range(a, e)]
                i, c = {"nobrace": (s.index("{"), "#"), "noletter": (s.index('"') + 1, None), "badtype": (s.index('"NVC"') + 1, "Q"),
                        "badfile": (s.index('{"Files",') + 9, "x")}[v]
                if c is None:
                    return [(pos[i], "B", 0xff)] if self.new else [(pos[i], "H", 0xd800)]
                return [(pos[i], "B" if self.new else "H", ord(c))]
            if at[1] == "free":
                o = self.ps
                if v == "entries":
                    return [(o + (16 if self.new else 24) + 4 * i, "I", pick(far, 2, 0x1000000)) for i in range(3)]
                return [(o + (4 if self.new else 8), "I", pick(1, 0x7fffffff, FULL, 5000))]
        if at[1] in ("data", "blob", "index"):
            o = self.info[x, at[1]]
            ln, pg = self.head(o)
            if at[2] == "level":
                return [(o["root"] * self.ps + 2, "H", pick(1, 1, 2, 0xffff))] if self.new else None
            if at[2] == "sig":
                return [(o["root"] * self.ps + r.randrange(2), "B", 0x77)]
            unit = {"data": self.ts[x].layout()[1], "blob": 256, "index": self.ps}[at[1]]
            if at[2] == "len":
                return [(ln, "I", {"none": 0, "odd": o["len"] + 1, "less": o["len"] - unit, "more": o["len"] + unit, "huge": FULL}[v])]
            return [(pg + 4 * (at[3] - 1), "I", far if v == OUT else o["data"][v - 1])]
        blob, data = self.info[x, "blob"], self.info[x, "data"]
        blk = lambda b: 0 if b == 0 else pick(blob["len"] // 256, blob["len"] // 256 + 5, 0x7fffffff, FULL) if b == OUT else self.chain[x][b - 1]
        if at[1] == "next":
            return [(self.addr(blob, 256 * self.chain[x][at[2] - 1]), "I", blk(v))]
        if at[1] == "used":
            a = self.addr(blob, 256 * self.chain[x][at[2] - 1]) + 4
            n, = struct.unpack_from("<H", self.bytes, a)
            return [(a, "H", n - 1 if v == "less" else 0 if v == "empty" else pick(251, 256, 0xffff))]
        if at[1] in ("start", "size"):
            off = self.row[x][at[2]] * self.ts[x].layout()[1] + self.field[x] + (0 if at[1] == "start" else 4)
            if at[1] == "start":
                return self.word(data, off, blk(v))
            n = struct.unpack_from("<I", b"".join(self.bytes[self.addr(data, off + i):][:1] for i in range(4)))[0]
            return self.word(data, off, {"less": n - 1, "more": n + 1, "far": n + 100, "huge": pick(0x7fffffff, FULL - 1, FULL - 5), "none": 0}[v])
        if at[1] == "part":
            off = self.row[x][1] * self.ts[x].layout()[1] + self.ts[x].layout()[0]["PARTNO"]
            b = onecd.number(-1 if v == "minus" else 1, {"far": pick("2147483647", "999999999", "1000000"), "gap": "1", "minus": pick("1", "2147483647")}[v], 10)
            return [(self.addr(data, off + i), "B", c) for i, c in enumerate(b)]
        ix = self.info[x, "index"]
        n = ix["len"] // self.ps
        out = pick(n, n + 4, 0x7fffffff // self.unit) * self.unit
        leaf = lambda i: 0 if i == 0 else out if i == OUT else FULL if i == END else (5 if i == ROOT else 1 + i) * self.unit
        if at[1] == "tree":
            return [(self.addr(ix, 4), "I", out if v == "out" else FULL)]
        if at[1] == "key":
            return [(self.addr(ix, self.ps + 4), "H", pick(0x7fff, self.ps) if v == "huge" else 0xfff0)]
        if at[1] == "first":
            return [(self.addr(ix, 5 * self.ps + 12 + 16 + 4), ">I", leaf(v))]
        if at[1] == "leaf":
            a = self.addr(ix, (1 + at[2]) * self.ps)
            if at[3] == "next":
                return [(a + 8, "I", leaf(v))]
            if at[3] == "prev":
                return [(a + 4, "I", pick(out, leaf(at[2])))]
            if at[3] == "n":
                return [(a + 2, "H", v & 0xffff)]
            return [(a + 28, "H", pick(0x7fff, self.ps) if v == "huge" else pick(0x8000, 0xffff))]
        raise CheckError("no such fault: %r" % f)

    def word(self, info, off, v):
        return [(self.addr(info, off + i), "B", b) for i, b in enumerate(struct.pack("<I", v))]

    def damaged(self, faults, seed):
        b = bytearray(self.bytes)
        r = random.Random(seed)
        for f in faults:
            es = self.edits(f, r)
            if es is None:
                return None
            for a, fmt, v in es:
                struct.pack_into(fmt if fmt[0] == ">" else "<" + fmt, b, a, v)
        return None if bytes(b) == self.bytes else bytes(b)

RUNS = {"xml": [["-eax", "o"], ["-bf", "1", "-eax", "o"], ["-bf", "1", "-pb", "1", "-eax", "o"], ["-ex", "o", "*"]],
        "copy": [["-eb", "o", "*"]], "sizes": [["-sts", "o/sizes"]], "config": [["-dc", "o"]], "lost": [["-slo", "o"]], "vendor": [["-dvc", "o"]]}

def files(d):
    res = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(p + "/" + f, "rb") as h:
                res[os.path.relpath(p + "/" + f, d)] = h.read(1 << 24)
    return res

def part(cmd, x, out):
    """what the output tells about a table"""
    if cmd == "xml":
        return {n: d for n, d in out.items() if n == x + ".xml" or n.startswith(x + ".xml.blob/")}
    if cmd == "copy":
        return {n: d for n, d in out.items() if n.startswith(x + "/")}
    if cmd == "sizes":
        return {n: [l for l in d.decode("utf-8", "replace").splitlines() if l.split("|")[0].split(",")[0].strip() == x] for n, d in out.items()}
    return out if x == "CONFIG" and cmd != "lost" else {}

class Case:
    def __init__(self, ctx, cli, base, clean, k, v, cmd, args):
        self.ctx, self.cli, self.base, self.clean, self.k, self.v, self.cmd, self.args = ctx, cli, base, clean, k, v, cmd, args

    def run(self):
        b = self.base.damaged(self.v["faults"], self.k)
        if b is None:
            return None, None
        rc, out, se, after = invoke(self.ctx, self.cli, b, "d%d" % self.k, self.args + (["-ne"] if self.k % 3 == 0 else []))
        res = self.v["res"][self.cmd]
        if rc == -999:
            return "end", "the run does not end"
        if rc < 0 or rc in (99, 134, 139) or "Sanitizer" in se:
            return "crash", "the program crashes: %s %s" % (rc, where(se))
        if after != b:
            return "write", "the database is changed"
        if sum(map(len, out.values())) > 30_000_000:
            return "much", "%d bytes are written" % sum(map(len, out.values()))
        if "bad" in res.values() and rc == 0:
            return "silent", "%s cannot be read, but no error is reported" % [x for x in NAMES if res[x] == "bad"]
        if "warn" in res.values() and rc == 0 and not set(se.splitlines()) - self.clean[1]:
            return "silent", "a value of %s is not what its record says, but nothing is reported" % [x for x in NAMES if res[x] == "warn"]
        calm = set(res.values()) == {"same"}
        if calm and rc != 0:
            return "refused", "an error is reported though nothing that is read is damaged: %s %s" % (rc, se[-200:])
        for x in NAMES:
            if res[x] != "same":
                continue
            want, got = part(self.cmd, x, self.clean[0]), part(self.cmd, x, out)
            if got == want:
                continue
            if rc != 0 and all(want.get(n) == d or (self.cmd == "config" and not d) for n, d in got.items()):
                continue                # not written at all, because of an error
            if rc != 0 and self.cmd == "sizes" and not any(got.values()):
                continue
            return "other", "%s is not damaged, but is written differently" % x
        return None, None

def where(se):
    import re
    m = re.findall(r"#\d+ 0x\w+ in (\S+?)[ (].*?/src/(\S+?):", se)
    s = re.search(r"Sanitizer: (\S+)", se)
    return "%s %s" % (s.group(1) if s else "", m[0][1] if m else "") if s or m else se.strip()[-120:]

def invoke(ctx, cli, b, name, args):
    d = ctx.path("damage/" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    try:
        with open(d + "/b.1CD", "wb") as f:
            f.write(b)
        rc, so, se = run_cli(ctx, cli, ["b.1CD", "-q"] + args, d, timeout=40)
        with open(d + "/b.1CD", "rb") as f:
            after = f.read()
        return rc, files(d + "/o"), se.replace(d, ""), after
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ containers
CFGB = """SPECIFICATION Spec
CONSTANTS
 Blocks = {"t1", "t2", "h1", "h2", "h2x", "h3", "d1", "d1x", "d1y", "d2"}
 TocOf = "t1"
 HeadOf <- MCHeadOf
 DataOf <- MCDataOf
 NextB <- MCNextB
 Cap <- MCCap
 Size <- MCSize
 Entry = 12
 Members <- MCMembers
 MaxFaults = %d
 Emit = TRUE
 Sim = %s
INVARIANTS Sound Local Ends Exact Record
"""
BLOCKS = dict(t1=(24, "t2"), t2=(24, "none"), h1=(30, "none"), h2=(20, "h2x"), h2x=(40, "none"), h3=(40, "none"), d1=(100, "d1x"), d1x=(100, "d1y"), d1y=(60, "none"), d2=(512, "none"))
SIZES = dict(t1=36, h1=30, h2=30, h3=34, d1=250, d2=33)
MEMBERS = ["one", "two", "three"]
HEADS, DATAS = ["h1", "h2", "h3"], ["d1", "d2", "none"]
def _fun(d):
    return " @@ ".join('"%s" :> %s' % (k, v if isinstance(v, int) else '"%s"' % v) for k, v in d.items())
MCB = """---- MODULE MCDamagedBox ----
EXTENDS DamagedBox
MCHeadOf == <<"h1", "h2", "h3">>
MCDataOf == <<"d1", "d2", "none">>
MCNextB == %s
MCCap == %s
MCSize == %s
MCMembers == <<%s>>
====
""" % (_fun({k: v[1] for k, v in BLOCKS.items()}), _fun({k: v[0] for k, v in BLOCKS.items()}), _fun(SIZES), ", ".join('"%s"' % m for m in MEMBERS))
FEW = 0x7fffffff

def member_data(i):
    return b"" if DATAS[i] == "none" else bytes(33 + (7 * j + i) % 60 for j in range(SIZES[DATAS[i]]))

def damaged_box(faults, seed):
    r = random.Random(seed)
    order = list(BLOCKS)[1:]
    r.shuffle(order)
    at, pos = {}, 16
    for b in ["t1"] + order:
        at[b] = pos
        pos += 31 + BLOCKS[b][0]
    end = pos
    def addr(v):
        if v in at:
            return at[v]
        return {"none": FEW, "zero": 0, "edge": end - r.choice((1, 10, 30)), "end": end, "out": r.choice((end + 1, end + 5000, FEW - 1)), "minus": r.choice((0xffffffff, 0xfffffff0, 0x80000000)),
                "in": at[r.choice(("d1", "d1x", "d2"))] + 31 + r.randrange(25)}[v]
    nxt, cap, size = {b: v[1] for b, v in BLOCKS.items()}, {}, {}
    hs, ds = list(HEADS), list(DATAS)
    start, mark = FEW, True
    for f in faults:
        p, v = f["at"], f["v"]
        if p[0] == "next":
            nxt[p[1]] = v
        elif p[0] == "cap":
            cap[p[1]] = v
        elif p[0] == "size":
            size[p[1]] = v
        elif p[0] in "hd":
            (hs if p[0] == "h" else ds)[p[1] - 1] = v
        elif p[0] == "start":
            start = at["d2"] if v == "block" else addr(v)
        else:
            mark = False
    content = {}
    def fill(first, data):
        b = first
        while b != "none":
            content[b] = data[:BLOCKS[b][0]]
            data = data[BLOCKS[b][0]:]
            b = BLOCKS[b][1]
    fill("t1", b"".join(struct.pack("<III", addr(h), addr(d), FEW) for h, d in zip(hs, ds)))
    for i, m in enumerate(MEMBERS):
        fill(HEADS[i], struct.pack("<qqI", 1, 1, 0) + m.encode("utf-16-le") + bytes(4))
        if DATAS[i] != "none":
            fill(DATAS[i], member_data(i))
    out = struct.pack("<IIII", start, 512, 3, 0)
    num = lambda right, v, mx: {"right": "%08x" % right, "zero": "00000000", "less": "%08x" % (right - 1), "tiny": "%08x" % min(9, right), "more": "%08x" % (right + 1),
                                "huge": "%08x" % r.choice((0x7fffffff, 0x7ffffff0, 0x10000000)), "minus": r.choice(("ffffffff", "80000000", "fffffff0")), "noise": r.choice(("zzzzzzzz", "        ", "\0" * 8))}[v]
    for b in ["t1"] + order:
        n = SIZES.get(b, 0)
        h = "\r\n%s %s %08x \r\n" % (num(n, size.get(b, "right"), 0), num(BLOCKS[b][0], cap.get(b, "right"), 0), addr(nxt[b]))
        if b == "t1" and not mark:
            i = r.choice((0, 1, 10, 19, 28, 29, 30))
            h = h[:i] + "?" + h[i + 1:]
        out += h.encode("latin-1") + content[b] + bytes(BLOCKS[b][0] - len(content[b]))
    return out

def inflatable(b):
    try:
        zlib.decompressobj(-15).decompress(b)
        return True
    except zlib.error:
        return False

def tree(p):
    if os.path.isdir(p):
        return {n: tree(os.path.join(p, n)) for n in os.listdir(p)}
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()

def box_case(ctx, cli, k, v):
    """what is wrong when a damaged container is unpacked"""
    for i in range(200):
        raw = damaged_box(v["faults"], k + 100000 * i)
        if not inflatable(raw):         # else it could be packed data as well
            break
    else:
        return None, None
    d = ctx.path("box/%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    try:
        db, ts = infobase.base(["8.3.8.0", "8.2.14.0"][k % 2], True, 4096)
        infobase.row(ts["PARAMS"], "box.inf", cffile.deflate(raw) if k % 3 else raw, 1)
        b = db.bytes()
        with open(d + "/b.1CD", "wb") as f:
            f.write(b)
        rc, so, se = run_cli(ctx, cli, ["b.1CD", "-q", "-bf", "1", "-pb", "1", "-ex", "o", "PARAMS"], d, timeout=40)
        if rc == -999:
            return "end", "the run does not end"
        if rc < 0 or rc in (99, 134, 139) or "Sanitizer" in se:
            return "crash", "the program crashes: %s %s" % (rc, where(se))
        with open(d + "/b.1CD", "rb") as f:
            if f.read() != b:
                return "write", "the database is changed"
        o = d + "/o/PARAMS.xml.blob"
        if not os.path.isdir(o):
            got = None
        else:
            ls = os.listdir(o)
            if len(ls) > 1:
                return "more", "the container is written as %s" % ls
            got = tree(o + "/" + ls[0]) if ls else None
        if sum(map(len, files(d + "/o").values())) > 4 * len(raw) + 100000:
            return "much", "%d bytes are written" % sum(map(len, files(d + "/o").values()))
        res, unknown = v["result"], "other" in v["header"]
        if res == "unknown" or got == raw:
            return ("file", "the container is not unpacked, though its list of members and their headers are whole") if got == raw and res in ("box", "error") and not unknown else (None, None)
        if rc != 0:
            if res == "box" and not unknown and set(v["data"]) == {"same"}:
                return "refused", "an error is reported though nothing that is read is damaged: %s %s" % (rc, se[-200:])
            if got is None or res == "file":
                return None, None
        if res == "file":
            return "file", "a container that cannot be read is not kept as it is"
        if res == "error" and rc == 0 and not unknown:
            return "silent", "a member cannot be read, but no error is reported"
        if not isinstance(got, dict):
            return "gone", "the container is not written"
        for i, m in enumerate(MEMBERS):
            if v["header"][i] == v["data"][i] == "same" and not (rc != 0 and m not in got):
                if (member_data(i) not in got.values()) if unknown else got.get(m) != member_data(i):
                    return "other", "%s is not damaged, but is written differently" % m
        return None, None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def boxes(ctx, cli):
    t = ctx.thorough
    u = lambda vs: [json.loads(s) for s in sorted({json.dumps(v, sort_keys=True) for v in vs})]
    one = u(tlc(ctx, "MCDamagedBox", CFGB % (1, "FALSE"), module_text=MCB, name="box-single"))
    two = u(tlc(ctx, "MCDamagedBox", CFGB % (2, "FALSE"), module_text=MCB, name="box-pairs")) if t else []
    many = u(tlc(ctx, "MCDamagedBox", CFGB % (4, "TRUE"), module_text=MCB, name="box-many", simulate=200 if t else 100, depth=6))
    r = random.Random(ctx.seed)
    vs = one + r.sample(two, min(len(two), 6000)) + r.sample(many, min(len(many), 2000 if t else 400))
    for k, (v, (kind, e)) in enumerate(zip(vs, pmap(lambda kv: box_case(ctx, cli, *kv), list(enumerate(vs))))):
        ctx.count("damaged-containers")
        ctx.count("containers-" + v["result"])
        ctx.traces += 1
        if e:
            f = v["faults"]
            site = "-".join(str(p) for p in f[0]["at"]) if len(f) == 1 else "many"
            ctx.violation("box-%s-%s" % (kind, site), "unpacking a container with %s: %s" % (["%s := %s" % ("/".join(map(str, x["at"])), x["v"]) for x in f], e), dict(case=v, k=k))
    ctx.sample(vs[len(one) // 2])
    shutil.rmtree(ctx.path("box"), ignore_errors=True)

def run(ctx):
    cli = build(ctx, {"ctool1cd": ["CLI"]})["ctool1cd"]
    t = ctx.thorough
    singles = tlc(ctx, "MCDamage", CFG % (*EVERY, 1, "all", "FALSE"), module_text=MC, name="single")
    many = tlc(ctx, "MCDamage", CFG % (*EVERY, 4, "all", "TRUE"), module_text=MC, name="many", simulate=400 if t else 60, depth=6)
    u = lambda vs: [json.loads(s) for s in sorted({json.dumps(v, sort_keys=True) for v in vs})]
    singles, many = u(singles), [v for v in u(many) if len(v["faults"]) > 1]
    r = random.Random(ctx.seed)
    many = r.sample(many, min(len(many), 1000 if t else 200))
    # two faults that together make chains of blocks or pages without an end
    ends = []
    for x in ['"_A"', '"CONFIG"']:
        ends.append(u(tlc(ctx, "MCDamage", CFG % (x, x if x == '"_A"' else "", 2, "endless", "FALSE"), module_text=MC, name="endless" + x.strip('"'))))
    many += [v for e in ends for v in r.sample(e, min(len(e), 300 if t else 60))]
    for v in many:
        v["res"] = {c: {n: v["res"][c].get(n, "same") for n in NAMES} for c in v["res"]}
    ctx.count("endless-chains", sum(v["endless"] for v in many))
    versions = [("8.3.8.0", 4096), ("8.2.14.0", 4096)] + ([("8.3.8.0", 8192), ("8.1.0.0", 4096)] if t else [])
    cases = []
    for ver, ps in versions:
        base = Base(ver, ps)
        clean = {}
        for cmd, runs in RUNS.items():
            for args in runs:
                rc, out, se, after = invoke(ctx, cli, base.bytes, "clean", args)
                if rc != 0 or not (out or cmd in ("lost", "vendor")) or after != base.bytes:
                    # nothing is damaged, and still the database cannot be read
                    ctx.violation("clean-" + cmd, "%s of an undamaged database ends with %s: %s" % (cmd, rc, se[-200:]), dict(version=ver, args=args))
                    return
                clean[json.dumps(args)] = out, set(se.splitlines())
        for j, v in enumerate(singles + many):
            for cmd, runs in RUNS.items():
                if cmd in ("sizes", "lost", "vendor") and j >= len(singles):
                    continue
                for args in runs if t and j < len(singles) else [runs[(j + len(cases)) % len(runs)]]:
                    cases.append(Case(ctx, cli, base, clean[json.dumps(args)], len(cases), v, cmd, args))
    for c, (kind, e) in zip(cases, pmap(Case.run, cases)):
        ctx.count("damaged-databases")
        ctx.count("runs-" + c.cmd)
        for f in c.v["faults"]:
            ctx.count("faults-" + ("header" if f["at"][0] == "base" else f["at"][1]))
        ctx.traces += 1
        if e:
            f = c.v["faults"]
            site = "-".join(str(p) for p in f[0]["at"] if p not in NAMES) if len(f) == 1 else "many"
            ctx.violation("damage-%s-%s-%s-%s" % (kind, c.cmd, "new" if c.base.new else "old", site), "%s of a database (%s) with %s: %s" %
                          (c.cmd, c.base.version, ["%s := %s" % ("/".join(map(str, x["at"])), x["v"]) for x in f], e), dict(case=c.v, version=c.base.version, ps=c.base.ps, k=c.k, args=c.args))
    for c in cases[-2:]:
        ctx.sample(dict(faults=c.v["faults"], res=c.v["res"][c.cmd], args=c.args))
    shutil.rmtree(ctx.path("damage"), ignore_errors=True)
    boxes(ctx, cli)
    ctx.assumptions += ["what a table whose stored references lead to other valid places becomes is not specified"]
