"""Builds configuration repositories (database, packed and loose data, snapshots) from the histories of Depot.tla."""
import hashlib, os, random, struct, uuid, zlib
import cffile
from onecd import *

FORMATS = {"v3": ("8.0.5.0", "0300000000000000"), "v81": ("8.1.0.0", "0300000000000000"),
           "v5": ("8.2.14.0", "0500000000000000"), "v6": ("8.2.14.0", "0600000000000000"),
           "v7": ("8.3.8.0", "0700000000000000")}
SNAP1 = bytes.fromhex("9eca213772a26b49a093206ea7629574")
SNAP2 = bytes.fromhex("78dfdf6f2a06bb46840262145ae55764")


def guid(seed):
    """16 raw bytes; never all zero"""
    return hashlib.md5(b"guid" + repr(seed).encode()).digest()


def ms(g):
    """the notation of the platform: the first three groups are little-endian"""
    return str(uuid.UUID(bytes_le=g))


def N(name, n, null=0):
    return F(name, "N", null, n)


def tables(fmt):
    B = lambda n, l, null=0: F(n, "B", null, l)
    h = [B("DATAHASH", 20, 1)] if fmt in ("v6", "v7") else []
    vid = [B("VERSIONID", 16)] if h else []
    t = dict(
        DEPOT=T("DEPOT", [B("DEPOTID", 16), B("ROOTOBJID", 16), F("CREATEDATE", "DT"), B("DEPOTVER", 8)]),
        USERS=T("USERS", [B("USERID", 16), F("NAME", "NVC", 0, 256, 0, "CI"), F("REMOVED", "L")], [("PK", 1, [("USERID", 16)])]),
        OBJECTS=T("OBJECTS", [B("OBJID", 16), B("CLASSID", 16), N("SELFVERNUM", 10)], [("PK", 1, [("OBJID", 16)])]),
        VERSIONS=T("VERSIONS", [N("VERNUM", 10), B("USERID", 16), F("VERDATE", "DT"), B("PVERSION", 8), B("CVERSION", 4),
                                F("CODE", "NVC", 1, 256), F("COMMENT", "NT", 1), B("SNAPSHOTMAKER", 16, 1),
                                B("SNAPSHOTCRC", 4, 1)] + vid, [("PK", 1, [("VERNUM", 0)]), ("VERDATE", 0, [("VERDATE", 0)])]),
        LABELS=T("LABELS", [N("VERNUM", 10), B("USERID", 16)], [("PK", 1, [("VERNUM", 0)])]),
        HISTORY=T("HISTORY", [B("OBJID", 16), N("VERNUM", 10), N("SELFVERNUM", 10), B("OBJVERID", 16), B("PARENTID", 16),
                              B("OWNERID", 16, 1), F("OBJNAME", "NVC", 0, 256, 0, "CI"), N("OBJPOS", 6), F("REMOVED", "L"),
                              F("DATAPACKED", "L", 1), F("OBJDATA", "I", 1)] + h,
                  [("PK", 1, [("OBJID", 16), ("VERNUM", 0)]), ("VERNUM", 0, [("VERNUM", 0)])]),
        LASTESTVERSIONS=T("LASTESTVERSIONS", [B("OBJID", 16), N("VERNUM", 10)], [("PK", 1, [("OBJID", 16), ("VERNUM", 0)])]),
        EXTERNALS=T("EXTERNALS", [B("OBJID", 16), N("VERNUM", 10), F("EXTNAME", "NVC", 0, 128, 0, "CI"), B("EXTVERID", 16),
                                  F("DATAPACKED", "L"), F("EXTDATA", "I")] + h,
                    [("PK", 1, [("OBJID", 16), ("VERNUM", 0)])]),
        SELFREFS=T("SELFREFS", [B("OBJID", 16), N("VERNUM", 10), B("OBJREF", 16)], [("PK", 1, [("OBJID", 16), ("VERNUM", 0)])]),
        OUTREFS=T("OUTREFS", [B("OBJID", 16), N("VERNUM", 10), B("OBJREF", 16)], [("PK", 1, [("OBJID", 16), ("VERNUM", 0)])]))
    return t


def content(tag):
    """the bytes of a content of the model"""
    if tag == "e":
        return b""
    if tag == "k":
        return cffile.build([("text", b"module text\r\n" * 9), ("form", bytes(range(256)) * 3)])
    if tag == "b":
        return b"".join(hashlib.sha256(b"%d" % i).digest() for i in range(200))
    return ('{1,"%s"}' % tag).encode() * 7


class Depot:
    def __init__(self, case, dir, seed):
        self.case, self.dir = case, dir
        self.rng = rng = random.Random(seed)
        self.fmt = case["fmt"]
        self.off = rng.choice([0, 0, 8, 97, 998])
        self.root = guid(("root", seed))
        self.seed = seed
        self.new = self.fmt in ("v6", "v7")
        self.old = self.fmt == "v3"
        version, ver = FORMATS[self.fmt]
        self.major, self.minor = rng.choice([(216, 0), (106, 258), (513, 3)] + [(80, 3)] * (not self.new)) if self.fmt not in ("v3", "v81") else ((6 if self.old else 106), 0)
        if self.major < 100:
            self.old = True
        os.makedirs(dir + "/data/pack")
        os.makedirs(dir + "/data/objects")
        os.makedirs(dir + "/cache")
        db = Db(version, rng.choice([4096, 8192]) if self.fmt == "v7" else 4096)
        self.t = t = tables(self.fmt)
        self.packs = [{} for _ in range(rng.choice([1, 1, 3]))]
        t["DEPOT"].add(dict(DEPOTID=guid("d"), ROOTOBJID=self.root, CREATEDATE=bcd_date(2020, 1, 1), DEPOTVER=bytes.fromhex(ver)))
        if rng.random() < .3:               # a record deleted earlier stands before the valid one
            t["DEPOT"].records.insert(0, t["DEPOT"].record(dict(ROOTOBJID=guid("x"), DEPOTVER=b"\x09"), deleted=True))
        self.versions()
        self.rows()
        for p in self.packs:
            self.pack(p)
        for n in t.values():
            if n.keys:
                n.index_opts = dict(leaf=rng.choice([2, 3, None, None]), fan=rng.choice([2, 5, None]))
            db.tables.append(n)
        rng.shuffle(db.tables)
        db.write(dir + "/1cv8ddb.1CD")

    # ---------------------------------------------------------------- names
    def obj(self, o):
        return guid((o, self.seed))

    def part(self, o, n):
        return ms(self.obj(o)) + "." + n

    def objver(self, o, v):
        return guid(("ov", o, v))

    def partver(self, o, n, v):
        return guid(("pv", o, n, v))

    # ---------------------------------------------------------------- tables
    def versions(self):
        t, rng = self.t["VERSIONS"], self.rng
        vs = [dict(v, i=i) for i, v in enumerate(self.case["vers"])]
        keys = []
        order = list(vs)
        rng.shuffle(order)
        self.snap = {}
        for v in order:
            if rng.random() < .2:
                t.add(dict(VERNUM=number(1, str(v["num"] + self.off), 10), CVERSION=b"\0\1\0\1"), deleted=True)
            num, s = v["num"] + self.off, v["snap"]
            image = cffile.build([("snapshot", b"snapshot of %d" % num * 5)])
            plain = s in ("good2", "badcrc2")
            maker = dict(none=bytes(16), none2=None, good2=SNAP2, badcrc2=SNAP2, root1=self.root).get(s, SNAP1)
            crc = zlib.crc32(image)
            if s.startswith("badcrc"):
                crc ^= 1 << rng.randrange(32)
            if s == "good2" and crc == 0:
                crc = 0
            vals = dict(VERNUM=number(1, str(num), 10), USERID=guid("u"), VERDATE=bcd_date(2020, 1, 1 + v["i"]),
                        PVERSION=bytes(8), CVERSION=struct.pack(">HH", self.major, self.minor), CODE=None, COMMENT=None,
                        SNAPSHOTMAKER=maker, SNAPSHOTCRC=struct.pack("<I", crc))
            if self.new:
                vals["VERSIONID"] = guid(("vid", num))
            keys.append((struct.pack(">I", num), t.add(vals)))
            if s in ("good1", "root1", "good2") or s.startswith("badcrc"):
                data = image if plain else cffile.deflate(image)
            elif s == "damaged":
                data = b"\x07" + cffile.deflate(image)[1:]
            elif s == "empty":
                data = b""
            else:
                data = None
            if data is not None:
                with open("%s/cache/ddb%05d.snp" % (self.dir, num), "wb") as f:
                    f.write(data)
            if s in ("good1", "root1", "good2"):
                self.snap[v["num"]] = image
        keys.sort()
        t.keys = [keys, keys]

    def put(self, table, store, raw, vals, field):
        """the stored bytes of one content: in the row, in a pack or in a loose file"""
        h = hashlib.sha1(raw).digest()
        if store == "inline":
            vals[field] = table.long(raw, cut=self.rng.choice([250, 250, 17]), order=self.rng.choice([None, lambda n: list(range(n))[::-1]]))
            if self.new:
                vals["DATAHASH"] = self.rng.choice([None, h])
            return
        vals[field] = bytes(8) if field == "EXTDATA" else self.rng.choice([None, bytes(8)])
        vals["DATAHASH"] = h
        if store == "pack":
            self.rng.choice(self.packs)[h] = raw
        else:
            d = "%s/data/objects/%s" % (self.dir, h.hex()[:2])
            os.makedirs(d, exist_ok=True)
            with open(d + "/" + h.hex()[2:], "wb") as f:
                f.write(raw)

    def pack(self, p):
        name = "%s/data/pack/pack-%s" % (self.dir, self.rng.randbytes(20).hex())
        if not self.new:
            return
        body, ind = struct.pack("<QI", 0x0122334411, len(p)), b""
        order = list(p)
        self.rng.shuffle(order)
        at = {}
        for h in order:
            at[h] = len(body)
            body += struct.pack("<q", len(p[h])) + p[h]
        for h in sorted(p):
            ind += h + struct.pack("<q", at[h])
        with open(name + ".ind", "wb") as f:
            f.write(struct.pack("<QI", 0x2044332211, len(p)) + ind)
        with open(name + ".pck", "wb") as f:
            f.write(body)

    def rows(self):
        rng = self.rng
        t = self.t["HISTORY"]
        keys = []
        rows = list(self.case["hist"])
        rng.shuffle(rows)
        for r in rows:
            num = r["v"] + self.off
            vals = dict(OBJID=self.obj(r["o"]), VERNUM=number(1, str(num), 10), SELFVERNUM=number(1, str(num), 10),
                        OBJVERID=self.objver(r["o"], r["v"]), PARENTID=self.root, OWNERID=None, OBJNAME=nvc("Объект " + r["o"]),
                        OBJPOS=number(1, "1", 6), REMOVED=b"\1" if r["k"] == "gone" else b"\0",
                        DATAPACKED={"data": b"\1", "same": b"\0", "null": None}.get(r["k"], rng.choice([None, b"\0", b"\1"])),
                        OBJDATA=None)
            if self.new:
                vals["DATAHASH"] = None
            if r["k"] == "data":
                self.put(t, r["s"], cffile.deflate(content(r["c"])), vals, "OBJDATA")
            if rng.random() < .1:
                t.add(vals, deleted=True)
            keys.append((self.obj(r["o"]) + struct.pack(">I", num), t.add(vals)))
        keys.sort()
        t.keys = [keys, sorted((k[16:20], n) for k, n in keys)]
        t = self.t["EXTERNALS"]
        keys = []
        rows = list(self.case["ext"])
        rng.shuffle(rows)
        for r in rows:
            num = r["v"] + self.off
            name = self.part(r["o"], r["n"])
            if rng.random() < .2:
                name = name.upper()
            vals = dict(OBJID=self.obj(r["o"]), VERNUM=number(1, str(num), 10), EXTNAME=nvc(name),
                        EXTVERID=self.partver(r["o"], r["n"], r["id"]), DATAPACKED=b"\1" if r["p"] else b"\0", EXTDATA=bytes(8))
            if self.new:
                vals["DATAHASH"] = None
            if r["p"]:
                self.put(t, r["s"], cffile.deflate(content(r["c"])), vals, "EXTDATA")
            keys.append((self.obj(r["o"]) + struct.pack(">I", num), t.add(vals)))
        keys.sort()
        t.keys = [keys]

    # ---------------------------------------------------------------- what is expected
    def view(self, i):
        """(members of the configuration {name: bytes}, version identifiers {name: guid}) at version i (from 0)"""
        mem, ids = {}, {}
        for o, x in self.case["vers"][i]["view"].items():
            if x["c"] == "-":
                continue
            mem[ms(self.obj(o))] = content(x["c"])
            ids[ms(self.obj(o))] = ms(self.objver(o, x["id"]))
            for n, e in x["e"].items():
                if e["c"] != "-":
                    mem[self.part(o, n)] = content(e["c"])
                    ids[self.part(o, n)] = ms(self.partver(o, n, e["id"]))
        return mem, ids
