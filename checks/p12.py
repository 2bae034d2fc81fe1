"""XML export: every table of XmlExport.tla is rendered into a database and exported by the command
line tool; the XML files are read by an independent parser. Filters come from NameFilter.tla."""
import os, re, zlib, base64, shutil, hashlib, struct
import xml.etree.ElementTree as ET
from vf import *
import onecd
from onecd import F, T, Db

MC = """---- MODULE MCXml ----
EXTENDS XmlExport
D(t, l, p, n, g) == [t |-> t, len |-> l, prec |-> p, null |-> n, g |-> g]
MCDecls == {%s}
MCInts == {0, -1, 2147483647}
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 DeclSets <- MCDecls
 MaxRows = %d
 MaxLen = %d
 Chars = {%s}
 Bytes = {%s}
 Ints <- MCInts
 Digits = {0, 1, 9}
 Years = {1, 980, 2001, 9999}
 Smalls = {1, 9, 12, 23, 59}
 Indexes = {%s}
 Stale = TRUE
 Emit = TRUE
INVARIANTS EachOnce Decodes Record
"""
MCU = """---- MODULE MCUnpack ----
EXTENDS Unpack
====
"""
CFGU = """SPECIFICATION Spec
CONSTANTS
 Places = {%s}
 Plain = {%s}
 Masks = {%s}
 Names = {"a", "b.txt", "module", "C d"}
 MaxMembers = %d
 MaxLayers = %d
 Emit = TRUE
INVARIANTS Kept Plainly MembersKept Record
"""
MCF = """---- MODULE MCFilter ----
EXTENDS NameFilter
MCNames == {%s}
====
"""
CFGF = """SPECIFICATION Spec
CONSTANTS
 Names <- MCNames
 Alphabet = {%s}
 MaxLen = %d
 Emit = TRUE
INVARIANTS Itself Union Record
"""
def D(t, l=0, p=0, n=False, g="hex"):
    return 'D("%s", %d, %d, %s, "%s")' % (t, l, p, "TRUE" if n else "FALSE", g)
def DS(*ds):
    return "<<" + ", ".join(ds) + ">>"

MARKUP = "38, 60, 62, 39, 34, 65, 13, 10"
ALLC = MARKUP + ", 9, 32, 1071, 8364, 128512, 59, 35, 93, 1, 31, 127"
VARIANTS = [dict(args=[], bf=False), dict(args=["-bf", "0"], bf=False), dict(args=["-bf", "1", "-pb", "0"], bf=True), dict(args=["-bf", "yes", "-pb", "no"], bf=True),
            dict(args=["-bf", "1", "-pb", "1"], bf=True, unpack=True)]

def long_bytes(d, s):
    return text(s).encode("utf-16-le") if d["t"] == "NT" else text(s).encode("utf-8") if d["t"] == "T" else bytes(s)

def text(cp):
    return "".join(map(chr, cp))

def fname(d, i):
    return ("_ID%dRREF" if d["g"] == "1c" else "_FLD%d") % i

def table(v, name):
    fs = [F(fname(d, i), d["t"], int(d["null"]), d["len"], d["prec"], "CS") for i, d in enumerate(v["fields"])]
    keyf = [(f.name, 2) for f, d in zip(fs, v["fields"]) if d["t"] not in ("NT", "T", "I")][:2]
    ix = dict(none=[], secondary=[("BYSEC", 0, keyf)], primary=[("BYKEY", 1, keyf)]).get(v["index"], [("BYSEC", 0, keyf[:1]), ("BYKEY", 1, keyf)])
    t = T(name, fs, ix)
    t.getblob()
    for r in v["rows"]:
        vals = {}
        for f, d, c in zip(fs, v["fields"], r["cells"]):
            vals[f.name] = None if c["null"] else t.long(long_bytes(d, c["s"])) if d["t"] in ("NT", "T", "I") else bytes(c["s"])
        t.add(vals, deleted=r["del"])
    if v["index"] != "none":
        n = len(v["order"])
        t.keys = [[(struct.pack(">I", i), r - 1) for i, r in enumerate(v["order"])] for _ in ix]
        if len(ix) == 2:
            t.keys[0] = [(struct.pack(">I", i), r) for i, r in enumerate(sorted((r - 1 for r in v["order"]), reverse=True))]
        t.index_opts = dict(length=4, leaf=2 if n > 3 else None)
    return t

import struct
def judge(v, xml, blobdir, bf):
    """None or what is wrong with the exported file"""
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        return "the document is not well formed: %s" % e
    recs = root.find("Records")
    heads = root.find("Fields")
    if heads is None or recs is None:
        return "the document has no fields or no records"
    names = [fname(d, i) for i, d in enumerate(v["fields"])]
    if sorted(f.get("Name") for f in heads) != sorted(names):
        return "the fields listed are %s" % [f.get("Name") for f in heads]
    want = v["doc"]
    if len(recs) != len(want):
        return "%d records are exported instead of %d" % (len(recs), len(want))
    used = set()
    for i, (rec, row) in enumerate(zip(recs, want)):
        got = {}
        for e in rec:
            if e.tag in got:
                return "record %d has field %s twice" % (i, e.tag)
            got[e.tag] = e
        if sorted(got) != sorted(names):
            return "record %d has the fields %s" % (i, sorted(got))
        for k, (d, c, nm) in enumerate(zip(v["fields"], row, names)):
            e = got[nm]
            t = e.text or ""
            cell = v["rows"][v["walk"][i] - 1]["cells"][k]
            if len(e):
                return "record %d, field %s has markup inside" % (i, nm)
            if d["t"] == "I" and bf:
                data = bytes(cell["s"])
                if not data:
                    if t:
                        return "record %d, field %s: an empty value is exported as %r" % (i, nm, t)
                    continue
                if "/" in t or t in ("", ".", ".."):
                    return "record %d, field %s: the file is named %r" % (i, nm, t)
                if t.lower() in used:
                    return "record %d, field %s: the file %r holds another value" % (i, nm, t)
                used.add(t.lower())
                p = os.path.join(blobdir, t)
                if not os.path.isfile(p):
                    return "record %d, field %s: there is no file %r" % (i, nm, t)
                with open(p, "rb") as f:
                    b = f.read()
                if b != data:
                    return "record %d, field %s: the file holds %s, not %s" % (i, nm, b.hex()[:200], data.hex()[:200])
            elif d["t"] == "I":
                try:
                    b = base64.b64decode("".join(t.split()), validate=True)
                except ValueError as e2:
                    return "record %d, field %s: %r is not Base64: %s" % (i, nm, t[:100], e2)
                if b != bytes(cell["s"]) or b != base64.b64decode(text(c["text"])):
                    return "record %d, field %s: %s instead of %s" % (i, nm, b.hex()[:200], bytes(cell["s"]).hex()[:200])
            elif t != text(c["text"]):
                return "record %d, field %s (%s%s): %r instead of %r" % (i, nm, d["t"], ", null" if c["null"] else "", t[:200], text(c["text"])[:200])
    return None

def export(ctx, cli, key, db, tables, opt, cmd, what):
    """Exports; returns a description of the first difference"""
    d = ctx.path("x-" + key)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    p = os.path.join(d, "b.1CD")
    db.write(p)
    out = os.path.join(d, "out")
    os.makedirs(out)
    try:
        rc, so, se = run_cli(ctx, cli, ["-q"] + opt["args"] + [a.replace("OUT", out) for a in cmd] + [p])
        if rc != 0 and not (rc == 206 and not tables):      # an empty list may be reported as an error
            return "the tool ended with %d: %s" % (rc, (so + se)[-600:]), None
        files = set(os.listdir(out))
        want = {nm + ".xml" for nm in tables}
        if not want <= files or {f for f in files if f.endswith(".xml")} != want:
            return "the files are %s instead of %s" % (sorted(files), sorted(want)), None
        for nm, v in tables.items():
            if v is None:
                continue
            x = os.path.join(out, nm + ".xml")
            with open(x, "rb") as f:
                e = judge(v, f.read(), x + ".blob", opt["bf"])
            if e:
                return e, v
        return None, None
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ unpacking
import random, functools
import cffile, infobase
SIG_ZIP = bytes([0x53, 0x4b, 0x6f, 0xf4, 0x88, 0x8d, 0xc1, 0x4e, 0xa0, 0xd5, 0xeb, 0xb6, 0xbd, 0xa0, 0xa7, 0x0d])
ALIKE = ["ones", "far", "marks", "points", "outside", "stub"]
@functools.lru_cache(None)
def plain(ident):
    """contents that are neither packed nor a container nor a stored value"""
    if ident in ("", "empty"):
        return b""
    if ident == "byte":
        return b"Z"
    if ident == "text":
        return b"\xef\xbb\xbf{1,\"" + "Пример".encode() + b"\"}"
    r = random.Random(ident)
    head = b"\r\n00000010 00000010 7fffffff \r\n"
    if ident in ALIKE:                          # begins as a container could begin, but is none
        b = {"ones": b"\xff" * 100,              # an address outside, for any width of numbers
             "far": b"\xf1\xff\xff\xff" * 30,
             "marks": b"\xff\xff\xff\x7f" + bytes(12) + head[:-1] + b"?" + bytes(60),
             "points": struct.pack("<I", 0x57) + bytes(67) + b"\0" * 16 + head + bytes(60),
             "outside": struct.pack("<I", 0x8f) + bytes(12) + head + bytes(100),
             "stub": b"\xff\xff\xff\x7f" + bytes(12) + head[:30]}[ident]
        o = zlib.decompressobj(-15)
        try:
            o.decompress(b)
        except zlib.error:
            return b
        raise CheckError("these contents can be unpacked: " + ident)
    n = dict(words=700, long=40000, sixteen=16384, huge=10 * 1024 * 1024 + 3)[ident]
    for k in range(1000):
        b = bytes([255, k % 256]) + (r.randbytes(n - 2) if ident != "words" else ("{%d," % k * n).encode()[:n - 2])
        o = zlib.decompressobj(-15)
        try:
            o.decompress(b)
        except zlib.error:
            return b
    raise CheckError("no plain contents " + ident)

def bytes_of(v):
    k = v["k"]
    if k == "plain":
        return plain(v["id"])
    if k == "deflated":
        return cffile.deflate(bytes_of(v["x"]))
    if k == "masked":
        m = random.Random(v["mask"]).randbytes(v["mask"])
        return bytes([len(m)]) + m + bytes(c ^ (m[i % len(m)] if m else 0) for i, c in enumerate(bytes_of(v["x"])))
    if k == "box":
        return cffile.build([(m["n"], bytes_of(m["x"])) for m in v["ms"]])
    if k == "stored":
        h = bytes_of(v["head"])
        b = struct.pack("<q", len(h)) + h
        if v["tail"] != dict(k="plain", id=""):
            t = bytes_of(v["tail"])
            b += struct.pack("<iq", 5, len(t)) + t
        return b"\2\1" + SIG_ZIP + cffile.deflate(b) if v["packed"] else b"\1\1" + b
    b = bytes_of(v["x"])
    if v["how"] == "cut":                       # packed data without its end
        return cffile.deflate(plain("words") + b)[:-5]
    if v["how"] == "mask":                      # a mask longer than the value
        return bytes([200]) + b[:150] + b"x"
    if v["how"] == "short":
        return b"\1\1" + b[:7]
    if v["how"] == "signature":
        return b"\2\1" + SIG_ZIP[:15] + b"?" + cffile.deflate(b)
    return b"\2\1" + SIG_ZIP + b"\xff\xff" + b     # garbage after the signature

def tree_of(r):
    return bytes_of(r["x"]) if r["file"] else {m["n"]: tree_of(m["r"]) for m in r["ms"]}

def tree_on_disk(p):
    if os.path.isdir(p):
        return {n: tree_on_disk(os.path.join(p, n)) for n in os.listdir(p)}
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as f:
        return f.read()

def brief(x):
    if x is None:
        return "nothing"
    if isinstance(x, bytes):
        return "a file of %d bytes %s" % (len(x), x[:24].hex())
    return "a directory of %s" % {n: brief(y) for n, y in sorted(x.items())}

GUID = "%08x-1111-2222-3333-444455556666"
def unpack_db(vs, conf):
    db, ts = infobase.base(conf[0], True, conf[1])
    for n in ("V8USERS", "_REF1"):
        ts[n] = T(n, [F("_ID", "NVC", 0, 20), F("DATA", "I", 1), F("MORE", "I", 0)])
        db.tables.append(ts[n])
    at = {}
    for i, v in enumerate(vs):
        p = v["place"]
        data = bytes_of(v["val"])
        if p in ("v8users", "user"):
            t = ts["V8USERS" if p == "v8users" else "_REF1"]
            f = "DATA" if i % 2 else "MORE"
            vals = dict(_ID=onecd.nvc("k%d" % i), DATA=None, MORE=t.long(b""))
            vals[f] = t.long(data)
            t.add(vals)
            at[i] = (t.name, len(t.records) - 1, f)
        else:
            n, name = dict(users=("PARAMS", ["users.usr", "Users.Usr"][i % 2]), params=("PARAMS", "p%d.txt" % i), files=("FILES", "f%d" % i),
                           config=("CONFIG", GUID % i), configsave=("CONFIGSAVE", (GUID + ".0") % i),
                           configlong=("CONFIG", (GUID + "." + GUID) % (i, i)), configsavelong=("CONFIGSAVE", (GUID + "." + GUID) % (i, i)))[p]
            infobase.row(ts[n], name, data, i)
            at[i] = (n, len(ts[n].records) - 1, "BINARYDATA")
    return db, at

def unpack_one(ctx, cli, key, vs, conf):
    """runs the export; {case number: what is wrong}"""
    d = ctx.path("u-" + key)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/out")
    try:
        db, at = unpack_db(vs, conf)
        db.write(d + "/b.1CD")
        rc, so, se = run_cli(ctx, cli, ["-q", "-bf", "1", "-pb", "1", "-eax", d + "/out", d + "/b.1CD"], cwd=d)
        if rc != 0:
            return {None: "the tool ended with %d: %s" % (rc, (so + se)[-500:])}
        bad, docs = {}, {}
        for i, v in enumerate(vs):
            n, row, f = at[i]
            x = "%s/out/%s.xml" % (d, n)
            if n not in docs:
                try:
                    docs[n] = ET.parse(x).getroot().find("Records")
                except (ET.ParseError, OSError) as e:
                    return {None: "%s cannot be read: %s" % (n, e)}
            if row >= len(docs[n]):
                return {None: "%s has %d records" % (n, len(docs[n]))}
            e = docs[n][row].find(f)
            t = (e.text or "") if e is not None else ""
            if not bytes_of(v["val"]):
                if t:
                    bad[i] = "an empty value is exported as %r" % t
                continue
            want = tree_of(v["res"])
            if "/" in t or t in ("", ".", ".."):
                bad[i] = "the value is named %r instead of being written (%s)" % (t, brief(want))
                continue
            got = tree_on_disk(os.path.join(x + ".blob", t))
            if got != want:
                bad[i] = "%s is written instead of %s" % (brief(got), brief(want))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)

def unpacking(ctx, cli):
    t = ctx.thorough
    every = '"users", "v8users", "params", "config", "configsave", "configlong", "configsavelong", "files", "user"'
    runs = [
        ("layers", every, '"empty", "byte", "text"', "0, 1, 17, 127, 128, 255", 0, 3, None, 0),
        ("boxes", '"params", "config", "configlong", "files", "user"', '"empty", "text"', "1", 1, 3, None, 0),
        ("alike", '"params", "config", "files", "user"', '"ones", "far", "marks", "points", "outside", "stub"', "1", 1, 2 if t else 1, None, 0),
        ("more", every, '"empty", "byte", "text", "words", "long", "sixteen"', "1, 2, 16, 127, 128, 200, 255", 4, 3, 400 if t else 150, 12),
        ("huge", '"params", "user", "files"' if t else '"params", "user"', '"huge"', "16", 1 if t else 0, 2, None, 0),
    ]
    bad = 0
    for name, places, ids, masks, members, layers, sim, depth in runs:
        vals = tlc_inline(ctx, "MCUnpack", MCU, CFGU % (places, ids, masks, members, layers), name="unpack-" + name, simulate=sim, depth=depth or None)
        vals = [json.loads(k) for k in dict.fromkeys(json.dumps(v, sort_keys=True) for v in vals)]
        if name == "huge":
            vals = [v for v in vals if '"broken"' not in json.dumps(v)]
            if not t:
                vals = [v for v in vals if v["val"]["k"] == "deflated" or (v["val"]["k"] == "stored" and v["val"]["packed"] and v["val"]["head"]["k"] == "plain")]
        ctx.extra.setdefault("values", {})["unpack-" + name] = len(vals)
        ctx.sample(dict(run=name, value=vals[len(vals) // 2]))
        per = 1 if name == "huge" else 60
        groups = [vals[i:i + per] for i in range(0, len(vals), per)]
        def one(k):
            conf = CONF[:3][(k + ctx.seed) % 3]
            r = unpack_one(ctx, cli, "%s%d" % (name, k), groups[k], conf)
            out = []
            for i, e in sorted(r.items(), key=str)[:3]:
                if i is None:                 # find the one
                    for v in groups[k]:
                        e2 = unpack_one(ctx, cli, "%s%da" % (name, k), [v], conf)
                        if e2:
                            out.append((v, list(e2.values())[0], conf))
                            break
                    else:
                        e2 = unpack_one(ctx, cli, "%s%da" % (name, k), groups[k], conf)
                        if e2:
                            out.append((groups[k], list(e2.values())[0], conf))
                else:
                    e2 = unpack_one(ctx, cli, "%s%da" % (name, k), [groups[k][i]], conf)
                    out.append((groups[k][i], list(e2.values())[0], conf) if e2 else (groups[k], e, conf))
            return out
        for k, out in enumerate(pmap(one, range(len(groups)), 3 if name == "huge" else None)):
            ctx.count("unpack-" + name, len(groups[k]))
            ctx.traces += 1
            for v, e, conf in out:
                bad += 1
                if bad <= 6:
                    what = "%s-%s" % (v["place"], v["val"]["k"]) if isinstance(v, dict) else "group"
                    ctx.violation("unpack-%s-%s" % (what, hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8]), "unpacking (%s): %s" % (json.dumps(v)[:300], e), dict(value=v, conf=conf))

CONF = [("8.3.8.0", 4096), ("8.2.14.0", 4096), ("8.3.8.0", 16384), ("8.0.5.0", 4096), ("8.1.0.0", 4096)]

def check_tables(ctx, cli, name, vals, per=6):
    groups = [vals[i:i + per] for i in range(0, len(vals), per)]
    def one(k):
        g = groups[k]
        opt = VARIANTS[(k + ctx.seed) % len(VARIANTS)]
        cmd = ["-eax", "OUT"] if k % 2 else ["-ex", "OUT", "*"]
        def make(vs):
            db = Db(*CONF[k % len(CONF)])
            tabs = {}
            for i, v in enumerate(vs):
                nm = "_TAB%d" % i
                db.tables.append(table(v, nm))
                tabs[nm] = v
            return db, tabs
        e, v = export(ctx, cli, "%s%d" % (name, k), *make(g), opt, cmd, name)
        if e:
            for v in ([v] if v else g):            # alone
                e2, _ = export(ctx, cli, "%s%da" % (name, k), *make([v]), opt, cmd, name)
                if e2:
                    return e2, dict(table=v, options=opt, command=cmd, conf=CONF[k % len(CONF)])
            e2, _ = export(ctx, cli, "%s%da" % (name, k), *make(g), opt, cmd, name)
            if e2:
                return e2, dict(tables=g, options=opt, command=cmd, conf=CONF[k % len(CONF)])
        return None
    bad = 0
    for k, r in enumerate(pmap(one, range(len(groups)))):
        ctx.count("export-" + name, len(groups[k]))
        ctx.traces += 1
        if r and bad < 5:
            bad += 1
            ctx.violation("%s-%s" % (name, re.sub(r"[^a-z]+", "-", r[0].lower())[:60]), "%s: %s" % (name, r[0]), r[1])

def run(ctx):
    exe = build(ctx, {"ctool1cd": ["CLI"]})
    cli = exe["ctool1cd"]
    t = ctx.thorough
    key = D("N", 3)
    mixed = [DS(D("NVC", 3, n=True), D("NT", n=True), D("I", n=True)), DS(D("N", 4, 1, True), D("I"), D("I", n=True), D("T", n=True)),
             DS(D("DT", n=True), D("L", n=True), D("B", 2, n=True), D("NC", 3, n=True)), DS(D("VB", 3, n=True), D("RV"), D("NT"), D("DT")),
             DS(D("B", 16, g="1c"), D("I"), D("NVC", 2, n=True)), DS(D("NC", 2), D("T"), D("I", n=True))]
    runs = [
        ("escape", [DS(key, D("NVC", 3))], 1, 0, MARKUP if t else "38, 60, 34, 39, 62, 65, 13", "0", '"none"', None, 0),
        ("memo", [DS(D("NT", n=True)), DS(D("T", n=True))], 1, 3 if t else 2, ALLC, "0", '"none"', None, 0),
        ("image", [DS(D("I", n=True))], 1, 3 if t else 2, "65", "0, 1, 63, 128, 251, 255", '"none"', None, 0),
        ("order", [DS(D("L"))], 3 if t else 2, 0, "65", "0", '"none", "secondary", "primary", "second primary"', None, 0),
        ("mixed", mixed, 5, 9, ALLC, "0, 1, 2, 13, 63, 128, 251, 255", '"none", "secondary", "primary", "second primary"', 700 if t else 45, 120),
        ("longer", [DS(key, D("NT"), D("I"), D("T"))], 2, 400, "38, 60, 65, 13, 1071, 128512", "0, 1, 2, 13, 63, 128, 251, 255", '"primary"', 60 if t else 4, 1500),
    ]
    for name, decls, rows, ln, ch, by, ix, sim, depth in runs:
        vals = tlc_inline(ctx, "MCXml", MC % ", ".join(decls), CFG % (rows, ln, ch, by, ix), name="xml-" + name, simulate=sim, depth=depth or None)
        seen, u = set(), []
        for v in vals:
            k = json.dumps(v, sort_keys=True)
            if k not in seen:
                seen.add(k)
                u.append(v)
        ctx.extra.setdefault("tables", {})[name] = len(u)
        ctx.sample(dict(run=name, table=u[len(u) // 2] if name != "longer" else None))
        if not t and len(u) > 700:
            u = u[ctx.seed % 2::2]
        check_tables(ctx, cli, name, u, per=6 if name == "mixed" else 12)
    # base64 lines: images whose text fills lines exactly, just over and just under
    vals = []
    for n in list(range(50, 58)) + list(range(104, 112)) + [540, 541, 16384, 40000]:
        s = [(i * 37 + n) % 256 for i in range(n)]
        tx = [ord(c) for c in base64.b64encode(bytes(s)).decode()]
        vals.append(dict(fields=[dict(t="I", len=0, prec=0, null=False, g="hex")], index="none", order=[], walk=[1], doc=[[dict(null=False, text=tx)]],
                         rows=[dict([("del", False), ("cells", [dict(null=False, s=s)])])]))
    check_tables(ctx, cli, "lines", vals, per=5)
    unpacking(ctx, cli)
    # filters
    names = ["_TAB1", "_TAB2", "_TB", "_TA", "_Ab", "_A.B", "_BAT"]
    q = lambda s: "<<" + ", ".join('"%s"' % c for c in s) + ">>"
    fs = []
    for alpha, ln, sim in (('"*", "?", "_", "A", " "', 4 if t else 3, None), ('"*", "?", "_", "A", "b", "T", "t", "1", ",", ";", " ", "\\t", ".", "+"', 14, 600 if t else 60), ('"_", "t", "A", ".", "b", "*"', 5, 200 if t else 25)):
        fs += tlc_inline(ctx, "MCFilter", MCF % ", ".join(map(q, names)), CFGF % (alpha, ln), name="filter%d" % ln, simulate=sim, depth=20 if sim else None)
    fl = {}
    for v in fs:
        fl["".join(v["f"])] = sorted("".join(n) for n in v["names"])
    # every prefix and permutation of two adjacent patterns
    db = Db("8.3.8.0", 4096)
    for n in names:
        tb = T(n, [F("_FLD0", "L")])
        tb.add({"_FLD0": b"\1"})
        db.tables.append(tb)
    ctx.extra["filters"] = len(fl)
    ctx.sample(dict(filter=list(fl.items())[len(fl) // 3]))
    image = db.bytes()
    class Img:
        def write(self, p):
            with open(p, "wb") as f:
                f.write(image)
    order = sorted(fl)
    if not t:
        order = [f for i, f in enumerate(order) if i % 2 == ctx.seed % 2 or len(fl[f]) not in (0, len(names))]
    def one(k):
        f = order[k]
        e, _ = export(ctx, cli, "f%d" % k, Img(), {n: None for n in fl[f]}, VARIANTS[0], ["-ex", "OUT", f], "filter")
        if e:
            e, _ = export(ctx, cli, "f%d" % k, Img(), {n: None for n in fl[f]}, VARIANTS[0], ["-ex", "OUT", f], "filter")
        return e
    for f, e in zip(order, pmap(one, range(len(order)))):
        ctx.count("filter")
        if e:
            ctx.violation("filter-" + re.sub(r"[^A-Za-z0-9_]", lambda m: "%02x" % ord(m.group()), f)[:60], "filter %r: %s" % (f, e), dict(filter=f, expected=fl[f]))
    ctx.assumptions += ["control characters that XML cannot carry are shown as a question mark", "the names of files of long values are free as long as they differ", "table names in filters are ASCII"]
