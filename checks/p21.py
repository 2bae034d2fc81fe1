"""Notations: every value of Notation.tla and Times.tla is written and read by the code."""
from vf import *

CFG = """SPECIFICATION Spec
CONSTANTS
 Kind = "%s"
 Points = {%s}
 Octets = {%s}
 Size = %d
 Random = %s
 Emit = TRUE
INVARIANTS TextBack BytesBack GuidBack Record
"""
TCFG = """SPECIFICATION Spec
CONSTANTS
 Years <- MCYears
 Moments <- MCMoments
 Zones <- MCZones
 Emit = TRUE
INVARIANTS DayBack UtcBack Epochs Record
"""
TMC = """---- MODULE MCTimes ----
EXTENDS Times
MCYears == {%s}
MCMoments == {%s}
MCZones == {%s}
====
"""
POINTS = [0, 9, 0x41, 0x5a, 0x61, 0x7a, 0x5b, 0x7f, 0x80, 0x7ff, 0x800, 0x401, 0x451, 0x410, 0x42f, 0x430, 0x44f, 0x450, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]

def uniq(vals):
    seen, out = set(), []
    for v in vals:
        k = json.dumps(v, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out

def plain(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    for k, (want, what) in exp["want"].items():
        got = g
        for p in k.split("."):
            got = got[p]
        if got != want:
            return "%s of %s gives %s, not %s" % (what, exp["name"], json.dumps(got), json.dumps(want))
    return None

def text_items(vals, seed):
    items = []
    for i, v in enumerate(vals):
        u8, u16 = bytes(v["u8"]).hex(), bytes(v["u16"]).hex()
        o = vals[(i * 7 + seed) % len(vals)]
        lo, olo = bytes(v["lo"]), bytes(o["lo"])
        if i % 3 == 0:
            o, olo = dict(u8=v["up"]), lo
        mk = lambda m: m + "/" + {"utf8": "3", "utf16": "2", "none": "0"}[m]
        cmp = (lo > olo) - (lo < olo)
        want = dict(to16=(u16, "UTF-16"), to8=(u8, "text from UTF-16"), b8=(u8, "text from UTF-8"), m8=(mk(v["m8"]), "encoding found for the UTF-8 form"), m16=(mk(v["m16"]), "encoding found for the UTF-16 form"),
                    p8=("utf8/3", "encoding found for the marked UTF-8 form"), p16=("utf16/2", "encoding found for the marked UTF-16 form"), o8=(u8, "text behind the UTF-8 mark"), o16=(u8, "text behind the UTF-16 mark"),
                    c16=(u16, "converting marked UTF-8 to UTF-16"), c8=(u8, "converting a part from UTF-16 to UTF-8"), d16=(u16, "converting a part from UTF-8 to UTF-16"), e16=(u16, "converting a part from UTF-16 to UTF-16"), e8=(u8, "converting a part from UTF-8 to UTF-8"),
                    lo=(lo.hex(), "lower case"), up=(bytes(v["up"]).hex(), "upper case"), same=(True, "equality without regard to case"), eq=(lo == olo, "equality without regard to case with " + bytes(o["u8"]).hex()), cmp=(cmp, "order without regard to case with " + bytes(o["u8"]).hex()), mirror=(-cmp, "reversed order without regard to case with " + bytes(o["u8"]).hex()))
        items.append(("T %s %s %s" % (u8 or "-", u16 or "-", bytes(o["u8"]).hex() or "-"), dict(name="text " + "".join("U+%X " % c for c in v["t"]), want=want)))
    return items

def byte_items(vals, seed):
    items = []
    for i, v in enumerate(vals):
        b = bytes(v["b"])
        s64 = "".join(v["b64"])
        noise = ["", " ", "\r\n", "$-.", "=~", "\t{}~"][(i + seed) % 6].encode("latin-1")
        want = dict(hex=("".join(v["hex"]), "hexadecimal form"), shex=("".join(v["hex"]), "hexadecimal form of a stream"), unhex=(True, "reading the hexadecimal form"), rev=(True, "reversing the byte order"))
        want["b64.0.t"] = (s64, "Base64 in one line")
        for w in ("4", "8", "72"):
            want["b64.%s.t" % w] = ("".join(v["lines"][w]), "Base64 in lines of " + w)
        for w in ("0", "4", "6", "8", "72", "3"):
            want["b64.%s.ok" % w] = (True, "reading Base64 in lines of %s back (noise %r)" % (w, noise))
        items.append(("B %s %s" % (b.hex() or "-", noise.hex() or "-"), dict(name="bytes " + b.hex()[:80], want=want)))
    return items

def guid_items(vals, seed):
    items = []
    for i, v in enumerate(vals):
        b = bytes(v["b"])
        o = bytes(vals[(i + 1 + seed) % len(vals)]["b"])
        if i % 3 == 0:
            k = (i // 3 + seed) % 16
            o = b[:k] + bytes([(b[k] + 1 + i) % 256]) + b[k + 1:]
        elif i % 7 == 1:
            o = b
        a, m = "".join(v["a"]), "".join(v["m"])
        f = a
        want = dict(a=(a, "1C order"), a2=(a, "1C order"), a3=(a, "1C order"), m=(m, "other order"), m2=(m, "other order"), r1=(a, "reading the 1C order"), r2=(a, "reading the 1C order in upper case"), r3=(f, "reading the plain form"), r4=(f, "reading the plain form in upper case"),
                    eq=(b == o, "equality with " + o.hex()), ne=(b != o, "difference from " + o.hex()), gt=(b > o, "order with " + o.hex()), lt=(o > b, "order with " + o.hex()), empty=(b == bytes(16), "emptiness"))
        items.append(("G %s %s" % (b.hex(), o.hex()), dict(name="identifier " + b.hex(), want=want)))
    return items

def run(ctx):
    exe = build(ctx, {"drv_note": ["drv_note.cpp"]})["drv_note"]
    t = ctx.thorough
    key = lambda c, e: c[:60].replace(" ", "-")
    pts = lambda ps: ", ".join(map(str, ps))
    O = [0, 1, 15, 16, 61, 62, 63, 127, 128, 251, 252, 255]
    def notes(kind, ps, os_, size, sim, tag):
        v = uniq(tlc(ctx, "Notation", CFG % (kind, pts(ps), pts(os_), size, "TRUE" if sim and kind != "damaged" else "FALSE"), name="note-" + tag, simulate=sim, depth=size + 2 if sim else None))
        ctx.extra.setdefault("values", {})[tag] = len(v)
        ctx.sample(dict(run=tag, value=v[len(v) // 2]))
        return v
    txt = notes("text", POINTS, [0], 3 if t else 2, None, "texts") + notes("text", POINTS, [0], 30, 400 if t else 8, "long-texts")
    allp = sorted(set(range(0, 0x530)) | {0x2028, 0x20ac, 0x1e9e, 0xffef}) if not t else sorted(set(range(0, 0x3000)) | set(range(0xd000, 0xd800)) | set(range(0xe000, 0x10000, 7)) | set(range(0x10000, 0x110000, 997)))
    txt += notes("text", allp, [0], 1, None, "characters")
    compare(ctx, exe, text_items(txt, ctx.seed), plain, key, what="texts", chunk=200)
    byt = notes("bytes", [0], O, 4 if t else 3, None, "bytes") + notes("bytes", [0], range(256), 1, None, "octets") + notes("bytes", [0], range(256), 120, 40 if t else 1, "long-bytes")
    compare(ctx, exe, byte_items(byt, ctx.seed), plain, key, what="bytes", chunk=200)
    gui = notes("guid", [0], [0, 255], 16, 3000 if t else 250, "identifiers-extreme") + notes("guid", [0], range(256), 16, 3000 if t else 200, "identifiers")
    compare(ctx, exe, guid_items(gui, ctx.seed), plain, key, what="identifiers", chunk=200)
    dmg = notes("damaged", [0], [0], 1, None, "damaged") + notes("damaged", [0], [0], 3, 100 if t else 1, "more-damaged")
    items = []
    for v in dmg:
        s = "".join(v["t"])
        b = bytes(v["b"])
        w = "no" if not v["ok"] else guid_text(b)
        items.append(("D " + (s.encode().hex() or "-"), dict(name="%r" % s, want=dict(r=(w, "reading as an identifier")))))
    compare(ctx, exe, items, plain, key, what="damaged", chunk=400)
    # times
    hms = ["<<0, 0, 0>>", "<<12, 30, 0>>", "<<23, 59, 59>>", "<<1, 2, 3>>"]
    zones = [(0, 0), (180, 0), (-300, 0), (345, 0), (780, 0), (-210, 60), (180, 60)]
    years = [1970, 1972, 1999, 2000, 2001, 2016, 2037, 2038, 2039, 2100, 2107, 3000] if not t else list(range(1970, 2110)) + [2400, 3000, 3999, 5999]
    old = [1, 2, 4, 100, 400, 1600, 1601, 1899, 1900, 1904, 1969] if not t else list(range(1, 30)) + list(range(1580, 1970))
    times = []
    for name, ys, zs in (("times", years, zones), ("old-times", old, [(0, 0)])):
        mc = TMC % (pts(ys), ", ".join(hms), ", ".join("[off |-> %d, dst |-> %d]" % z for z in zs))
        v = uniq(tlc_inline(ctx, "MCTimes", mc, TCFG, name=name))
        ctx.extra["values"][name] = len(v)
        times += v if t else v[ctx.seed % 3::3]
    items = []
    for v in times:
        y, mo, d, h, mi, s = v["c"]
        if v["z"]["dst"] and (mo, d) in ((3, 31), (4, 1), (9, 30), (10, 1)):
            continue                   # the hours at the change of the zone's time are ambiguous
        off, dst = v["z"]["off"], v["z"]["dst"]
        sgn = lambda n: "%s%d:%02d" % ("-" if n > 0 else "", abs(n) // 60, abs(n) % 60)
        tz = "AAA" + sgn(off) + ("BBB%s,J91/0,J274/0" % sgn(off + dst) if dst else "")
        dig = "".join(map(str, v["digits"]))
        t19 = "%02d.%02d.%04d %02d:%02d:%02d" % (d, mo, y, h, mi, s)
        local = v["local"][0] * 86400 + v["local"][1]
        utc = v["utc"][0] * 86400 + v["utc"][1]
        ft, un = (utc - 584388 * 86400) * 10 ** 7, utc - 719162 * 86400
        packed = bytes.fromhex(dig)
        want = dict(s14=(dig, "text of 14 digits"), s19=(t19, "text"), p14=(dig + "55", "reading the text of 14 digits"), p19=(dig + "55", "reading the text"), ft=(ft, "file time"),
                    v8=(local * 10000, "container time of the file time"), v8b=(local * 10000, "container time of the file time"), back=(ft, "file time of the container time"), at=(un, "Unix time"), mt=(un + 1, "Unix time of the next second"), now=(True, "the current time"))
        items.append(("C %s %s %s %s %d" % (tz, packed.hex(), dig, t19.encode().hex(), local * 10000), dict(name="%s in zone %s" % (t19, tz), want=want)))
    compare(ctx, exe, items, plain, key, what="times", chunk=300)
    ctx.assumptions += ["hours that occur twice or not at all at a change of the zone's time are outside", "parts of a second are not carried by file times"]

def guid_text(b):
    o = [12, 13, 14, 15, -1, 10, 11, -1, 8, 9, -1, 0, 1, -1, 2, 3, 4, 5, 6, 7]
    return "".join("-" if i < 0 else "%02x" % b[i] for i in o)
