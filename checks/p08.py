"""Entering values and sort keys: the texts of FieldValue.tla are stored by the code and shown again; keys
are compared in the order of the values."""
import os
from vf import *
from fieldvals import *

def line(v, off):
    d = v["d"]
    return "E %s %s %d %s %s %s %s %d %d" % (hx(tree(v).encode()), d["g"], off, hx(bytes(v["sv"])), hx(bytes(v["sw"])),
            hx(text(v["tv"]).encode()), hx(text(v["alt"]).encode()), v["vn"], v["sort"])

def diff(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    want = text(exp["tv"]).encode().hex()
    if exp["ent"]:
        for k in ("text", "alt"):
            x = g[k]
            if not x["ok"]:
                return "%s: the text %s is not accepted" % (exp["d"], bytes.fromhex(want))
            if x["pres"] != want:
                return "%s: the text %s is stored as %s, which reads %s" % (exp["d"], text(exp["tv" if k == "text" else "alt"]), x["bin"], bytes.fromhex(x["pres"]))
            if x["bin"][:2] != "%02x" % exp["sv"][0] and exp["d"]["null"]:
                return "%s: wrong null mark in %s" % (exp["d"], x["bin"])
            if exp["sort"] and x["key"] != g["kv"]:
                return "%s: the entered value %s sorts differently from the stored one" % (exp["d"], text(exp["tv"]))
    if exp["sort"]:
        size = len(exp["sv"])
        a, b = g["kv"], g["kw"]
        if g["nv"] != size or g["nw"] != size:
            return "%s: sort keys of %d and %d bytes for a field of %d" % (exp["d"], g["nv"], g["nw"], size)
        o = (a > b) - (a < b)
        if o != exp["ord"]:
            return "%s: keys %s and %s of %s and %s compare as %d" % (exp["d"], a, b, text(exp["tv"]), text(exp["tw"]), o)
    return None

MCE = """---- MODULE MCEntry ----
EXTENDS FieldEntry
D(y, l, p, n, g) == [t |-> y, len |-> l, prec |-> p, null |-> n, g |-> g]
MCDecls == {%s}
MCTails == {%s}
====
"""
CFGE = """SPECIFICATION Spec
CONSTANTS
 Decls <- MCDecls
 Bytes = {0, 18, 171, 255}
 Digits = {0}
 Chars = {%s}
 Ints = {0}
 Years = {1, 2001, 9909}
 Smalls = {1, 12, 23, 59}
 Tails <- MCTails
 MaxTyped = %d
 Emit = TRUE
INVARIANTS Fits Settles Record
"""

def entry_diff(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    want = bytes(exp["s"]).hex()
    if exp["refused"]:
        return "%s: the text %r is accepted as %s" % (exp["d"], text(exp["t"]), g["bin"]) if g["ok"] else None
    if not g["ok"]:
        return "%s: the text %r is not accepted" % (exp["d"], text(exp["t"]))
    if g["bin"] != want or g["pres"] != text(exp["p"]).encode().hex():
        return "%s: the text %r is stored as %s, which reads %r, instead of %s, which reads %r" % (exp["d"], text(exp["t"]), g["bin"], bytes.fromhex(g["pres"]), want, text(exp["p"]))
    return None

def entries(ctx, exe):
    """texts that are not canonical texts"""
    t = ctx.thorough
    no = '<<>>, <<32>>, <<48>>, <<65, 66, 67>>'
    runs = [
        ("typed", sum([both("N", l, p) for l in (1, 2, 3, 4) for p in range(l + 1)], []) + both("L"), "65", no, 6 if t else 5, None, 0),
        ("words", sum([both(x, l) for x in ("NC", "NVC") for l in (1, 2, 3)], []), "32, 65, 1071, 128512", no, 5 if t else 4, None, 0),
        ("parts", both("DT") + both("B", 1) + both("B", 2) + sum([both("B", 16, g=g) for g in ("hex", "1c", "ms")], []), "65", no, 0, 1500 if t else 250, 60),
        ("long", sum([both(x, l) for x in ("NC", "NVC") for l in (10, 40)], []) + sum([both("N", l, p) for l in (5, 10, 31) for p in (0, 2, l - 1)], []),
         "32, 65, 1071, 8364, 128512", no, 60, 2500 if t else 250, 80),
    ]
    for name, decls, ch, tails, n, sim, depth in runs:
        vals = tlc_inline(ctx, "MCEntry", MCE % (", ".join(decls), tails), CFGE % (ch, n), name="entry-" + name, simulate=sim, depth=depth or None)
        vals = list({json.dumps(v, sort_keys=True): v for v in vals}.values())
        ctx.extra.setdefault("values", {})["entry-" + name] = len(vals)
        ctx.sample(dict(run=name, entry=vals[len(vals) // 2]))
        items = [("T %s %s %d %s" % (hx(tree(v).encode()), v["d"]["g"], (i * 5) % 4, hx(text(v["t"]).encode())), v) for i, v in enumerate(vals)]
        compare(ctx, exe, items, entry_diff, lambda c, e: "entry-%s-%s" % (e["d"]["t"], c.split()[4][:40]), what="entry-" + name)

def run(ctx):
    exe = build(ctx, {"drv_field": ["drv_field.cpp"]})["drv_field"]
    for name, vals in values(ctx, negzero=True):
        items = [(line(v, (i * 7) % 5), v) for i, v in enumerate(vals) if v["ent"] or v["sort"]]
        if items:
            compare(ctx, exe, items, diff, lambda c, e: "%s-%s" % (e["d"]["t"], c.split()[4][:40]), what="enter-" + name)
    entries(ctx, exe)
    ctx.assumptions += ["strings hold valid UTF-16", "a number with more leading zeros than its field has digits, a negative text whose digits are all cut off, and a string cut inside a character are left open"]
