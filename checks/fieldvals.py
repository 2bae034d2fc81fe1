"""Values of fields for P07 and P08, from FieldValue.tla."""
import random
from vf import *
import onecd
from onecd import F, T, Db

MC = """---- MODULE MCField ----
EXTENDS FieldValue
D(t, l, p, n, g) == [t |-> t, len |-> l, prec |-> p, null |-> n, g |-> g]
MCDecls == {%s}
MCInts == {0, 1, 10, -1, 2147483647, -2147483647 - 1}
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 Decls <- MCDecls
 Bytes = {%s}
 Digits = {%s}
 Chars = {%s}
 Ints <- MCInts
 Years = {1, 1980, 2001, 3999, 9909}
 Smalls = {%s}
 Pairs = "%s"
 NegZero = %s
 Emit = TRUE
INVARIANTS Faithful ReadBack Width KeyOrder NoMarkup XmlFaithful Record
"""
def D(t, l=0, p=0, n=False, g="hex"):
    return 'D("%s", %d, %d, %s, "%s")' % (t, l, p, "TRUE" if n else "FALSE", g)

def both(*a, **k):
    return [D(*a, n=False, **k), D(*a, n=True, **k)]

def values(ctx, negzero=False):
    """yields (run name, records); small domains exhaustively, the rest by simulation"""
    t = ctx.thorough
    C = "32, 65, 1071, 8364, 128512"
    runs = [
        ("num", sum([both("N", l, p) for l in (1, 2, 3) for p in range(l + 1)], []), "0", "0, 1, 9", "65", "1", "all", None, 0),
        ("bytes", sum([both("B", l) for l in (1, 2)] + [both("VB", l) for l in (0, 1, 2)] + [both("L")], []), "0, 1, 10, 127, 128, 160, 255" if t else "0, 1, 10, 128, 255", "0", "65", "1", "all", None, 0),
        ("strings", sum([both(x, l) for x in ("NC", "NVC") for l in (1, 2, 3)], []), "0", "0", C, "1", "near", None, 0),
        ("dates", both("DT"), "0", "0", "65", "0, 1, 10, 12, 23, 59", "near", 4000 if t else 400, 10),
        ("versions", both("RV") + [D("V8")], "0", "0", "65", "1", "near", 2000 if t else 150, 8),
        ("ident", sum([both("B", 16, g=g) for g in ("hex", "1c", "ms")], []), "0, 1, 15, 16, 45, 127, 128, 171, 205, 254, 255", "0", "65", "1", "near", 3000 if t else 200, 20),
        ("bignum", sum([both("N", l, p) for l in (4, 5, 10, 15, 16, 31, 32) for p in {0, 1, 2, l // 2, l - 1, l}], []), "0", "0, 1, 2, 3, 4, 5, 6, 7, 8, 9", "65", "1", "near", 20000 if t else 1500, 40),
        ("bignum0", sum([both("N", l, p) for l in (5, 10, 31) for p in (0, 3, l)], []), "0", "0, 9", "65", "1", "near", 8000 if t else 500, 40),
        ("longstr", sum([both(x, l) for x in ("NC", "NVC") for l in (10, 40)], []), "0", "0", C + ", 1, 9, 10, 13, 31, 34, 38, 39, 60, 62, 127, 128, 2047, 2048, 55295, 57344, 65533, 65536, 1114111", "1", "near", 4000 if t else 250, 60),
        ("longbytes", sum([both(x, l) for x in ("B", "VB") for l in (15, 17, 40)], []), "0, 1, 9, 10, 15, 16, 127, 128, 159, 160, 255", "0", "65", "1", "near", 3000 if t else 200, 50),
    ]
    if negzero:
        runs.append(("negzero", sum([both("N", l, l // 2) for l in (1, 2, 3, 4)], []), "0", "0, 1", "65", "1", "all", None, 0))
    for name, decls, b, dg, ch, sm, pairs, sim, depth in runs:
        vals = tlc_inline(ctx, "MCField", MC % ", ".join(dict.fromkeys(decls)), CFG % (b, dg, ch, sm, pairs, "TRUE" if name == "negzero" else "FALSE"), name="field-" + name, simulate=sim, depth=depth or None)
        if sim:
            seen, u = set(), []
            for v in vals:
                k = json.dumps(v, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    u.append(v)
            vals = u
        ctx.sample(dict(run=name, value=vals[len(vals) // 2]))
        ctx.extra.setdefault("values", {})[name] = len(vals)
        yield name, vals

def text(cp):
    return "".join(map(chr, cp))

def field_name(v, i=0):
    return "_FLD%d" % i if v["d"]["g"] != "1c" or v.get("plain") else ("_ID%dRREF" % i)

def tree(v):
    d = v["d"]
    return '{"%s","%s",%d,%d,%d,"CS"}' % (field_name(v), d["t"], d["null"], d["len"], d["prec"])
