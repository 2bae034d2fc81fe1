"""Presentation of stored values: every value of FieldValue.tla is shown by a field alone and by a
record of a table in a generated database."""
import os
from vf import *
from fieldvals import *

def direct(v, off):
    d = v["d"]
    return "V %s %s %d %s %s" % (hx(tree(v).encode()) if d["t"] != "V8" else "V8", d["g"], off, hx(bytes(v["sv"])), hx(bytes(v["sw"])))

def diff_direct(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    for k, null in (("v", exp["vn"]), ("w", exp["wn"])):
        want = text(exp["t" + k]).encode("utf-8").hex()
        if g["p" + k] != want:
            return "a stored %s value %s is shown as %s, not %s" % (exp["d"], bytes(exp["s" + k]).hex(), bytes.fromhex(g["p" + k]), text(exp["t" + k]))
        xml = text(exp["x" + k]).encode("utf-8").hex()
        if g["x" + k] != xml:
            return "a stored %s value %s is written to XML as %s, not %s" % (exp["d"], bytes(exp["s" + k]).hex(), bytes.fromhex(g["x" + k]), text(exp["x" + k]))
        e = "" if null else want
        if g["e" + k] != e:
            return "a stored %s value %s is shown as %s where null is empty" % (exp["d"], bytes(exp["s" + k]).hex(), bytes.fromhex(g["e" + k]))
    return None

def diff_db(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    if len(g["recs"]) != len(exp):
        return "%d records instead of %d" % (len(g["recs"]), len(exp))
    for row, got in zip(exp, g["recs"]):
        for c, x in zip(row, got):
            want = c["text"]
            if x["null"] != c["null"]:
                return "field %s: null is %s" % (c["d"], x["null"])
            if x["pres"] != want:
                return "field %s shows %s, not %s" % (c["d"], bytes.fromhex(x["pres"]) if isinstance(x["pres"], str) else x["pres"], bytes.fromhex(want))
            if c["null"]:
                if x["empty"] != "" or not isinstance(x["str"], dict):
                    return "field %s: null is shown as %s / %s" % (c["d"], x["empty"], x["str"])
            elif x["str"] != want or x["empty"] != want:
                return "field %s: %s / %s, not %s" % (c["d"], x["str"], x["empty"], want)
            if not isinstance(x["xml"], dict) if c["null"] else x["xml"] != c["xml"]:
                return "field %s: %s is written to XML, not %s" % (c["d"], x["xml"], c["xml"])
    return None

def run(ctx):
    exe = build(ctx, {"drv_field": ["drv_field.cpp"], "drv_db": ["drv_db.cpp"]})
    dbs = []
    for name, vals in values(ctx):
        items = [(direct(v, (i * 7) % 5), v) for i, v in enumerate(vals)]
        compare(ctx, exe["drv_field"], items, diff_direct, lambda c, e: "%s-%s" % (e["d"]["t"], c.split()[-1][:40]), what="field-" + name)
        # the same values as records of tables
        groups = {}
        for v in vals:
            groups.setdefault(json.dumps(v["d"], sort_keys=True), []).append(v)
        keys = [k for k in sorted(groups) if json.loads(k)["t"] != "V8"]
        for mode in ("1c", "ms"):
            ks = [k for k in keys if (json.loads(k)["g"] == "ms") == (mode == "ms") and json.loads(k)["g"] != "hex" or (mode == "1c" and not (json.loads(k)["t"] == "B" and json.loads(k)["len"] == 16))]
            for base in range(0, len(ks), 4):
                part = ks[base:base + 4]
                n = min(60, max(len(groups[k]) for k in part))
                decls = [json.loads(k) for k in part]
                names = [("_ID%dRREF" if d["g"] == "1c" else "_FLD%d") % i for i, d in enumerate(decls)]
                vfirst = sorted(range(len(part)), key=lambda i: decls[i]["t"] != "RV")
                if sum(d["t"] == "RV" for d in decls) > 1:
                    part, decls, names = part[:1], decls[:1], names[:1]
                    vfirst = [0]
                t = T("_T", [F(nm, d["t"], int(d["null"]), d["len"], d["prec"], "CS") for nm, d in zip(names, decls)])
                rows = []
                for r in range(n):
                    row, raw = [], {}
                    for k, nm, d in zip(part, names, decls):
                        g = groups[k]
                        v = g[(r * max(1, len(g) // n)) % len(g)]
                        raw[nm] = None if v["vn"] else bytes(v["sv"][1 if d["null"] else 0:])
                        row.append(dict(d=d, null=v["vn"], text=text(v["tv"]).encode("utf-8").hex(), xml=text(v["xv"]).encode("utf-8").hex()))
                    t.add(raw, deleted=(r % 7 == 3))
                    if r % 7 != 3:
                        rows.append(row)
                ver, ps = [("8.3.8.0", 4096), ("8.2.14.0", 4096), ("8.3.8.0", 16384)][(base // 4) % 3]
                db = Db(ver, ps)
                db.tables.append(t)
                p = ctx.path("t%d.1CD" % len(dbs))
                db.write(p)
                dbs.append(("P %s _T %s" % (p, mode), rows))
    compare(ctx, exe["drv_db"], dbs, diff_db, lambda c, e: os.path.basename(c.split()[1]), what="tables", chunk=8)
    ctx.assumptions += ["strings hold valid UTF-16", "the stored zero of a number is the positive one"]
