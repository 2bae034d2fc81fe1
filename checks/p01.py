from vf import *
import pat
from onecd import *

M = 1 << 20
def cfg(built, names, lens, offs, modes, ops, sim, acts, total=40 * M):
    b = " @@ ".join('"%s" :> [t |-> %d, n |-> %d]' % (k, 2 * i, n) for i, (k, n) in enumerate(built)) or "[x \\in {} |-> <<>>]"
    return ("---- MODULE ObjMC ----\nEXTENDS ObjBytes\nMCBuilt == %s\nMCOffs == {%s}\n====\n" % (b, ", ".join(map(str, offs))),
            """SPECIFICATION Spec
CONSTANTS
 Names = {%s}
 Built <- MCBuilt
 Lens = {%s}
 Offs <- MCOffs
 Modes = {%s}
 MaxOps = %d
 Sim = %s
 Acts = {%s}
 MaxTotal = %d
INVARIANT Record
PROPERTY OthersKept PrefixKept OutsideKept
""" % (", ".join('"%s"' % n for n in names), ", ".join(map(str, lens)), ", ".join(map(str, modes)), ops,
       "TRUE" if sim else "FALSE", ", ".join('"%s"' % a for a in acts), total), built)

def ranges(s):
    """The specified ranges of every object, for the driver."""
    out = []
    for x in sorted(s, key=lambda x: x["o"]):
        p, rs = 0, []
        for r in x["r"]:
            if r["t"] >= 0:
                rs.append("%d+%d" % (p, r["n"]))
            p += r["n"]
        out.append("/%s=%s" % (x["o"], "|".join(rs)))
    return "".join(out)

def step(h, s=None):
    a = h["a"]
    if a == "N": return "N,%s" % h["o"]
    if a == "W": return "W,%s,%d,%d,%d" % (h["o"], h["t"], h["n"], h["m"])
    if a == "A": return "A,%s,%d,%d,%d,%d" % (h["o"], h["f"], h["t"], h["n"], h["m"])
    if a == "L": return "L,%s,%d" % (h["o"], h["n"])
    if a == "D": return "D,%s" % h["o"]
    if a == "Z": return "Z,%s,%d,%d" % (h["o"], h["f"], h["n"])
    return a + ranges(h["s"])

def script(v):
    hs = list(v["h"]) + [dict(a=a, s=v["s"]) for a in ("O", "R", "C", "O")]
    return hs, ";".join(step(h) for h in hs)

def case(ctx, base, work, blocks, v):
    hs, sc = script(v)
    return "O %s %s %s %s" % (base, work, ",".join("%s:%d" % b for b in blocks) or "-", sc), hs

def differs(hs, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "an operation failed: " + g["exc"]
    obs, i, last, changed = g["obs"], 0, {}, set()
    for k, h in enumerate(hs):
        a = h["a"]
        if a in "NWALD":
            changed.add(h["o"])
            continue
        if i >= len(obs):
            return "step %d: nothing observed" % k
        o = obs[i]
        i += 1
        if a == "Z":
            if h["bad"]:
                if not o.get("refused"):
                    return "step %d: reading %d bytes at %d of %s, past its end, is not refused" % (k, h["n"], h["f"], h["o"])
            elif o.get("refused"):
                return "step %d: reading %d bytes at %d of %s is refused" % (k, h["n"], h["f"], h["o"])
            elif all(r["t"] >= 0 for r in h["r"]) and o["d"] != pat.digest(pat.runs(h["r"])):
                return "step %d: reading %d bytes at %d of %s returns other bytes" % (k, h["n"], h["f"], h["o"])
            continue
        exp = {x["o"]: x["r"] for x in h["s"]}
        got = {x["o"]: x for x in o}
        if set(exp) != set(got):
            return "step %d: objects %s instead of %s" % (k, sorted(got), sorted(exp))
        for n, r in exp.items():
            x = got[n]
            ln = sum(y["n"] for y in r)
            if x["len"] != ln:
                return "step %d (%s): %s is %d bytes long instead of %d" % (k, a, n, x["len"], ln)
            want = [pat.digest(pat.runs([y])) for y in r if y["t"] >= 0]
            for w, y, z in zip(want, [y for y in r if y["t"] >= 0], x["r"]):
                if w != z:
                    return "step %d (%s): %s does not hold the %d bytes written by operation %d" % (k, a, n, y["n"], y["t"])
            if "sv" in x and x["sv"] != x["d"]:
                return "step %d: saving %s to a file writes other bytes than it holds" % (k, n)
            if n in last and n not in changed and last[n] != x["d"]:
                return "step %d (%s): bytes of %s changed without a write" % (k, a, n)
            last[n] = x["d"]
        changed = set()
    return None

def make_base(ctx, name, version, ps, built, free=0, level=None):
    d = Db(version, ps)
    t = T("TAB", [F("ID", "NVC", 0, 12), F("V", "N", 0, 6, 1), F("X", "NT")], [("PK", 1, [("ID", 12)])])
    for i in range(9):
        t.add({"ID": nvc("key%d" % i), "V": number(1, "%d" % (i * 37), 6), "X": t.long(b"long value %d " % i * 40)})
    d.tables.append(t)
    blocks = [(o, d.obj(pat.pattern(900 + 2 * i, 0, n), **(dict(level=level) if level is not None else {})))
              for i, (o, n) in enumerate(built)]
    if free and not d.new:
        d.free_tab = d.alloc((free + 1023) // 1024)
        d.free = d.alloc(free)
    p = ctx.path(name + ".1CD")
    raw = d.write(p)
    return p, raw, blocks, [2] + list(t.files) + ([] if d.new else [t.block])

K = 4096
def edges(*xs):
    return sorted({max(0, x + d) for x in xs for d in (-1, 0, 1)})

RW = ["N", "W", "W", "A", "A", "L", "L", "F", "R", "G", "C", "O", "Z", "Z"]
def plans(ctx):
    t = ctx.thorough
    small = edges(0, K, 2 * K)
    res = [
        # (name, version, page size, model, number of simulated histories per worker, depth, free pages, level)
        ("x82", "8.2.14.0", K, cfg([("p", 5000)], ["a", "p"], [0, 1, K, K + 1], [0, -1, K], [0], 4 if t else 3, False, ["N", "W", "A", "L"]), None, None, 0, None),
        ("x83", "8.3.8.0", K, cfg([("p", 5000)], ["a", "p"], [0, 1, K, K + 1], [0, -1, K], [1], 4 if t else 3, False, ["N", "W", "A", "L"]), None, None, 0, None),
        ("s82", "8.2.14.0", K, cfg([("p", 3 * K), ("q", 70)], list("abcp"), small + [30000], [0, 1, -1, -K, K, 5 * K, -100], [0, 1], 16, True, RW + ["D"]), 60 if t else 12, 20, 3, None),
        ("s81", "8.1.0.0", K, cfg([("p", 3 * K)], list("abp"), small + [30000], [0, 1, -1, K], [0, 1], 14, True, RW + ["D"]), 20 if t else 4, 20, 1500, None),
        ("s83", "8.3.8.0", K, cfg([("p", 3 * K), ("q", 70)], list("abcp"), small + [30000], [0, 1, -1, -K, K, 5 * K, -100], [0, 1], 16, True, RW + ["D"]), 60 if t else 12, 20, 0, None),
        ("s83-8", "8.3.8.0", 2 * K, cfg([("p", 3 * K)], list("abp"), edges(0, 2 * K, 4 * K), [0, -1, 2 * K, -2 * K], [0, 1], 12, True, RW), 20 if t else 4, 20, 0, None),
        ("s83-64", "8.3.8.0", 16 * K, cfg([("p", 30 * K)], list("abp"), edges(0, 16 * K, 32 * K), [0, -1, 16 * K, -16 * K], [0, 1], 12, True, RW), 20 if t else 4, 20, 0, None),
        # around the boundary of a table page, and of the one-level table
        ("b82", "8.2.14.0", K, cfg([("p", 1023 * K)], list("ap"), edges(0, 1023 * K) + [1023 * K - K, 1024 * K + 5, 2046 * K + 9], [0, -1, 1023 * K - 3, -K, 1022 * K], [0, 1], 8, True, RW), 12 if t else 4, 12, 0, None),
        ("b83", "8.3.8.0", K, cfg([("p", 1018 * K)], list("ap"), edges(0, 1018 * K) + [1018 * K - K, 1024 * K, 1024 * K + 1, 2048 * K + 7], [0, -1, 1018 * K - 3, -K, 1017 * K], [0, 1], 8, True, RW), 12 if t else 4, 12, 0, None),
        ("b83-8", "8.3.8.0", 2 * K, cfg([("p", 2042 * 2 * K)], list("p"), edges(2042 * 2 * K) + [2048 * 2 * K + 1, 100], [0, -1, 2041 * 2 * K], [0, 1], 5, True, RW), 6 if t else 1, 8, 0, None),
        # short objects that already have a two-level table
        ("l83", "8.3.8.0", K, cfg([("p", 3 * K), ("q", 70)], list("apq"), small + [1018 * K, 1018 * K + 1], [0, -1, K, -K], [0, 1], 10, True, RW + ["D"]), 20 if t else 3, 14, 0, 1),
    ]
    return res

def models(ctx, plan):
    name, version, ps, (text, c, built), num, depth, free, level = plan
    return tlc_inline(ctx, "ObjMC", text, c, name="obj-" + name, simulate=num, depth=depth)

def drop_snaps(ctx):
    for f in os.listdir(ctx.work):
        if f.endswith(".snap"):
            os.unlink(ctx.path(f))

def on_disk(raw, static, work, hs, g):
    """Reads the saved files independently of the tool and compares them with the model."""
    obs, i, n = g["obs"], 0, 0
    base = Image(raw)
    keep = {r: base.read(r) for r in static}
    for k, h in enumerate(hs):
        a = h["a"]
        if a in "NWALD":
            continue
        o = obs[i]
        i += 1
        if a not in "FR":
            continue
        with open("%s.%d.snap" % (work, n), "rb") as f:
            b = f.read()
        n += 1
        try:
            im = Image(b)
            roots = {x["o"]: x["root"] for x in o}
            for x in h["s"]:
                d = im.read(roots[x["o"]])
                p = 0
                if len(d) != sum(y["n"] for y in x["r"]):
                    return "step %d: in the saved file %s is %d bytes long" % (k, x["o"], len(d))
                for y in x["r"]:
                    if y["t"] >= 0 and d[p:p + y["n"]] != pat.pattern(y["t"], y["o"], y["n"]):
                        return "step %d: in the saved file %s holds other bytes" % (k, x["o"])
                    p += y["n"]
            for r, d in keep.items():
                if im.read(r) != d:
                    return "step %d: the object at page %d, which no operation names, has changed" % (k, r)
        except Bad as e:
            return "step %d: the saved file is damaged: %s" % (k, e)
    return None

def run(ctx):
    exe = build(ctx, {"drv_obj": ["drv_obj.cpp"]})["drv_obj"]
    for plan in plans(ctx):
        name, version, ps, (_, _, built), num, depth, free, level = plan
        vals = models(ctx, plan)
        base, raw, blocks, static = make_base(ctx, name, version, ps, built, free, level)
        items = []
        for i, v in enumerate(vals):
            items.append(case(ctx, base, ctx.path("w%d.1CD" % i), blocks, v))
        ctx.sample(dict(plan=name, script=items[len(items) // 2][0].split(" ")[4]))
        got = {}
        def judge(hs, g):
            d = differs(hs, g)
            got[id(hs)] = None if d else g
            return d
        compare(ctx, exe, items, judge, lambda c, e: c.split(" ")[4], what="history-" + name, timeout=800)
        try:
            bad = 0
            for (c, hs), v in zip(items, vals):
                if got.get(id(hs)) is not None and bad < 5:
                    ctx.count("saved-files-" + name)
                    d = on_disk(raw, static, c.split(" ")[2], hs, got[id(hs)])
                    if d:
                        bad += 1
                        ctx.violation(c.split(" ")[4], "%s: %s" % (name, d), dict(case=c))
        finally:
            drop_snaps(ctx)
    ctx.assumptions += ["bytes that come into existence by a length change are unspecified until written, but stable",
                        "base files are built by lib/onecd.py, which shares no code with the tool"]
