import json
from vf import *

GUID = [ord(c) for c in "0a1B2c3D-4e5F-6789-aBcD-ef0123456789"]
def ch(s): return [ord(c) for c in s]
ALPHABETS = {
    # name: (chunks, depth quick, depth thorough)
    "struct": ([ch(c) for c in '{},"1 '], 6, 7),
    "text": ([ch(c) for c in '{},"\n!a\t'], 5, 6),
    "num": ([ch(c) for c in '1-.eE,{}'], 5, 6),
    "forms": ([ch("{"), ch("}"), ch(","), GUID, ch("#base64:"), ch("#data:"), ch("12:"), ch("0123456789abcdef" * 2), ch("="), ch("\r\n"), ch('"')], 4, 5),
}
def tla(x):
    return "<<" + ", ".join(tla(i) if isinstance(i, list) else str(i) for i in x) + ">>"
def conv(n):
    return dict(t=n["t"], v=bytes(n["v"]).hex(), n=len(n["c"]), c=[conv(k) for k in n["c"]])
def unconv(n):
    return dict(t=n["t"], v=list(bytes.fromhex(n["v"])), c=[unconv(k) for k in n["c"]])

CFG = """SPECIFICATION Spec
CONSTANTS
 Chunks <- MCChunks
 MaxChunks = %d
 Emit = %s
INVARIANTS TreeWellFormed RoundTrip IncrementalAgrees Balanced Record
"""

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if exp["res"] == "reject":
        for k in ("text", "stream", "marked"):
            if "exc" not in g[k]:
                return "%s: ill-formed text accepted: %s" % (k, g[k])
        return None
    tree = conv(exp["tree"])
    for k in ("text", "stream", "marked"):
        if g[k] != tree:
            return "parse from %s gives %s, the specification %s" % (k, json.dumps(g[k]), json.dumps(tree))
    if exp["res"] == "ok":
        want = dict(t=5, v="", n=1, c=[tree])
        if g["refull"] != want:
            return "printed text %r parses back to %s, not to %s" % (bytes.fromhex(g["full"]), json.dumps(g["refull"]), json.dumps(want))
        if tree["n"] == 1 and tree["c"][0]["t"] == 5 and g["reone"] != tree:
            return "printed text %r parses back to %s, not to %s" % (bytes.fromhex(g["one"]), json.dumps(g["reone"]), json.dumps(tree))
    return None

def run(ctx):
    exe = build(ctx, {"drv_text": ["drv_text.cpp"]})["drv_text"]
    prints = []
    def mc(name):
        return "MC_" + name
    for name, (chunks, dq, dt) in ALPHABETS.items():
        mod = "---- MODULE MCBracket ----\nEXTENDS BracketText\nMCChunks == %s\n====\n" % tla(chunks)
        vals = tlc_inline(ctx, "MCBracket", mod, CFG % (dt if ctx.thorough else dq, "TRUE"), name="bracket-" + name)
        items = [("P " + hx(v["x"]), v["o"]) for v in vals]
        check(ctx, exe, items, prints, name)
    # long random texts: deep nesting, long strings, many values
    chunks = [ch("{"), ch("{"), ch("}"), ch("}"), ch(","), ch(","), ch('"'), ch('"'), ch('"a""b{,}"'), ch("12"), ch("-1.5e3"), GUID, ch("\r\n"),
              ch("{1,{2}}"), ch('{"x",{},{{3}}}'), [0xd0, 0x96], ch("#base64:AAAA=")]
    mod = "---- MODULE MCBracket ----\nEXTENDS BracketText\nMCChunks == %s\nAtEnd == n = MaxChunks /\\ st.pst # \"reject\" => Record\nLive == st.pst # \"reject\" \n====\n" % tla(chunks)
    cfg = """SPECIFICATION Spec
CONSTANTS
 Chunks <- MCChunks
 MaxChunks = %d
 Emit = TRUE
INVARIANTS TreeWellFormed RoundTrip IncrementalAgrees Balanced AtEnd
ACTION_CONSTRAINT LiveA
""" % (40 if ctx.thorough else 24)
    mod = mod.replace("====\n", "LiveA == st'.pst # \"reject\" \n====\n")
    vals = tlc_inline(ctx, "MCBracket", mod, cfg, name="bracket-long", simulate=1000 if ctx.thorough else 60, depth=60)
    check(ctx, exe, [("P " + hx(v["x"]), v["o"]) for v in vals], prints, "long")
    # the other direction: the specification reads what the code printed
    prints = prints[:3000 if ctx.thorough else 400]
    mod = "---- MODULE MCBracketT ----\nEXTENDS BracketCheck\nMCChunks == <<>>\n====\n"
    cfg = "SPECIFICATION TSpec\nCONSTANTS\n Chunks <- MCChunks\n MaxChunks = 0\n Emit = FALSE\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    _, ok, rest = tlc_inline(ctx, "MCBracketT", mod, cfg, name="bracket-printed", workers=1, expect_ok=False,
                             files={"trace.ndjson": "\n".join(json.dumps(p) for p in prints) + "\n"})
    ctx.traces += len(prints)
    ctx.count("printed texts read by the specification", len(prints))
    if not ok:
        if "Accepted" not in rest and "POSTCONDITION" not in rest:
            raise CheckError(rest[-2000:])
        ctx.violation("printed", "a text printed by the code does not denote its tree in the specification", dict(trace=prints, tlc=rest[-1500:]))
    ctx.assumptions += ["characters are bytes; NUL does not occur (the stream reader stops at it)"]

def check(ctx, exe, items, prints, name):
    got = {}
    def diff(exp, g):
        return differs(exp, g)
    for c, e in items[:2]:
        ctx.sample(dict(text=bytes.fromhex(c[2:]).decode("utf8", "replace") if c != "P -" else "", outcome=e))
    compare(ctx, exe, items, diff, lambda c, e: c, what="text-" + name)
    oks = [(c, e) for c, e in items if e["res"] == "ok"]
    step = max(1, len(oks) // 100)
    pick = oks[::step][:150]
    for (c, e), g in zip(pick, drive(ctx, exe, [c for c, _ in pick])):
        if "full" in g:
            prints.append(dict(x=list(bytes.fromhex(g["full"])), tree=dict(t=5, v=[], c=[e["tree"]])))
    ctx.extra.setdefault("outcomes", {})[name] = dict(accepted=len(oks), total=len(items))
