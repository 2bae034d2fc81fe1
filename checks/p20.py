"""Streams: every history of StreamBytes.tla is replayed on pairs of streams of every kind."""
import random, shutil, subprocess
from vf import *
from pat import pattern

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxOps = %d
 Lens = {%s}
 Fill = %d
 Initial = {%s}
 Ops = {"read", "write", "seek", "size", "copy", "close"}
 Emit = TRUE
INVARIANTS Inside Record
%s
"""
KINDS = ["mem", "file", "open", "temp", "bytes", "member", "packed", "inner"]
MEMBERS = KINDS[5:]                 # of a container; these do not change their size by themselves

def tok(o):
    k = o["op"]
    if k == "read":
        return "read:%d:%d:%s" % (o["i"], o["n"], o["kind"])
    if k == "write":
        return "write:%d:%s:%s" % (o["i"], hx(o["d"]), o["kind"])
    if k == "seek":
        return "seek:%d:%d:%s" % (o["i"], o["off"], o["origin"])
    return "%s:%d:%d" % (k, o["i"], o.get("n", 0))

def replay(h):
    """positions and sizes along the history, for messages and for comparing after each step"""
    st = [[list(h["init"][0]), 0], [list(h["init"][1]), 0]]
    out = []
    for o in h["hist"]:
        s = st[o["i"] - 1]
        if o["op"] == "read":
            s[1] += len(o["res"])
            r = bytes(o["res"]).hex()
        elif o["op"] == "write":
            s[0][s[1]:s[1] + len(o["d"])] = o["d"]
            s[1] += len(o["d"])
            r = str(o["res"])
        elif o["op"] == "seek":
            if o["res"] >= 0:
                s[1] = o["res"]
            r = str(o["res"])
        elif o["op"] == "size":
            s[0] = (s[0] + [0] * o["n"])[:max(o["n"], 0)] if o["n"] > len(s[0]) else s[0][:o["n"]]
            s[1] = min(s[1], o["n"])
            r = "-"
        elif o["op"] == "copy":
            t = st[2 - o["i"]]
            f = 0 if o["n"] == 0 else t[1]
            d = t[0][f:f + o["res"]]
            t[1] = f + o["res"]
            s[0][s[1]:s[1] + len(d)] = d
            s[1] += len(d)
            r = str(o["res"])
        else:
            r = "-"
        out.append("%s|%d/%d|%d/%d" % (r, st[0][1], len(st[0][0]), st[1][1], len(st[1][0])))
    assert [list(h["b1"]), list(h["b2"])] == [st[0][0], st[1][0]] and [h["p1"], h["p2"]] == [st[0][1], st[1][1]]
    return out

def differs(exp, g):
    if "crash" in g:
        return "crash: %s %s" % (g["crash"], g.get("where"))
    if "exc" in g:
        return "error: %s" % g["exc"]
    for i, (a, b) in enumerate(zip(exp["steps"], g["res"])):
        if a != b:
            return "%s on a %s stream gives %s, not %s (result|position/size|position/size)" % (exp["ops"][i], exp["kinds"], b, a)
    for k in ("b1", "b2"):
        if g[k] != exp[k]:
            return "after %s the bytes of %s are %s, not %s" % (" ".join(exp["ops"]), exp["kinds"], g[k], exp[k])
        d = g["d" + k[1]]
        if d not in ("-", exp[k]) and exp["kinds"][int(k[1]) - 1] in ["file", "open"] + MEMBERS:
            return "after %s the file holds %s, not %s" % (" ".join(exp["ops"]), d, exp[k])
    return None

def run(ctx):
    exe = build(ctx, {"drv_stream": ["drv_stream.cpp"]})["drv_stream"]
    t = ctx.thorough
    runs = [("short", 2, "0, 1, 3", 5, "0, 2", None), ("three", 3, "0, 2", 5, "0, 3" if t else "2", None),
            ("long", 12, "0, 1, 2, 3, 5, 8", 200, "0, 1, 5", 400 if t else 8), ("longer", 40, "0, 1, 2, 4, 7, 16", 250, "3, 16", 150 if t else 4)]
    for name, n, lens, fill, ini, sim in runs:
        vals = tlc(ctx, "StreamBytes", CFG % (n, lens, fill, ini, "PROPERTY Frame"), name="stream-" + name, simulate=sim, depth=n + 2 if sim else None)
        seen, u = set(), []
        for v in vals:
            k = json.dumps(v, sort_keys=True)
            if k not in seen:
                seen.add(k)
                u.append(v)
        if not t and len(u) > 12000:
            u = u[ctx.seed % (len(u) // 12000 + 1)::len(u) // 12000 + 1]
        ctx.extra.setdefault("histories", {})[name] = len(u)
        ctx.sample(dict(run=name, history=u[len(u) // 2]["hist"][:6]))
        items = []
        for i, v in enumerate(u):
            j = i + ctx.seed
            sized = {o["i"] for o in v["hist"] if o["op"] == "size"}
            pools = [KINDS[:5] if n in sized else KINDS for n in (1, 2)]
            kinds = [pools[0][j % len(pools[0])], pools[1][(j // len(pools[0])) % len(pools[1])]]
            scale = 1 if name == "short" else [1, 1, 4096, 1, 1000, 8191, 3][j % 7]
            ops = [tok(o) for o in v["hist"]]
            case = "S %d %s %s %s %s %s" % (scale, kinds[0], kinds[1], hx(v["init"][0]), hx(v["init"][1]), " ".join(ops))
            items.append((case, dict(steps=replay(v), ops=ops, kinds=kinds, b1=bytes(v["b1"]).hex(), b2=bytes(v["b2"]).hex())))
        compare(ctx, exe, items, differs, lambda c, e: "-".join(x.replace(":", "_") for x in e["ops"][:4]) + "-" + "-".join(e["kinds"]), what="stream-" + name)
    shared(ctx, exe)
    ctx.assumptions += ["the streams of container members are not resized by themselves"]

TEMP = """SPECIFICATION Spec
CONSTANTS
 Procs = {%s}
 MaxOps = %d
 MaxLive = %d
 Sim = %s
INVARIANTS Kept Clean Record
PROPERTY Apart
"""

def shared(ctx, exe):
    """temporary streams of several processes in one directory"""
    t = ctx.thorough
    hs = []
    for name, args, sim in (("two", ("1, 2", 5, 2, "FALSE"), None), ("many", ("1, 2, 3", 14, 5, "TRUE"), 60 if t else 5)):
        v = tlc(ctx, "TempStreams", TEMP % args, name="temp-" + name, simulate=sim, depth=args[1] + 2 if sim else None)
        u = sorted({json.dumps(x, sort_keys=True) for x in v})
        n = 3000 if t else 250
        if len(u) > n:
            u = random.Random(ctx.seed).sample(u, n)
        hs += [json.loads(x) for x in u]
    root = ctx.path("temps")
    os.makedirs(root, exist_ok=True)
    for h, d in zip(hs, pmap(lambda ih: temps(exe, root + "/%d" % ih[0], ih[1]), list(enumerate(hs)))):
        ctx.count("histories of processes")
        ctx.traces += 1
        if d:
            ctx.violation("temp-" + "-".join("%s%d" % (o["a"], o["p"]) for o in h["hist"])[:60], "temporary streams: " + d, h)
    shutil.rmtree(root, ignore_errors=True)

def temps(exe, d, h):
    os.makedirs(d)
    env = dict(os.environ, TMPDIR=d, ASAN_OPTIONS="detect_leaks=0")
    procs, live, did = {}, {}, []
    def ask(p, line):
        pr = procs[p]
        pr.stdin.write(line + "\n")
        pr.stdin.flush()
        while True:
            x = pr.stdout.readline()
            if not x:
                return "the process ended"
            if x.startswith("@"):
                g = json.loads(x[1:])
                return g.get("r", "error: %s" % g.get("exc"))
    def end(p):
        r = ask(p, "Q")
        procs[p].stdin.close()
        procs[p].wait(timeout=60)
        procs.pop(p)
        return r
    try:
        for o in h["hist"]:
            a, p = o["a"], o["p"]
            did.append("%s %d" % (a, p))
            r = "ok"
            if a == "start":
                procs[p] = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=d)
            elif a in ("new", "write"):
                live[o["id"]] = (p, pattern(o.get("t", o["id"]), 0, (o.get("t", o["id"]) * 37) % 300).hex() or "-")
                r = ask(p, "N %d %s" % (o["id"], live[o["id"]][1]))
            elif a == "drop":
                r = ask(p, "X %d" % o["id"])
                live.pop(o["id"])
            elif a == "end":
                r = end(p)
            elif a == "kill":
                procs[p].kill()
                procs[p].wait()
                procs.pop(p)
            if a in ("end", "kill"):
                live = {i: x for i, x in live.items() if x[0] != p}
            if r != "ok":
                return "%s: %s" % (", ".join(did), r)
            for i, (q, b) in sorted(live.items()):
                g = ask(q, "G %d" % i) or "-"
                if g != b:
                    return "%s: stream %d of process %d holds %s, not %s" % (", ".join(did), i, q, g[:60], b[:60])
        for p in list(procs):
            end(p)
        if not any(o["a"] == "kill" for o in h["hist"]) and os.listdir(d):
            return "%s, all ended: %s is left behind" % (", ".join(did), os.listdir(d))
    except BrokenPipeError:
        return "%s: a process has died" % ", ".join(did)
    finally:
        for pr in procs.values():
            pr.kill()
            pr.wait()
        shutil.rmtree(d, ignore_errors=True)
    return None
