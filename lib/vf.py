"""Common machinery of the checks: building the code under test, running TLC, running drivers,
comparing, evidence, verdicts.  Nothing here knows about a particular property."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "tool1cd")
CLI = os.path.join(REPO, "src", "ctool1cd")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:"
            "allocator_may_return_null=1:quarantine_size_mb=16:exitcode=99:new_delete_type_mismatch=0:hard_rss_limit_mb=4000"}


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.tlc_runs = []
        self.samples = []
        self.memory = None
        self.assumptions = []
        self.extra = {}
        self.kinds = {}          # how many comparisons of each kind were made
        self.known = []
        self.level = "model_checking"
        self.hangs = 0

    def note(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def count(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def violation(self, key, what, replay):
        self.violations.append(dict(key=key, what=what, replay=replay))

    # ------------------------------------------------------------- finishing
    def finish(self):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        known = load_known(self.pid)
        fresh, listed = [], []
        for v in self.violations:
            (listed if any(k["match"] == v["key"] for k in known) else fresh).append(v)
        for k in known:
            if any(v["key"] == k["match"] for v in listed):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   comparisons=self.kinds, tlc_runs=self.tlc_runs)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        for i, v in enumerate(fresh[:5]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(p, "w", encoding="utf-8") as f:
                json.dump(v, f, ensure_ascii=False, indent=1, default=str)
            print("  ", v["what"][:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        self.note("%d states, %d transitions, %d traces against the code, comparisons %s, %d violations"
                  % (self.states, self.transitions, self.traces, self.kinds, len(fresh)))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if fresh else 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


# ----------------------------------------------------------------- building
CXX = ["g++", "-std=gnu++11", "-w", "-g1", "-include", "cstdint", "-I" + SRC, "-I" + CLI]


def _run_compile(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def _sources(root):
    res = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        res += [os.path.join(d, f) for f in sorted(files) if f.endswith(".cpp")]
    return res


def build(ctx, targets, asan=True, opt="-O1", defines=()):
    """targets: {exe name: [harness sources]}; the special source "CLI" is the command line program.
    Compiles the library from /repo's working tree every time."""
    flags = [opt] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []) + list(defines)
    out = ctx.path("build-asan" if asan else "build")
    os.makedirs(out, exist_ok=True)
    jobs, libobjs = [], []
    for s in _sources(SRC):
        o = os.path.join(out, os.path.relpath(s, SRC).replace("/", "_") + ".o")
        libobjs.append(o)
        jobs.append(CXX + flags + ["-c", s, "-o", o])
    exes = {}
    for name, srcs in targets.items():
        objs = []
        for s in srcs:
            if s == "CLI":
                for c in _sources(CLI):
                    o = os.path.join(out, "cli_" + os.path.basename(c) + ".o")
                    objs.append(o)
                    jobs.append(CXX + flags + ["-c", c, "-o", o])
            elif s == "CLILIB":
                for c in _sources(CLI):
                    if os.path.basename(c) == "cTool_1CD_Main.cpp":
                        continue
                    o = os.path.join(out, "cli_" + os.path.basename(c) + ".o")
                    objs.append(o)
                    jobs.append(CXX + flags + ["-c", c, "-o", o])
            else:
                o = os.path.join(out, "h_" + s + ".o")
                objs.append(o)
                jobs.append(CXX + flags + ["-I" + HARNESS, "-c", os.path.join(HARNESS, s), "-o", o])
        exes[name] = objs
    seen, uniq = set(), []
    for j in jobs:
        if j[-1] not in seen:
            seen.add(j[-1])
            uniq.append(j)
    uniq.sort(key=lambda j: -os.path.getsize(j[-3]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, txt in ex.map(_run_compile, uniq):
            if rc:
                raise CheckError("compilation failed:\n" + txt[-4000:])
    lib = os.path.join(out, "lib.a")
    if os.path.exists(lib):
        os.unlink(lib)
    rc, txt = _run_compile(["ar", "rcs", lib] + libobjs)
    if rc:
        raise CheckError(txt)
    res = {}
    for name, objs in exes.items():
        exe = os.path.join(out, name)
        rc, txt = _run_compile(["g++"] + flags + objs + [lib] + ["-o", exe, "-lboost_filesystem", "-lboost_regex",
                                                         "-lboost_system", "-lz", "-lpthread"])
        if rc:
            raise CheckError("link failed:\n" + txt[-4000:])
        res[name] = exe
    ctx.note("built", ", ".join(res), "(asan)" if asan else "")
    return res


# ----------------------------------------------------------------- TLC
def tlc_inline(ctx, module, text, cfg, **kw):
    """Like tlc, for a module given as text (a model instance)."""
    return tlc(ctx, module, cfg, module_text=text, **kw)


def tlc(ctx, module, cfg, module_text=None, files=None, name=None, simulate=None, depth=None, workers=JOBS, timeout=600, heap="6g",
        want=True, expect_ok=True, props=(), coverage=False):
    """Runs TLC on spec/<module>.tla with the given cfg text. Returns the JSON values the
    specification printed (PrintT(ToJson(..))).  A TLC error is a CheckError unless expect_ok=False."""
    name = name or module
    d = ctx.path("tlc_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if module_text:
        with open(os.path.join(d, module + ".tla"), "w", encoding="utf-8") as f:
            f.write(module_text)
    for fn, tx in (files or {}).items():
        with open(os.path.join(d, fn), "w", encoding="utf-8") as f:
            f.write(tx)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + ctx.work] + list(props) + \
          ["-cp", TLA_CP, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(ctx.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + name)
    text = r.stdout.decode("utf-8", "replace")
    vals, rest = [], []
    for line in text.split("\n"):
        if line.startswith('"{') or line.startswith('"['):
            if want:
                vals.append(json.loads(json.loads(line)))
        else:
            rest.append(line)
    rest = "\n".join(x for x in rest if not re.match(r"(Parsing|Semantic processing|Linting)", x))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", rest)
    gen = dist = 0
    if m:
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    else:
        m = re.search(r"Progress: ([\d,]+) states checked, ([\d,]+) traces", rest) or \
            re.search(r"The number of states generated: ([\d,]+)", rest)
        if m:
            gen = dist = int(m.group(1).replace(",", ""))
    ok = r.returncode == 0 and "Error:" not in rest
    if not ok and expect_ok:
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (name, r.returncode, rest[-3500:]))
    ctx.states += dist
    ctx.transitions += gen
    ctx.tlc_runs.append(dict(run=name, mode="simulate" if simulate else "exhaustive", states=dist,
                             generated=gen, seconds=round(time.time() - t, 1)))
    ctx.note("TLC %s: %d distinct, %d generated, %d records, %.1fs" % (name, dist, gen, len(vals), time.time() - t))
    shutil.rmtree(d, ignore_errors=True)
    return (vals, ok, rest) if not expect_ok else vals


# ----------------------------------------------------------------- drivers
STALL = 90          # seconds without an answer; answers take milliseconds

class Enough(Exception):
    """what was found is enough to stop: the program hangs"""


def _talk(p, data, total, stall, limit):
    """(stdout, stderr, hung): feeds the program and gives up when it prints nothing more for `stall` seconds, runs for
    `total` seconds or prints more than `limit` bytes"""
    out, err = [], []
    seen = dict(last=time.time(), size=0)

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def read(f, to, counts):
        while True:
            b = os.read(f.fileno(), 1 << 16)
            if not b:
                return
            if seen["size"] <= limit:
                to.append(b)
            seen["size"] += len(b)
            if counts:
                seen["last"] = time.time()

    ts = [threading.Thread(target=a, args=b, daemon=True) for a, b in
          ((feed, ()), (read, (p.stdout, out, True)), (read, (p.stderr, err, False)))]
    for t in ts:
        t.start()
    hung, start = False, time.time()
    while True:
        try:
            p.wait(0.01 if time.time() - start < 1 else 0.2)
            break
        except subprocess.TimeoutExpired:
            if time.time() - seen["last"] > stall or time.time() - start > total or seen["size"] > limit:
                hung = True
                p.kill()
                p.wait()
                break
    for t in ts[1:]:
        t.join(10)
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            f.close()
        except (BrokenPipeError, OSError):
            pass
    return b"".join(out), b"".join(err), hung


def _drive_chunk(exe, cases, env, cwd, timeout, args):
    """cases: list of command lines. Returns list of result objects (dict) in order."""
    out = []
    i = 0
    crashes = 0
    while i < len(cases):
        start = time.time()
        p = subprocess.Popen(exe + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=cwd)
        so, se, hung = _talk(p, ("\n".join(cases[i:]) + "\n").encode(), max(timeout, 800), STALL, 1 << 31)
        got = []
        for line in so.decode("utf-8", "replace").split("\n"):
            if line.startswith("@"):
                try:
                    got.append(json.loads(line[1:]))
                except ValueError:
                    break
        got = got[:len(cases) - i]
        out += got
        i += len(got)
        if i < len(cases):
            err = se.decode("utf-8", "replace")
            m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
            where = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/\S+)", err)[:6]
            out.append({"crash": "hang" if hung else (m.group(1) if m else "exit %s" % p.returncode),
                        "where": [a + " " + os.path.basename(b) for a, b in where], "stderr": err[-600:] if not m else ""})
            i += 1
            crashes += 5 if hung or time.time() - start > 20 else 1       # slow ends, as by lack of memory, are not repeated often
            if crashes >= 10:
                out += [{"crash": "skipped after repeated crashes"}] * (len(cases) - i)
                break
    return out


def drive(ctx, exe, cases, timeout=240, chunk=None, args=(), cwd=None, env=None):
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e["TMPDIR"] = ctx.path("tmp")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    if env:
        e.update(env)
    n = len(cases)
    if n == 0:
        return []
    k = chunk or max(1, (n + JOBS - 1) // JOBS)
    parts = [cases[j:j + k] for j in range(0, n, k)]
    res = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(_drive_chunk, _limit(ctx) + [exe], p, e, cwd or ctx.work, timeout, args) for p in parts]
        for f in futs:
            res += f.result()
    assert len(res) == n
    return res


def _limit(ctx):
    """ctx.memory bounds the address space of a program (MB); programs built with asan cannot be bounded this way"""
    return ["prlimit", "--as=%d" % (ctx.memory << 20)] if ctx.memory else []


def run_cli(ctx, exe, args, cwd=None, timeout=60, home=None):
    """(exit code, stdout, stderr); the code is -999 if the program does not end. After three such runs the check stops"""
    if ctx.hangs >= 3:
        raise Enough
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e["TMPDIR"] = ctx.path("tmp")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    p = subprocess.Popen(_limit(ctx) + [exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or ctx.work)
    so, se, hung = _talk(p, b"", timeout, timeout, 1 << 26)
    if hung:
        ctx.hangs += 1
        if ctx.hangs == 3:
            a = " ".join(os.path.basename(x) for x in args)
            ctx.violation("hang", "the program does not end within %d seconds: %s" % (timeout, a), dict(args=list(args)))
        return -999, "", "timeout"
    return p.returncode, so.decode("utf-8", "replace"), se.decode("utf-8", "replace")


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"


def compare(ctx, exe, items, differs, keyof, args=(), timeout=240, what="case", maxrep=5, chunk=None):
    """items: list of (case line, expected); differs(expected, got) -> None or text.
    A difference is reported only after the same case, run alone again, differs again."""
    got = drive(ctx, exe, [c for c, _ in items], args=args, timeout=timeout, chunk=chunk)
    bad = hangs = 0
    for (c, exp), g in zip(items, got):
        ctx.count(what)
        ctx.traces += 1
        d = differs(exp, g)
        if d is None:
            continue
        if g.get("crash", "").startswith("skipped"):
            continue
        bad += 1
        if bad > 12:
            continue
        if hangs and g.get("crash") == "hang":
            continue
        g2 = drive(ctx, exe, [c], args=args, timeout=timeout)[0]
        hangs += g2.get("crash") == "hang"
        d2 = differs(exp, g2)
        if d2 is None:
            ctx.note("not confirmed:", c[:200], d)
            continue
        ctx.violation(keyof(c, exp), "%s: %s" % (what, d2), dict(case=c, expected=exp, got=g2, driver=os.path.basename(exe)))
    if hangs:
        raise Enough
    return bad


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py <property> [quick|thorough]; properties:", " ".join(sorted(table)))
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier)
    try:
        try:
            table[pid](ctx)
        except Enough:
            ctx.note("stopped: the program hangs")
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK ERROR:", e)
        shutil.rmtree(ctx.work, ignore_errors=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.work, ignore_errors=True)
        rc = 2
    sys.exit(rc)
