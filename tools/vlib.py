"""Infrastructure shared by the checks: building the harnesses from /repo's working
tree, running TLC, confirming rejections, evidence files and verdicts."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NUDB_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not be carried out."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="nudbv-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.violations = []      # dicts
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)


# ---------------------------------------------------------------- building

def build(ctx, src, out=None, flags=(), libs=("-lboost_thread", "-lboost_system", "-lpthread"), opt="-O1",
          cxx="g++", sanitize=False, asserts=True):
    out = ctx.path(out or os.path.splitext(os.path.basename(src))[0])
    cmd = [cxx, "-std=c++14", opt, "-g0", "-w", "-include", "stdexcept", "-include", "cstdlib",
           *(["-DBOOST_ENABLE_ASSERT_HANDLER"] if asserts else []),
           "-I" + os.path.join(REPO, "include"), "-I" + HARN, *flags, os.path.join(HARN, src), "-o", out, *libs]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build %s:\n%s" % (src, p.stdout[-4000:]))
    return out


def build_conc(ctx):
    """The concurrent driver: its memory accesses are instrumented, the scheduler supplies the run-time system."""
    if getattr(ctx, "conc_exe", None):
        return ctx.conc_exe
    a, b, out = ctx.path("sched.o"), ctx.path("conc.o"), ctx.path("conc")
    base = ["g++", "-std=c++14", "-O1", "-g", "-w", "-c"]
    cmds = [base + [os.path.join(HARN, "sched.cpp"), "-o", a],
            base + ["-include", "stdexcept", "-include", "cstdlib", "-DBOOST_ENABLE_ASSERT_HANDLER", "-I" + os.path.join(REPO, "include"),
                    "-I" + HARN, "-fsanitize=thread", os.path.join(HARN, "conc.cpp"), "-o", b],
            ["g++", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", a, b, "-o", out, "-lboost_thread", "-lboost_system",
             "-lpthread", "-ldl"]]
    for c in cmds:
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot build conc:\n" + p.stdout[-4000:])
    ctx.conc_exe = out
    return out


def build_async(ctx, src, **kw):
    import threading
    box = {}

    def go():
        try:
            box["r"] = build(ctx, src, **kw)
        except Exception as e:      # noqa
            box["e"] = e
    th = threading.Thread(target=go)
    th.start()

    def wait():
        th.join()
        if "e" in box:
            raise box["e"]
        return box["r"]
    return wait


def run(ctx, cmd, timeout=600, env=None, ok=(0,)):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e,
                           cwd=ctx.dir)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: %s" % " ".join(cmd))
    if p.returncode not in ok:
        raise CheckError("%s: exit %d\n%s%s" % (" ".join(cmd), p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
    return p


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(ctx, module, cfg=None, env=None, workers=NCPU, simulate=None, depth=None, timeout=800, expect=None,
        deadlock=False, heap="6g", extra=(), count=True, cfgtext=None):
    """Runs TLC. expect: None, or a set of allowed outcomes; the result has .ok, .rejects, .printed, .violated"""
    md = tempfile.mkdtemp(prefix="md", dir=ctx.dir)
    if cfgtext is not None:
        cfg = os.path.join(md, "m.cfg")
        with open(cfg, "w") as f:
            f.write(cfgtext)
    else:
        cfg = os.path.join(SPEC, cfg or module + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + md, "-cp", TLAJARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-config", cfg, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(ctx.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    if not deadlock:
        cmd += ["-deadlock"]
    cmd += list(extra)
    cmd += [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e,
                           cwd=ctx.dir)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timeout on %s" % module)
    r = TlcResult()
    r.out, r.rc = out, rc
    r.states = r.distinct = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    elif simulate:
        m = re.findall(r"states generated[:=]? ?([\d,]+)|([\d,]+) states checked", out)
        if m:
            r.states = int("".join(m[-1]).replace(",", ""))
            r.distinct = r.states
    r.ok = rc == 0 and ("No error has been found" in out or (simulate and "Error" not in out))
    v = re.search(r"(?:Invariant|Action property|Temporal properties|Property|property)\s*(\S*)\s*(?:is|was|were) violated|Temporal propert[^\n]* violated", out)
    r.violated = v.group(0) if v else None
    r.rejects = [(a, int(b)) for a, b in re.findall(r'<<"REJECT", "([^"]*)", (-?\d+)>>', out)]
    r.why = [(a, int(b), c) for a, b, c in re.findall(r'<<"WHY", "([^"]*)", (-?\d+), "([^"]*)">>', out)]
    if count:
        ctx.states += r.distinct
        ctx.transitions += r.states
    shutil.rmtree(md, ignore_errors=True)
    return r


def model(ctx, module, cfg=None, name=None, must_fail=False, **kw):
    """Model-checks a design specification; a failure here is an error of the machinery, since the
    specification does not depend on the code."""
    t = time.time()
    r = tlc(ctx, module, cfg, **kw)
    if must_fail:
        if r.violated is None:
            raise CheckError("mutated design %s was accepted:\n%s" % (name or cfg, r.out[-1500:]))
    elif not r.ok:
        raise CheckError("design model %s %s: %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
    ctx.models.append({"model": name or cfg or module, "distinct_states": r.distinct, "states_generated": r.states,
                       "mutant_refuted": bool(must_fail), "wall_s": round(time.time() - t, 1)})
    ctx.log("model", name or cfg or module, "states", r.distinct, "ok" if not must_fail else "mutant refuted")
    return r


# ---------------------------------------------------------------- traces

def load(path):
    res = []
    with open(path, errors="replace") as f:
        for l in f:
            l = l.strip()
            if l:
                res.append(json.loads(l))
    return res


def validate(ctx, module, traces_file, env=None, workers=NCPU, timeout=800, count=True, cfg=None):
    """Trace validation: returns the list of (trace id, index of the rejected event)."""
    n = sum(1 for l in open(traces_file, errors="replace") if l.strip())
    if n == 0:
        raise CheckError("no traces")
    e = {"TRACES": traces_file}
    e.update(env or {})
    r = tlc(ctx, module, cfg, env=e, workers=workers, timeout=timeout, count=count)
    if not r.ok and not r.rejects:
        # find the traces the evaluation fails on
        raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
    if count:
        ctx.traces += n
    r.n = n
    return r


# ---------------------------------------------------------------- verdict

def replay_dir(ctx):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def violation(ctx, what, payload, tag=None):
    """Records a confirmed violation."""
    tag = tag or ("%s-%d" % (ctx.prop, len(ctx.violations) + 1))
    path = os.path.join(replay_dir(ctx), tag + ".json")
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "what": what, "seed": ctx.seed, "tier": ctx.tier, **payload}, f, indent=1)
    ctx.violations.append({"what": what, "replay": path})


def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def finish(ctx, level="model_checking", extra=None):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples[:6] or ["none"], "design_models": ctx.models}
    cov.update(ctx.notes)
    if extra:
        cov.update(extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in ctx.violations[:20]:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, v["replay"]))
    if not ctx.violations:
        ctx.log("holds on everything explored: %d traces, %d model states" % (ctx.traces, ctx.states))
    return 1 if ctx.violations else 0
