#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property of NuDB (see DESIGN.md)."""
import json, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib, gens
from vlib import Ctx, CheckError, build_async, run, tlc, model, validate, violation, finish, load

# ------------------------------------------------------------------ kv group


def aspects(*a):
    a = list(a) + ["-"] * 4
    return {"A%d" % (i + 1): a[i] for i in range(4)}


def run_kv(ctx, exe, progs, tag="kv"):
    pf, of = ctx.path(tag + ".prog"), ctx.path(tag + ".nd")
    with open(pf, "w") as f:
        f.write("\n".join(progs) + "\n")
    sc = ctx.path(tag + ".scratch")
    os.makedirs(sc, exist_ok=True)
    run(ctx, [exe, pf, of, str(vlib.NCPU), sc], timeout=800)
    return of


def rejected(ctx, module, of, env, wanted=None):
    """validates; returns {id: index}"""
    r = validate(ctx, module, of, env)
    return dict(r.rejects)


def confirm_and_report(ctx, exe, progs, of, rej, module, env, runner=run_kv, idkey=lambda p: p.split()[0][3:], kind="kv"):
    """Re-runs every rejected program; only a repeated rejection is a violation."""
    if not rej:
        return
    byid = {idkey(p): p for p in progs}
    ids = sorted(rej)[:12]
    ctx.log("rejected:", len(rej), ids[:5])
    of2 = runner(ctx, exe, [byid[i] for i in ids], tag="confirm")
    r2 = validate(ctx, module, of2, env, count=False)
    rej2 = dict(r2.rejects)
    tr = {t["id"]: t for t in load(of2)}
    for i in ids:
        if i not in rej2:
            ctx.log("not repeated:", i)
            continue
        t = tr[i]
        n = rej2[i]
        ev = t["ev"][n - 1] if 0 < n <= len(t["ev"]) else t.get("crash", "the driver died: " + str(t.get("crash")))
        what = "%s: trace %s rejected at event %s: %s" % (module, i, n, json.dumps(ev)[:300])
        print(what)
        violation(ctx, what, {"program": byid[i], "event": ev, "index": n, "spec": module, "env": env, "runner": kind,
                              "how": "python3 tools/check.py %s --replay <this file>" % ctx.prop}, tag="%s-%s" % (ctx.prop, i))
    if not ctx.violations:
        raise CheckError("rejections did not repeat: %s" % ids)


def kv_check(ctx, progs, asp, module="TraceKV", kind="kv"):
    exe = ctx.kv()
    of = run_kv(ctx, exe, progs)
    env = aspects(*asp)
    rej = rejected(ctx, module, of, env)
    for p in progs[::max(1, len(progs) // 3)][:3]:
        ctx.samples.append(p[:400])
    confirm_and_report(ctx, exe, progs, of, rej, module, env, kind=kind)


def tlc_histories(ctx, n, nk, limit):
    r = tlc(ctx, "GenKV", env={"GENLEN": n, "GENKEYS": nk})
    if not r.ok:
        raise CheckError("GenKV: " + r.out[-2000:])
    h = []
    for l in r.out.splitlines():
        if l.startswith('"PROG '):
            h.append(json.loads(json.loads(l)[5:]))
    ctx.models.append({"model": "GenKV len=%d keys=%d" % (n, nk), "distinct_states": r.distinct,
                       "states_generated": r.states, "histories": len(h)})
    h.sort(key=str)
    if len(h) > limit:
        h = ctx.rng.sample(h, limit)
    return h


def seq_programs(ctx, obs, limit, n=5):
    hs = tlc_histories(ctx, n, 3, 10 ** 9)
    res = []
    rng = ctx.rng
    # three index situations: an empty database, a full bucket in front of a chain, an ordinary one
    pre = [("e", "", dict(hm=1, bs=128, lf=500000, ks=4)),
           ("s", " ".join("i:%d:%d:9" % (100 + q, 100 + q) for q in range(7)) + " f", dict(hm=2, bs=104, lf=900000, ks=4)),
           ("x", " ".join("i:%d:%d:30" % (100 + q, 100 + q) for q in range(5)) + " c o", dict(hm=0, bs=256, lf=500000, ks=20)),
           ("t", "i:100:100:9 i:101:101:9 i:102:102:9 i:103:103:9 f", dict(hm=4, bs=104, lf=333333, ks=8))]
    lim = max(1, limit // len(pre))
    for tag, p, o in pre:
        c = gens.config(rng, True, kl=0, salt=1, app=1, uid=1, **o)
        for j, h in enumerate(rng.sample(hs, min(lim, len(hs)))):
            res.append(gens.kv_seq(h, "q%s%d" % (tag, j), obs, p, c))
    return res


def many(ctx, n, fn, tag):
    return [fn(ctx.rng, "%s%d" % (tag, j)) for j in range(n)]


def first(x):
    return x[0] if isinstance(x, tuple) else x


def c01(ctx):
    q = ctx.scale(1, 10)
    linhash_models(ctx, ("late", "keepchain", "nochain", "oldmod", "fracreset"))
    p = seq_programs(ctx, "", ctx.scale(1200, 60000), ctx.scale(5, 6))
    p += [first(gens.kv_random(ctx.rng, "r%d" % j, "", n_ops=50, n_keys=40, small=j % 2 == 0)) for j in range(250 * q)]
    p += [first(gens.kv_dense(ctx.rng, "d%d" % j, "")) for j in range(120 * q)]
    p += [gens.kv_giant(ctx.rng, "g%d" % j, "") for j in range(24 * q)]
    p += [gens.kv_wide(ctx.rng, "w%d" % j, "") for j in range(24 * q)]
    p += [gens.kv_huge(ctx.rng, "h%d" % j, "") for j in range(6 * q)]
    p += [gens.kv_chain(ctx.rng, "l%d" % j, "") for j in range(40 * q)]
    kv_check(ctx, p, ("map", "api"))


def c02(ctx):
    q = ctx.scale(1, 10)
    linhash_models(ctx, ("oldmod",))
    w = {"i": 5, "dup": 6, "g": 0.5, "f": 1, "r": 0.6}
    p = seq_programs(ctx, "", ctx.scale(1200, 60000), ctx.scale(5, 6))
    p += [first(gens.kv_random(ctx.rng, "r%d" % j, "", n_ops=70, n_keys=40, small=j % 2 == 0, w=w, big=0.01)) for j in range(250 * q)]
    p += [first(gens.kv_dense(ctx.rng, "d%d" % j, "")) for j in range(150 * q)]
    p += [gens.kv_giant(ctx.rng, "g%d" % j, "") for j in range(16 * q)]
    p += [gens.kv_wide(ctx.rng, "w%d" % j, "") for j in range(16 * q)]
    p = [with_dups(ctx.rng, x) for x in p]
    kv_check(ctx, p, ("map",))
    conc_check(ctx, [gens.conc_dup(ctx.rng, "u%d" % j, 80, ctx.rng.randrange(10 ** 6)) for j in range(100 * q)], ("lin",))


def with_dups(rng, prog):
    """before the last close, inserts every key again"""
    toks = prog.split()
    ks = sorted({t.split(":")[1] for t in toks if t.startswith("i:")})
    if toks[-1] not in ("c", "D"):
        return prog
    rng.shuffle(ks)
    ks = ks[:30]
    half = ["i:%s:77777:6" % k for k in ks]
    return " ".join(toks[:-1] + half + ["f"] + half[::-1][:10] + [toks[-1]])


def c08(ctx):
    q = ctx.scale(1, 8)
    linhash_models(ctx, ("late", "keepchain", "nochain", "oldmod"))
    p = [first(gens.kv_dense(ctx.rng, "d%d" % j, "s")) for j in range(70 * q)]
    p += [first(gens.kv_random(ctx.rng, "r%d" % j, "s", n_ops=45, n_keys=36, small=True)) for j in range(90 * q)]
    p += [first(gens.kv_random(ctx.rng, "b%d" % j, "s", n_ops=30, n_keys=36, small=False)) for j in range(30 * q)]
    p += seq_programs(ctx, "s", ctx.scale(400, 8000), 5)
    p += [gens.kv_chain(ctx.rng, "l%d" % j, "s") for j in range(10 * q)]
    p += [gens.kv_wide(ctx.rng, "w%d" % j, "s") for j in range(20 * q)]
    kv_check(ctx, p, ("idx", "api"))


def c09(ctx):
    q = ctx.scale(1, 10)
    linhash_models(ctx, ("fracreset",))
    p = []
    for j in range(200 * q):
        p.append(first(gens.kv_random(ctx.rng, "r%d" % j, "", n_ops=80, n_keys=70, small=j % 3 != 0,
                                      w={"i": 10, "f": 1.2, "g": 1, "r": 0.2}, big=0)))
    p += [first(gens.kv_dense(ctx.rng, "d%d" % j, "")) for j in range(150 * q)]
    p += seq_programs(ctx, "", ctx.scale(600, 20000), 5)
    p += [gens.kv_wide(ctx.rng, "w%d" % j, "", True) for j in range(20 * q)]
    kv_check(ctx, p, ("grow", "map"))


def c11(ctx):
    q = ctx.scale(1, 8)
    p = [gens.kv_rekey(ctx.rng, "k%d" % j) for j in range(220 * q)]
    p += [gens.kv_rekey_big(ctx.rng, "b%d" % j) for j in range(10 * q)]
    p += [gens.kv_far(ctx.rng, "f%d" % j, "sd", "R") for j in range(q)]
    kv_check(ctx, p, ("rk", "map", "api"))


def c13(ctx):
    q = ctx.scale(1, 8)
    p = [gens.kv_verify(ctx.rng, "v%d" % j) for j in range(160 * q)]
    p += [gens.kv_verify_big(ctx.rng, "b%d" % j) for j in range(10 * q)]
    p += [gens.kv_chain(ctx.rng, "l%d" % j, "s", True) for j in range(24 * q)]
    p += [gens.kv_far(ctx.rng, "f%d" % j, "s", "V") for j in range(q)]
    kv_check(ctx, p, ("ver",))


def c15(ctx):
    q = ctx.scale(1, 8)
    p = [gens.kv_visit(ctx.rng, "v%d" % j)[0] for j in range(220 * q)]
    p += [gens.kv_visit_big(ctx.rng, "b%d" % j) for j in range(24 * q)]
    p += [gens.kv_far(ctx.rng, "f%d" % j, "s", "W") for j in range(q)]
    kv_check(ctx, p, ("vis",))


def build_tool(ctx):
    """the command line tool of the tree under test"""
    w = build_async(ctx, os.path.join(vlib.REPO, "tools", "nudb.cpp"), out="nudb-tool", asserts=False, flags=("-fsanitize=address",),
                    libs=("-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_program_options", "-lpthread"))
    exe = ctx.kv()
    os.environ["NUDB_TOOL"] = w()
    return exe


def c23(ctx):
    build_tool(ctx)
    p = [gens.kv_tool(ctx.rng, "t%d" % j) for j in range(ctx.scale(500, 6000))]
    kv_check(ctx, p, ("map", "api", "idx", "rk"), module="TraceTool", kind="tool")


def c20(ctx):
    q = ctx.scale(1, 8)
    p = [first(gens.kv_dense(ctx.rng, "d%d" % j, "sc")) for j in range(80 * q)]
    p += [first(gens.kv_random(ctx.rng, "r%d" % j, "sc", n_ops=45, n_keys=36, small=True)) for j in range(80 * q)]
    p += seq_programs(ctx, "sc", ctx.scale(300, 6000), 5)
    p += [gens.kv_chain(ctx.rng, "l%d" % j, "sc") for j in range(10 * q)]
    p += [gens.kv_wide(ctx.rng, "w%d" % j, "sc") for j in range(20 * q)]
    kv_check(ctx, p, ("cost", "map"))


# ------------------------------------------------------------------ crash group


def run_crash(ctx, exe, progs, tag="crash"):
    pf, of = ctx.path(tag + ".prog"), ctx.path(tag + ".nd")
    with open(pf, "w") as f:
        f.write("\n".join(progs) + "\n")
    run(ctx, [exe, pf, of, str(vlib.NCPU), ctx.dir], timeout=800)
    return of


def crash_check(ctx, progs, asp):
    exe = ctx.crash()
    of = run_crash(ctx, exe, progs)
    env = aspects(*asp)
    tot = {"images": 0, "nests": 0, "faults": 0, "kills": 0}
    n = ev = 0
    for t in load(of):
        for k in tot:
            tot[k] += t.get(k, 0)
        n += 1
        ev += len(t["ev"])
    ctx.notes["crash_images_recovered"] = tot["images"]
    ctx.notes["interrupted_recoveries"] = tot["nests"]
    ctx.notes["faulty_recoveries"] = tot["faults"]
    ctx.notes["power_failures_after_kills"] = tot["kills"]
    ctx.notes["trace_events"] = ctx.notes.get("trace_events", 0) + ev
    ctx.log("traces", n, "events", ev, tot)
    rej = rejected(ctx, "TraceCrash", of, env)
    for p in progs[::max(1, len(progs) // 3)][:3]:
        ctx.samples.append(p[:400])
    if not rej:
        return
    ids = sorted(rej)
    ctx.log("rejected:", len(ids), ids[:6])
    pids = sorted({i.split("@")[0] for i in ids})[:8]
    by = {p.split()[0][3:]: p for p in progs}
    of2 = run_crash(ctx, exe, [by[x] for x in pids], "confirm")
    rej2 = dict(validate(ctx, "TraceCrash", of2, env, count=False).rejects)
    tr = {t["id"]: t for t in load(of2)}
    shown = 0
    for i in sorted(rej2):
        if i not in rej or shown >= 12:
            continue
        shown += 1
        t, n = tr[i], rej2[i]
        e = t["ev"][n - 1] if 0 < n <= len(t["ev"]) else t.get("crash")
        s = json.dumps({k: v for k, v in e.items() if k not in ("snap", "nest")} if isinstance(e, dict) else e)[:300]
        what = "TraceCrash: trace %s rejected at event %s: %s" % (i, n, s)
        print(what)
        violation(ctx, what, {"program": by[i.split("@")[0]], "trace": i, "index": n, "event": e, "spec": "TraceCrash", "env": env,
                              "runner": "crash"}, tag="%s-%s" % (ctx.prop, i))
    if not ctx.violations:
        raise CheckError("rejections did not repeat: %s" % ids[:10])


COMMIT_BUGS = ("wrongsize nosync1 keyfirst lognew nosync2 skipempty nodsync truncfirst noksync nosync3 "
               "rectruncfirst recnodsync recnoksync").split()
REKEY_BUGS = "rknolog rknodsync rknoksync reckeep shortnosync".split()


def commit_cfg(n, per, stops, rekey, bug="none", prop=True):
    return ("SPECIFICATION Spec\nCONSTANTS NCOMMIT = %d PER = %d CAP = 1 STOPS = %d REKEY = %s BUG = \"%s\"\n"
            "INVARIANTS Atomic Undone Finished Idle\n%sCHECK_DEADLOCK FALSE\n"
            % (n, per, stops, rekey, bug, "PROPERTIES Stable\n" if prop else ""))


def commit_models(ctx, rekey, bugs=True):
    """The protocol of commit, recovery and rekey; deeper, and with mistakes planted in it, in the thorough tier."""
    def go(n, per, stops, bug="none"):
        model(ctx, "Commit", name="Commit %d commits of %d, %d stops, rekey %s, mistake %s" % (n, per, stops, rekey, bug),
              must_fail=bug != "none", cfgtext=commit_cfg(n, per, stops, str(rekey).upper(), bug, bug == "none"))
    if ctx.thorough:
        for c in ((3, 2, 3), (3, 1, 4)) if rekey else ((2, 2, 3), (3, 1, 3)):
            go(*c)
        for b in (REKEY_BUGS if rekey else COMMIT_BUGS) if bugs else ():
            go(3, 1, 3 if b == "shortnosync" else 2, b)
    else:
        go(*((3, 1, 2) if rekey else (2, 1, 3)))


CONC_BUGS = "nou nop0 noc1 lategen nostart p0first nofinish clearfirst holdm".split()
CONTEXT_BUGS = ("nowait oldstate nokick noinner keep noback noexit nostopkick noquiesce twofirst nofirst earlyoff staysoff").split()


def conc_models(ctx):
    """The locking of insert, fetch and commit: linearizable, and nobody waits for a commit; with mistakes in the thorough tier."""
    def go(r, w, calls, commits, bug="none"):
        names = lambda c, n: "{%s}" % ", ".join('"%s%d"' % (c, j + 1) for j in range(n))
        model(ctx, "Conc", name="Conc %d readers %d writers, %d calls each, %d commits, mistake %s" % (r, w, calls, commits, bug),
              must_fail=bug != "none",
              cfgtext=("SPECIFICATION Spec\nCONSTANTS KEYS = {1, 2} HASHES = 4 READERS = %s WRITERS = %s CALLS = %d NB0 = 1\n"
                       " COMMITS = %d BUG = \"%s\"\nINVARIANTS Linearizable Complete\nPROPERTIES NoWaiting\nCHECK_DEADLOCK FALSE\n"
                       % (names("r", r), names("w", w), calls, commits, bug)))
    if ctx.thorough:
        go(1, 2, 2, 2)
        go(2, 1, 2, 2)
        for b in CONC_BUGS:
            go(1, 2, 2, 2, b)
    else:
        go(1, 1, 2, 2)


def context_models(ctx):
    """The context: one thread flushes a store, all that is inserted gets committed, close and stop_all end, and nothing is left."""
    def go(runners, stores, ops, patient=True, bug="none"):
        model(ctx, "Context", name="Context %d runners %d stores %d operations%s, mistake %s"
              % (runners, stores, ops, "" if patient else ", ticks at any time", bug), must_fail=bug != "none",
              cfgtext=("SPECIFICATION Spec\nCONSTANTS STORES = {%s} RUNNERS = {%s} CLIENTS = {\"c\"} OPS = %d STOPPER = TRUE PATIENT = %s\n"
                       " BUG = \"%s\"\nINVARIANTS OneUser Quiet Lists StopQuiet\n%sCHECK_DEADLOCK FALSE\n"
                       % (", ".join('"s%d"' % j for j in range(stores)), ", ".join('"r%d"' % j for j in range(runners)), ops,
                          str(patient).upper(), bug, "PROPERTIES Commits CloseEnds StopEnds\n" if patient else "")))
    if ctx.thorough:
        go(1, 2, 4)
        go(2, 2, 2)
        go(2, 2, 4, False)
        go(0, 3, 5)
        for b in CONTEXT_BUGS:
            go(1, 2, 4, True, b)
        go(1, 2, 4, False, "noflushing")
    else:
        go(1, 1, 4)
        go(1, 2, 3, False)


def linhash_models(ctx, bugs):
    model(ctx, "LinHash", "LinHash.cfg")
    if ctx.thorough:
        model(ctx, "LinHash", "LinHash2.cfg")
        for b in bugs:
            model(ctx, "LinHash", name="LinHash, mistake " + b, must_fail=True,
                  cfgtext=open(os.path.join(vlib.SPEC, "LinHash.cfg")).read().replace('"none"', '"%s"' % b))


def c04(ctx):
    commit_models(ctx, False)
    q = ctx.scale(1, 12)
    p = [gens.crash_prog(ctx.rng, "c%d" % j, "crash", var=24, depth=0, kill=4) for j in range(220 * q)]
    crash_check(ctx, p, ("map", "idx"))


def c05(ctx):
    commit_models(ctx, True)
    q = ctx.scale(1, 12)
    p = [gens.crash_prog(ctx.rng, "c%d" % j, "crash", var=12, nvar=4, depth=3, rf=1, kill=15, kdepth=3, kcap=1500) for j in range(70 * q)]
    p += [gens.crash_prog(ctx.rng, "k%d" % j, "crash", "rekey", var=12, nvar=4, depth=3, rf=1, kill=30, kdepth=3, kcap=1500) for j in range(40 * q)]
    crash_check(ctx, p, ("nest", "-"))


def c06(ctx):
    commit_models(ctx, False, False)
    q = ctx.scale(1, 10)
    p = [gens.crash_prog(ctx.rng, "f%d" % j, "fault", step=ctx.scale(3, 1), kill=15, nvar=3) for j in range(60 * q)]
    crash_check(ctx, p, ("err", "map", "idx"))
    conc_check(ctx, [gens.conc_fault(ctx.rng, "u%d" % j, 60, ctx.rng.randrange(10 ** 6)) for j in range(120 * q)], ("lin", "flt"))


def c12(ctx):
    commit_models(ctx, True)
    q = ctx.scale(1, 12)
    p = [gens.crash_prog(ctx.rng, "k%d" % j, "crash", "rekey", var=24, nvar=3, depth=2, rf=1, kill=40, kdepth=2, kcap=1500) for j in range(80 * q)]
    p += [gens.crash_prog(ctx.rng, "f%d" % j, "fault", "rekey", step=ctx.scale(2, 1), kill=40, kdepth=2, nvar=3) for j in range(40 * q)]
    crash_check(ctx, p, ("rk", "nest"))


def c07(ctx):
    commit_models(ctx, False, False)
    q = ctx.scale(1, 8)
    p = [first(gens.kv_random(ctx.rng, "r%d" % j, "d", n_ops=50, n_keys=36, small=j % 2 == 0)) for j in range(150 * q)]
    p += [first(gens.kv_dense(ctx.rng, "d%d" % j, "d")) for j in range(60 * q)]
    p += [gens.kv_rekey(ctx.rng, "k%d" % j) for j in range(60 * q)]
    p += [gens.kv_giant(ctx.rng, "g%d" % j, "d") for j in range(8 * q)]
    kv_check(ctx, p, ("data",))
    p = [gens.crash_prog(ctx.rng, "c%d" % j, "crash", var=16, nvar=3, depth=1) for j in range(100 * q)]
    p += [gens.crash_prog(ctx.rng, "y%d" % j, "crash", "rekey", var=16, nvar=3, depth=1) for j in range(30 * q)]
    crash_check(ctx, p, ("data",))


def c14(ctx):
    q = ctx.scale(1, 10)
    p = [gens.kv_corrupt(ctx.rng, "x%d" % j, 30) for j in range(160 * q)]
    kv_check(ctx, p, ("cor",))


def misc_check(ctx, progs):
    exe = ctx.exe("misc")
    of = run_kv(ctx, exe, progs, tag="misc")
    rej = rejected(ctx, "TraceMisc", of, {})
    for p in progs[::max(1, len(progs) // 3)][:3]:
        ctx.samples.append(p[:400])
    confirm_and_report(ctx, exe, progs, of, rej, "TraceMisc", {}, kind="misc")


def c16(ctx):
    q = ctx.scale(1, 20)
    p = [gens.misc_create(ctx.rng, "a%d" % j) for j in range(1500 * q)]
    p += [gens.misc_create(ctx.rng, "v%d" % j, ks=ctx.rng.choice([1, 4, 33, 65535]), bs=ctx.rng.choice([104, 128, 256, 65535]),
                           lf=ctx.rng.choice(["0.5", "0.000001", "0.99999994", "0.1"])) for j in range(300 * q)]
    p += [gens.misc_create(ctx.rng, "f%d" % j, faults=1, ks=ctx.rng.choice([1, 4, 33]), bs=ctx.rng.choice([104, 128, 256]), lf="0.5")
          for j in range(40 * q)]
    misc_check(ctx, p)


def c17(ctx):
    misc_check(ctx, gens.misc_open(ctx.rng, ctx.scale(600, 30000)))


def c22(ctx):
    commit_models(ctx, False, False)
    q = ctx.scale(1, 10)
    p = [gens.kv_close(ctx.rng, "z%d" % j) for j in range(500 * q)]
    p += [first(gens.kv_random(ctx.rng, "r%d" % j, "hd", n_ops=40, n_keys=36, small=j % 2 == 0)) for j in range(100 * q)]
    kv_check(ctx, p, ("fin", "map", "api", "data"))
    conc_check(ctx, [gens.conc_close(ctx.rng, "u%d" % j, 60, ctx.rng.randrange(10 ** 6)) for j in range(150 * q)], ("lin", "ctx"))


# ------------------------------------------------------------------ concurrency

def conc_check(ctx, progs, asp):
    exe = ctx.conc()
    of = run_kv(ctx, exe, progs, tag="conc")
    rej = rejected(ctx, "TraceConc", of, aspects(*asp))
    ctx.notes["schedules_run"] = sum(int(re.search(r" n=(\d+)", p).group(1)) for p in progs)
    for p in progs[::max(1, len(progs) // 3)][:3]:
        ctx.samples.append(p[:400])
    if rej:
        line = {t["id"]: t["prog"] for t in load(of)}
        ids = sorted(rej)[:12]
        sub = ["id=%s %s" % (x, re.sub(r"^id=\S+ ", "", line[x])) for x in ids]
        confirm_and_report(ctx, exe, sub, of, {x: rej[x] for x in ids}, "TraceConc", aspects(*asp), kind="conc")


def c03(ctx):
    conc_models(ctx)
    k = ctx.scale(1, 12)
    p = [gens.conc_lin(ctx.rng, "l%d" % j, 100, ctx.rng.randrange(10 ** 6)) for j in range(160 * k)]
    p += [gens.conc_small(ctx.rng, "s%d" % j, 400 * k, 1) for j in range(16)]
    p += [gens.conc_dup(ctx.rng, "u%d" % j, 60, ctx.rng.randrange(10 ** 6)) for j in range(50 * k)]
    p += [gens.conc_close(ctx.rng, "z%d" % j, 40, ctx.rng.randrange(10 ** 6)) for j in range(40 * k)]
    conc_check(ctx, p, ("lin",))


def c19(ctx):
    conc_models(ctx)
    k = ctx.scale(1, 12)
    p = []
    for j in range(250 * k):
        kind = "k" if j % 4 == 0 else "w"
        p.append(gens.conc_hold(ctx.rng, "h%d" % j, 30, ctx.rng.randrange(10 ** 6), kind, ctx.rng.randrange(0, 6 if kind == "k" else 30)))
    conc_check(ctx, p, ("prog", "lin"))


def c18(ctx):
    context_models(ctx)
    k = ctx.scale(1, 12)
    p = [gens.conc_ctx(ctx.rng, "c%d" % j, 60, ctx.rng.randrange(10 ** 6)) for j in range(250 * k)]
    conc_check(ctx, p, ("ctx",))


# ------------------------------------------------------------------ format

def be8(x):
    return list(int(x).to_bytes(8, "big"))


def c10(ctx):
    exe = ctx.exe("fmt")
    k = ctx.scale(1, 15)
    progs = [gens.fmt_write(ctx.rng, "w%d" % j) for j in range(220 * k)]
    # the hash function: every length up to three rounds of its widest loop, and longer ones
    ls = list(range(0, 104 if k == 1 else 300))
    for r in range(k):
        progs += [gens.fmt_hash(ctx.rng, "x%d_%d" % (r, j), ls[j:j + 8]) for j in range(0, len(ls), 8)]
        progs += [gens.fmt_hash(ctx.rng, "y%d_%d" % (r, j), [ctx.rng.randrange(100, 1000)]) for j in range(6)]
    # databases written by the specification
    n = 0
    for b in range(4 * k):
        ks, bs, salt, uid, app, lf = ctx.rng.choice([1, 2, 4, 6, 9]), ctx.rng.choice([104, 116, 128, 200]), ctx.rng.getrandbits(64), ctx.rng.getrandbits(64), ctx.rng.choice([0, 77, 2 ** 64 - 1]), ctx.rng.choice([1, 20000, 32768, 65535])
        pep = [int(x) for x in run(ctx, [exe, "pepper", "1", str(salt)]).stdout.split()]
        pf = ctx.path("param%d.json" % b)
        cases = gens.fmt_cases(ctx.rng, 40, ks)
        json.dump(dict(ks=ks, bs=bs, lf=lf, uid=be8(uid), app=be8(app), salt=be8(salt), pepper=pep, cases=cases), open(pf, "w"))
        r = tlc(ctx, "GenFormat", env={"PARAM": pf})
        if not r.ok:
            raise CheckError("GenFormat: " + r.out[-2000:])
        for l in r.out.splitlines():
            if l.startswith('"FILE '):
                f = json.loads(json.loads(l)[5:])
                ps = []
                for x, e in (("d", "dat"), ("k", "key"), ("l", "log")):
                    if x == "l" and not f["l"]:
                        continue
                    ps.append("%s=%s" % (e, bytes(f[x]).hex()))
                kv = ",".join("%s:%s" % (bytes(a["k"]).hex(), bytes(a["v"]).hex()) for a in f["kv"])
                progs.append("id=b%d%s mode=read ks=%d bs=%d lf16=%d hm=1 salt=%d app=%d uid=%d more=%d %s kv=%s" % (
                    b, f["id"], ks, bs, lf, salt, app, uid, ctx.rng.choice([0, 1, 5, 12]), " ".join(ps), kv))
                n += 1
        if n < 40 * (b + 1):
            raise CheckError("GenFormat: %d databases" % n)
    ctx.notes["databases_written_by_the_specification"] = n
    of = run_kv(ctx, exe, progs, tag="fmt")
    rej = rejected(ctx, "TraceFormat", of, {})
    for p in progs[::max(1, len(progs) // 3)][:3]:
        ctx.samples.append(p[:400])
    confirm_and_report(ctx, exe, progs, of, rej, "TraceFormat", {}, kind="fmt")


WRAP = ["open", "openat", "creat", "close", "pread", "pwrite", "read", "write", "fsync", "fdatasync", "ftruncate", "fstat", "stat", "unlink",
        "remove", "posix_fadvise", "lseek", "preadv", "pwritev", "readv", "writev", "access"]


def build_posix(ctx):
    if not getattr(ctx, "posix_exe", None):
        ctx.posix_exe = vlib.build(ctx, "posix.cpp", flags=("-fsanitize=address", "-U_FORTIFY_SOURCE"),
                              libs=tuple("-Wl,--wrap=" + x for x in WRAP) + ("-lboost_thread", "-lboost_system", "-lpthread"))
    return ctx.posix_exe


def build_pace(ctx):
    return build_async(ctx, "pace.cpp")()


def c24(ctx):
    exe = build_pace(ctx)
    p = [gens.pace(ctx.rng, "p%d" % j) for j in range(ctx.scale(6000, 60000))]
    of = run_kv(ctx, exe, p, tag="pace")
    ctx.notes["inserts_delayed"] = sum(1 for t in load(of) for e in t["ev"] if e["o"] == "insert" and e["sl"])
    rej = rejected(ctx, "TracePace", of, {})
    for x in p[::max(1, len(p) // 3)][:3]:
        ctx.samples.append(x[:400])
    confirm_and_report(ctx, exe, p, of, rej, "TracePace", {}, kind="pace")


def c25(ctx):
    exe = ctx.exe("contract")
    p = [gens.contract(ctx.rng, "u%d" % j) for j in range(ctx.scale(4000, 60000))]
    of = run_kv(ctx, exe, p, tag="contract")
    rej = rejected(ctx, "TraceContract", of, {})
    for x in p[::max(1, len(p) // 3)][:3]:
        ctx.samples.append(x[:400])
    confirm_and_report(ctx, exe, p, of, rej, "TraceContract", {}, kind="contract")


POSIX_BUGS = "nooffset nobuffer assumefull eofok eintr eintrok lostandpos".split()


def posix_scripts(ctx, n):
    """every behaviour of the model of the file layer"""
    r = tlc(ctx, "PosixIO", env={"GENLEN": n})
    if not r.ok:
        raise CheckError("PosixIO: " + r.out[-2000:])
    s = sorted({json.loads(l)[7:] for l in r.out.splitlines() if l.startswith('"SCRIPT ')})
    ctx.models.append({"model": "PosixIO answers<=%d" % n, "distinct_states": r.distinct, "states_generated": r.states, "behaviours": len(s)})
    if len(s) < 100:
        raise CheckError("PosixIO: %d behaviours" % len(s))
    return s


def c21(ctx):
    k = ctx.scale(1, 15)
    exe = build_posix(ctx)
    if ctx.thorough:
        for b in POSIX_BUGS:
            model(ctx, "PosixIO", name="PosixIO, mistake " + b, must_fail=True, env={"GENLEN": 4, "BUG": b})
    p = []
    for j, s in enumerate(posix_scripts(ctx, ctx.scale(5, 7))):
        f = s.split(" ")
        p.append(gens.posix_script("m%d" % j, f[0], f[1], f[2], f[4]))
    if len(p) > 30000 * k:
        p = ctx.rng.sample(p, 30000 * k)
    p += [gens.posix_random(ctx.rng, "r%d" % j) for j in range(3000 * k)]
    p += [gens.posix_refuse(ctx.rng, "f%d" % j) for j in range(400 * k)]
    p += [gens.posix_append(ctx.rng, "a%d" % j) for j in range(400 * k)]
    p += [gens.posix_giant(ctx.rng, "g%d" % j) for j in range(200 * k)]
    p += [gens.posix_store(ctx.rng, "s%d" % j) for j in range(200 * k)]
    of = run_kv(ctx, exe, p, tag="posix")
    rej = rejected(ctx, "TracePosix", of, {})
    ctx.notes["system_calls_answered"] = sum(t.get("calls", 0) for t in load(of))
    for x in p[::max(1, len(p) // 3)][:3]:
        ctx.samples.append(x[:400])
    confirm_and_report(ctx, exe, p, of, rej, "TracePosix", {}, kind="posix")


CHECKS = {k[1:].upper().replace("C", "C", 1): v for k, v in ()}
CHECKS = {n.upper(): f for n, f in list(globals().items()) if re.fullmatch(r"c\d\d", n)}


def replay(ctx, path):
    d = json.load(open(path))
    runner, exe = RUNNERS[d.get("runner", "kv")](ctx)
    of = runner(ctx, exe, [d["program"]], tag="replay")
    r = validate(ctx, d["spec"], of, d["env"])
    for t in load(of):
        n = dict(r.rejects).get(t["id"])
        print(json.dumps(t)[:100000])
        print("rejected at", n)
    return 1 if r.rejects else 0


RUNNERS = {"kv": lambda ctx: (run_kv, ctx.kv()), "crash": lambda ctx: (run_crash, ctx.crash()),
           "misc": lambda ctx: (run_kv, ctx.exe("misc")), "conc": lambda ctx: (run_kv, ctx.conc()), "fmt": lambda ctx: (run_kv, ctx.exe("fmt")),
           "tool": lambda ctx: (run_kv, build_tool(ctx)), "posix": lambda ctx: (run_kv, build_posix(ctx)),
           "pace": lambda ctx: (run_kv, build_pace(ctx)), "contract": lambda ctx: (run_kv, ctx.exe("contract"))}


def main():
    prop = sys.argv[1]
    if prop not in CHECKS:
        print("unknown property", prop)
        return 2
    ctx = Ctx(prop)
    built = {}

    def exe(name):
        if name not in built:
            built[name] = build_async(ctx, name + ".cpp", flags=("-fsanitize=address",))
        return built[name]()
    ctx.exe = exe
    ctx.kv = lambda: exe("kv")
    ctx.crash = lambda: exe("crash")
    ctx.conc = lambda: vlib.build_conc(ctx)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(ctx, sys.argv[3])
        CHECKS[prop](ctx)
        return finish(ctx)
    except CheckError as e:
        if ctx.violations:
            return finish(ctx)
        print("CHECK-ERROR", prop, e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
