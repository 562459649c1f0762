"""solvers in threads under a seeded scheduler that preempts at every line of the package

Two to four solvers run in real threads of one process, exactly one at a time; the
scheduler decides at every executed line (or bytecode instruction) who continues.  Each
solver's results are compared bit for bit with those of a solo run in a fresh process.
"""

import os

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model, threads

ENV = dict(SIM_LOCKS="1")
QUICK = dict(runs=1400, limit=80, rerun=30)
THOROUGH = dict(runs=200000, limit=780, rerun=300)
RULE = "a run counts when threads were switched while more than one was running; two runs are distinct when the sequence of places in the source where a thread was preempted differs"
MEASURE = "hash of the sequence of (file:line) preempted at, with the number of solvers"
REAL = ["fvhoe.* running in real threads", "numpy, scipy, tqdm, pickle"]
STUB = ["thread scheduling: the simulator's baton scheduler", "threading.Lock and RLock: cooperative versions", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["threads interleave at lines or bytecode instructions of the package and at user callbacks; interleavings inside a numpy call are not explored", "CPython with the global interpreter lock"]


def relative(rng, cfg):
    """a configuration that shares shapes and parameters with cfg"""
    c = dict(cfg)
    r = rng.random()
    if r < 0.25:
        return c
    for k in rng.sample(["ic", "gamma", "CFL", "riemann", "domain", "fv_snap", "integrator", "passives", "p", "limits", "floor", "floors"], rng.randint(1, 3)):
        if k == "ic":
            c["ic"] = dict(name=rng.choice(["waves", "sinus", "blob"]), seed=rng.randint(0, 999), amp=0.1, v=rng.choice([0.0, 0.6]))
        elif k == "gamma":
            c["gamma"] = rng.choice([1.4, 5 / 3, 2.0])
        elif k == "CFL":
            c["CFL"] = rng.choice([0.2, 0.4, 0.7])
        elif k == "riemann" and c["riemann"] != "advection_upwind":
            c["riemann"] = rng.choice(["hllc", "llf"])
        elif k == "domain":
            c["domain"] = [[0, 1], [0, 2], [0, 1]]
        elif k == "fv_snap":
            c["fv_snap"] = not c["fv_snap"]
        elif k == "integrator":
            c["integrator"] = rng.choice(["euler", "ssprk2", "ssprk3", "rk4"])
        elif k == "passives":
            c["passives"] = rng.choice([[], ["dye"], ["other", "dye"]])
        elif k == "p":
            c["p"] = [max(0, x - rng.randint(0, 1)) for x in c["p"]]
        elif k == "floor":
            c["csq_floor"] = rng.choice([1e-10, 1e-3, 2.5, 2.5])
        elif k == "floors":
            c[rng.choice(["density_floor", "pressure_floor"])] = rng.choice([1e-6, 0.9, 1.02])
        elif k == "limits" and c["limiting"]:
            c["NAD"] = rng.choice([1e-3, 0.0])
            c["NAD_vars"] = rng.choice([None, ["P"]])
            c["limiter"] = rng.choice(["minmod", "moncen"])
    return c


def gen(rng, tier):
    n = rng.choices([2, 3, 4], [6, 3, 1])[0]
    base = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.3)
    solvers = []
    for i in range(n):
        cfg = dict(base) if i == 0 else relative(rng, base) if rng.random() < 0.8 else model.gen_cfg(rng, "tiny")
        cfg["progress"] = rng.random() < 0.15
        calls, t = [], 0.0
        for _ in range(rng.choice([1, 1, 2])):
            kw, t2 = inproc.gen_args(rng, cfg, t, steps=rng.choice([1.5, 2.5]))
            if "T" in kw and kw.get("exact", True):
                t = t2
            calls.append(kw)
        solvers.append(dict(cfg=cfg, calls=calls, early=rng.random() < 0.25, save=rng.random() < 0.2))
    return dict(
        solvers=solvers,
        share=rng.random() < 0.6,
        longest=rng.choice([3, 10, 30, 100, 1000, 3000]),
        opcodes=rng.random() < 0.25,
        segments=None,
        seed=rng.randint(0, 1 << 30),
    )


def explicit(scn, schedule):
    return {**scn, "segments": schedule}


def outcome(s, cfg):
    return dict(
        state=model.state_digest(s),
        times=model.dig([float(t) for t in s.timestamps]),
        snaps=[model.dig(x) for x in s.snapshots],
        snap_times=[float(t) for t in s.snapshot_times],
        steps=int(s.step_count),
        t=float(s.t),
    )


def work(s, spec, where):
    for i, kw in enumerate(spec["calls"]):
        kw = dict(kw)
        if spec["save"] and i == len(spec["calls"]) - 1 and "T" in kw:
            kw["snapshot_dir"] = where
        getattr(s, spec["cfg"]["integrator"])(**kw)
    out = outcome(s, spec["cfg"])
    if spec["save"] and os.path.exists(where):
        s.snapshot_dir = where
        s.read_snapshots()
        out["loaded"] = [model.dig(x) for x in s.snapshots]
    return out


class Quiet:
    def write(self, text):
        return len(text)

    def flush(self):
        pass


def run(scn, ctx):
    import random
    import sys

    # the interpreter waits for its own lock until deadlines of this clock: keep them ahead
    inproc.begin(scn["seed"], alloc=False, mono=10**18)
    sys.stderr = Quiet()
    specs = scn["solvers"]
    solo = []
    for i, spec in enumerate(specs):
        solo.append(inproc.forked(lambda: work(model.build(spec["cfg"]), spec, os.path.join(ctx.scratch, f"solo{i}"))))
        if solo[-1][0] != "ok":
            raise Skip("a solo run raises " + solo[-1][1].split(":")[0])
    sched = None
    shared = {}

    def hook(name):
        if sched is not None and sched.mine():
            sched.point()

    def make(spec):
        cfg = spec["cfg"]
        kw = {}
        if scn["share"]:
            # equal objects are built once and given to every solver that wants them
            for name, key, f in (
                ("ic", (cfg["ic"], cfg["form"], cfg["dims"], cfg["gamma"], cfg["domain"]), lambda: model.make_ic(cfg)),
                ("bc", (cfg["bc"], cfg["dirichlet"], cfg["gamma"], len(cfg["passives"])), lambda: model.make_bc(cfg, hook)),
                ("passives", (cfg["passives"], cfg.get("front")), lambda: model.passive_functions(cfg)),
            ):
                k = (name, repr(key))
                if k not in shared:
                    shared[k] = f()
                else:
                    ctx.probe("shared " + name)
                kw[name] = shared[k]
        return model.build(cfg, hook=hook, **kw)

    early = [make(spec) if spec["early"] else None for spec in specs]
    bodies = [(lambda i=i, spec=spec: work(early[i] or make(spec), spec, os.path.join(ctx.scratch, f"thread{i}"))) for i, spec in enumerate(specs)]
    rng = random.Random(scn["seed"])
    sched = threads.Sched(bodies, rng=rng, longest=scn["longest"], segments=scn["segments"], opcodes=scn["opcodes"])
    results = sched.run()
    ctx.schedule = sched.segments
    ctx.fault("preemption", sched.switches)
    ctx.nontrivial = sched.switches > len(specs)
    ctx.trace.append((len(specs), sched.where))
    ctx.event("schedule", sched.points, sched.switches, sched.segments[:50])
    ctx.probe("bytecode level" if scn["opcodes"] else "line level")
    for i, (res, (_, want)) in enumerate(zip(results, solo)):
        ctx.event(i, res)
        if res is None or "error" in res:
            raise Violation("thread-raises", f"solver {i} raised {res and res['error']} next to {len(specs) - 1} others; alone it ends normally")
        ctx.steps += res["steps"]
        ctx.sim_time += res["t"]
        for k in want:
            if res.get(k) != want[k]:
                raise Violation("influenced", f"solver {i}: {k} differs from that of the same solver running alone ({sched.switches} switches)")


def shrinks(scn):
    if len(scn["solvers"]) > 2:
        for i in range(len(scn["solvers"])):
            yield {**put(scn, ["solvers"], scn["solvers"][:i] + scn["solvers"][i + 1 :]), "segments": None}
    segs = scn["segments"]
    if segs is not None:
        n = len(segs)
        for cut in sorted({n // 8, n // 4, n // 2, 3 * n // 4, n - 1}):
            if 0 <= cut < n:
                yield put(scn, ["segments"], segs[:cut])
        if n <= 60:
            for i in range(n):
                rest = segs[:i] + segs[i + 1 :]
                merged = []
                for t, k in rest:
                    if merged and merged[-1][0] == t:
                        merged[-1] = [t, merged[-1][1] + k]
                    else:
                        merged.append([t, k])
                yield put(scn, ["segments"], merged)
    for i, sp in enumerate(scn["solvers"]):
        if len(sp["calls"]) > 1:
            yield put(scn, ["solvers", i, "calls"], sp["calls"][:1])
        for j, kw in enumerate(sp["calls"]):
            if len(kw) > 1:
                yield put(scn, ["solvers", i, "calls", j], {k: v for k, v in kw.items() if k in ("T", "n")})
        if sp["save"]:
            yield put(scn, ["solvers", i, "save"], False)
    if scn["opcodes"] and segs is None:
        yield {**scn, "opcodes": False}
    if segs is None:
        for i in range(len(scn["solvers"])):
            yield from model.shrink_cfg(scn, "solvers", i, "cfg")
