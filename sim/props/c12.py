"""the same simulation in many simulated environments, compared bit for bit

Each run executes one simulation in a plain environment and in seeded hostile ones: memory
full of garbage, other clocks, process id, directory, random-number state, and other
solvers that ran, failed or were dropped before and in between.  Each seed runs again in a
process with another hash seed and its log must be the same.
"""

import copy
import gc
import os

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model, native
from .c08 import relative

CROSS = True
QUICK = dict(runs=1200, limit=80)
THOROUGH = dict(runs=200000, limit=780)
RULE = "a run counts when at least one environment differed from the plain one; two runs are distinct when the environments (memory, clocks, other solvers and what happened to them) or the configuration class differ"
MEASURE = "hash of the environments with dimensions, degrees and limiting"
REAL = ["fvhoe.solver and everything it calls", "numpy, scipy, tqdm"]
STUB = ["array allocator: numpy's handler replaced: fresh and freed memory is filled with garbage, fails on demand", "clocks, entropy, process id: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["one machine, one version of the libraries"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.2)
    calls, t = [], 0.0
    for _ in range(rng.choice([1, 1, 2])):
        kw, t2 = inproc.gen_args(rng, cfg, t)
        if "T" in kw and kw.get("exact", True):
            t = t2
        calls.append(kw)
    envs = []
    for _ in range(rng.choice([1, 2, 3])):
        e = dict(poison=rng.choice([-1, 0, 255, 170, 256, 257]), seed=rng.randint(0, 1 << 30))
        e["mono"] = rng.choice([10**12, 1, 10**17])
        e["wall"] = rng.choice([17 * 10**17, 10**9, 4 * 10**18])
        e["pid"] = rng.choice([4711, 2, 4194303])
        e["cwd"] = rng.random() < 0.4
        e["vars"] = rng.random() < 0.3
        e["gpu"] = rng.random() < 0.2
        e["others"] = []
        for _ in range(rng.choices([0, 1, 2, 4], [3, 4, 2, 1])[0]):
            c = relative(rng, cfg) if rng.random() < 0.85 else model.gen_cfg(rng, "tiny")
            o = dict(cfg=c, when=rng.choice(["before", "before", "built", "between"]), what=rng.choice(["run", "run", "fail", "drop", "keep"]))
            if rng.random() < 0.3:
                o["share"] = True
            o["collect"] = rng.random() < 0.5
            if o["what"] == "drop" and len(c["dims"]) == 1:
                o["times"] = rng.choice([1, 3, 15])
            if o["what"] == "drop" and rng.random() < 0.6:
                # the same problem from another initial condition
                o["cfg"] = c = dict(cfg, ic=dict(cfg["ic"], seed=rng.randint(0, 999), amp=0.1, v=0.4, name=rng.choice(["waves", "blob", cfg["ic"]["name"]])))
            elif rng.random() < 0.25:
                # the same problem with other figures
                o["cfg"] = c = dict(cfg, ic=dict(cfg["ic"], seed=cfg["ic"]["seed"] + 2, v=rng.choice([0.1, 0.7])))
                if rng.random() < 0.5:
                    c[rng.choice(["density_floor", "pressure_floor"])] = rng.choice([0.9, 1.02])
            if o["what"] == "fail":
                o["fault"] = inproc.gen_fault(rng, c, kinds=["bc", "helper", "f_pre", "f_post", "line", "alloc"])
            e["others"].append(o)
        envs.append(e)
    return dict(cfg=cfg, calls=calls, envs=envs, memo=rng.random() < 0.5, seed=rng.randint(0, 1 << 30))


PLAIN = dict(poison=-1, seed=1, mono=10**12, wall=17 * 10**17, pid=4711, cwd=False, vars=False, gpu=False, others=[])


class User:
    """the objects a user passes in, remembered as they were"""

    def __init__(self, cfg, memo):
        import numpy as np
        from fvhoe.initial_conditions import InitialCondition

        self.given = []  # arrays the user's functions handed out, with copies
        cache = {}

        def keep(name, f):
            if not memo:
                return f

            def g(*a, **k):
                arrays = [v for v in list(a) + list(k.values())]
                key = (name, model.dig(arrays))
                if key not in cache:
                    cache[key] = f(*a, **k)
                    self.given.append((name, cache[key], np.array(cache[key])))
                return cache[key]

            return g

        inner = model.make_ic(cfg)

        class Given(InitialCondition):
            def base_ic(self, *args, **kwargs):
                f = keep("initial condition", inner.base_ic(*inner.args, **inner.kwargs))
                return lambda x, y, z: f(x, y, z)

        self.ic = Given(1, a=[2, 3]) if memo else inner
        self.inner = inner
        self.passives = model.passive_functions(cfg)
        if self.passives:
            self.passives = {k: keep(k, f) for k, f in self.passives.items()}
        self.bc = model.make_bc(cfg, wrap=lambda f: keep("boundary function", f))
        self.kw = model.kwargs_of(cfg)
        self.before = self.look()

    def look(self):
        out = dict(
            ic=model.dig([str(x) for x in self.ic.args], self.ic.kwargs, sorted(self.ic.__dict__)),
            inner=model.dig(sorted((k, repr(v)) for k, v in self.inner.__dict__.items())),
            passives=self.passives and [(k, id(v)) for k, v in self.passives.items()],
            settings=model.dig({k: (v if not callable(v) else 0) for k, v in self.kw.items() if k != "cupy"}),
        )
        if self.bc is not None:
            for d in "xyz":
                out[f"boundary types {d}"] = repr(getattr(self.bc, d, None))
                out[f"boundary values {d}"] = [(id(v), model.dig(v) if not callable(v) else 0) for v in getattr(self.bc, d + "_value", ())]
            out["boundary slab"] = repr(getattr(self.bc, "slab_coords", None))
            out["boundary arrays"] = {k: model.dig(v) for k, v in getattr(getattr(self.bc, "array_manager", None), "arrays", {}).items()}
            out["boundary state"] = repr(getattr(self.bc, "hydro_state", None))
        return out

    def changed(self):
        import numpy as np

        now = self.look()
        bad = [k for k in now if now[k] != self.before[k]]
        for name, a, b in self.given:
            if model.dig(np.asarray(a)) != model.dig(b):
                bad.append(f"array returned by {name}")
        return sorted(set(bad))


def in_env(scn, env, scratch):
    """the simulation in one environment; runs in a forked process"""
    import random
    import sys

    import numpy as np

    lib = native.lib()
    inproc.begin(env["seed"])
    sys.stderr = Quiet()
    lib.sim_clock_on(env["seed"] & 0xFFFF, env["mono"], env["wall"], 500, 30000, 1)
    lib.sim_entropy_on(env["seed"], env["pid"])
    random.seed(env["seed"])
    np.random.seed(env["seed"] & 0xFFFFFFFF)
    if env["cwd"]:
        os.makedirs(os.path.join(scratch, f"e{env['seed']}"), exist_ok=True)
        os.chdir(os.path.join(scratch, f"e{env['seed']}"))
    if env["vars"]:
        os.environ.update(HOME="/nonexistent", USER="nobody", TZ="Asia/Tokyo", COLUMNS="7")
    lib.sim_alloc_poison(env["poison"], env["seed"])
    kept, log = [], []
    user = None

    def others(when):
        for o in env["others"]:
            if o["when"] != when:
                continue
            share = {}
            if o.get("share") and user is not None and len(o["cfg"]["passives"]) == len(scn["cfg"]["passives"]):
                share = dict(bc=user.bc)
            try:
                rig = inproc.Rig(o["cfg"], **share)
            except Exception:
                log.append("not built")
                continue
            if o["what"] in ("run", "keep"):
                rig.call("euler", n=1)
            elif o["what"] == "fail":
                f = inproc.place(o["fault"], dict(bc=4, helper=1, f_pre=1, f_post=1, line=60, alloc=40))
                rig.call("ssprk2", f, n=2)
                log.append(rig.fired)
            if o["what"] == "keep":
                kept.append(rig)
            del rig
            for _ in range(o.get("times", 1) - 1):
                model.build(o["cfg"])
            if o.get("collect"):
                gc.collect()
            log.append(o["what"])

    others("before")
    user = User(scn["cfg"], scn["memo"])
    from fvhoe.solver import EulerSolver

    if env["gpu"]:
        user.kw["cupy"] = True  # there is none: numpy is used instead
    s = EulerSolver(w0=user.ic, w0_passives=user.passives, bc=user.bc, **user.kw)
    others("built")
    calls = copy.deepcopy(scn["calls"])
    for i, kw in enumerate(calls):
        if i:
            others("between")
        model.entry(s, scn["cfg"])(**kw)
    return dict(
        state=model.dig(s.am.get_numpy("u")),
        t=float(s.t),
        steps=int(s.step_count),
        history=model.dig([float(t) for t in s.timestamps]),
        snapshots=[model.dig(x) for x in s.snapshots],
        snapshot_times=[float(t) for t in s.snapshot_times],
        changed=user.changed() + (["output times"] if model.dig(calls) != model.dig(scn["calls"]) else []),
        log=log,
        poisoned=lib.sim_alloc_poisoned(),
    )


class Quiet:
    def write(self, text):
        return len(text)

    def flush(self):
        pass


def run(scn, ctx):
    ok, ref = inproc.forked(lambda: in_env(scn, PLAIN, ctx.scratch))
    if ok != "ok":
        raise Skip("the run raises " + ref.split(":")[0])
    if ref["changed"]:
        raise Violation("argument-changed", f"running modified {ref['changed']}")
    keys = [k for k in ref if k not in ("changed", "log", "poisoned")]
    ctx.event("plain", [ref[k] for k in keys])
    ctx.steps += ref["steps"]
    ctx.sim_time += ref["t"]
    ctx.trace.append((scn["cfg"]["dims"], scn["cfg"]["p"], scn["cfg"]["limiting"]))
    for i, env in enumerate(scn["envs"]):
        ok, got = inproc.forked(lambda: in_env(scn, env, ctx.scratch))
        if ok != "ok":
            raise Violation("raises", f"in environment {i} the run raises {got}")
        ctx.event(i, [got[k] for k in keys], got["log"])
        for what, n in (("garbage memory", got["poisoned"]), ("other clocks", env["mono"] != 10**12), ("other process id", env["pid"] != 4711), ("other directory", env["cwd"]), ("GPU library asked for, not there", env["gpu"])):
            if n:
                ctx.fault(what)
        for x in got["log"]:
            ctx.fault(f"other solver: {x}")
        ctx.fault("other random state")
        ctx.trace.append((env["poison"], env["mono"], env["pid"], env["cwd"], got["log"]))
        for k in keys:
            if got[k] != ref[k]:
                raise Violation("differs", f"{k} differs in environment {i}: memory {env['poison']}, other solvers {got['log']}")
        if got["changed"]:
            raise Violation("argument-changed", f"running modified {got['changed']}")


def shrinks(scn):
    yield from drop_each(scn, "envs")
    for i, e in enumerate(scn["envs"]):
        yield from drop_each(scn, "envs", i, "others")
        for k in ("poison", "mono", "wall", "pid", "cwd", "vars", "gpu"):
            if e[k] != PLAIN[k]:
                yield put(scn, ["envs", i, k], PLAIN[k])
    if scn["memo"]:
        yield {**scn, "memo": False}
    if len(scn["calls"]) > 1:
        yield put(scn, ["calls"], scn["calls"][:1])
    yield from model.shrink_cfg(scn, "cfg")
