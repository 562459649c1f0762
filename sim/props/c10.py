"""snapshots watched through histories of stepping, failing, resuming, saving and plotting

Each snapshot is copied at the moment it is recorded, together with the solver's state; the
recorded objects are compared with the copies after every operation, and their fields with
what the state gives on a fresh solver (and, at lowest order, by an independent formula).
"""

import copy
import os

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model

QUICK = dict(runs=4000, limit=80, rerun=40)
THOROUGH = dict(runs=400000, limit=780, rerun=400)
RULE = "a run counts when a fault fired or an operation other than integrating followed a recorded snapshot; two runs are distinct when the sequence of (operation, fault, steps, snapshots) or the configuration class differs"
MEASURE = "hash of the sequence of (operation, fault, steps, snapshots) with dimensions, stages and limiting"
REAL = ["fvhoe.solver, fvhoe.ode, fvhoe.visualization and everything they call", "numpy, scipy, matplotlib, pickle"]
STUB = ["array allocator: numpy's handler replaced: fresh memory is poisoned, fails on demand", "progress stream: fails on demand", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["the user does not modify recorded snapshots"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.3)
    ops, t = [], 0.0
    for _ in range(rng.choices([1, 2, 3, 5], [2, 4, 3, 2])[0]):
        r = rng.random()
        if r < 0.7 or not ops:
            kw, t2 = inproc.gen_args(rng, cfg, t)
            op = dict(do="call", kw=kw)
            if rng.random() < 0.4:
                op["fault"] = inproc.gen_fault(rng, cfg)
                op["again"] = rng.random() < 0.8
            if "T" in kw and kw.get("exact", True):
                t = t2
        elif r < 0.85:
            op = dict(do="save")
        elif r < 0.89:
            op = dict(do="plot", how=model.gen_plot(rng))
        else:
            op = dict(do="poison", mode=rng.choice([255, 170, 257]))
        ops.append(op)
    return dict(cfg=cfg, ops=ops, poison=rng.choice([-1, 255, 257]), seed=rng.randint(0, 1 << 30))


def primitives(u, gamma):
    import numpy as np

    w = np.array(u, dtype=float)
    w[1:4] = u[1:4] / u[0]
    w[4] = (gamma - 1) * (u[4] - 0.5 * (u[1] ** 2 + u[2] ** 2 + u[3] ** 2) / u[0])
    w[5:] = u[5:] / u[0]
    return w


def run(scn, ctx):
    import numpy as np

    from .. import native

    inproc.begin(scn["seed"])
    native.lib().sim_alloc_poison(scn["poison"], scn["seed"])
    cfg = scn["cfg"]
    m = cfg["integrator"]
    stages = model.stages(cfg)
    rig = inproc.Rig(cfg)
    s = rig.s
    log = []  # (recorded object, its copy, copy of the state, t, step count)

    def on_helper(solver):
        x = solver.snapshots[-1]
        log.append((x, copy.deepcopy(x), solver.am.get_numpy("u"), float(solver.t), solver.step_count))

    rig.on_helper = on_helper

    def check(what):
        for i, (x, y, _, t, _) in enumerate(log):
            if set(x) != set(y) or model.dig(x) != model.dig(y):
                keys = [k for k in y if k not in x or model.dig(x[k]) != model.dig(y[k])]
                raise Violation("snapshot-changed", f"{what}: {keys} of the snapshot recorded at t={t} changed afterwards")
        if len(s.snapshots) != len(s.snapshot_times):
            raise Violation("snapshot-times", f"{what}: {len(s.snapshots)} snapshots, {len(s.snapshot_times)} times")
        for i, (x, t) in enumerate(zip(s.snapshots, s.snapshot_times)):
            if float(x["t"]) != float(t):
                raise Violation("snapshot-times", f"{what}: snapshot {i} is at {x['t']}, its time is given as {t}")
        known = {id(x[0]) for x in log}
        missing = known - {id(x) for x in s.snapshots}
        if missing:
            raise Violation("snapshot-lost", f"{what}: {len(missing)} recorded snapshots are gone")

    for i, op in enumerate(scn["ops"]):
        what = f"operation {i} ({op['do']})"
        if op["do"] == "call":
            fault = None
            if op.get("fault"):
                # count on a twin what there is to strike
                twin = inproc.Rig(cfg)
                twin.s.am("u")[...] = s.am.get_numpy("u")
                twin.s.t = s.t
                twin.call(m, trace=op["fault"]["kind"] == "line", **op["kw"])
                fault = inproc.place(op["fault"], dict(twin.count))
            err = rig.call(m, fault, **op["kw"])
            if err is not None and not rig.fired:
                raise_if_healthy(rig, cfg, op["kw"], Violation("call-fails", f"{what}: {rig.err_text}"))
            if rig.fired:
                ctx.fault(op["fault"]["kind"] + (" " + op["fault"].get("exc", "")))
            check(what)
            if err is not None and op["again"]:
                if rig.call(m, **op["kw"]) is not None:
                    raise_if_healthy(rig, cfg, op["kw"], Violation("cannot-resume", f"{what}: {rig.err_text}"))
                check(what + " resumed")
        elif op["do"] == "save":
            ctx.nontrivial = True
            s.snapshot_dir = os.path.join(ctx.scratch, f"d{i}")
            s.write_snapshots(True)
        elif op["do"] == "plot" and s.snapshots:
            ctx.nontrivial = True
            model.plot(s, cfg, op["how"])
            ctx.probe("plot " + op["how"]["way"])
        elif op["do"] == "poison":
            native.lib().sim_alloc_poison(op["mode"], i)
        check(what)
        ctx.event(op["do"], s.step_count, len(s.snapshots), model.snaps_digest(s))
        ctx.trace.append((op["do"], rig.fired, s.step_count, len(s.snapshots)))
    exact = "alloc" not in "".join(ctx.faults)
    ctx.trace.append((cfg["dims"], stages, cfg["limiting"], cfg["p"]))
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)
    # the fields are those of the state at that moment
    native.lib().sim_alloc_poison(-1, 0)
    fresh = model.build(cfg)
    for k, (x, y, u, t, n) in enumerate(log):
        what = f"snapshot {k} (t={t}, after {n} steps)"
        if float(y["t"]) != t:
            raise Violation("wrong-time", f"{what}: recorded as t={y['t']}")
        fresh.am("u")[...] = u
        fresh.t = t
        fresh.snapshot()
        z = fresh.snapshots[-1]
        for f in ("x", "y", "z", "w"):
            if model.dig(y[f]) != model.dig(z[f]):
                raise Violation("wrong-fields", f"{what}: {f} is not that of the solver's state at that moment")
        if np.asarray(y["w"]).shape != u.shape:
            raise Violation("wrong-fields", f"{what}: shape {np.asarray(y['w']).shape} for a state of shape {u.shape}")
        if max(cfg["p"]) == 0 and np.isfinite(u).all():
            w = primitives(u, cfg["gamma"])
            if not np.allclose(w, y["w"], rtol=1e-11, atol=1e-13):
                raise Violation("wrong-fields", f"{what}: primitive fields differ from those of the state by {np.abs(w - y['w']).max()}")
            ctx.probe("independent formula")
        if "trouble" in y:
            tr = np.asarray(y["trouble"])
            if not ((tr >= 0) & (tr <= 1)).all():
                raise Violation("trouble-fraction", f"{what}: trouble fractions between {tr.min()} and {tr.max()}")
            if n == 0 and tr.any():
                raise Violation("trouble-fraction", f"{what}: trouble before the first step")
            frac = tr * stages
            if n > 0 and not np.allclose(frac, np.round(frac), atol=1e-9):
                raise Violation("trouble-fraction", f"{what}: {np.unique(tr)[:6]} are not averages over {stages} stages")
            if n > 0 and exact and cfg["force_trouble"] and not (tr == 1).all():
                raise Violation("trouble-fraction", f"{what}: {tr.min()} although trouble is forced everywhere")
            if tr.any():
                ctx.probe("trouble recorded")


def raise_if_healthy(rig, cfg, kw, violation):
    """a flow that blew up cannot be continued by a fresh solver either"""
    twin = inproc.Rig(cfg)
    twin.s.am("u")[...] = rig.s.am.get_numpy("u")
    twin.s.t = rig.s.t
    if twin.call(cfg["integrator"], **kw) is not None:
        raise Skip("the flow cannot be continued")
    raise violation


def shrinks(scn):
    yield from (c for c in drop_each(scn, "ops") if c["ops"])
    for i, op in enumerate(scn["ops"]):
        if op.get("fault"):
            yield put(scn, ["ops", i], {k: v for k, v in op.items() if k not in ("fault", "again")})
            yield from inproc.shrink_fault(scn, "ops", i, "fault")
        if op["do"] == "call":
            for k in ("downbeats", "log_every_step", "exact"):
                if k in op["kw"]:
                    yield put(scn, ["ops", i, "kw"], {a: b for a, b in op["kw"].items() if a != k})
    if scn["poison"] != -1:
        yield {**scn, "poison": -1}
    yield from model.shrink_cfg(scn, "cfg")
