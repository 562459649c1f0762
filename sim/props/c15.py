"""observed runs against the bare run, with observers that fail and are retried

One flow is computed bare and again under seeded combinations of observers (more snapshots,
helper functions that look at everything, progress display, saving, plotting, other snapshot
averaging, passive scalars, interleaved with stepping, failing and retried); state and time
history must be bit for bit the same.
"""

import os

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model, native

QUICK = dict(runs=4000, limit=80, rerun=40)
THOROUGH = dict(runs=400000, limit=780, rerun=400)
RULE = "a run counts when the observed run had at least one observer the bare one had not; two runs are distinct when the observers, the faults or the sequence of steps differ"
MEASURE = "hash of (observers, faults, calls, steps, snapshots)"
REAL = ["fvhoe.solver, fvhoe.visualization and everything they call", "numpy, scipy, matplotlib, tqdm, pickle", "file system (scratch directory)"]
STUB = ["progress stream: discards or fails", "array allocator: fails on demand", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["observers do not write to the solver's state"]

OBS = ["helper", "progress", "every", "fv", "passives", "save", "plot", "snap", "read"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.15)
    cfg["progress"] = False
    if rng.random() < 0.6:
        cfg["passives"] = []
    calls, t = [], 0.0
    for _ in range(rng.choice([1, 2, 3])):
        kw, t2 = inproc.gen_args(rng, cfg, t)
        kw.pop("log_every_step", None)
        if "T" in kw and kw.get("exact", True):
            t = t2
        calls.append(kw)
    obs = [o for o in OBS if rng.random() < 0.35] or [rng.choice(OBS)]
    if cfg["passives"] and rng.random() < 0.7 and obs != ["passives"]:
        obs = [o for o in obs if o != "passives"]
    if rng.random() < 0.85 and "plot" in obs:
        obs.remove("plot")  # slow
    faults = []
    for _ in range(rng.choices([0, 1, 2], [5, 3, 2])[0]):
        faults.append(inproc.gen_fault(rng, {**cfg, "progress": "progress" in obs}, kinds=[k for k, o in (("helper", "helper"), ("helper_pre", "helper"), ("stream", "progress")) if o in obs] or ["helper"]))
    return dict(cfg=cfg, calls=calls, obs=obs or ["every"], passives=rng.choice([["dye"], ["dye", "b2"]]), how=model.gen_plot(rng), faults=faults, poison=rng.choice([-1, 255, 257]), seed=rng.randint(0, 1 << 30))


def flow(s, n):
    return dict(u=model.dig(s.am.get_numpy("u")[:n]), t=float(s.t), steps=int(s.step_count), history=[float(t) for t in s.timestamps])


def look(s):
    """read everything an observer may read"""
    import numpy as np

    total = 0.0
    for k, a in s.am.arrays.items():
        total += float(np.sum(np.isnan(a)))
    w = s.am.get_numpy("u")
    w *= 3.0  # a copy: the observer's own
    for peek in (
        lambda: s.interpolate_primitives_from_conservatives(u=s.am("u"), p=s.p, fv_average=not s.snapshots_as_fv_averages),
        lambda: s.timer.report(),
        lambda: s.timer.to_dict(),
        lambda: s.am.to_dict(),
        lambda: s.bc.to_dict(),
    ):
        try:
            peek()
        except (AttributeError, TypeError):
            pass  # not offered (any more)
    return total


def run(scn, ctx):
    inproc.begin(scn["seed"])
    cfg, obs = scn["cfg"], scn["obs"]
    m = cfg["integrator"]
    ref = inproc.Rig(cfg, helper=False)
    want = []
    n = None if "passives" not in obs else 5 + len(cfg["passives"])
    for kw in scn["calls"]:
        if ref.call(m, **kw) is not None:
            raise Skip("the bare run raises " + ref.err_text.split(":")[0])
        want.append(flow(ref.s, n))
    native.lib().sim_alloc_poison(scn["poison"], scn["seed"])
    c = dict(cfg)
    if "fv" in obs:
        c["fv_snap"] = not c["fv_snap"]
    if "passives" in obs:
        c["passives"] = cfg["passives"] + [x for x in scn["passives"] if x not in cfg["passives"]]
    if "progress" in obs:
        c["progress"] = True
    rig = inproc.Rig(c, helper="helper" in obs)
    s = rig.s
    if "helper" in obs:
        rig.on_helper = look
    faults = list(scn["faults"])
    for i, kw in enumerate(scn["calls"]):
        kw = dict(kw)
        if "every" in obs and "T" in kw:
            kw["log_every_step"] = True
        if "save" in obs and "T" in kw:
            kw["snapshot_dir"] = os.path.join(ctx.scratch, f"d{i}")
        if "snap" in obs:
            s.snapshot()
            s.snapshot()
        fault = None
        if faults and "T" in kw:
            f = faults.pop(0)
            # which of the observer's calls fails
            fault = dict(f, at=1 + int(f["frac"] * (6 if f["kind"] == "stream" else 3)))
        err = rig.call(m, fault, **kw)
        if err is not None:
            if not rig.fired:
                raise Violation("raises", f"call {i} under {obs}: {rig.err_text}")
            ctx.fault("failing " + f["kind"])
            # the observer failed: try again, perhaps failing once more
            if faults:
                f = faults.pop(0)
                fault = dict(f, at=1 + int(f["frac"] * (6 if f["kind"] == "stream" else 3)))
                if rig.call(m, fault, **kw) is not None:
                    if not rig.fired:
                        raise Violation("raises", f"call {i} repeated under {obs}: {rig.err_text}")
                    ctx.fault("failing " + f["kind"])
            if rig.call(m, **kw) is not None:
                raise Violation("raises", f"call {i} repeated under {obs}: {rig.err_text}")
        elif rig.fired:
            ctx.fault("failing " + f["kind"] + " (tolerated)")
        if "plot" in obs:
            model.plot(s, c, scn["how"])
            ctx.probe("plot " + scn["how"]["way"])
        if "read" in obs and "snapshot_dir" in kw:
            s.read_snapshots()
        if "snap" in obs:
            s.snapshot()
        got = flow(s, n)
        ctx.event(i, got["u"], got["t"], got["steps"], len(s.snapshots))
        for k in ("steps", "t", "history", "u"):
            if got[k] != want[i][k]:
                raise Violation("changed", f"after call {i} under {obs}: {k} differs from the bare run" + (f" ({got[k]!r} instead of {want[i][k]!r})" if k in ("steps", "t") else ""))
    ctx.nontrivial = True
    for o in obs:
        ctx.probe("observer " + o)
    ctx.trace.append((obs, sorted(ctx.faults.items()), [sorted(k) for k in scn["calls"]], s.step_count, len(s.snapshots), cfg["dims"], cfg["p"], cfg["limiting"]))
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)


def shrinks(scn):
    yield from (c for c in drop_each(scn, "obs") if c["obs"])
    yield from drop_each(scn, "faults")
    yield from (c for c in drop_each(scn, "calls") if c["calls"])
    for i, kw in enumerate(scn["calls"]):
        for k in ("downbeats", "exact"):
            if k in kw:
                yield put(scn, ["calls", i], {a: b for a, b in kw.items() if a != k})
    if scn["poison"] != -1:
        yield {**scn, "poison": -1}
    yield from model.shrink_cfg(scn, "cfg")
