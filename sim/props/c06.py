"""one fault strikes a sequence of integration calls; the solver is compared with an undisturbed twin

Faults: exceptions from user callbacks and from the right-hand side, an interrupt at any line
executed inside it, a failed array allocation, a failing progress display, and step sizes that come out unusable
(a boundary function returning not-a-number, a bad fixed step size).
"""

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model

QUICK = dict(runs=5000, limit=80, rerun=40)
THOROUGH = dict(runs=400000, limit=780, rerun=400)
RULE = "a run counts when the fault fired; two runs are distinct when (fault kind, exception, step and stage it struck, number of snapshots then, configuration class) differ"
MEASURE = "hash of (fault kind, exception, evaluations and steps done, snapshots, dimensions, stages, limiting)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "numpy, scipy, tqdm"]
STUB = ["array allocator: numpy's handler replaced, fails on demand", "progress stream: fails on demand", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["interrupts strike between two lines executed inside the evaluation of the right-hand side; at most one fault per run"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.4)
    calls, t = [], 0.0
    for _ in range(rng.choices([1, 2, 3], [5, 3, 1])[0]):
        kw, t2 = inproc.gen_args(rng, cfg, t)
        if "T" in kw and kw.get("exact", True):
            t = t2
        calls.append(kw)
    fault = inproc.gen_fault(rng, cfg)
    if rng.random() < 0.08:
        fault = dict(kind="dt", value=rng.choice(["nan", "0.0", "-0.001", "1e-300"]))
    elif fault["kind"] == "bc" and rng.random() < 0.4:
        fault = dict(kind="bc", frac=fault["frac"], value=rng.choice(["nan", "inf", "-inf"]))
    return dict(cfg=cfg, calls=calls, strike=rng.randrange(len(calls)), fault=fault, seed=rng.randint(0, 1 << 30))


class Endless(BaseException):
    pass


def rejected(scn, ctx):
    """a step that cannot be taken: the step size came out unusable"""
    cfg, f = scn["cfg"], scn["fault"]
    m = cfg["integrator"]
    rig = inproc.Rig(cfg, record=True)
    s = rig.s

    def cap(_):
        if rig.E > 400:  # tiny steps that do advance
            raise Endless()

    rig.on_f = cap
    for i, kw in enumerate(scn["calls"]):
        fault = None
        if i == scn["strike"]:
            if f["kind"] == "dt":
                s.fixed_dt = float(f["value"])
                rig.states.clear()
                rig.note()
            else:
                fault = dict(f, at=1 + int(f["frac"] * 12))
        snaps = [model.dig(x) for x in s.snapshots]
        times = [float(t) for t in s.snapshot_times]
        err = rig.call(m, fault, **kw)
        if isinstance(err, Endless):
            raise Skip("endless tiny steps")
        if f["kind"] == "dt" and i == scn["strike"]:
            ctx.fault("unusable step size")
        if rig.fired:
            ctx.fault("not-a-number from the boundary function")
        if err is not None:
            break
    ctx.trace.append((f["kind"], f["value"], rig.E, s.step_count, cfg["dims"], model.stages(cfg), cfg["limiting"]))
    ctx.event(err and rig.err_text, rig.E, s.step_count, model.state_digest(s), model.snaps_digest(s))
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)
    if err is None:
        return
    k = s.step_count
    if k != len(s.timestamps) - 1 or s.t != s.timestamps[-1]:
        raise Violation("step-count", f"after a rejected step there are {k} steps, {len(s.timestamps)} time stamps, t={s.t}")
    if k in rig.states and model.state_digest(s) != rig.states[k]:
        raise Violation("state-changed", f"{rig.err_text}: the state is not that after the last completed step ({k})")
    ctx.probe("step rejected")
    if len(s.snapshots) != len(s.snapshot_times):
        raise Violation("snapshots-without-time", f"{len(s.snapshots)} snapshots, {len(s.snapshot_times)} times")
    if [model.dig(x) for x in s.snapshots[: len(snaps)]] != snaps or [float(t) for t in s.snapshot_times[: len(times)]] != times:
        raise Violation("snapshots-differ", f"{rig.err_text}: earlier snapshots changed")
    if s.snapshot_times and s.snapshot_times[-1] > s.t:
        raise Violation("snapshots-differ", f"{rig.err_text}: a snapshot at {s.snapshot_times[-1]} was recorded for a step that was not completed (t={s.t})")


def run(scn, ctx):
    inproc.begin(scn["seed"])
    cfg, f = scn["cfg"], scn["fault"]
    if "value" in f:
        return rejected(scn, ctx)
    ref = inproc.Rig(cfg, record=True)
    m = cfg["integrator"]
    totals, bounds = None, []
    for i, kw in enumerate(scn["calls"]):
        if ref.call(m, trace=f["kind"] == "line" and i == scn["strike"], **kw) is not None:
            raise Skip("the undisturbed run raises " + ref.err_text.split(":")[0])
        if i == scn["strike"]:
            totals = dict(ref.count)
        if i < scn["strike"]:
            bounds = [ref.E]
    ref.note()  # final state
    rs = ref.s
    ref_snaps = [model.dig(x) for x in rs.snapshots]
    fault = inproc.place(f, totals)
    if fault is None:
        raise Skip("nothing to strike")
    rig = inproc.Rig(cfg)
    s = rig.s
    for i, kw in enumerate(scn["calls"]):
        err = rig.call(m, fault if i == scn["strike"] else None, **kw)
        if err is not None:
            break
    what = f"{f['kind']} fault at {fault['at']} of {totals.get(f['kind'])}"
    if err is None:
        # either it did not fire, or it was dealt with: the result must be the undisturbed one
        if rig.fired:
            ctx.fault(f["kind"] + " (tolerated)")
        if model.state_digest(s) != model.state_digest(rs) or model.snaps_digest(s) != model.snaps_digest(rs):
            raise Violation("swallowed", f"{what}: the call returned normally with other results")
        ctx.event("ok", rig.fired)
        return
    if not rig.fired:
        raise Violation("spurious-error", f"no fault fired but the call raised {rig.err_text}")
    ctx.fault(f["kind"] + (" " + f["exc"] if "exc" in f else ""))
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)
    stages = model.stages(cfg)
    ctx.trace.append((f["kind"], f.get("exc"), rig.E, s.step_count, len(s.snapshots), cfg["dims"], stages, cfg["limiting"], rig.broke_in_f))
    ctx.event(rig.err_text if f["kind"] != "alloc" else type(err).__name__, rig.E, s.step_count, model.state_digest(s), model.snaps_digest(s))
    # state: that of a completed step
    k = s.step_count
    if rig.broke_in_f:
        want = {(rig.E - 1) // stages}
        nmin = nmax = ref.nsnaps[rig.E - 1]
    else:
        want = {rig.E // stages} | ({rig.E // stages - 1} if rig.E and rig.E % stages == 0 and f["kind"] == "alloc" else set())
        nmin = ref.nsnaps[rig.E - 1] if rig.E else 0
        nmax = ref.nsnaps[rig.E] if rig.E < len(ref.nsnaps) else len(ref_snaps)
        if rig.E % stages and f["kind"] != "alloc":
            want = {rig.E // stages}
    if k not in want:
        raise Violation("step-count", f"{what}: step count {k} after {rig.E} evaluations ({stages} per step, failed inside one: {rig.broke_in_f}); expected {sorted(want)}")
    if model.state_digest(s) != ref.states.get(k):
        import numpy as np

        same_u = "?"
        raise Violation("state-changed", f"{what}: after the error, t={s.t}, {len(s.timestamps)} time stamps, {k} steps: not the state after step {k} of the undisturbed run")
    if len(s.snapshots) != len(s.snapshot_times):
        raise Violation("snapshots-without-time", f"{what}: {len(s.snapshots)} snapshots, {len(s.snapshot_times)} times")
    got = [model.dig(x) for x in s.snapshots]
    if got != ref_snaps[: len(got)] or [float(t) for t in s.snapshot_times] != [float(t) for t in rs.snapshot_times[: len(got)]]:
        raise Violation("snapshots-differ", f"{what}: recorded snapshots are not the first {len(got)} of the undisturbed run")
    if not nmin <= len(got) <= nmax:
        raise Violation("snapshots-missing", f"{what}: {len(got)} snapshots, an undisturbed run has {nmin} to {nmax} by then")


def shrinks(scn):
    if len(scn["calls"]) > 1:
        for i in range(len(scn["calls"])):
            c = scn["calls"][:i] + scn["calls"][i + 1 :]
            yield {**scn, "calls": c, "strike": min(len(c) - 1, scn["strike"] - (scn["strike"] > i))}
    if "frac" in scn["fault"]:
        yield from inproc.shrink_fault(scn, "fault")
    for i, kw in enumerate(scn["calls"]):
        for k in ("downbeats", "log_every_step", "exact"):
            if k in kw:
                yield put(scn, ["calls", i], {a: b for a, b in kw.items() if a != k})
    yield from model.shrink_cfg(scn, "cfg")
