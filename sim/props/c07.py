"""integrations interrupted up to six times by faults at any point, each time called again

The outcome is compared bit for bit with one undisturbed integration.
"""

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model

QUICK = dict(runs=4000, limit=80, rerun=40)
THOROUGH = dict(runs=400000, limit=780, rerun=400)
RULE = "a run counts when at least one fault interrupted the integration; two runs are distinct when the sequence of (fault kind, step and evaluation it struck) or the configuration class differs"
MEASURE = "hash of the sequence of (fault kind, evaluations, steps, snapshots) with dimensions, stages and limiting"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "numpy, scipy, tqdm"]
STUB = ["array allocator: numpy's handler replaced, fails on demand", "progress stream: fails on demand", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["interrupts strike between two lines executed inside the evaluation of the right-hand side"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small"]) if tier == "quick" else rng.choice(["tiny", "small", "medium"]), bc_callable=rng.random() < 0.4)
    kw, _ = inproc.gen_args(rng, cfg, n_mode=False, steps=rng.choice([0.5, 1.5, 3.5, 6.5] * 20 + [60.5]))
    faults = [inproc.gen_fault(rng, cfg) for _ in range(rng.choices([1, 2, 3, 6], [4, 3, 2, 1])[0])]
    before = rng.random() < 0.2
    return dict(cfg=cfg, kw=kw, faults=faults, before=before, after=rng.random() < 0.2, seed=rng.randint(0, 1 << 30))


def flow(x):
    return model.dig(x["t"], x["w"], x["x"], x["y"], x["z"])


def run(scn, ctx):
    inproc.begin(scn["seed"])
    cfg, kw = scn["cfg"], scn["kw"]
    m = cfg["integrator"]
    dt = model.typical_dt(cfg)
    pre = [dict(n=1)] if scn["before"] else []
    post = [dict(n=1)] if scn["after"] else []
    ref = inproc.Rig(cfg)
    totals = {}
    lines = any(f["kind"] == "line" for f in scn["faults"])
    for i, k in enumerate(pre + [kw] + post):
        if ref.call(m, trace=lines and k is kw, **k) is not None:
            raise Skip("the undisturbed run raises " + ref.err_text.split(":")[0])
        if k is kw:
            totals = dict(ref.count)
    rs = ref.s
    rig = inproc.Rig(cfg)
    s = rig.s
    for k in pre:
        rig.call(m, **k)
    n_pre = len(s.snapshots)
    interruptions = 0
    for f in scn["faults"] + [None]:
        fault = None
        if f is not None:
            # positions are relative to what is left of the integration
            left = 1.0 if rs.step_count == 0 else max(0.05, 1 - (s.step_count - len(pre)) / max(1, rs.step_count - len(pre)))
            fault = inproc.place(f, {k: int(v * left) for k, v in totals.items()})
            if fault is None:
                continue
        err = rig.call(m, fault, **kw)
        if err is None:
            if f is not None and rig.fired:
                ctx.fault(f["kind"] + " (tolerated)")
            break
        if not rig.fired:
            raise Violation("cannot-resume", f"after {interruptions} interruptions the call raised {rig.err_text}")
        interruptions += 1
        ctx.fault(f["kind"] + (" " + f["exc"] if "exc" in f else ""))
        ctx.trace.append((f["kind"], rig.E, s.step_count, len(s.snapshots)))
        ctx.event(f["kind"], rig.E, s.step_count, model.state_digest(s))
    for k in post:
        if rig.call(m, **k) is not None:
            raise Violation("cannot-continue", f"a further call raised {rig.err_text}")
    ctx.trace.append((cfg["dims"], model.stages(cfg), cfg["limiting"]))
    ctx.probe(f"{min(interruptions, 6)} interruptions")
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)
    ctx.event("end", model.state_digest(s), [model.dig(x) for x in s.snapshots])
    if model.state_digest(s) != model.state_digest(rs):
        raise Violation("other-outcome", f"after {interruptions} interruptions: t={s.t!r} after {s.step_count} steps, undisturbed t={rs.t!r} after {rs.step_count} steps" + (", time histories equal" if list(s.timestamps) == list(rs.timestamps) else ", time histories differ"))
    if len(s.snapshots) != len(s.snapshot_times) or any(float(x["t"]) != float(t) for x, t in zip(s.snapshots, s.snapshot_times)):
        raise Violation("snapshot-times", "snapshots and snapshot times do not correspond")
    full = {model.dig(x) for x in s.snapshots}
    some = {flow(x) for x in s.snapshots}
    for x in rs.snapshots:
        if flow(x) not in some:
            raise Violation("snapshot-missing", f"no snapshot at t={x['t']!r} like that of the undisturbed run; there are {[float(t) for t in s.snapshot_times]}")
        if model.dig(x) not in full:
            raise Violation("snapshot-differs", f"the snapshot at t={x['t']!r} differs from that of the undisturbed run")
    if list(s.snapshot_times) != sorted(s.snapshot_times):
        raise Violation("snapshot-order", str(s.snapshot_times))


def shrinks(scn):
    yield from drop_each(scn, "faults")
    for i in range(len(scn["faults"])):
        yield from inproc.shrink_fault(scn, "faults", i)
    for k in ("before", "after"):
        if scn[k]:
            yield {**scn, k: False}
    for k in ("downbeats", "log_every_step", "exact"):
        if k in scn["kw"]:
            yield put(scn, ["kw"], {a: b for a, b in scn["kw"].items() if a != k})
    yield from model.shrink_cfg(scn, "cfg")
