"""totals of conserved quantities at every step of closed domains, through faults and resumptions

Closed: periodic and reflecting boundaries; every dimension, order, integrator, flux function
and limiting mode.
"""

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model

QUICK = dict(runs=4000, limit=80, rerun=40)
THOROUGH = dict(runs=400000, limit=780, rerun=400)
RULE = "a run counts when its flow changed (the state moved by more than rounding) over at least one step; two runs are distinct when the configuration class or the sequence of (call, fault, steps) differs"
MEASURE = "hash of (dimensions, orders, flux function, limiting mode, boundaries, integrator, calls, faults, steps)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "numpy, scipy"]
STUB = ["array allocator: numpy's handler replaced: fresh memory is poisoned, fails on demand", "progress stream: fails on demand", "clocks, entropy: simulated", "user callbacks: the simulator's", "git: a stand-in"]
ASSUME = ["flows stay finite and positive; totals are compared to 1e-12 of the sum of absolute values, growing with the number of steps"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, rng.choice(["tiny", "small", "small"]) if tier == "quick" else rng.choice(["small", "medium"]), closed=True)
    if rng.random() < 0.5:
        cfg["bc"] = None if rng.random() < 0.5 else {d: ["periodic", "periodic"] for d in "xyz"}
    if cfg["limiting"] and rng.random() < 0.6:
        cfg["ic"]["name"] = rng.choice(["blob", "square", "noise"])
    calls, t = [], 0.0
    for _ in range(rng.choices([1, 2, 3], [5, 3, 1])[0]):
        kw, t2 = inproc.gen_args(rng, cfg, t, steps=rng.choice([1.5, 4.5, 9.5, 20.5]))
        if "T" in kw and kw.get("exact", True):
            t = t2
        c = dict(kw=kw)
        if rng.random() < 0.3:
            c["fault"] = inproc.gen_fault(rng, cfg)
        calls.append(c)
    return dict(cfg=cfg, calls=calls, poison=rng.choice([-1, 255, 257]), seed=rng.randint(0, 1 << 30))


def run(scn, ctx):
    import numpy as np

    from .. import native

    inproc.begin(scn["seed"])
    native.lib().sim_alloc_poison(scn["poison"], scn["seed"])
    cfg = scn["cfg"]
    m = cfg["integrator"]
    rig = inproc.Rig(cfg)
    s = rig.s
    u0 = s.am.get_numpy("u")
    if not np.isfinite(u0).all():
        raise Skip("initial state not finite")
    total0 = u0.reshape(len(u0), -1).sum(axis=1)
    # which totals are conserved: momentum only without walls in the active directions
    conserved = [0, 4] + list(range(5, len(u0)))
    periodic = cfg["bc"] is None or all(set(cfg["bc"][d]) == {"periodic"} for d in cfg["dims"])
    if periodic:
        conserved += [1, 2, 3]
    else:
        # along directions without walls, momentum is still exchanged with the walls' pressure only across them
        walls = [d for d in cfg["dims"] if "reflective" in cfg["bc"][d]]
        conserved += [1 + "xyz".index(d) for d in "xyz" if d not in walls]
    conserved = sorted(set(conserved))
    if cfg["riemann"] == "advection_upwind" and not periodic:
        conserved = []
    worst, moved = [0.0], [False]

    def check(solver, what):
        u = solver.am("u")
        if not np.isfinite(u).all():
            raise Skip("the flow became infinite")
        total = u.reshape(len(u), -1).sum(axis=1)
        scale = np.abs(u).reshape(len(u), -1).sum(axis=1).max() + np.abs(u0).reshape(len(u0), -1).sum(axis=1).max()
        d = np.abs(total - total0)[conserved] / scale
        tol = 1e-12 * (1 + 0.1 * solver.step_count)
        if len(d):
            worst[0] = max(worst[0], float(d.max()))
            if d.max() > tol:
                v = conserved[int(d.argmax())]
                name = (["mass", "x-momentum", "y-momentum", "z-momentum", "energy"] + list(cfg["passives"]))[v]
                raise Violation("not-conserved", f"{what}: {name} went from {float(total0[v])!r} to {float(total[v])!r} (relative {float(d.max()):.2e}) after {solver.step_count} steps, t={solver.t}")
        if not moved[0] and np.abs(u - u0).max() > 1e-9:
            moved[0] = True

    last = [-1]

    def on_f(solver):
        if solver.step_count != last[0]:
            last[0] = solver.step_count
            check(solver, "during a call")

    rig.on_f = on_f
    for i, c in enumerate(scn["calls"]):
        fault = None
        if c.get("fault"):
            twin = inproc.Rig(cfg)
            twin.s.am("u")[...] = s.am.get_numpy("u")
            twin.s.t = s.t
            twin.call(m, trace=c["fault"]["kind"] == "line", **c["kw"])
            fault = inproc.place(c["fault"], dict(twin.count))
        err = rig.call(m, fault, **c["kw"])
        if isinstance(err, (Skip, Violation)):
            raise err
        if rig.fired:
            ctx.fault(c["fault"]["kind"])
            check(s, f"after the fault in call {i}")
            if err is not None:
                err = rig.call(m, **c["kw"])
                if isinstance(err, (Skip, Violation)):
                    raise err
        if err is not None:
            raise Skip("the run raises " + rig.err_text.split(":")[0])
        check(s, f"after call {i}")
        ctx.trace.append((sorted(c["kw"]), rig.fired, s.step_count))
        ctx.event(i, s.step_count, model.state_digest(s))
    if moved[0]:
        ctx.nontrivial = True
    ctx.probe("periodic" if periodic else "walls")
    if cfg["limiting"]:
        ctx.probe("limiting" + (" convex" if cfg["convex"] else ""))
        if s.snapshots[-1]["trouble"].any():
            ctx.probe("troubled cells")
    if worst[0] > 1e-14:
        ctx.probe("relative change above 1e-14")
    if worst[0] > 1e-13:
        ctx.probe("relative change above 1e-13")
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)
    ctx.trace.append([cfg[k] for k in ("dims", "p", "riemann", "limiting", "bc", "integrator")])


def shrinks(scn):
    yield from (c for c in drop_each(scn, "calls") if c["calls"])
    for i, c in enumerate(scn["calls"]):
        if c.get("fault"):
            yield put(scn, ["calls", i], dict(kw=c["kw"]))
        for k in ("downbeats", "log_every_step", "exact"):
            if k in c["kw"]:
                yield put(scn, ["calls", i, "kw"], {a: b for a, b in c["kw"].items() if a != k})
    if scn["poison"] != -1:
        yield {**scn, "poison": -1}
    yield from model.shrink_cfg(scn, "cfg")
