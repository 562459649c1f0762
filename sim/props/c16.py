"""histories of scripting-wrapper calls with similar settings, killed or failing in between

Oracle: the same calls made on the solver directly, and a record of which calls succeeded.
"""

from ..core import Skip, Violation, drop_each, put
from .. import fs, model

QUICK = dict(runs=2000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when a call loaded what an earlier process stored or an earlier call was killed or failed; two runs are distinct when the sequence of (settings index, fault, outcome, loaded or computed) differs"
MEASURE = "hash of the sequence of (settings index, fault, filesystem call, outcome)"
REAL = ["fvhoe.scripting, fvhoe.solver, fvhoe.ode and everything they call", "matplotlib when a summary directory is given", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["kills and failing system calls: decided by the simulator at filesystem calls", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["settings are numbers, flags, ranges and names whose text fits in a file name", "one process at a time (concurrent ones: C05, C19)"]


def gen(rng, tier, dims=None):
    cfg = model.gen_cfg(rng, "tiny", allow_limiting=False, dims=dims)
    cfg["passives"], cfg["form"] = [], "primitive"
    T = round(model.typical_dt(cfg) * rng.choice([0.5, 1.5, 2.5]), rng.choice([3, 6, 9])) or 0.01
    kw = dict(T=T, integrator=rng.choice([-1, -1, 1, 2, 3, 4]), n_snapshots=rng.choice([2, 2, 3, 5]), progress_bar=False)
    for i, d in enumerate("xyz"):
        if d in cfg["dims"]:
            kw["n" + d], kw["p" + d] = cfg["n"][i] + 2, cfg["p"][i]
    extras = dict(CFL=0.5, gamma=1.4, riemann_solver="llf", snapshots_as_fv_averages=False, fixed_dt=round(0.3 * model.typical_dt(cfg), 7))
    for k in rng.sample(list(extras), rng.randint(0, 3)):
        kw[k] = extras[k]
    if rng.random() < 0.3:
        d = cfg["dims"][0]
        kw["n" + d] = max(kw["n" + d], 12)
        kw.update(a_posteriori_slope_limiting=True, NAD=rng.choice([1e-2, 1e-5]))
        if len(cfg["dims"]) > 1:
            kw["n" + cfg["dims"][1]] = max(kw["n" + cfg["dims"][1]], 12)
        kw["px"] = min(kw.get("px", 0), 2)
    sets = [kw]
    for _ in range(rng.choices([1, 2, 3], [3, 3, 2])[0]):
        v = dict(rng.choice(sets))
        for _ in range(rng.choices([1, 2], [4, 1])[0]):
            vary(rng, v, cfg)
        if v not in sets and length(v) < 240:
            sets.append(v)
    calls = []
    for _ in range(rng.choices([2, 4, 6, 9], [3, 4, 3, 1])[0]):
        c = dict(set=rng.randrange(len(sets)), overwrite=rng.random() < 0.15, pref=rng.choices(["p", "q", "p_2"], [6, 1, 1])[0], path=rng.choice(["abs", "rel", "slash"]), faults=[], shuffle=rng.random() < 0.4)
        r = rng.random()
        if r < 0.3:
            c["faults"] = [fs.gen_kill(rng)]
        elif r < 0.5:
            c["faults"] = [fs.gen_fail(rng) for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.6:
            c["stop"] = fs.gen_stop(rng)
        calls.append(c)
    if rng.random() < 0.1:
        # as long as a file name can be
        room = 255 - max(length(s) for s in sets)
        for c in calls:
            c["pref"] = "p" * room
    summary = len(cfg["dims"]) == 2 and cfg["dims"] == "xy" and rng.random() < 0.05
    return dict(cfg=cfg, sets=sets, calls=calls, dir=rng.choice(["res", "a/b"]), summary=summary, fresh=rng.choice([None] * 19 + [rng.randint(1, 4000000)]), seed=rng.randint(0, 1 << 30), order=rng.randint(0, 1 << 30))


def length(kw):
    """of the name of the directory without the project's"""
    return len("_" + "_".join(f"{k}={tuple(x) if isinstance(x, list) else x}" for k, x in kw.items()))


def vary(rng, v, cfg):
    d = cfg["dims"][0]
    k = rng.choice(["T", "T", "domain", "domain", "integrator", "n_snapshots", "n", "p", "CFL", "gamma", "riemann_solver", "snapshots_as_fv_averages", "fixed_dt"] + (["NAD", "NAD", "slope_limiter", "SED", "convex", "force_trouble", "SED_tolerance", "NAD_mode"] if "NAD" in v else ["conservative_ic", "csq_floor"]))
    if k == "T":
        v["T"] = rng.choice([v["T"] * (1 + 1e-9), v["T"] + 0.001, v["T"] * 2, round(v["T"], 2) or v["T"] * 1.5])
    elif k == "integrator":
        v["integrator"] = rng.choice([-1, 1, 2, 3, 4])
    elif k == "n_snapshots":
        v["n_snapshots"] = rng.choice([2, 3, 4, 11, 12])
    elif k == "n":
        v["n" + d] += rng.choice([1, 10])
    elif k == "p":
        v["p" + d] = max(0, v["p" + d] - 1) if rng.random() < 0.7 else min(v["p" + d] + 1, 2)
    elif k == "domain":
        v[d] = [1, 2] if v.get(d) == [-1, 2] else [-1, 2] if v.get(d) == [1, 2] else rng.choice([[1, 2], [-1, 2], [0, 1], [-1, 2], [1, 2], [0, 2], [0.0, 1.0], [-1.0, 1.0]])
    elif k == "CFL":
        v["CFL"] = rng.choice([0.8, 0.79, 0.7999999, 0.4, 0.08])
    elif k == "gamma":
        v["gamma"] = rng.choice([1.4, 1.4000001, 5 / 3, 1.66667, 14, 14.0])
    elif k == "riemann_solver":
        v[k] = rng.choice(["llf", "hllc"])
    elif k == "snapshots_as_fv_averages":
        v[k] = not v.get(k, True)
    elif k == "fixed_dt":
        v[k] = round(rng.uniform(0.2, 0.4) * model.typical_dt(cfg), 7)
    elif k == "NAD" and "NAD" in v:
        v[k] = rng.choice([1e-2, 1.0001e-2, 1e-3, 0.0, 0.1, 1.0, 10, 1e-22])
    elif k == "slope_limiter":
        v[k] = rng.choice(["minmod", "moncen"])
    elif k in ("SED", "convex", "force_trouble", "conservative_ic"):
        v[k] = not v.get(k, k == "SED")
    elif k == "SED_tolerance":
        v[k] = rng.choice([1e-10, 1e-11, 1e-1, 0.0])
    elif k == "NAD_mode":
        v[k] = rng.choice(["local", "global"])
    elif k == "csq_floor":
        v[k] = rng.choice([1e-10, 1e-1, 10, 1.0])


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    base = dict(do="wrap", cfg=scn["cfg"])
    D = []
    for k, kw in enumerate(scn["sets"]):
        ref, _ = w.run([dict(base, direct=True, kw=kw, dir="x", pref="p", overwrite=False)])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
        D.append(ref[0]["snaps"])
    ctx.event("reference", D)
    stored = set()
    rng = __import__("random").Random(scn["order"])
    extra = dict(summary="pics") if scn["summary"] else {}
    calls = list(scn["calls"]) + [dict(c, faults=[], stop=None, overwrite=False) for c in scn["calls"]]
    for i, c in enumerate(calls):
        kw = scn["sets"][c["set"]]
        order = list(kw)
        if c["shuffle"]:
            rng.shuffle(order)
        res, pol = w.run([dict(base, kw=kw, order=order, dir=scn["dir"], pref=c["pref"], path=c["path"], overwrite=c["overwrite"], stop=c.get("stop"), **extra)], c["faults"], **(dict(fresh=scn["fresh"]) if i == len(calls) - 1 else {}))
        r = res and res[0]
        out = "killed" if res is None else "ok" if r["ok"] else "raised " + r["exc"]
        key = (c["pref"], c["set"])
        what = f"call {i} (settings {c['set']}, {pol.fired})"
        ctx.event("outcome", i, out, r and r["f_calls"] > 0)
        ctx.trace.append((c["set"], out, r and r["f_calls"] > 0))
        if c["overwrite"] and (pol.fired or c.get("stop")) and not (r and r["ok"]):
            stored.discard(key)  # an overwriting call cut short may have left the results aside
        if res is None:
            if not pol.fired:
                raise Violation("process-died", what)
            continue
        if not r["ok"]:
            if r["stopped"]:
                ctx.fault(f"{r['exc']} while computing")
                ctx.nontrivial = True
            elif "name too long" in r["msg"] and len(c["pref"]) + length(kw) > 200:
                raise Skip("the name is too long")
            elif not pol.fired:
                raise Violation("call-fails", f"{what}: {r['exc']}: {r['msg']} at {r['where']}")
            continue
        if r["snaps"] != D[c["set"]]:
            other = [k for k, x in enumerate(D) if x == r["snaps"]]
            raise Violation("wrong-results", f"{what} returned {r['n']} snapshots at {r['times'][:6]}" + (f": those of settings {other}: {[scn['sets'][k] for k in other]} for {kw}" if other else ""))
        if key in stored and not c["overwrite"] and not pol.fired:
            ctx.nontrivial = True
            ctx.probe("loaded")
            if r["f_calls"]:
                raise Violation("recomputed", f"{what}: computed although an earlier call had stored the results")
        if r["f_calls"]:
            ctx.probe("computed")
        stored.add(key)


def shrinks(scn):
    yield from drop_each(scn, "calls")
    for i, c in enumerate(scn["calls"]):
        yield from fs.shrink_faults(scn, "calls", i, "faults")
        for k, v in (("stop", None), ("path", "abs"), ("pref", "p"), ("shuffle", False), ("overwrite", False)):
            if c.get(k) != v:
                yield put(scn, ["calls", i, k], v)
    if scn["fresh"]:
        yield {**scn, "fresh": None}
    if scn["summary"]:
        yield {**scn, "summary": False}
    if len(scn["sets"]) > 1:
        used = {c["set"] for c in scn["calls"]}
        for k in range(len(scn["sets"])):
            if k not in used:
                yield {**scn, "sets": scn["sets"][:k] + scn["sets"][k + 1 :], "calls": [dict(c, set=c["set"] - (c["set"] > k)) for c in scn["calls"]]}
    for j, s in enumerate(scn["sets"]):
        for k in s:
            if k in ("CFL", "gamma", "riemann_solver", "snapshots_as_fv_averages", "fixed_dt", "NAD", "a_posteriori_slope_limiting", "slope_limiter", "SED", "convex", "force_trouble", "conservative_ic", "SED_tolerance", "NAD_mode", "csq_floor"):
                yield put(scn, ["sets"], [{a: b for a, b in x.items() if a != k} if i == j else x for i, x in enumerate(scn["sets"])])
