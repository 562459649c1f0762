"""histories of integration calls with adversarial time steps and output times

A toy system whose every time-step size comes from the seed (including zero, negative, nan,
infinite and vanishing ones), and real flows, are driven through random sequences of calls;
time history, snapshots and state are checked against what was requested after each call.
"""

import math

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model

QUICK = dict(runs=20000, limit=80, rerun=60)
THOROUGH = dict(runs=2000000, limit=780, rerun=600)
RULE = "a run counts when it made a call with output times, a second call, or a call with a hostile step size; two runs are distinct when the sequence of (call form, steps taken, snapshots added, outcome) differs"
MEASURE = "hash of the sequence of (integrator, call form, steps, snapshots, outcome)"
REAL = ["fvhoe.ode.ODE and its integrators, fvhoe.timer", "fvhoe.solver.EulerSolver and everything it calls (a quarter of the runs)", "numpy, tqdm"]
STUB = ["right-hand side of the toy system: step sizes and slopes from the seed", "clocks, entropy: simulated", "progress stream: discards", "git: a stand-in"]
ASSUME = ["times are finite and not subnormal", "either an end time or a step count is given, not both"]

BAD = ["nan", "zero", "negative", "-inf", "tiny", "minus-zero"]


def gen_times(rng, t, dt, toy):
    r = rng.random()
    if r < 0.1:
        T = t  # already there
    elif r < 0.17:
        T = t * rng.random()  # behind
    else:
        T = t + dt * rng.choice([0.3, 1.0, 2.0, 3.7, 7.0])
        if rng.random() < 0.01:
            T = t + dt * rng.choice([70, 300, 1100]) * (1 if toy else 0.1)
    # round values, which steps can land on by themselves
    for p, unit in ((0.3, 1024), (0.1, 1)):
        R = math.ceil(T * unit) / unit
        if rng.random() < p and R - t < 20 * dt:
            T = R
    return T


def gen(rng, tier):
    toy = rng.random() < 0.8
    seed = rng.randint(0, 1 << 30)
    if not toy:
        cfg = model.gen_cfg(rng, "tiny")
        if rng.random() < 0.3:
            cfg["fixed_dt"] = model.typical_dt(cfg) * rng.choice([0.5, 0.9])
        dt = model.typical_dt(cfg)
    else:
        cfg = None
        dt = rng.choice([1.0, 0.5, 0.1, 1 / 3, 0.125, 1e-3, 1e-8, 1e6])
    calls, t = [], 0.0
    for _ in range(rng.choices([1, 2, 3, 5], [3, 4, 3, 2])[0]):
        m = rng.choice(["euler", "ssprk2", "ssprk3", "rk4"] + ([] if toy else ["run"] * 4))
        if rng.random() < 0.15:
            calls.append(dict(m=m, kw=dict(n=rng.randint(0, 5))))
            t += 2.5 * dt
            continue
        T = gen_times(rng, t, dt, toy)
        kw = dict(T=T)
        k = rng.choices([0, 1, 2, 4, 9], [3, 3, 3, 2, 1])[0]
        if k:
            db = []
            for _ in range(k):
                r = rng.random()
                if r < 0.6:
                    d = rng.uniform(min(t, T), max(t, T))
                elif r < 0.68:
                    d = T
                elif r < 0.76:
                    d = t
                elif r < 0.82 and db:
                    d = rng.choice(db)
                elif r < 0.88:
                    d = math.nextafter(rng.choice(db + [T, t]), rng.choice([-math.inf, math.inf]))
                elif r < 0.92:
                    d = T + dt
                elif r < 0.95:
                    d = t - dt
                else:
                    d = t + dt * rng.randint(1, 4)
                if 0 < abs(d) < 1e-30:
                    d = dt * 1e-9  # subnormal times overflow the progress display
                db.append(d)
            kw["downbeats"] = db
        if rng.random() < 0.2:
            kw["log_every_step"] = True
        if rng.random() < 0.15:
            kw["exact"] = False
        if rng.random() < 0.02:
            k = rng.choice([30, 200])
            kw["downbeats"] = [rng.uniform(t, T) for _ in range(k if toy else 20)]
        calls.append(dict(m=m, kw=kw, end=rng.choice(["float", "float", "np", "int"]), form=rng.choice(["list", "tuple", "array", "iter", "np"])))
        t = max(t, T)
    scn = dict(toy=toy, cfg=cfg, dt=dt, calls=calls, progress=rng.random() < 0.2, seed=seed)
    if toy:
        # step sizes asked for, cyclically
        n = rng.choice([1, 1, 3, 8])
        dts = [dt * rng.choice([1.0, 1.0, 1.0, 0.5, 0.75, rng.uniform(0.2, 1.7)]) for _ in range(n)]
        if rng.random() < 0.25:
            dts[rng.randrange(n)] = rng.choice(BAD + ["inf"])
        scn["dts"] = dts
        scn["vary"] = rng.random() < 0.5  # another size at every evaluation rather than at every step
    return scn


class Endless(BaseException):
    pass


def shape(form, db):
    import numpy as np

    if db is None:
        return None
    if form == "tuple":
        return tuple(db)
    if form == "array":
        return np.array(db)
    if form == "iter":
        return iter(list(db))
    if form == "np":
        return [np.float64(d) for d in db]
    return list(db)


def make_toy(scn, guard):
    import numpy as np

    from fvhoe.ode import ODE

    value = {"nan": math.nan, "zero": 0.0, "minus-zero": -0.0, "negative": -scn["dt"], "inf": math.inf, "-inf": -math.inf}

    class Toy(ODE):
        def f(self, t, u):
            guard()
            i = self.evals if scn["vary"] else self.step_count
            self.evals += 1
            dt = scn["dts"][i % len(scn["dts"])]
            if dt == "tiny":
                dt = abs(t) * 1e-18 if t else 0.0
            dt = value.get(dt, dt)
            return dt, np.array([1.0, 2.0, 0.0])

    s = Toy(np.zeros(3), progress_bar=scn["progress"])
    s.evals = 0
    return s


def run(scn, ctx):
    import sys

    import numpy as np

    inproc.begin(scn["seed"])
    toy = scn["toy"]
    count = [0]
    limit = [0]

    def guard():
        count[0] += 1
        if count[0] > limit[0]:
            raise Endless()

    if toy:
        s = make_toy(scn, guard)
        hostile = any(isinstance(d, str) for d in scn["dts"])
    else:
        rig = inproc.Rig(scn["cfg"])
        rig.on_f = lambda _: guard()
        s = rig.s
        hostile = False
        fresh = model.build(scn["cfg"])
    sys.stderr = Quiet()
    if s.t != 0 or list(s.timestamps) != [0] or s.step_count != 0:
        raise Violation("start", f"a new solver is at t={s.t}, history {s.timestamps}, {s.step_count} steps")
    for i, c in enumerate(scn["calls"]):
        kw = dict(c["kw"])
        given = kw.get("downbeats")
        if given is not None:
            kw["downbeats"] = shape(c.get("form"), given)
            before = None if c["form"] == "iter" else model.dig(kw["downbeats"])
        if "T" in kw and c.get("end") == "np":
            kw["T"] = np.float64(kw["T"])
        elif "T" in kw and c.get("end") == "int" and kw["T"] == int(kw["T"]):
            kw["T"] = int(kw["T"])
        what = f"call {i} ({c['m']} {c['kw']})"[:400]
        t0, n0, k0 = s.t, s.step_count, len(s.snapshots)
        h0 = list(s.timestamps)
        st0 = list(s.snapshot_times)
        T = kw.get("T")
        # no call may need more steps than this
        smallest = scn["dt"] * (0.19 if toy else 0.02)
        span = max(0.0, (T or 0.0) - t0)
        limit[0] = 4 * int(span / smallest + kw.get("n", 0) + len(given or []) + 8)
        count[0] = 0
        err = None
        try:
            getattr(s, c["m"])(**kw)
        except Endless:
            if not toy and s.step_count > n0 + 50 and s.t > t0:
                raise Skip("the flow blows up and needs ever smaller steps")
            raise Violation("does-not-end", f"{what} from t={t0} still runs after {count[0]} evaluations, at t={s.t}")
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        h = [float(x) for x in s.timestamps]
        added = [float(x) for x in s.snapshot_times][k0:]
        ctx.event(c["m"], kw.get("n"), err and err[:20], float(s.t), s.step_count, len(added))
        ctx.trace.append((c["m"], sorted(c["kw"]), s.step_count - n0, len(added), bool(err)))
        if given is not None and before is not None and model.dig(kw["downbeats"]) != before:
            raise Violation("argument-changed", f"{what}: the output times passed in were modified")
        # always true, error or not
        if h[: len(h0)] != [float(x) for x in h0]:
            raise Violation("history-rewritten", f"{what}: past time history changed")
        if [float(x) for x in s.snapshot_times][:k0] != [float(x) for x in st0]:
            raise Violation("history-rewritten", f"{what}: past snapshot times changed")
        if any(not a < b for a, b in zip(h, h[1:])):
            j = next(j for j, (a, b) in enumerate(zip(h, h[1:])) if not a < b)
            raise Violation("not-increasing", f"{what}: time history {h[j]!r}, {h[j + 1]!r}")
        if len(h) != s.step_count + 1 or h[-1] != s.t:
            raise Violation("history", f"{what}: {len(h)} entries for {s.step_count} steps, last {h[-1]!r} at t={s.t!r}")
        if len(s.snapshots) != len(s.snapshot_times):
            raise Violation("snapshots", f"{what}: {len(s.snapshots)} snapshots, {len(s.snapshot_times)} times")
        if not toy and any(float(x["t"]) != float(t) for x, t in zip(s.snapshots, s.snapshot_times)):
            raise Violation("snapshots", f"{what}: snapshots do not carry their times")
        if any(not a <= b for a, b in zip(added, added[1:])) or any(a not in h for a in added):
            raise Violation("snapshots", f"{what}: snapshot times {added} along {h[len(h0) - 1 :]}")
        exact = kw.get("exact", True) and T is not None
        ahead = sorted({float(d) for d in given or [] if t0 < d < T}) if exact else []
        # steps never pass an output time
        if exact:
            goals = ahead + ([float(T)] if T > t0 else [])
            for g in goals:
                for a, b in zip(h[len(h0) - 1 :], h[len(h0) :]):
                    if a < g < b:
                        raise Violation("overshoot", f"{what}: stepped from {a!r} to {b!r} over {g!r}")
        if toy:
            u = s.am.get_numpy("u")
            if abs(u[0] - s.t) > 1e-11 * max(1.0, abs(s.t)) * max(1, s.step_count) or abs(u[1] - 2 * s.t) > 2e-11 * max(1.0, abs(s.t)) * max(1, s.step_count) or u[2] != 0:
                raise Violation("state-not-at-time", f"{what}: slopes 1, 2, 0 from 0 give {u} at t={s.t!r}")
        if err is not None:
            bad = [d for d in (scn["dts"] if toy else []) if isinstance(d, str)]
            if not bad:
                if not toy:
                    # a flow that blew up cannot be continued by another solver either
                    fresh.am("u")[...] = s.am.get_numpy("u")
                    limit[0] = 1 << 60
                    try:
                        dt = float(fresh.f(s.t, fresh.am("u"))[0])
                    except Exception:
                        dt = math.nan
                    if not s.t < s.t + dt < math.inf:
                        raise Skip("the flow cannot be continued")
                raise Violation("raises", f"{what} from t={t0}: {err}")
            ctx.fault("step size " + bad[0])
            continue
        ctx.nontrivial |= bool(given) or i > 0 or hostile
        if T is None:
            if s.step_count - n0 != kw["n"]:
                raise Violation("step-count", f"{what}: took {s.step_count - n0} steps")
            want = [float(t0), float(s.t)]
            if added != want:
                raise Violation("snapshots", f"{what}: snapshots at {added}, expected at {want}")
        else:
            if s.t < T:
                raise Violation("returned-early", f"{what}: returned at t={s.t!r}")
            steps = h[len(h0) :]
            if T > t0:
                if exact and s.t != T:
                    raise Violation("missed-end", f"{what}: ended at t={s.t!r}")
                if not exact and (len(h) > 1 and h[-2] >= T):
                    raise Violation("late-end", f"{what}: stepped on from {h[-2]!r}")
                for d in ahead:
                    if d not in steps:
                        raise Violation("missed-output", f"{what}: {d!r} is not in {steps}")
                want = [float(t0)] + (steps if kw.get("log_every_step") else ahead + [float(s.t)])
                if added != want:
                    raise Violation("snapshots", f"{what}: snapshots at {added}, expected at {want}")
            else:
                ctx.probe("end time not ahead")
                if steps or not 1 <= len(added) <= 2 or any(a != t0 for a in added):
                    raise Violation("snapshots", f"{what} from t={t0!r}: took {len(steps)} steps, snapshots at {added}")
            if ahead:
                ctx.probe("output times hit", len(ahead))
            if hostile:
                # a call may end before it meets a bad size, but not when every size is bad
                if T > t0 and exact and all(isinstance(d, str) and d != "inf" for d in scn["dts"]):
                    raise Violation("returned", f"{what}: step sizes {scn['dts']} but no error")
        ctx.steps += s.step_count - n0
    ctx.sim_time += float(s.t)


class Quiet:
    def write(self, text):
        return len(text)

    def flush(self):
        pass


def shrinks(scn):
    yield from (c for c in drop_each(scn, "calls") if c["calls"])
    for i, c in enumerate(scn["calls"]):
        if "downbeats" in c["kw"]:
            yield from drop_each(scn, "calls", i, "kw", "downbeats")
        for k in ("downbeats", "log_every_step", "exact"):
            if k in c["kw"]:
                yield put(scn, ["calls", i, "kw"], {a: b for a, b in c["kw"].items() if a != k})
        if c["m"] != "euler":
            yield put(scn, ["calls", i, "m"], "euler")
        if c.get("end", "float") != "float":
            yield put(scn, ["calls", i, "end"], "float")
        if len(c["kw"].get("downbeats", [])) > 9:
            yield put(scn, ["calls", i, "kw", "downbeats"], c["kw"]["downbeats"][:9])
        if c.get("form", "list") != "list":
            yield put(scn, ["calls", i, "form"], "list")
    if scn["progress"]:
        yield {**scn, "progress": False}
    if scn["toy"]:
        if len(scn["dts"]) > 1:
            for i in range(len(scn["dts"])):
                yield put(scn, ["dts"], [scn["dts"][i]])
        if scn["vary"]:
            yield {**scn, "vary": False}
    else:
        yield from model.shrink_cfg(scn, "cfg")
