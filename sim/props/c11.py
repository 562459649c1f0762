"""timers on a simulated clock that drifts and jumps, and timed solver runs on it

Random histories of timer operations, misuse and abandoned measurements run while the
simulated clock advances and the wall clock jumps both ways; every figure is compared with
the elapsed simulated time.  Whole runs with slow callbacks are timed on the same clock.
"""

from ..core import Skip, Violation, drop_each, put
from .. import inproc, model, native

QUICK = dict(runs=20000, limit=80, rerun=60)
THOROUGH = dict(runs=2000000, limit=780, rerun=600)
RULE = "a run counts when the wall clock jumped or a measurement was misused or abandoned; two runs are distinct when the sequence of operations (with categories) or of faults differs"
MEASURE = "hash of the sequence of operations and faults"
REAL = ["fvhoe.timer.Timer", "fvhoe.solver.EulerSolver and everything it calls (a third of the runs)"]
STUB = ["clocks: simulated, monotonic one advances, wall clock jumps both ways", "entropy: simulated", "user callbacks: the simulator's, slow on demand", "git: a stand-in"]
ASSUME = ["the monotonic clock of the system is monotonic"]


def gen_ops(rng, n, depth=0):
    ops = []
    cats = ["a", "b", "long category", "TOTAL"]
    for _ in range(n):
        r = rng.random()
        if r < 0.28:
            ops.append(["start", rng.choice(cats)])
        elif r < 0.56:
            ops.append(["stop", rng.choice(cats)])
        elif r < 0.72:
            ops.append(["pass", rng.choice([1, 10**3, 10**6, 10**9, 86400 * 10**9])])
        elif r < 0.84:
            ops.append(["jump", rng.choice([-1, 1]) * rng.choice([10**6, 10**9, 3600 * 10**9, 10**16])])
        elif r < 0.90:
            ops.append(["bad", rng.choice(["start-unknown", "stop-unknown", "add-duplicate", "add-duplicates"])])
        elif r < 0.92:
            ops.append(["show", rng.choice(["to_dict", "report"])])
        elif r < 0.95:
            ops.append(["add", f"c{rng.randint(0, 3)}", rng.random() < 0.5])
        elif depth < 2:
            ops.append(["recover", gen_ops(rng, rng.randint(1, 6), depth + 1), rng.random() < 0.7])
    return ops


def gen(rng, tier):
    seed = rng.randint(0, 1 << 30)
    if rng.random() < 0.67:
        return dict(kind="timer", ops=gen_ops(rng, rng.choice([4, 10, 25])), precision=rng.choice([2, 2, 0, 6]), seed=seed)
    cfg = model.gen_cfg(rng, "tiny", bc_callable=rng.random() < 0.5)
    cfg["progress"] = False
    calls, t = [], 0.0
    for _ in range(rng.choice([1, 2, 3])):
        kw, t2 = inproc.gen_args(rng, cfg, t)
        if "T" in kw and kw.get("exact", True):
            t = t2
        c = dict(kw=kw)
        if rng.random() < 0.3:
            c["fault"] = inproc.gen_fault(rng, cfg, kinds=["bc", "helper", "f_pre", "f_post", "line", "alloc"])
        calls.append(c)
    slow = {k: rng.choice([0, 10**6, 10**9, 60 * 10**9]) for k in ("bc", "f", "helper")}
    jumps = [[rng.choice(["bc", "f", "helper"]), rng.randint(1, 8), rng.choice([-1, 1]) * rng.choice([10**9, 10**13, 10**16])] for _ in range(rng.randint(0, 4))]
    return dict(kind="solver", cfg=cfg, calls=calls, slow=slow, jumps=jumps, seed=seed)


class Stop(Exception):
    pass


def run(scn, ctx):
    inproc.begin(scn["seed"])
    (run_timer if scn["kind"] == "timer" else run_solver)(scn, ctx)
    ctx.sim_clock += (native.lib().sim_clock_mono() - 10**12) / 1e9


def figures(timer):
    return {str(k): float(v) for k, v in timer.cum_time.items()}


def run_timer(scn, ctx):
    from fvhoe.timer import Timer

    lib = native.lib()
    now = lib.sim_clock_mono
    timer = Timer(["a", "b", "long category"], precision=scn["precision"])
    timer.add_cat("TOTAL")
    known = ["a", "b", "long category", "TOTAL"]
    running = {}  # category -> (not before, not after) of its start
    lo = {c: 0.0 for c in known}
    hi = {c: 0.0 for c in known}
    eps = 2e-6  # floating-point seconds of a long-running clock

    def misuse(what, f):
        before = figures(timer)
        try:
            f()
        except Exception:
            ctx.fault("misuse")
        else:
            raise Violation("misuse-accepted", what)
        after = figures(timer)
        if any(after.get(k) != v for k, v in before.items()):
            raise Violation("misuse-counts", f"{what} changed {before} to {after}")

    def check(what):
        got = figures(timer)
        for c in known:
            if c not in got:
                raise Violation("category-missing", f"{what}: no figure for '{c}'")
            v = got[c]
            tol = eps * (1 + len(ctx.trace)) + 1e-12 * abs(hi[c])
            if not lo[c] - tol <= v <= hi[c] + tol:
                raise Violation("wrong-figure", f"{what}: '{c}' is given as {v!r} s, the elapsed time is between {lo[c]} and {hi[c]} s")
            if v < 0:
                raise Violation("negative-figure", f"{what}: '{c}' is {v!r}")

    def do(ops):
        for op in ops:
            k = op[0]
            ctx.trace.append([x for x in op if not isinstance(x, list)])
            if k == "start":
                c = op[1]
                if c in running:
                    misuse(f"starting '{c}' twice", lambda: timer.start(c))
                else:
                    a = now()
                    timer.start(c)
                    running[c] = (a, now())
            elif k == "stop":
                c = op[1]
                if c not in running:
                    misuse(f"stopping '{c}' which is not running", lambda: timer.stop(c))
                else:
                    a = now()
                    timer.stop(c)
                    b = now()
                    s = running.pop(c)
                    lo[c] += max(0, a - s[1]) / 1e9
                    hi[c] += (b - s[0]) / 1e9
            elif k == "pass":
                lib.sim_clock_advance(op[1])
            elif k == "show":
                getattr(timer, op[1])()
            elif k == "jump":
                lib.sim_clock_jump(op[1])
                ctx.fault("wall clock forward" if op[1] > 0 else "wall clock backward")
            elif k == "bad":
                {
                    "start-unknown": lambda: misuse("starting an unknown category", lambda: timer.start("nonsense")),
                    "stop-unknown": lambda: misuse("stopping an unknown category", lambda: timer.stop("nonsense")),
                    "add-duplicate": lambda: misuse("adding a category twice", lambda: timer.add_cat("b")),
                    "add-duplicates": lambda: misuse("adding categories twice", lambda: timer.add_cat(["TOTAL", "a"])),
                }[op[1]]()
            elif k == "add":
                c = op[1]
                if c in known:
                    misuse(f"adding '{c}' again", lambda: timer.add_cat(c))
                else:
                    timer.add_cat([c] if op[2] else c)
                    known.append(c)
                    lo[c] = hi[c] = 0.0
            elif k == "recover" and hasattr(timer, "recover"):
                at = dict(running)
                try:
                    with timer.recover():
                        do(op[1])
                        if op[2]:
                            raise Stop()
                except Stop:
                    ctx.fault("measurement abandoned", max(1, len(set(running) - set(at))))
                    for c in list(running):
                        if at.get(c) != running[c]:
                            s = running.pop(c)
                            if c in at:  # stopped and started again in between: either view is fair
                                try:
                                    timer.stop(c)
                                    hi[c] += (now() - s[0]) / 1e9
                                except Exception:
                                    pass
            check(str(op))
        return

    do(scn["ops"])
    # whatever happened, every category can be measured again
    for c in known:
        if c in running:
            a = now()
            timer.stop(c)
            b = now()
            s = running.pop(c)
            lo[c] += max(0, a - s[1]) / 1e9
            hi[c] += (b - s[0]) / 1e9
    for c in known:
        a = now()
        timer.start(c)
        a2 = now()
        lib.sim_clock_advance(5 * 10**8)
        b = now()
        timer.stop(c)
        lo[c] += (b - a2) / 1e9
        hi[c] += (now() - a) / 1e9
    check("at the end")
    got = figures(timer)
    ctx.event(got)
    half = 0.5000001 * 10.0 ** -scn["precision"]
    table = {str(k): float(v) for k, v in timer.to_dict().items()}
    if set(table) != set(known):
        raise Violation("report", f"to_dict has {sorted(table)}")
    text = timer.report()
    rows = {}
    for line in text.splitlines():
        for c in known:
            if line.startswith(c + " "):
                try:
                    rows[c] = float(line[len(c) :])
                except ValueError:
                    pass
    for c in known:
        if abs(table[c] - got[c]) > half + 1e-9 * abs(got[c]):
            raise Violation("report", f"to_dict gives {table[c]} for '{c}', {got[c]} were measured")
        if c not in rows or abs(rows[c] - got[c]) > half + 1e-9 * abs(got[c]):
            raise Violation("report", f"the report gives {rows.get(c)} for '{c}', {got[c]} were measured")


PARTS = [
    ("(high-order) hydrofluxes", ["(high-order) riemann solver", "(high-order) conservative interpolation", "(high-order) transverse reconstruction"]),
    ("(fallback scheme) hydrofluxes", ["(fallback scheme) riemann solver", "(fallback scheme) conservative interpolation", "(fallback scheme) transverse reconstruction"]),
    ("(fallback scheme)", ["(fallback scheme) troubled cell detection", "(fallback scheme) hydrofluxes"]),
    ("TOTAL", ["(high-order) hydrofluxes", "(fallback scheme)"]),
]


def run_solver(scn, ctx):
    lib = native.lib()
    now = lib.sim_clock_mono
    cfg = scn["cfg"]
    m = cfg["integrator"]
    count = {"bc": 0, "f": 0, "helper": 0}
    spent = {"bc": 0, "f": 0, "helper": 0}
    rig = None

    def slow(k):
        count[k] += 1
        lib.sim_clock_advance(scn["slow"][k])
        spent[k] += scn["slow"][k]
        for kk, at, by in scn["jumps"]:
            if kk == k and at == count[k]:
                lib.sim_clock_jump(by)
                ctx.fault("wall clock forward" if by > 0 else "wall clock backward")

    in_f = [0]
    bc_in_f = [0]

    class Rig(inproc.Rig):
        def hit(self, kind):
            if self.armed and kind == "bc":
                slow("bc")
                if self.in_f:
                    bc_in_f[0] += scn["slow"]["bc"]
            super().hit(kind)

    rig = Rig(cfg)
    rig.on_f = lambda s: slow("f")
    rig.on_helper = lambda s: slow("helper")
    s = rig.s
    last = figures(s.timer)
    clean = True
    for i, c in enumerate(scn["calls"]):
        fault = None
        if c.get("fault"):
            twin = inproc.Rig(cfg)
            twin.s.am("u")[...] = s.am.get_numpy("u")
            twin.s.t = s.t
            twin.call(m, trace=c["fault"]["kind"] == "line", **c["kw"])
            fault = inproc.place(c["fault"], dict(twin.count))
        for k in spent:
            spent[k] = 0
        bc_in_f[0] = 0
        t0 = now()
        err = rig.call(m, fault, **c["kw"])
        t1 = now()
        if err is not None and not rig.fired:
            twin = inproc.Rig(cfg)
            twin.s.am("u")[...] = s.am.get_numpy("u")
            twin.s.t = s.t
            if twin.call(m, **c["kw"]) is None:
                raise Violation("blocked", f"call {i} raises {rig.err_text}; a fresh solver in the same state does not")
            raise Skip("the flow cannot be continued")
        if rig.fired:
            ctx.fault(c["fault"]["kind"])
            clean = False
        got = figures(s.timer)
        s.timer.to_dict(), s.timer.report()
        if figures(s.timer) != got:
            raise Violation("reporting-changes-figures", f"after call {i}: {got} became {figures(s.timer)}")
        ctx.event(i, rig.fired, sorted(got.items()))
        ctx.trace.append((rig.fired, s.step_count, sorted(k for k in got if got[k] > last.get(k, 0))))
        tol = 1e-5
        for k, v in got.items():
            d = v - last.get(k, 0.0)
            if d < -tol:
                raise Violation("figure-decreased", f"call {i}: '{k}' went from {last.get(k)} to {v}")
            if d > (t1 - t0) / 1e9 + tol:
                raise Violation("wrong-figure", f"call {i} took {(t1 - t0) / 1e9} s, '{k}' grew by {d}")
        if err is None:
            if "TOTAL" in got:
                least = (spent["f"] + bc_in_f[0]) / 1e9
                if got["TOTAL"] - last["TOTAL"] < least - tol:
                    raise Violation("wrong-figure", f"call {i}: evaluations took at least {least} s, TOTAL grew by {got['TOTAL'] - last['TOTAL']}")
            if "boundary conditions" in got and got["boundary conditions"] - last["boundary conditions"] < spent["bc"] / 1e9 - tol:
                raise Violation("wrong-figure", f"call {i}: the boundary function took {spent['bc'] / 1e9} s, 'boundary conditions' grew by {got['boundary conditions'] - last['boundary conditions']}")
        last = got
        if clean:
            for whole, parts in PARTS:
                if whole in got and all(p in got for p in parts):
                    if sum(got[p] for p in parts) > got[whole] + tol:
                        raise Violation("part-exceeds-whole", f"after call {i}: {[(p, got[p]) for p in parts]} in '{whole}' = {got[whole]}")
    ctx.steps += s.step_count
    ctx.sim_time += float(s.t)


def shrinks(scn):
    if scn["kind"] == "timer":
        yield from drop_each(scn, "ops")
        for i, op in enumerate(scn["ops"]):
            if op[0] == "recover":
                yield from drop_each(scn, "ops", i, 1)
            if op[0] in ("pass", "jump") and abs(op[1]) != 10**9:
                yield put(scn, ["ops", i, 1], 10**9 if op[1] > 0 else -(10**9))
        return
    yield from (c for c in drop_each(scn, "calls") if c["calls"])
    yield from drop_each(scn, "jumps")
    for i, c in enumerate(scn["calls"]):
        if c.get("fault"):
            yield put(scn, ["calls", i], dict(kw=c["kw"]))
    yield from model.shrink_cfg(scn, "cfg")
