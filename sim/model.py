"""solver configurations: random generation, construction, digests

A configuration is a JSON dict; build() turns it into an EulerSolver of the tree under
test.  Only the public constructor arguments are used.
"""

import hashlib
import math
import struct

# --------------------------------------------------------------- generation


def ghost(pmax, limiting, pd):
    """least number of cells for the ghost zones used by degree pd in a problem of degree pmax"""
    s = lambda p: math.ceil(p / 2)
    g = max(s(pmax) + 1, 2 * s(pmax)) + 2 * s(pd)
    if limiting:
        g = max(g, 3 + 2 * s(pd), 4)
    return max(g, 2)


def gen_cfg(rng, size="small", closed=False, dims=None, allow_limiting=True, bc_callable=False, pmax=None):
    """
    size: "tiny" (1-D, low order), "small", "medium"
    closed: only periodic and reflective boundaries
    """
    w = {"tiny": [(1, 9), (2, 1)], "small": [(1, 6), (2, 3), (3, 1)], "medium": [(1, 4), (2, 4), (3, 2)]}[size]
    nd = rng.choices([a for a, _ in w], [b for _, b in w])[0]
    if dims is None:
        dims = "".join(sorted(rng.sample("xyz", nd)))
        if nd == 1 and rng.random() < 0.6:
            dims = "x"
        if nd == 2 and rng.random() < 0.5:
            dims = "xy"
    nd = len(dims)
    limiting = allow_limiting and rng.random() < 0.45
    if pmax is None:
        top = {1: 7 if size != "tiny" else 3, 2: 4 if size == "medium" else 3, 3: 2}[nd]
        pm = rng.choices(range(top + 1), [4, 6, 5, 5, 2, 1, 1, 1][: top + 1])[0]
    else:
        pm = rng.randint(0, pmax)
    p = [0, 0, 0]
    for d in dims:
        p["xyz".index(d)] = pm if rng.random() < 0.75 else rng.randint(0, pm)
    n = [1, 1, 1]
    extra = {1: 10 if size != "tiny" else 4, 2: 4, 3: 2}[nd]
    for d in dims:
        i = "xyz".index(d)
        n[i] = max(ghost(max(p), limiting, p[i]), 3) + rng.randint(0, extra)
    if rng.random() < 0.03:  # now and then a larger mesh
        if nd == 1:
            n["xyz".index(dims)] = rng.choice([64, 150, 400])
        elif nd == 2 and max(p) <= 2:
            n["xyz".index(rng.choice(dims))] = rng.choice([32, 40])
    cfg = dict(dims=dims, n=n, p=p, gamma=rng.choice([5 / 3, 1.4]), CFL=rng.choice([0.8, 0.5, 0.3]))
    cfg["domain"] = [rng.choice([[0, 1], [0, 1], [0.0, 2.0], [-0.5, 0.5]]) for _ in range(3)]
    cfg["riemann"] = rng.choices(["hllc", "llf", "advection_upwind"], [5, 4, 1])[0]
    # boundaries
    bc = {}
    kinds = ["periodic", "reflective"] if closed else ["periodic", "free", "outflow", "reflective", "dirichlet", "ic"]
    for d in "xyz":
        if rng.random() < (0.6 if closed else 0.4):
            bc[d] = ["periodic", "periodic"]
        else:
            k = [k for k in kinds if k != "periodic"]
            bc[d] = [rng.choice(k), rng.choice(k)]
    if bc_callable:
        bc[dims[0]] = ["dirichlet", rng.choice(["dirichlet", "free", "reflective"])]
    cfg["bc"] = bc if (rng.random() < 0.8 or bc_callable) else None
    if closed and cfg["riemann"] == "advection_upwind" and cfg["bc"]:
        cfg["riemann"] = "llf"
    cfg["dirichlet"] = "callable" if bc_callable else rng.choice(["callable", "array"])
    # initial condition
    cfg["ic"] = dict(
        name=rng.choices(["waves", "sinus", "square", "blob", "noise", "shock", "tube", "layers", "disk", "default", "thin"], [8, 4, 4, 6, 2, 1, 1, 1, 1, 1, 1])[0],
        seed=rng.randint(0, 999),
        amp=rng.choice([0.05, 0.2]),
        v=rng.choice([0.0, 0.3, 1.0]),
    )
    form = rng.choices(["primitive", "conservative", "fv"], [6, 2, 2])[0]
    if form == "fv" and cfg["bc"] and any("ic" in b for b in cfg["bc"].values()):
        form = "conservative"
    cfg["form"] = form
    cfg["passives"] = rng.choices([[], ["dye"], ["dye", "b2"], ["a", "B", "c_"], ["salt", "ink", "dust", "dye", "x1"]], [12, 4, 2, 2, 1])[0]
    if cfg["passives"]:
        cfg["front"] = rng.random() < 0.4
    # limiting
    cfg["limiting"] = limiting
    if limiting:
        cfg["limiter"] = rng.choice(["minmod", "minmod", "moncen", None])
        cfg["force_trouble"] = rng.random() < 0.1
        cfg["NAD"] = rng.choice([1e-2, 1e-5, 0.0])
        cfg["NAD_mode"] = rng.choice(["global", "local"])
        cfg["NAD_range"] = rng.choice(["relative", "relative", "absolute"])
        cfg["NAD_vars"] = rng.choice([None, None, ["rho"], ["rho", "P"]])
        cfg["PAD"] = rng.choice([None, None, {"rho": [0.0, "inf"], "P": [0.0, "inf"]}, {"rho": [0.5, 3.0]}, {"rho": [0.97, 1.1], "P": [0.95, "inf"]}, {"vx": [-0.2, 0.2], "P": [0.0, "inf"], "rho": [0.9, 1.05]}])
        cfg["SED"] = rng.random() < 0.7
        cfg["convex"] = nd < 3 and rng.random() < 0.35
        if rng.random() < 0.15:
            cfg["SED_tolerance"] = rng.choice([1e-2, 0.0])
    if rng.random() < 0.1:
        cfg["csq_floor"] = rng.choice([1e-3, 0.6, 2.5])
    if rng.random() < 0.08:
        cfg[rng.choice(["density_floor", "pressure_floor"])] = rng.choice([1e-6, 0.9, 1.02])
    if rng.random() < 0.05:
        cfg["fixed_dt"] = round(typical_dt(cfg) * 0.6, 9)
    cfg["fv_snap"] = rng.random() < 0.8
    cfg["progress"] = rng.random() < 0.3
    cfg["np_ints"] = rng.random() < 0.1
    cfg["integrator"] = rng.choices(["run", "euler", "ssprk2", "ssprk3", "rk4"], [5, 1, 1, 1, 1])[0]
    cfg["slab"] = 30 if rng.random() < 0.9 else 40
    return cfg


def enlarge(rng, cfg):
    """make a one-dimensional problem so large that its arrays are written in several pieces"""
    if len(cfg["dims"]) == 1 and not cfg["limiting"]:
        i = "xyz".index(cfg["dims"])
        cfg["n"][i] = rng.choice([150, 400, 900])
        cfg["p"][i] = min(cfg["p"][i], 1)
    return cfg


def shrink_cfg(scn, *keys):
    """simpler configurations"""
    from .core import get, put

    c = get(scn, keys)

    def alt(**kw):
        d = dict(c)
        d.update(kw)
        return put(scn, keys, d)

    if c["limiting"]:
        d = {k: v for k, v in c.items() if k not in ("limiter", "force_trouble", "NAD", "NAD_mode", "NAD_range", "NAD_vars", "PAD", "SED", "SED_tolerance", "convex")}
        d["limiting"] = False
        yield put(scn, keys, d)
        if c.get("convex"):
            yield alt(convex=False)
    if c["passives"]:
        yield alt(passives=[])
        if c.get("front"):
            yield alt(front=False)
        if len(c["passives"]) > 1:
            yield alt(passives=c["passives"][:1])
    if len(c["dims"]) > 1:
        for d in c["dims"]:
            i = "xyz".index(d)
            n = [x if "xyz"[j] == d else 1 for j, x in enumerate(c["n"])]
            p = [x if "xyz"[j] == d else 0 for j, x in enumerate(c["p"])]
            yield alt(dims=d, n=n, p=p)
    if c["dims"] in ("y", "z"):
        i = "xyz".index(c["dims"])
        bc = c["bc"] and {**c["bc"], "x": c["bc"][c["dims"]]}
        yield alt(dims="x", n=[c["n"][i], 1, 1], p=[c["p"][i], 0, 0], bc=bc)
    if max(c["p"]) > 0:
        yield alt(p=[0, 0, 0])
        yield alt(p=[max(0, x - 1) for x in c["p"]])
    if c["bc"] is not None:
        yield alt(bc=None)
    for k in ("csq_floor", "density_floor", "pressure_floor", "fixed_dt", "SED_tolerance"):
        if k in c:
            yield put(scn, keys, {a: b for a, b in c.items() if a != k})
    if c["form"] != "primitive":
        yield alt(form="primitive")
    if c["progress"]:
        yield alt(progress=False)
    if c["np_ints"]:
        yield alt(np_ints=False)
    if c["ic"]["name"] != "sinus":
        yield alt(ic=dict(name="sinus", seed=0, amp=0.2, v=1.0))
    if c["integrator"] != "euler":
        yield alt(integrator="euler")
    for i in range(3):
        lo = max(ghost(max(c["p"]), c["limiting"], c["p"][i]), 3)
        if c["n"][i] > 1 and c["n"][i] > lo:
            n = list(c["n"])
            n[i] = lo
            yield alt(n=n)


# -------------------------------------------------------------- construction


def make_ic(cfg):
    import numpy as np
    from fvhoe.initial_conditions import DoubleShock1D, InitialCondition, KelvinHelmholtz2D, Shock1D, ShockTube, Sinus, SlottedDisk, Square

    ic = cfg["ic"]
    nv = ic["v"]
    form = cfg["form"]
    dims = cfg["dims"]
    gamma = cfg["gamma"]

    def prim(x, y, z):
        rng = np.random.RandomState(ic["seed"])
        a = ic["amp"]
        out = np.zeros((5,) + x.shape)
        L = [b - s for s, b in cfg["domain"]]
        ph = rng.uniform(0, 2 * np.pi, size=(5, 3))
        k = rng.randint(1, 3, size=(5, 3))
        r = np.zeros_like(x)
        for j, (d, X) in enumerate(zip("xyz", (x, y, z))):
            if d in dims:
                r = r + 2 * np.pi * (X - cfg["domain"][j][0]) / L[j]
        base = [1.0, nv, -0.5 * nv, 0.25 * nv, 1.0]
        for i in range(5):
            w = np.zeros_like(x)
            for j, (d, X) in enumerate(zip("xyz", (x, y, z))):
                if d in dims:
                    w = w + np.sin(2 * np.pi * k[i, j] * (X - cfg["domain"][j][0]) / L[j] + ph[i, j])
            w = w / max(1, len(dims))
            if ic["name"] == "blob":
                w = np.where(w > 0.3, 1.0, np.where(w < -0.6, -1.0, 0.0))
            elif ic["name"] == "noise":
                w = np.sin(1e3 * np.sin(37.0 * w + i) + ph[i, 0])
            out[i] = base[i] + a * w * (1.0 if i in (0, 4) else 0.5)
        return out

    class Waves(InitialCondition):
        def base_ic(self):
            if form == "primitive":
                return lambda x, y, z: prim(x, y, z)
            # conservative variables (also as cell averages)
            def cons(x, y, z):
                w = prim(x, y, z)
                u = w.copy()
                u[1:4] = w[0] * w[1:4]
                u[4] = w[4] / (gamma - 1) + 0.5 * w[0] * (w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
                return u

            return cons

    if form == "primitive" and ic["name"] == "sinus":
        return Sinus(dims=dims, vx=nv, vy=0.5 * nv, vz=-0.25 * nv)
    if form == "primitive" and ic["name"] == "square":
        return Square(dims=dims, vx=nv, vy=0.5 * nv, vz=-0.25 * nv)
    if form == "primitive" and ic["name"] == "shock":
        if ic["seed"] % 2:
            return Shock1D(dim=dims[0], rho_left_right=(1, 0.8), P_left_right=(1, 0.7), v_left_right=(0.1 * nv, 0.0))
        return DoubleShock1D(dim=dims[0], positions=(0.3, 0.7), rhos=(1, 0.8, 1.1), vs=(0, 0.1 * nv, 0), Ps=(1, 1.2, 0.9))
    if form == "primitive" and ic["name"] == "tube":
        if ic["seed"] % 2:
            return ShockTube(dims=dims, center=(0.4,) * len(dims), radius=0.2, rho_in_out=(1.2, 0.9), P_in_out=(1.1, 0.8), vx_in_out=(nv, 0))
        return ShockTube(mode="cube", rho_in_out=(1.2, 0.9), P_in_out=(1.1, 0.8), vy_in_out=(nv, 0), **{dims[-1] + "_cube": (0.2, 0.6)})
    if form == "primitive" and ic["name"] == "thin":  # almost nothing inside
        return ShockTube(mode="cube", rho_in_out=(0.005, 1.0), P_in_out=(1.0, 1.0), **{dims[-1] + "_cube": (0.3, 0.6)})
    if form == "primitive" and ic["name"] == "layers":
        return KelvinHelmholtz2D(w0=0.1 * (1 + nv))
    if form == "primitive" and ic["name"] == "disk":
        return SlottedDisk(rho_min_max=(1, 1.3))
    if form == "primitive" and ic["name"] == "default":
        return Square()
    return Waves()


def passive_functions(cfg):
    import numpy as np

    def make(i):
        def f(x, y, z):
            w = np.sin(2 * np.pi * (x + (i + 1) * y - z) + i)
            if cfg.get("front"):  # a patch with sharp edges, in nothing
                return np.where(w > 0.2, 1.0 + i, 0.0)
            return 0.5 + 0.4 * w

        return f

    return {name: make(i) for i, name in enumerate(cfg["passives"])} or None


def dirichlet_values(cfg):
    """a constant inflow state and, as a callable, a mildly varying one (conservative)"""
    import numpy as np

    v = 0.2
    nv = 5 + len(cfg["passives"])
    u = np.zeros(nv)
    u[0], u[1], u[4] = 1.0, v, 1.0 / (cfg["gamma"] - 1) + 0.5 * v * v
    u[5:] = 0.5
    return u


def make_bc(cfg, hook=None, wrap=None):
    """hook(name) is called whenever the user-provided boundary function is evaluated; wrap
    turns that function into the one handed over"""
    import numpy as np
    from fvhoe.boundary_conditions import BoundaryCondition

    if cfg["bc"] is None:
        return None
    base = dirichlet_values(cfg)

    def func(x, y, z, t):
        bad = hook("bc") if hook is not None else None
        out = np.ones((base.size,) + x.shape) * base.reshape(-1, 1, 1, 1)
        s = 1.0 + 0.05 * np.sin(2 * np.pi * (y + z) + t)
        out[0] = out[0] * s
        out[5:] = out[5:] * s
        if bad is not None:  # a boundary function that goes wrong
            out[...] = bad
        return out

    if wrap is not None:
        func = wrap(func)
    kw = {}
    for d in "xyz":
        l, r = cfg["bc"][d]
        kw[d] = (l, r)
        if "dirichlet" in (l, r):
            val = func if cfg["dirichlet"] == "callable" else base
            kw[d + "_value"] = (
                (val if val is func else val.copy()) if l == "dirichlet" else None,
                (val if val is func else val.copy()) if r == "dirichlet" else None,
            )
    return BoundaryCondition(**kw)


def kwargs_of(cfg):
    import numpy as np

    cast = np.int64 if cfg.get("np_ints") else int
    kw = dict(
        CFL=cfg["CFL"],
        gamma=cfg["gamma"],
        riemann_solver=cfg["riemann"],
        conservative_ic=cfg["form"] != "primitive",
        fv_ic=cfg["form"] == "fv",
        progress_bar=cfg["progress"],
        snapshots_as_fv_averages=cfg["fv_snap"],
        slab_buffer_size=cfg["slab"],
    )
    for i, d in enumerate("xyz"):
        kw["n" + d] = cast(cfg["n"][i])
        kw["p" + d] = cast(cfg["p"][i]) if cfg.get("np_ints") else cfg["p"][i]
        kw[d] = tuple(cfg["domain"][i])
    for k in ("fixed_dt", "csq_floor", "density_floor", "pressure_floor", "SED_tolerance"):
        if cfg.get(k) is not None:
            kw[k] = cfg[k]
    if cfg["limiting"]:
        inf = {"inf": float("inf"), "-inf": -float("inf")}
        pad = cfg.get("PAD")
        kw.update(
            a_posteriori_slope_limiting=True,
            slope_limiter=cfg["limiter"],
            force_trouble=cfg["force_trouble"],
            NAD=cfg["NAD"],
            NAD_mode=cfg["NAD_mode"],
            NAD_range=cfg["NAD_range"],
            NAD_vars=None if cfg["NAD_vars"] is None else tuple(cfg["NAD_vars"]),
            PAD=pad and {k: tuple(inf.get(x, x) for x in v) for k, v in pad.items()},
            SED=cfg["SED"],
            convex=cfg["convex"],
        )
    return kw


def build(cfg, cls=None, hook=None, helper=None, ic=None, bc="make", passives="make", **over):
    from fvhoe.solver import EulerSolver

    cls = cls or EulerSolver
    kw = kwargs_of(cfg)
    kw.update(over)
    if ic is None and (cfg["ic"]["name"] != "default" or cfg["form"] != "primitive"):
        ic = make_ic(cfg)
    if ic is not None:  # else the solver's own default
        kw["w0"] = ic
    return cls(
        w0_passives=passive_functions(cfg) if passives == "make" else passives,
        bc=make_bc(cfg, hook) if bc == "make" else bc,
        snapshot_helper_function=helper,
        **kw,
    )


def gen_plot(rng):
    """how a user looks at the results"""
    return dict(
        param=rng.choice(["rho", "P", "v", "v", "vx"]),
        when=rng.choice([None, 0.0, 0.5, 1.0, 2.0]),  # in units of the time reached
        way=rng.choice(["slice", "slice", "line", "log", "contour", "circle", "fields"]),
        center=[rng.choice([-0.5, 0.0, 0.4]) for _ in range(3)],
    )


def plot(s, cfg, how):
    """a plot that fails is not what is checked: what it leaves behind is"""
    import matplotlib.pyplot as plt
    import numpy as np
    from fvhoe import visualization

    dims, way = cfg["dims"], how["way"]
    t = {} if how["when"] is None else dict(t=how["when"] * float(s.t) + (0.01 if how["when"] > 1 else 0.0))
    pos = {d: 0.5 * sum(cfg["domain"]["xyz".index(d)]) for d in "xyz"}

    def at(free):
        return {d: pos[d] for d in "xyz" if d not in free}

    fig, ax = plt.subplots()
    try:
        if way == "circle":
            visualization.sample_circular_average(s, param=how["param"], center=tuple(how["center"]), radii=np.array([0.0, 0.2, 0.6, 1.5]), **t)
        elif way == "fields" and len(dims) < 3:
            plt.close(s.plot_fields(**at(dims), **t)[0])
        elif len(dims) == 1 or way == "line":
            s.plot_1d_slice(ax, param=how["param"], **at(dims[0]), **t)
        else:
            extra = dict(log=True, log_vmin=1.0, log_vmax=2.0) if way == "log" else dict(contour=True, levels=5) if way == "contour" else {}
            s.plot_2d_slice(ax, param=how["param"], **at(dims[:2]), **t, **extra)
    except Exception:
        return False
    finally:
        plt.close(fig)
    return True


STAGES = dict(euler=1, ssprk2=2, ssprk3=3, rk4=4)


def stages(cfg):
    if cfg["integrator"] == "run":
        return [1, 2, 3, 4][min(max(cfg["p"]), 3)]
    return STAGES[cfg["integrator"]]


def entry(solver, cfg):
    return getattr(solver, cfg["integrator"])


def typical_dt(cfg):
    """rough size of a time step"""
    h = min((b - a) / n for (a, b), n in zip(cfg["domain"], cfg["n"]))
    v = abs(cfg["ic"]["v"]) * 1.75 + 0.3
    c = 1.6 if cfg["ic"]["name"] != "thin" or cfg["form"] != "primitive" else 12.0
    return cfg["CFL"] * h / (v + len(cfg["dims"]) * c)


# ------------------------------------------------------------------- digests


def _feed(h, x):
    import numpy as np

    if isinstance(x, np.ndarray):
        h.update(f"A{x.dtype.str}{x.shape}".encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(f"D{len(x)}".encode())
        for k in sorted(x, key=str):
            h.update(f"K{k}".encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(f"L{len(x)}".encode())
        for y in x:
            _feed(h, y)
    elif isinstance(x, float):  # includes np.float64
        h.update(b"F" + struct.pack("=d", float(x)))
    elif isinstance(x, (int, np.integer)):
        h.update(f"I{int(x)}".encode())
    else:
        h.update(f"O{x!r}".encode())


def dig(*xs) -> str:
    h = hashlib.sha256()
    for x in xs:
        _feed(h, x)
    return h.hexdigest()[:20]


def state_digest(s) -> str:
    return dig(s.am.get_numpy("u"), [float(t) for t in s.timestamps], float(s.t), int(s.step_count))


def snaps_digest(s) -> str:
    return dig(s.snapshots, [float(t) for t in s.snapshot_times])
