"""loading results from a failing disk or from truncated, missing or emptied files

The run must raise, with the solver and the files as before, or load everything.
"""

import os

from ..core import Skip, Violation, put
from .. import fs, model

QUICK = dict(runs=3000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when a read was disturbed or a stored file damaged; two runs are distinct when the damage (kind, relative position in sixteenths, call it hit) or the outcomes differ"
MEASURE = "hash of (damage, fault, filesystem call, outcome of every call)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["failing, short and interrupted reads: decided by the simulator", "damage to files: applied by the simulator between processes", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["damage shortens or removes files or makes calls fail; altered bytes of the right length are not detected by the format and not covered"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, "tiny" if tier == "quick" or rng.random() < 0.5 else "small")
    T, kw = fs.gen_call(rng, cfg)
    if len(cfg["dims"]) == 1 and rng.random() < 0.15:
        T, kw = round(model.typical_dt(cfg) * 40, 9), dict(log_every_step=True)
    mode = rng.choices(["fail", "truncate", "missing", "legal", "replaced", "int"], [5, 5, 1, 3, 1, 1])[0]
    scn = dict(cfg=cfg, T=T, kw=kw, mode=mode, faults=[], before=rng.random() < 0.5, retries=rng.choice([1, 1, 2]), file=rng.randrange(60), seed=rng.randint(0, 1 << 30))
    if mode == "fail":
        cls = rng.choice(["read", "read", "openr", "rd"])
        f = dict(at=dict(cls=cls, nth=rng.randint(0, {"read": 2, "openr": 0, "rd": 3}[cls])), act="fail", err=rng.choice(["EIO", "EACCES", "EMFILE", "ESTALE", "ENOMEM", "EISDIR", "ENOENT"]))
        scn["faults"] = [f]
        if rng.random() < 0.3:
            scn["faults"].insert(0, dict(at=dict(cls="read", nth=0), act="short", frac=round(rng.random(), 3), sticky=True))
    elif mode == "truncate":
        scn["cut"] = rng.choice([0.0, 1.0, round(rng.random(), 4), round(rng.random(), 4), round(1 - rng.random() ** 4, 5)])
    elif mode == "legal":
        scn["faults"] = [dict(at=dict(cls="read", nth=rng.randint(0, 2)), act="short", frac=round(rng.random() ** 3, 4), sticky=True)]
        if rng.random() < 0.5:
            scn["faults"].append(dict(at=dict(cls=rng.choice(["read", "openr"]), nth=rng.randint(0, 2)), act="fail", err="EINTR"))
    elif mode == "int":
        scn["faults"] = [dict(at=dict(cls=rng.choice(["openr", "read"]), nth=rng.randint(0, 2)), act="int")]
    return scn


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    base = dict(do="run", id="s", cfg=scn["cfg"], T=scn["T"], kw=scn["kw"])
    pre = dict(before=scn["T"] * 0.5) if scn["before"] else {}
    res, _ = w.run([dict(base, **pre)])
    if not res[0]["ok"]:
        raise Skip("the configuration does not run: " + res[0]["exc"])
    undisturbed = res[0]
    res, _ = w.run([dict(base, dir="out")])
    if not res[0]["ok"]:
        raise Violation("save-fails", f"{res[0]['exc']}: {res[0]['msg']}")
    D = res[0]["snaps"]
    # which file does loading need?
    opened = []
    job = w.job([dict(base, dir="out")])
    try:
        while (op := job.next_op()) is not None:
            if op.op == "openr":
                opened.append(op.p1)
            job.answer()
    finally:
        job.kill()
    if not job.result[0]["ok"] or job.result[0]["f_calls"]:
        raise Violation("does-not-load", str(job.result[0]))
    opened = [p for p in opened if os.path.isfile(os.path.join(w.root, p))]
    if not opened:
        raise Skip("loading opens no file")
    path = os.path.join(w.root, opened[scn["file"] % len(opened)])
    size = os.path.getsize(path)
    if scn["mode"] == "truncate":
        n = min(size - 1, int(scn["cut"] * size))
        os.truncate(path, n)
        ctx.fault("file truncated")
        ctx.trace.append(("cut", 16 * n // size))
    elif scn["mode"] == "missing":
        os.unlink(path)
        ctx.fault("file missing")
    elif scn["mode"] == "replaced":
        os.unlink(path)
        os.mkdir(path)
        ctx.fault("file replaced by a directory")
    damaged = scn["mode"] in ("truncate", "missing", "replaced")
    tree = fs.tree_hash(os.path.join(w.root, "out"))

    call = dict(base, dir="out", overwrite=False, tree=True)
    ops = [dict(call, **pre)] + [dict(call, reuse=True)] * (scn["retries"] - 1)
    ops += [dict(do="mark", text="heal"), dict(call, reuse=True)]
    if damaged:
        # the solver can still be used: integrate without the directory
        ops += [dict(base, reuse=True)]
    res, pol = w.run(ops, scn["faults"])
    if res is None:
        raise Violation("process-died", "")
    for i, r in enumerate(res):
        if r["do"] == "mark":
            continue
        ctx.event("outcome", i, r["ok"] or r["exc"])
        ctx.trace.append(r["ok"] or r["exc"])
        what = f"call {i} ({scn['mode']}, {pol.fired})"
        if damaged and i == len(res) - 1:
            if not r["ok"]:
                raise Violation("unusable-solver", f"{what}: {r['exc']}: {r['msg']}")
            if (r["snaps"], r["state"]) != (undisturbed["snaps"], undisturbed["state"]):
                raise Violation("solver-changed", "integrating after the failed loads gives other results")
            continue
        if r["tree"] != tree:
            raise Violation("files-changed", what)
        if r["ok"]:
            if r["f_calls"]:
                raise Violation("recomputed-silently", f"{what}: stored results were ignored")
            if r["snaps"] != D:
                raise Violation("partial-load", f"{what}: {r['n']} snapshots at {r['times']}")
            ctx.probe("loaded")

        else:
            ctx.probe("raised " + r["exc"])
            if not damaged and (scn["mode"] == "legal" or not pol.fired or i > scn["retries"]):
                raise Violation("healthy-load-fails", f"{what}: {r['exc']}: {r['msg']}")
            if r["f_calls"]:
                raise Violation("recomputed-silently", f"{what}: computed before raising {r['exc']}: {r['msg']}")
            if r["unchanged"] is not True:
                raise Violation("solver-changed", f"{what}: raised {r['exc']} but the solver's state or snapshots changed")


def shrinks(scn):
    yield from fs.shrink_faults(scn, "faults")
    if scn["retries"] > 1:
        yield {**scn, "retries": 1}
    for k, v in (("kw", {}), ("before", False), ("file", 0)):
        if scn[k] != v:
            yield {**scn, k: v}
    if scn.get("cut") not in (None, 0.5, 0.0):
        yield {**scn, "cut": 0.5}
    yield from model.shrink_cfg(scn, "cfg")
