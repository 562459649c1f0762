"""saves on a failing, filling or flaky disk: honest about success, nothing lost in memory

After the faults the disk heals and the same call is repeated on the same solver.
"""

from ..core import Skip, Violation, put
from .. import fs, model

QUICK = dict(runs=3000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when at least one filesystem call failed or the disk was full; two runs are distinct when the sequence of (fault, call it hit, outcome) differs"
MEASURE = "hash of the sequence of (fault, filesystem call, outcome)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["failing system calls and the full disk: decided by the simulator", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["a failing call has no effect, except that a failing close has closed the descriptor", "a disk that reports success keeps what it was given (no silent loss)"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, "tiny" if tier == "quick" or rng.random() < 0.5 else "small")
    if rng.random() < 0.15:
        cfg = model.enlarge(rng, cfg)
    T, kw = fs.gen_call(rng, cfg)
    mode = rng.choices(["one", "sticky", "many", "full", "readonly"], [5, 3, 3, 3, 1])[0]
    if mode == "one":
        faults = [fs.gen_fail(rng, sticky=False)]
    elif mode == "sticky":
        faults = [fs.gen_fail(rng, sticky=True)]
    elif mode == "many":
        faults = [fs.gen_fail(rng) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.3:
            faults.append(dict(at=dict(cls="write", nth=rng.randint(0, 3)), act="short", frac=round(rng.random(), 3)))
    elif mode == "readonly":
        faults = [dict(readonly=rng.choice(["EROFS", "EACCES", "EPERM", "ENOSPC", "EDQUOT"]))]
    else:
        faults = [dict(budget=rng.choice([rng.randint(0, 300), rng.randint(0, 12000), rng.randint(0, 40000)]))]
    return dict(
        cfg=cfg,
        T=T,
        kw=kw,
        faults=faults,
        old=rng.random() < 0.4,
        overwrite=rng.random() < 0.5,
        attempts=rng.choices([1, 2, 3], [6, 2, 1])[0],
        dir=rng.choice(["out", "a/b/out", "out.d"]),
        path=rng.choice(["abs", "rel", "slash", "dot"]),
        seed=rng.randint(0, 1 << 30),
    )


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    base = dict(do="run", id="s", cfg=scn["cfg"], T=scn["T"], kw=scn["kw"])
    ref, _ = w.run([base] + [dict(base, reuse=True)] * scn["attempts"])
    if not all(r["ok"] for r in ref):
        raise Skip("the configuration does not run")
    # what the solver holds in memory after each repetition of the call
    D = [(r["snaps"], r["state"]) for r in ref]
    ctx.event("reference", D)
    d = scn["dir"]
    old = None
    desc = w.reference_description(base)
    if scn["old"]:
        res, _ = w.run([dict(base, T=scn["T"] * 0.5, kw={}, dir=d)])
        if not res[0]["ok"]:
            raise Violation("save-fails", f"{res[0]['exc']}: {res[0]['msg']}")
        old = res[0]["snaps"]
    overwrite = scn["overwrite"] or scn["old"]
    good = {x[0] for x in D} | ({old} if old else set())

    def visible(what):
        v, got = w.load(d, base)
        if v == "absent":
            return None
        if v != "loaded":
            raise Violation("partial-directory", f"{what}: {v} {got}")
        if got not in good:
            raise Violation("partial-directory", f"{what}: loads something that was never held")
        if got == D[0][0]:
            bad = w.foreign(d, [desc])
            if bad:
                raise Violation("partial-directory", f"{what}: the description of the run is incomplete or wrong ({bad})")
        return got

    call = dict(base, dir=d, path=scn["path"], overwrite=overwrite)
    ops = []
    for i in range(scn["attempts"]):
        ops += [dict(call, reuse=i > 0), dict(do="mark", text="heal" if i == scn["attempts"] - 1 else "next")]
    ops += [dict(call, reuse=True)]
    seen = []  # what the directory holds after each attempt

    def watch(op):
        now = visible("during the save")
        if op is not None and op.op == "mark":
            seen.append(now)

    res, pol = w.run(ops, scn["faults"], watch=watch)
    if res is None:
        raise Violation("process-died", "the process ended without an error")
    k = 0  # how often the call has computed or appended
    seen.append(visible("at the end"))
    for i, r in enumerate(res):
        if r["do"] == "mark":
            continue
        if r["ok"] and seen[i // 2] != r["snaps"]:
            raise Violation("false-success", f"attempt {i // 2} ({pol.fired}) returned normally but the directory holds {'nothing' if seen[i // 2] is None else 'something else'}")
        last = i == len(res) - 1
        ctx.trace.append(r["ok"] or r["exc"])
        ctx.event("outcome", i, r["ok"] or r["exc"])
        what = f"attempt {i} of {len(res) - 1}" + (" (disk healthy again)" if last else f" ({pol.fired})")
        # an earlier attempt saved (even if it raised afterwards): this one loads
        loaded = r["ok"] and not overwrite and i and (seen[i // 2 - 1] is not None or any(x["ok"] for x in res[:i] if x["do"] == "run"))
        if loaded:
            if r["f_calls"] or r["snaps"] not in good:
                raise Violation("wrong-load", what)
            continue
        if not r["ok"] and (last or not pol.fired):
            raise Violation("healthy-save-fails", f"{what}: {r['exc']}: {r['msg']}")
        if not r["ok"]:
            ctx.probe("save raised")
        else:
            ctx.probe("save succeeded")
        if (r["snaps"], r["state"]) != D[k]:
            raise Violation("memory-changed", f"{what}: the solver's state or snapshots are not those of an undisturbed run (ok={r['ok']})")
        k += 1


def shrinks(scn):
    yield from fs.shrink_faults(scn, "faults")
    if scn["attempts"] > 1:
        yield {**scn, "attempts": 1}
    for k, v in (("kw", {}), ("old", False), ("overwrite", False), ("dir", "out"), ("path", "abs")):
        if scn[k] != v:
            yield {**scn, k: v}
    yield from model.shrink_cfg(scn, "cfg")
