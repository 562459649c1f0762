"""a history of saving runs killed at arbitrary filesystem calls, then undisturbed runs"""

from ..core import Skip, Violation, drop_each, put
from .. import fs, model

QUICK = dict(runs=3000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when at least one of its processes was killed; two runs are distinct when the sequence of (kind of kill, call killed at, outcome of every process) differs"
MEASURE = "hash of the sequence of (fault, filesystem call, outcome)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["process scheduling and kills: decided by the simulator at filesystem calls", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["a kill ends the process between two system calls or inside a write (torn write); power failures: C18"]


def gen(rng, tier):
    cfg = model.gen_cfg(rng, "tiny" if tier == "quick" or rng.random() < 0.5 else "small")
    if rng.random() < 0.15:
        cfg = model.enlarge(rng, cfg)
    T, kw = fs.gen_call(rng, cfg)
    n = rng.choices([1, 2, 3, 5, 8], [5, 4, 3, 2, 1])[0]
    jobs = []
    for _ in range(n):
        j = dict(faults=[fs.gen_kill(rng)], overwrite=rng.random() < 0.4, path=rng.choice(["abs", "abs", "rel", "slash", "dot"]))
        if rng.random() < 0.15:
            j["faults"] = []
        if rng.random() < 0.2:
            j["stop"] = fs.gen_stop(rng)
        jobs.append(j)
    return dict(cfg=cfg, T=T, kw=kw, jobs=jobs, dir=rng.choice(["out", "a/b/out", "out.d", "x" * 200 if rng.random() < 0.1 else "snap"]), seed=rng.randint(0, 1 << 30))


def base_op(scn):
    return dict(do="run", id="s", cfg=scn["cfg"], T=scn["T"], kw=scn["kw"])


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    base = base_op(scn)
    ref, _ = w.run([base])
    if not ref[0]["ok"]:
        raise Skip("the configuration does not run: " + ref[0]["exc"])
    D = ref[0]["snaps"]
    desc = w.reference_description(base)
    ctx.event("reference", D)

    def judge(rec, what, loaded_only=False):
        if not rec["ok"]:
            raise Violation("later-run-fails", f"{what}: {rec['exc']}: {rec['msg']}")
        if rec["snaps"] != D:
            raise Violation("wrong-results", f"{what} holds {rec['n']} snapshots at {rec['times']}, loaded={rec['f_calls'] == 0}; recorded {ref[0]['n']} at {ref[0]['times']}")
        if loaded_only and rec["f_calls"]:
            raise Violation("recomputed-after-success", what)

    def check_visible(what):
        v, d = w.load(scn["dir"], base)
        if v == "absent":
            return
        if v == "error":
            raise Violation("unusable-directory", f"{what}: {d}")
        if d != D:
            raise Violation("partial-results", f"{what}: what loads is not what was recorded")
        bad = v == "loaded" and w.foreign(scn["dir"], [desc])
        if bad:
            raise Violation("partial-results", f"{what}: the description is incomplete or wrong ({bad})")

    for i, j in enumerate(scn["jobs"]):
        # every filesystem call is a crash point: inspect the directory after each
        res, pol = w.run([dict(base, dir=scn["dir"], overwrite=j["overwrite"], path=j["path"], stop=j.get("stop"))], j["faults"], watch=lambda op: check_visible(f"during run {i}"))
        out = "killed" if res is None else "ok" if res[0]["ok"] else "raised " + res[0]["exc"]
        ctx.trace.append(out)
        ctx.event("outcome", i, out)
        if res is not None and res[0]["stopped"]:
            ctx.fault(f"{res[0].get('exc')} while computing")
        if res is not None and (res[0]["ok"] or not (pol.fired or res[0]["stopped"])):
            # a process that was not killed or interrupted met no fault at all
            judge(res[0], f"run {i} after {i} earlier ones")
        check_visible(f"after run {i} ({out})")
    res, _ = w.run([dict(base, dir=scn["dir"], overwrite=False)])
    judge(res[0], "the run after the crashes")
    ctx.probe("final run " + ("loaded" if res[0]["f_calls"] == 0 else "recomputed"))
    res, _ = w.run([dict(base, dir=scn["dir"], overwrite=False)])
    judge(res[0], "the run after that", loaded_only=True)


def shrinks(scn):
    yield from drop_each(scn, "jobs")
    for i in range(len(scn["jobs"])):
        yield from fs.shrink_faults(scn, "jobs", i, "faults")
        if scn["jobs"][i].get("stop"):
            yield put(scn, ["jobs", i, "stop"], None)
            if scn["jobs"][i]["stop"]["as"] != "interrupt":
                yield put(scn, ["jobs", i, "stop", "as"], "interrupt")
        if scn["jobs"][i]["path"] != "abs":
            yield {**scn, "jobs": [dict(j, path="abs") if k == i else j for k, j in enumerate(scn["jobs"])]}
    if scn["kw"]:
        yield {**scn, "kw": {}}
    if scn["dir"] != "out":
        yield {**scn, "dir": "out"}
    yield from model.shrink_cfg(scn, "cfg")
