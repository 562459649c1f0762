"""two to four concurrent runs on one results directory, interleaved at every filesystem call

A seeded scheduler (uniform, bursts, or priorities with change points) decides which
process makes its next filesystem call; the directory is inspected after every call.
"""

from ..core import Skip, Violation, drop_each, put
from .. import fs, model, sched

QUICK = dict(runs=2400, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
TIMEOUT = 120
RULE = "a run counts when at least two processes were inside their saving phase at the same time or one was loading while another saved; two runs are distinct when their interleaving of filesystem calls or their outcomes differ"
MEASURE = "hash of the interleaving: the sequence of (process, filesystem call) with consecutive calls of one process that touch no shared path merged"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["process scheduling: one process runs at a time, switches at filesystem calls", "clocks, process ids and entropy: simulated, different per process", "git: a stand-in"]
ASSUME = ["a process killed between two renames may leave the directory absent (then C01 and C02 apply)", "filesystem calls are atomic and sequentially consistent (one local filesystem)", "process ids and random numbers of concurrent processes differ"]


def gen(rng, tier):
    size = "tiny" if tier == "quick" or rng.random() < 0.7 else "small"
    sets = []
    for _ in range(rng.choices([1, 2, 3], [2, 4, 2])[0]):
        cfg = model.gen_cfg(rng, size)
        if rng.random() < 0.2:
            cfg = model.enlarge(rng, cfg)
        T, kw = fs.gen_call(rng, cfg)
        sets.append(dict(cfg=cfg, T=T, kw=kw))
    jobs = []
    for _ in range(rng.choices([2, 3, 4], [6, 3, 1])[0]):
        jobs.append(dict(set=rng.randrange(len(sets)), overwrite=rng.random() < 0.55, calls=rng.choices([1, 2], [5, 1])[0], path=rng.choice(["abs", "rel", "slash"]), faults=[]))
    if rng.random() < 0.2:
        rng.choice(jobs)["faults"].append(fs.gen_kill(rng))
    return dict(
        sets=sets,
        jobs=jobs,
        existing=rng.random() < 0.5,
        sched=sched.gen_sched(rng),
        dir=rng.choice(["out", "a/out", "out.d"]),
        seed=rng.randint(0, 1 << 30),
    )


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    bases, digs, descs = [], [], []
    for s in scn["sets"]:
        b = dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"])
        ref, _ = w.run([b])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
        bases.append(b)
        digs.append(ref[0]["snaps"])
        descs.append(w.reference_description(b))
    d, probe = scn["dir"], bases[0]
    if scn["existing"]:
        res, _ = w.run([dict(bases[0], dir=d)])
        if not res[0]["ok"]:
            raise Violation("save-fails", f"{res[0]['exc']}: {res[0]['msg']}")

    def visible(what):
        v, got = w.load(d, probe)
        if v == "absent":
            return None
        if v != "loaded":
            raise Violation("unusable-directory", f"{what}: {v} {got}")
        if got not in digs:
            raise Violation("mixed-results", f"{what}: the directory loads something no run recorded")
        bad = w.foreign(d, [x for x, g in zip(descs, digs) if g == got])
        if bad:
            raise Violation("mixed-results", f"{what}: arrays of one run, description of another ({bad})")
        return got

    jobs = [w.job([dict(bases[j["set"]], dir=d, overwrite=j["overwrite"], path=j["path"], id=f"c{c}") for c in range(j["calls"])], f"run {i}") for i, j in enumerate(scn["jobs"])]
    sch = sched.Scheduler(scn["sched"], len(jobs))
    pols = [fs.Policy(s["faults"], ctx, j) for s, j in zip(scn["jobs"], jobs)]
    recent = sched.interleave(jobs, pols, sch, ctx, lambda recent: visible(f"after step {len(ctx.schedule)}; last calls {recent[-12:]}"))
    ok, killed = [], [i for i, p in enumerate(pols) if p.interrupted]
    for i, (j, s) in enumerate(zip(jobs, scn["jobs"])):
        if j.result is None and pols[i].fired:
            killed.append(i)
            ctx.trace.append((i, "killed"))
            continue
        if j.result is None:
            raise Violation("process-died", f"run {i} ended without a result or an error")
        for c, r in enumerate(j.result):
            ctx.event("outcome", i, c, r["ok"] or r["exc"], r.get("f_calls"))
            ctx.trace.append((i, r["ok"] or r["exc"]))
            if r["ok"]:
                ok.append(i)
                if r["snaps"] not in digs:
                    raise Violation("mixed-results", f"run {i} returned with something no run recorded ({r['n']} snapshots at {r['times']})")
                if r["f_calls"] and r["snaps"] != digs[s["set"]]:
                    raise Violation("wrong-results", f"run {i} computed but holds another run's results")
                ctx.probe("run computed and saved" if r["f_calls"] else "run loaded")
            else:
                ctx.probe("run raised " + r["exc"])
                if r["exc"] in ("AttributeError", "NameError", "UnboundLocalError", "IndexError", "AssertionError"):
                    raise Violation("obscure-error", f"run {i}: {r['exc']}: {r['msg']}")
    now = visible("at the end")
    if ok and now is None and not killed:
        raise Violation("results-lost", f"runs {ok} succeeded but the directory is gone; last calls {recent[-20:]}")


explicit = sched.explicit


def shrinks(scn):
    if len(scn["jobs"]) > 2:
        yield from (c for c in drop_each(scn, "jobs") if len(c["jobs"]) > 1)
    for i, j in enumerate(scn["jobs"]):
        if j["calls"] > 1:
            yield put(scn, ["jobs", i, "calls"], 1)
        if j["path"] != "abs":
            yield put(scn, ["jobs", i, "path"], "abs")
    if scn["existing"]:
        yield {**scn, "existing": False}
    for i in range(len(scn["jobs"])):
        yield from fs.shrink_faults(scn, "jobs", i, "faults")
    yield from sched.shrink_sched(scn)
    for i, s in enumerate(scn["sets"]):
        if s["kw"]:
            yield put(scn, ["sets", i, "kw"], {})
        yield from model.shrink_cfg(scn, "sets", i, "cfg")
