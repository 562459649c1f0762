"""saving and overwriting runs cut by power failures that lose what was not flushed to disk

The simulator follows every filesystem call, knows what has been flushed, and replaces the
tree by one that a power failure at that instant may leave: directory changes up to some
point, unflushed file contents complete, cut, zeroed or missing.
"""

from ..core import Skip, Violation, drop_each, put, rng_of
from .. import fs, model, power

QUICK = dict(runs=3000, limit=80, rerun=40)
THOROUGH = dict(runs=300000, limit=780, rerun=400)
RULE = "a run counts when the power failed during or after a saving run; two runs are distinct when the sequence of (call, outcome, point of failure, what was lost) differs"
MEASURE = "hash of the sequence of (call, outcome, filesystem call at the failure, directory changes and contents lost)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree) up to the failure"]
STUB = ["the disk behind the filesystem: a model of what flushed and unflushed changes survive", "process kills: decided by the simulator at filesystem calls", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["a journalling filesystem: directory changes survive in order, up to some point not before the last flush of a directory", "a file flushed after its last write survives whole; of one that was not, any part may be lost", "what a flush wrote stays readable; a flush that reports an error wrote nothing for certain"]


def gen(rng, tier):
    sets = []
    for _ in range(rng.choice([1, 2, 2])):
        cfg = model.gen_cfg(rng, "tiny")
        if rng.random() < 0.1:
            cfg = model.enlarge(rng, cfg)
        T, kw = fs.gen_call(rng, cfg)
        sets.append(dict(cfg=cfg, T=T, kw=kw))
    jobs = []
    for _ in range(rng.choices([1, 2, 3, 5], [4, 4, 3, 1])[0]):
        j = dict(set=rng.randrange(len(sets)), overwrite=rng.random() < 0.5, path=rng.choice(["abs", "abs", "rel", "slash"]), faults=[])
        if rng.random() < 0.6:
            f = fs.gen_kill(rng)
            j["faults"] = [dict(f, act="die") if f["act"] == "int" else f]
        elif rng.random() < 0.4:
            j["faults"] = [dict(at=dict(cls="fsync", nth=rng.randint(0, 5)), act="fail", err=rng.choice(["EIO", "ENOSPC", "EDQUOT"]))]
        j["power"] = rng.random() < 0.8
        j["lose"] = rng.randint(0, 1 << 30)
        jobs.append(j)
    return dict(sets=sets, jobs=jobs, dir=rng.choice(["out", "a/out", "a/b/out", "out.d"]), seed=rng.randint(0, 1 << 30))


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    bases, digs, descs = [], [], []
    for s in scn["sets"]:
        b = dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"])
        ref, _ = w.run([b])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
        bases.append(b)
        digs.append(ref[0]["snaps"])
        descs.append(w.reference_description(b))
    ctx.event("reference", digs)
    d, probe = scn["dir"], bases[0]
    must = None  # what the directory has to hold
    keep = set()  # if it need not hold anything, one of these has to be somewhere on the disk

    def inspect(what):
        v, got = w.load(d, probe)
        if must is not None and v == "absent":
            raise Violation("results-lost", f"{what}: a finished run's results are gone")
        if v == "error":
            raise Violation("unusable-directory", f"{what}: a later run fails: {got}")
        if must is not None and (v, got) != ("loaded", must):
            raise Violation("results-lost", f"{what}: the directory does not hold a finished run's results")
        if v == "loaded" and got not in digs:
            raise Violation("partial-results", f"{what}: the directory loads something no run recorded")
        if v == "loaded":
            bad = w.foreign(d, [x for x, g in zip(descs, digs) if g == got])
            if bad:
                raise Violation("partial-results", f"{what}: the description is incomplete or another's ({bad})")
        if v == "computed" and got != digs[0]:
            raise Violation("wrong-results", f"{what}: recomputing gives something else")
        if v != "loaded" and keep and not any(w.load(x, probe) in [("loaded", k) for k in keep] for x in sorted(w.directories(), reverse=True)):
            raise Violation("results-destroyed", f"{what}: neither the old nor the new set is complete on the disk; there are {w.directories()}")
        return got if v == "loaded" else None

    disk = power.Disk(w.root)
    for i, j in enumerate(scn["jobs"]):
        what = f"run {i}"
        res, pol = w.run([dict(bases[j["set"]], dir=d, overwrite=j["overwrite"], path=j["path"])], j["faults"], watch=disk.before)
        disk.before(None)
        out = "killed" if res is None else "ok" if res[0]["ok"] else "raised " + res[0]["exc"]
        ctx.trace.append((j["set"], j["overwrite"], out))
        ctx.event("outcome", i, out)
        if res is not None and not res[0]["ok"]:
            if not pol.fired:
                raise Violation("run-fails", f"{what} met no failing call and raised {res[0]['exc']}: {res[0]['msg']}")
            res = None
            ctx.probe("run raised")
        if res is not None:
            if res[0]["snaps"] not in digs:
                raise Violation("wrong-results", f"{what} holds something no run recorded")
            if must is not None and not j["overwrite"] and (res[0]["f_calls"] or res[0]["snaps"] != must):
                raise Violation("results-lost", f"{what} did not load what a finished run had saved")
            if res[0]["f_calls"]:  # it saved; what a run loads may not have been flushed by the one that saved it
                must, keep = res[0]["snaps"], set()
        elif j["overwrite"] and (must is not None or keep):
            keep = (keep if must is None else {must}) | {digs[j["set"]]}
            must = None
        if j["power"]:
            changes, lost = disk.fail(rng_of("power", j["lose"]))
            disk = power.Disk(w.root)
            ctx.fault("power failure " + ("after a finished run" if res is not None else "during a run"))
            for _, how in lost:
                ctx.fault("unflushed contents lost: " + how)
            if changes:
                ctx.fault("directory changes lost", changes)
            ctx.trace.append((changes, sorted(lost)))
            ctx.event("power", i, changes, sorted(lost))
            ctx.nontrivial = True
            what = f"after a power failure {'following' if res is not None else 'during'} run {i} ({pol.fired}; lost {changes} directory changes, contents {lost})"
        now = inspect(what)
        if now is not None and must is None and j["power"]:
            must, keep = now, set()  # what is there now has to stay
    for k in range(2):
        res, _ = w.run([dict(probe, dir=d, overwrite=False)])
        if not res[0]["ok"]:
            raise Violation("later-run-fails", f"{res[0]['exc']}: {res[0]['msg']}")
        if must is not None and (res[0]["f_calls"] or res[0]["snaps"] != must):
            raise Violation("results-lost", "the run after the failures did not load what is stored")
        if must is None and res[0]["snaps"] not in digs:
            raise Violation("wrong-results", "the run after the failures holds something no run recorded")
        ctx.probe("last run " + ("recomputed" if res[0]["f_calls"] else "loaded"))
        must = res[0]["snaps"]


def shrinks(scn):
    yield from drop_each(scn, "jobs")
    for i, j in enumerate(scn["jobs"]):
        yield from fs.shrink_faults(scn, "jobs", i, "faults")
        if j["power"]:
            yield put(scn, ["jobs", i, "power"], False)
        if j["path"] != "abs":
            yield put(scn, ["jobs", i, "path"], "abs")
        if j["lose"] > 20:
            for k in range(4):
                yield put(scn, ["jobs", i, "lose"], k)
    if scn["dir"] != "out":
        yield {**scn, "dir": "out"}
    if len(scn["sets"]) > 1 and all(j["set"] == 0 for j in scn["jobs"]):
        yield put(scn, ["sets"], scn["sets"][:1])
    for i, s in enumerate(scn["sets"]):
        if s["kw"]:
            yield put(scn, ["sets", i, "kw"], {})
        yield from model.shrink_cfg(scn, "sets", i, "cfg")
