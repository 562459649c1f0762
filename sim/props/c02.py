"""overwriting runs killed or failing at arbitrary filesystem calls: some complete set survives

Every filesystem call of every run is also a simulated crash point: after each one the
directory and its neighbours are inspected.
"""

from ..core import Skip, Violation, drop_each, put
from .. import fs, model

QUICK = dict(runs=2400, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when at least one fault fired while results existed; two runs are distinct when the sequence of (fault, call it hit, outcome of every process) differs"
MEASURE = "hash of the sequence of (fault, filesystem call, outcome)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["kills and failing system calls: decided by the simulator at filesystem calls", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["a kill ends the process between two system calls or inside a write (torn write); power failures: C18", "a failing call has no effect, except that a failing close has closed the descriptor"]


def gen(rng, tier):
    size = "tiny" if tier == "quick" or rng.random() < 0.5 else "small"
    sets = []
    for _ in range(rng.choice([2, 2, 3])):
        cfg = model.gen_cfg(rng, size)
        if rng.random() < 0.15:
            cfg = model.enlarge(rng, cfg)
        T, kw = fs.gen_call(rng, cfg)
        sets.append(dict(cfg=cfg, T=T, kw=kw))
    jobs = []
    for _ in range(rng.choices([1, 2, 3, 5], [6, 4, 2, 1])[0]):
        mode = rng.choices(["kill", "fail1", "fails", "full", "clean", "gap", "readonly"], [4, 5, 3, 1, 1, 1, 0.5])[0]
        faults = []
        if mode == "kill":
            faults = [fs.gen_kill(rng)]
        elif mode == "gap":  # dies between moving the old set away and the new one in
            faults = [dict(at=dict(cls="rename", nth=1), act=rng.choice(["die", "die", "int"]))]
        elif mode == "readonly":
            faults = [dict(readonly=rng.choice(["EROFS", "EACCES"]))]
        elif mode == "fail1":
            faults = [fs.gen_fail(rng, sticky=False)]
        elif mode == "fails":
            faults = [fs.gen_fail(rng) for _ in range(rng.randint(2, 4))]
            if rng.random() < 0.4:
                faults.append(fs.gen_kill(rng))
        elif mode == "full":
            faults = [dict(budget=rng.randint(0, 9000))]
        jobs.append(dict(set=rng.randrange(len(sets)), faults=faults, path=rng.choice(["abs", "rel", "slash"])))
        if rng.random() < 0.15:
            jobs[-1]["stop"] = fs.gen_stop(rng)
    return dict(sets=sets, jobs=jobs, dir=rng.choice(["out", "a/out", "out.old"]), seed=rng.randint(0, 1 << 30))


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    bases, digs, descs = [], [], []
    for s in scn["sets"]:
        b = dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"])
        ref, _ = w.run([b])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
        bases.append(b)
        digs.append(ref[0]["snaps"])
        descs.append(w.reference_description(b))
    ctx.event("reference", digs)
    d, probe = scn["dir"], bases[0]
    res, _ = w.run([dict(bases[0], dir=d, overwrite=False)])
    if not res[0]["ok"]:
        raise Violation("save-fails", f"{res[0]['exc']}: {res[0]['msg']}")

    def visible(what):
        v, got = w.load(d, probe)
        if v == "absent":
            return None
        if v != "loaded":
            raise Violation("unusable-directory", f"{what}: the directory exists but does not load: {v} {got}")
        if got not in digs:
            raise Violation("partial-results", f"{what}: the directory loads something no run recorded")
        bad = w.foreign(d, [x for x, g in zip(descs, digs) if g == got])
        if bad:
            raise Violation("mixed-results", f"{what}: arrays of one run, description of another ({bad})")
        return got

    def on_disk(first=None):
        """complete sets anywhere below the root; stops at one that is in first"""
        out = set()
        for x in sorted(w.directories(), key=lambda x: not x.endswith(".old")):
            v, got = w.load(x, probe)
            if v == "loaded" and got in digs:
                out.add(got)
                if first and got in first:
                    break
        return out

    for i, j in enumerate(scn["jobs"]):
        before = visible(f"before run {i}")
        keep = {digs[j["set"]]} | ({before} if before else on_disk())

        def watch(op=None):
            if visible(f"during run {i}") not in keep and not on_disk(keep) & keep:
                raise Violation("results-destroyed", f"during run {i}: neither the old nor the new set is complete on disk; there are {w.directories()}")

        res, pol = w.run([dict(bases[j["set"]], dir=d, overwrite=True, path=j["path"], stop=j.get("stop"))], j["faults"], watch=watch)
        out = "killed" if res is None else "ok" if res[0]["ok"] else "raised " + res[0]["exc"]
        ctx.trace.append(out)
        ctx.event("outcome", i, out)
        now = visible(f"after run {i} ({out})")
        watch()
        if res is not None and res[0]["ok"] and now != digs[j["set"]]:
            raise Violation("overwrite-lost", f"run {i} returned normally but its results are not what the directory holds")
        if res is not None and not res[0]["ok"]:
            if res[0]["stopped"]:
                ctx.fault(f"{res[0]['exc']} while computing")
            elif not pol.fired:
                raise Violation("overwrite-fails", f"run {i} met no fault and raised {res[0]['exc']}: {res[0]['msg']}")
            if before and now is None and len(pol.fired) + bool(res[0]["stopped"]) == 1 and not pol.persistent:
                raise Violation("directory-gone", f"run {i}: one failing call {pol.fired} left no results directory")
        if now is None:
            ctx.probe("directory absent after fault")


def shrinks(scn):
    yield from drop_each(scn, "jobs")
    for i in range(len(scn["jobs"])):
        yield from fs.shrink_faults(scn, "jobs", i, "faults")
        if scn["jobs"][i].get("stop"):
            yield put(scn, ["jobs", i, "stop"], None)
            if scn["jobs"][i]["stop"]["as"] != "interrupt":
                yield put(scn, ["jobs", i, "stop", "as"], "interrupt")
        if scn["jobs"][i]["path"] != "abs":
            yield put(scn, ["jobs", i, "path"], "abs")
    if len(scn["sets"]) > 2 and all(j["set"] < 2 for j in scn["jobs"]):
        yield put(scn, ["sets"], scn["sets"][:2])
    for i, s in enumerate(scn["sets"]):
        if s["kw"]:
            yield put(scn, ["sets", i, "kw"], {})
        yield from model.shrink_cfg(scn, "sets", i, "cfg")
