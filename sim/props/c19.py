"""scripting-wrapper calls made in parallel by several processes with shared parent directories

A seeded scheduler interleaves the processes at every filesystem call; some are killed,
interrupted or meet disk errors.  Oracle: the same settings run alone.
"""

import os
import shutil

from ..core import Skip, Violation, drop_each, put
from .. import fs, model, sched
from . import c16

QUICK = dict(runs=2000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
TIMEOUT = 120
RULE = "a run counts when at least two processes were inside their saving or loading phase at the same time; two runs are distinct when their interleaving of filesystem calls or their outcomes differ"
MEASURE = "hash of the interleaving: the sequence of (process, filesystem call) with consecutive calls of one process merged, and the outcomes"
REAL = ["fvhoe.scripting, fvhoe.solver, fvhoe.ode and everything they call", "matplotlib when a summary directory is given", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["process scheduling: one process runs at a time, switches at filesystem calls", "kills, interrupts and failing system calls: decided by the simulator", "clocks, process ids and entropy: simulated, different per process", "git: a stand-in"]
ASSUME = ["filesystem calls are atomic and sequentially consistent (one local filesystem)", "process ids and random numbers of concurrent processes differ", "settings are numbers, flags and names whose text fits in a file name"]


def gen(rng, tier):
    g = c16.gen(rng, tier, "xy" if rng.random() < 0.06 else None)
    sets = g["sets"]
    jobs = []
    for _ in range(rng.choices([2, 3, 4], [5, 3, 2])[0]):
        calls = []
        for _ in range(rng.choices([1, 2], [4, 1])[0]):
            calls.append(dict(set=rng.randrange(len(sets)), pref=rng.choices(["p", "q", "p_2"], [5, 1, 1])[0], overwrite=rng.random() < 0.25, path=rng.choice(["abs", "rel", "slash"])))
        j = dict(calls=calls, faults=[])
        r = rng.random()
        if r < 0.12:
            j["faults"] = [fs.gen_kill(rng)]
        elif r < 0.2:
            j["faults"] = [fs.gen_fail(rng)]
        elif r < 0.25:
            j["stop"] = fs.gen_stop(rng)
        jobs.append(j)
    stored = sorted({rng.randrange(len(sets)) for _ in range(rng.choice([0, 0, 1, 2]))})
    summary = g["cfg"]["dims"] == "xy" and rng.random() < 0.5
    return dict(cfg=g["cfg"], sets=sets, jobs=jobs, stored=stored, summary=summary, sched=sched.gen_sched(rng), dir=g["dir"], seed=rng.randint(0, 1 << 30))


def pictures(w, d):
    path, out = os.path.join(w.root, d), {}
    for a, _, fs_ in os.walk(path):
        if fs_:
            out[os.path.relpath(a, path)] = sorted(x for x in fs_ if os.path.getsize(os.path.join(a, x)))
    return out


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    base = dict(do="wrap", cfg=scn["cfg"])
    D, pics = [], {}
    for k, kw in enumerate(scn["sets"]):
        ref, _ = w.run([dict(base, direct=True, kw=kw, dir="x", pref="p", overwrite=False)])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
        D.append(ref[0]["snaps"])
    ctx.event("reference", D)
    same = [scn["sets"].index(x) for x in scn["sets"]]
    keys = [[(c["pref"], same[c["set"]]) for c in j["calls"]] for j in scn["jobs"]]
    if scn["summary"]:  # the pictures each leaves when run alone
        for n, key in enumerate(sorted({k for ks in keys for k in ks})):
            w.run([dict(base, kw=scn["sets"][key[1]], dir="alone", pref=key[0], overwrite=False, summary=f"alone-pics{n}")])
            pics[key] = pictures(w, f"alone-pics{n}")
        shutil.rmtree(os.path.join(w.root, "alone"), ignore_errors=True)
    for k in scn["stored"]:
        res, _ = w.run([dict(base, kw=scn["sets"][k], dir=scn["dir"], pref="p", overwrite=False)])
        if not res[0]["ok"]:
            raise Violation("call-fails", f"settings {k} alone: {res[0]['exc']}: {res[0]['msg']}")
    extra = dict(summary="pics") if scn["summary"] else {}
    jobs = []
    for i, j in enumerate(scn["jobs"]):
        ops = [dict(base, kw=scn["sets"][c["set"]], dir=scn["dir"], pref=c["pref"], path=c["path"], overwrite=c["overwrite"], **extra) for c in j["calls"]]
        ops[0]["stop"] = j.get("stop")
        jobs.append(w.job(ops, f"process {i}"))
    pols = [fs.Policy(s["faults"], ctx, j) for s, j in zip(scn["jobs"], jobs)]
    recent = sched.interleave(jobs, pols, sched.Scheduler(scn["sched"], len(jobs)), ctx, lambda recent: None)
    hurt = set()  # settings some process was disturbed with
    for i, (j, p) in enumerate(zip(jobs, pols)):
        stopped = j.result is not None and any(r["stopped"] for r in j.result)
        if p.fired or stopped:
            hurt |= set(keys[i])
            if stopped:
                ctx.fault("stopped while computing")
    done = set()
    for i, (j, p) in enumerate(zip(jobs, pols)):
        if j.result is None:
            ctx.trace.append((i, "killed"))
            if not p.fired:
                raise Violation("process-died", f"process {i} ended without a result or an error")
            continue
        for c, r, key in zip(scn["jobs"][i]["calls"], j.result, keys[i]):
            what = f"process {i}, settings {c['set']} as {c['pref']}"
            ctx.event("outcome", i, r["ok"] or r["exc"], r.get("f_calls"))
            ctx.trace.append((i, r["ok"] or r["exc"]))
            shared = sum(key in ks for ks in keys) > 1
            if r["ok"]:
                if r["snaps"] != D[c["set"]]:
                    other = [k for k, x in enumerate(D) if x == r["snaps"]]
                    raise Violation("wrong-results", f"{what} returned {r['n']} snapshots at {r['times'][:6]}, not what it returns alone" + (f" but those of settings {other}" if other else ""))
                done.add(key)
                ctx.probe("computed and saved" if r["f_calls"] else "loaded")
            elif p.fired or r["stopped"]:
                ctx.probe("disturbed call raised")
            elif shared:
                ctx.probe("same settings at the same time: raised " + r["exc"])
                if r["exc"] in ("AttributeError", "NameError", "UnboundLocalError", "IndexError", "AssertionError"):
                    raise Violation("obscure-error", f"{what}: {r['exc']}: {r['msg']}")
            else:
                raise Violation("call-fails", f"{what} met no fault and shares its settings with no other process, but raised {r['exc']}: {r['msg']} at {r['where']}; last calls {recent[-8:]}")
    if scn["summary"]:
        have = pictures(w, "pics")
        for key in sorted(done - hurt):
            if key[0] == "p" and key[1] in [same[k] for k in scn["stored"]]:
                continue  # loaded, without pictures
            ctx.probe("pictures compared")
            for d, names in pics[key].items():
                if not set(names) <= set(have.get(d, [])):
                    raise Violation("pictures-missing", f"{d} has {have.get(d)}, alone {names}")
    for key in sorted({k for ks in keys for k in ks} | {("p", same[k]) for k in scn["stored"]}):
        res, _ = w.run([dict(base, kw=scn["sets"][key[1]], dir=scn["dir"], pref=key[0], overwrite=False)])
        r = res[0]
        if not r["ok"]:
            raise Violation("later-call-fails", f"settings {key[1]} as {key[0]}: {r['exc']}: {r['msg']}")
        if r["snaps"] != D[key[1]]:
            raise Violation("wrong-results", f"a later call with settings {key[1]} as {key[0]} returned {r['n']} snapshots at {r['times'][:6]}, not what it returns alone")
        stored = key in done or (key[0] == "p" and key[1] in [same[k] for k in scn["stored"]])
        if r["f_calls"] and stored and key not in hurt:
            raise Violation("results-lost", f"settings {key[1]} as {key[0]} had been stored and were recomputed; last calls {recent[-8:]}")


explicit = sched.explicit


def shrinks(scn):
    if len(scn["jobs"]) > 1:
        yield from (c for c in drop_each(scn, "jobs") if c["jobs"])
    for i, j in enumerate(scn["jobs"]):
        yield from fs.shrink_faults(scn, "jobs", i, "faults")
        if j.get("stop"):
            yield put(scn, ["jobs", i, "stop"], None)
        if len(j["calls"]) > 1:
            yield from drop_each(scn, "jobs", i, "calls")
        for n, c in enumerate(j["calls"]):
            for k, v in (("path", "abs"), ("pref", "p"), ("overwrite", False)):
                if c[k] != v:
                    yield put(scn, ["jobs", i, "calls", n, k], v)
    yield from drop_each(scn, "stored")
    if scn["summary"]:
        yield {**scn, "summary": False}
    yield from sched.shrink_sched(scn)
    for j, s in enumerate(scn["sets"]):
        for k in s:
            if k not in ("T", "integrator", "n_snapshots", "progress_bar", "nx", "ny", "nz", "px", "py", "pz"):
                yield put(scn, ["sets"], [{a: b for a, b in x.items() if a != k} if i == j else x for i, x in enumerate(scn["sets"])])
