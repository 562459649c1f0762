"""histories of saving, loading and overwriting runs over several processes and directories

The filesystem may transfer fewer bytes than asked or be interrupted by signals, as POSIX
allows; nothing fails.  Oracle: a dictionary from directory to what the last saving run held.
"""

import json
import os

from ..core import Skip, Violation, drop_each, get, put
from .. import fs, model

QUICK = dict(runs=2000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=400)
RULE = "a run counts when some process loaded what another had saved, or a short or interrupted transfer was injected; two runs are distinct when the sequence of (call, directory state, injected behaviour, result digests) differs"
MEASURE = "hash of the sequence of (call, directory, computed or loaded, digest, injected short transfers)"
REAL = ["fvhoe.solver, fvhoe.ode and everything they call", "pickle, json, shutil, os", "the kernel's filesystem (tmpfs scratch tree)"]
STUB = ["short and interrupted transfers: decided by the simulator", "clocks, process id and entropy: simulated", "git: a stand-in"]
ASSUME = ["one process at a time (concurrent ones: C05)", "the same version of the code saves and loads"]


def gen_legal(rng):
    """behaviour of a healthy POSIX filesystem"""
    out = []
    for _ in range(rng.choices([0, 1, 2, 3], [4, 3, 2, 1])[0]):
        if rng.random() < 0.7:
            out.append(dict(at=dict(cls=rng.choice(["write", "read", "read", "any"]), nth=rng.randint(0, 5)), act="short", frac=round(rng.random(), 3), sticky=rng.random() < 0.3))
        else:
            out.append(dict(at=dict(cls=rng.choice(["write", "read", "openw", "openr"]), nth=rng.randint(0, 3)), act="fail", err="EINTR"))
    return out


def gen(rng, tier):
    size = "tiny" if rng.random() < 0.4 else "small"
    sets = []
    for _ in range(rng.choices([1, 2, 3], [4, 3, 1])[0]):
        cfg = model.gen_cfg(rng, size)
        if rng.random() < 0.06:
            cfg = model.enlarge(rng, cfg)
        T, kw = fs.gen_call(rng, cfg)
        if len(cfg["dims"]) == 1 and rng.random() < 0.05:
            T, kw = round(model.typical_dt(cfg) * rng.choice([60, 150]), 9), dict(log_every_step=True)
        sets.append(dict(cfg=cfg, T=T, kw=kw))
    dirs = rng.sample(["out", "a/b/out", "out.d", "name with space", "n=8_T=1.0", "é", "L" * 240], rng.choice([1, 1, 2]))
    procs = []
    for _ in range(rng.choices([2, 3, 5, 8], [4, 4, 3, 1])[0]):
        ops = []
        for _ in range(rng.choices([1, 2, 3], [6, 2, 1])[0]):
            o = dict(set=rng.randrange(len(sets)), dir=rng.choice(dirs), path=rng.choice(["abs", "rel", "slash", "dot"]))
            o["overwrite"] = rng.random() < 0.3
            if rng.random() < 0.2:
                o["before"] = True
            if rng.random() < 0.5:
                o["np_downbeats"] = True
            if ops and rng.random() < 0.4:
                o["reuse"] = True
                o["set"] = ops[-1]["set"]
                o["more"] = rng.choice([0.0, 0.5, 1.0])
            ops.append(o)
        procs.append(dict(ops=ops, faults=gen_legal(rng)))
    return dict(sets=sets, procs=procs, fresh=rng.choice([None] * 24 + [rng.randint(1, 4000000)]), seed=rng.randint(0, 1 << 30))


def strict_json(path):
    def no(x):
        raise ValueError(f"{x} is not JSON")

    with open(path, encoding="utf-8") as f:
        json.load(f, parse_constant=no)


def run(scn, ctx):
    w = fs.World(ctx, scn["seed"])
    # does the configuration run at all?
    for s in scn["sets"]:
        ref, _ = w.run([dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"])])
        if not ref[0]["ok"]:
            raise Skip("the configuration does not run: " + ref[0]["exc"])
    held = {}  # directory -> (digest, number, times, tree)
    for i, p in enumerate(scn["procs"]):
        ops, T, prev = [], 0.0, None
        for k, o in enumerate(p["ops"]):
            s = scn["sets"][o["set"]]
            T = s["T"] if not o.get("reuse") else T + o["more"] * s["T"]
            op = dict(do="run", id="s", cfg=s["cfg"], T=T, kw=s["kw"], dir=o["dir"], path=o["path"], overwrite=o["overwrite"])
            for f in ("np_downbeats", "reuse"):
                if o.get(f):
                    op[f] = True
            if o.get("before"):
                op["before"] = T * 0.5
            op["tree"] = True
            ops.append(op)
        res, pol = w.run(ops, p["faults"])
        if res is None:
            raise Violation("process-died", f"process {i} ended without a result")
        for k, (o, r) in enumerate(zip(p["ops"], res)):
            d, what = o["dir"], f"process {i}, call {k} ({o['dir'][:40]!r}, overwrite={o['overwrite']})"
            if not r["ok"]:
                raise Violation("call-fails", f"{what}: {r['exc']}: {r['msg']} at {r['where']}")
            if r["n"] != len(r["times"]):
                raise Violation("times-do-not-match", f"{what}: {r['n']} snapshots but {len(r['times'])} snapshot times")
            if d in held and not o["overwrite"]:
                h = held[d]
                ctx.nontrivial = True
                if r["f_calls"]:
                    raise Violation("recomputed", f"{what}: computed although results were saved there")
                if r["snaps"] != h[0]:
                    raise Violation("loaded-differs", f"{what}: loaded {r['n']} snapshots at {r['times'][:8]}; saved were {h[1]} at {h[2][:8]}")
                if r["tree"] != h[3]:
                    raise Violation("loading-changed-files", what)
                ctx.probe("loaded")
            else:
                if r["f_calls"] == 0 and not o.get("reuse"):
                    raise Violation("not-computed", f"{what}: nothing was computed")
                held[d] = (r["snaps"], r["n"], r["times"], r["tree"])
                ctx.probe("saved")
            ctx.event(i, k, d, r["f_calls"] > 0, r["snaps"])
            ctx.trace.append((d, r["f_calls"] > 0, r["snaps"]))
            prev = o
        for d in {o["dir"] for o in p["ops"]}:
            for f in os.listdir(os.path.join(w.root, d)):
                if f.endswith(".json"):
                    try:
                        strict_json(os.path.join(w.root, d, f))
                    except ValueError as e:
                        raise Violation("invalid-json", f"{d}/{f}: {e}")
                    ctx.probe("JSON checked")
    if scn["fresh"]:  # also for a newly started interpreter
        d, s = min(held), scn["sets"][0]
        res, _ = w.run([dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"], dir=d, overwrite=False)], fresh=scn["fresh"])
        r = res and res[0]
        if not r or not r["ok"] or r["f_calls"] or r["snaps"] != held[d][0]:
            raise Violation("other-process", f"a new process on {d[:40]!r}: {r}")
        ctx.probe("loaded by a newly started interpreter")
    # every directory still holds what was saved last, on disk and for a fresh run
    for d, h in sorted(held.items()):
        s = scn["sets"][0]
        v, got = w.load(d, dict(do="run", id="s", cfg=s["cfg"], T=s["T"], kw=s["kw"]))
        if (v, got) != ("loaded", h[0]):
            raise Violation("lost", f"{d[:40]!r}: {v} {got}")
        if h[3] != fs.tree_hash(os.path.join(w.root, d)):
            raise Violation("files-changed", d[:40])


def shrinks(scn):
    yield from drop_each(scn, "procs")
    if scn["fresh"]:
        yield {**scn, "fresh": None}
    for i, p in enumerate(scn["procs"]):
        if len(p["ops"]) > 1:
            yield from (c for c in drop_each(scn, "procs", i, "ops") if get(c, ["procs", i, "ops"]) and not get(c, ["procs", i, "ops"])[0].get("reuse"))
        yield from fs.shrink_faults(scn, "procs", i, "faults")
        for k, o in enumerate(p["ops"]):
            for f in ("before", "np_downbeats", "reuse"):
                if o.get(f):
                    yield put(scn, ["procs", i, "ops", k], {a: b for a, b in o.items() if a != f})
            if o["path"] != "abs":
                yield put(scn, ["procs", i, "ops", k, "path"], "abs")
    for i, s in enumerate(scn["sets"]):
        if s["kw"]:
            yield put(scn, ["sets", i, "kw"], {})
        yield from model.shrink_cfg(scn, "sets", i, "cfg")
