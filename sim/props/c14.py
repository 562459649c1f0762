"""runs with a version-control tool that is missing, failing, killed or printing nonsense

A stand-in for the git executable misbehaves in a seeded way each time a solver is built;
the run, its saved results and the recorded description are compared with an undisturbed
run.
"""

import json
import os
import stat

from ..core import Skip, Violation, put
from .. import inproc, model, native

QUICK = dict(runs=3000, limit=80, rerun=40)
THOROUGH = dict(runs=200000, limit=780, rerun=300)
RULE = "a run counts when the tool misbehaved; two runs are distinct when the misbehaviour or the sequence of solvers and calls differs"
MEASURE = "hash of the sequence of (misbehaviour, configuration class, steps, snapshots)"
REAL = ["fvhoe.solver and everything it calls, including subprocess and the real process it starts", "file system (scratch directory)"]
STUB = ["git: a program that does what the seed says", "clocks, entropy: simulated"]
ASSUME = ["the tool ends by itself (one that hangs forever is not covered)"]
MODES = [
    "ok", "detached", "exit128", "dubious", "exit1silent", "empty", "newline", "nofields", "twofields", "pipes", "nonutf8", "nonutf8err",
    "control", "unicode", "huge", "hugeerr", "outanderr", "sigkill", "sigsegv", "partialkill",
    "missing", "not-executable", "directory", "bad-format", "empty-file", "no-path", "dangling", "pipe-fails", "fork-fails",
]


def gen(rng, tier):
    solvers = []
    for _ in range(rng.choice([1, 1, 2])):
        cfg = model.gen_cfg(rng, "tiny")
        cfg["progress"] = False
        kw, _ = inproc.gen_args(rng, cfg, n_mode=False)
        solvers.append(dict(cfg=cfg, kw=kw, mode=rng.choice(MODES), load=rng.choice(MODES), rel=rng.random() < 0.5))
    return dict(solvers=solvers, seed=rng.randint(0, 1 << 30))


def arrange(mode, where):
    """make the tool misbehave; returns a function that undoes what is inside this process"""
    import subprocess

    os.environ.pop("SIM_GIT", None)
    os.makedirs(where)
    path = os.path.join(where, "git")
    rest = "/usr/bin:/bin"
    undo = lambda: None
    if mode in ("missing", "no-path"):
        if mode == "missing":
            os.environ["PATH"] = where
        else:
            os.environ.pop("PATH", None)
            # without a PATH the default one is searched
    elif mode == "not-executable":
        with open(path, "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(path, stat.S_IRUSR)
        os.environ["PATH"] = where
    elif mode == "directory":
        os.makedirs(path)
        os.environ["PATH"] = where
    elif mode in ("bad-format", "empty-file"):
        with open(path, "wb") as f:
            f.write(b"\x00\x01\x02nonsense" if mode == "bad-format" else b"")
        os.chmod(path, 0o755)
        os.environ["PATH"] = where
    elif mode == "dangling":
        os.symlink("/nonexistent/git", path)
        os.environ["PATH"] = where
    elif mode in ("pipe-fails", "fork-fails"):
        os.environ["PATH"] = native.GITBIN + ":" + rest
        os.environ["SIM_GIT"] = "ok"

        def fail(*a, **k):
            raise OSError(24 if mode == "pipe-fails" else 11, "injected by the simulator")

        old = subprocess.Popen.__init__
        subprocess.Popen.__init__ = fail

        def undo():
            subprocess.Popen.__init__ = old

    else:
        os.environ["PATH"] = native.GITBIN + ":" + rest
        os.environ["SIM_GIT"] = mode
    return undo


def strict(text):
    def no(x):
        raise ValueError(f"{x} is not JSON")

    return json.loads(text, parse_constant=no)


def one(spec, mode, load, where):
    """build, run, save, load; in a forked process"""
    import sys

    from .c12 import Quiet

    inproc.begin(1)
    sys.stderr = Quiet()
    cfg = spec["cfg"]
    os.makedirs(where)
    os.chdir(where)
    d = "out" if spec["rel"] else os.path.join(where, "out")
    undo = arrange(mode, os.path.join(where, "bin"))
    s = model.build(cfg)
    undo()
    model.entry(s, cfg)(**spec["kw"], snapshot_dir=d)
    out = dict(state=model.state_digest(s), snaps=model.snaps_digest(s), steps=int(s.step_count), t=float(s.t), nsnaps=len(s.snapshots))
    out["where"] = sorted(os.listdir(where))
    out["moved"] = os.getcwd() != where
    with open(os.path.join(where, "out", "attrs.json"), encoding="utf-8", errors="surrogateescape") as f:
        text = f.read()
    try:
        attrs = strict(text)
        out["details"] = attrs.get("commit_details")
    except ValueError as e:
        out["json"] = str(e)
    undo = arrange(load, os.path.join(where, "bin2"))
    r = model.build(cfg)
    undo()
    model.entry(r, cfg)(**spec["kw"], snapshot_dir=d)
    out["loaded"] = model.snaps_digest(r)
    out["loaded_steps"] = int(r.step_count)
    return out


def run(scn, ctx):
    for i, spec in enumerate(scn["solvers"]):
        ok, ref = inproc.forked(lambda: one(spec, "ok", "ok", os.path.join(ctx.scratch, f"ref{i}")))
        if ok != "ok":
            ok2, _ = inproc.forked(lambda: bare(spec))
            if ok2 == "ok":
                raise Violation("raises", f"with a working tool: {ref}")
            raise Skip("the undisturbed run raises")
        ok, got = inproc.forked(lambda: one(spec, spec["mode"], spec["load"], os.path.join(ctx.scratch, f"run{i}")))
        for m in (spec["mode"], spec["load"]):
            if m != "ok":
                ctx.fault("git " + m)
        ctx.event(i, spec["mode"], spec["load"], ok, got if ok == "ok" else got[:60])
        if ok != "ok":
            raise Violation("raises", f"with the tool {spec['mode']} (then {spec['load']}) the run raises {got}")
        ctx.trace.append((spec["mode"], spec["load"], spec["cfg"]["dims"], got["steps"], got["nsnaps"]))
        for k in ("state", "snaps", "steps", "t", "loaded", "loaded_steps", "where", "moved"):
            if got[k] != ref[k]:
                raise Violation("differs", f"with the tool {spec['mode']}: {k} differs from the undisturbed run")
        if got["loaded"] != got["snaps"] or got["loaded_steps"]:
            raise Violation("not-loaded", f"with the tool {spec['mode']} then {spec['load']}: loading computed {got['loaded_steps']} steps")
        for r in (ref, got):
            if "json" in r:
                raise Violation("invalid-json", f"with the tool {spec['mode']}: {r['json']}")
        for r, m in ((ref, "ok"), (got, spec["mode"])):
            d = r["details"]
            if not isinstance(d, dict) or not (("error" in d) or d.get("commit_hash") is not None):
                raise Violation("no-description", f"with the tool {m}: the description says {str(d)[:200]}")
            if m == "ok" and d.get("commit_hash") != "0123456789abcdef0123456789abcdef01234567":
                raise Violation("no-description", f"with a working tool the description says {str(d)[:200]}")
            if m in ("exit128", "dubious", "exit1silent", "hugeerr", "outanderr", "sigkill", "sigsegv", "partialkill", "nonutf8err", "missing", "not-executable", "directory", "bad-format", "dangling", "pipe-fails", "fork-fails", "empty") and d.get("commit_hash"):
                raise Violation("wrong-description", f"with the tool {m}: the description claims revision {str(d['commit_hash'])[:60]}")
        ctx.steps += got["steps"]
        ctx.sim_time += got["t"]


def bare(spec):
    s = model.build(spec["cfg"])
    model.entry(s, spec["cfg"])(**spec["kw"])


def shrinks(scn):
    if len(scn["solvers"]) > 1:
        for i in range(len(scn["solvers"])):
            yield put(scn, ["solvers"], [scn["solvers"][i]])
    for i, s in enumerate(scn["solvers"]):
        for k in ("mode", "load"):
            if s[k] != "ok":
                yield put(scn, ["solvers", i, k], "ok")
        for k in ("downbeats", "log_every_step", "exact"):
            if k in s["kw"]:
                yield put(scn, ["solvers", i, "kw"], {a: b for a, b in s["kw"].items() if a != k})
        yield from model.shrink_cfg(scn, "solvers", i, "cfg")
