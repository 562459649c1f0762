"""zygote: imports the tree under test once, forks one child per simulated run

Reads requests (one JSON per line) from stdin, answers on the original stdout.
"""

import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback


def main():
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(null, 2)
    inp = os.dup(0)
    os.dup2(null, 0)
    for fd in (out, inp):
        os.set_inheritable(fd, False)
    scratch = sys.argv[1]
    if os.environ.get("SIM_LOCKS"):
        from sim import threads

        threads.patch_locks()
    ready = load_tree(scratch)
    from sim import native

    native.lib()
    send(out, ready)
    buf = b""
    n = 0
    while True:
        while b"\n" not in buf:
            chunk = os.read(inp, 1 << 16)
            if not chunk:
                return
            buf += chunk
        line, buf = buf.split(b"\n", 1)
        req = json.loads(line)
        n += 1
        send(out, handle(req, os.path.join(scratch, f"r{n:07d}")))


def load_tree(scratch):
    """import the tree under test; says whether that worked"""
    # libraries first, then the tree under test without any cached bytecode
    import warnings

    warnings.simplefilter("ignore")
    import matplotlib.pyplot  # noqa: F401
    import numpy as np
    import scipy.ndimage  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    np.seterr(all="ignore")
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "no-bytecode")
    sys.path.insert(0, "/repo")
    ready = dict(ready=True, hashseed=os.environ.get("PYTHONHASHSEED"))
    try:
        import fvhoe.solver

        assert fvhoe.__path__[0] == "/repo/fvhoe", fvhoe.__path__
        importlib.import_module("fvhoe.visualization")
    except BaseException:
        ready = dict(ready=False, error=traceback.format_exc())
    try:
        importlib.import_module("fvhoe.scripting")
    except BaseException:
        pass  # reported by the property about it
    # the simulator's own modules may be imported by any child: load them here
    from sim import core, fs, inproc, model, native, threads  # noqa: F401
    return ready


def job(fd):
    """one simulated job in an interpreter of its own"""
    data = b""
    while chunk := os.read(fd, 1 << 16):
        data += chunk
    os.close(fd)
    spec = json.loads(data)
    load_tree(os.environ["TMPDIR"])
    from sim import fs

    try:
        fs.child(**spec)
    except BaseException:
        send(spec["out"], dict(harness_error=traceback.format_exc()[-4000:]))
        os._exit(3)


def send(fd, obj):
    data = (json.dumps(obj) + "\n").encode()
    while data:
        k = os.write(fd, data)
        data = data[k:]


def handle(req, scratch):
    mod = importlib.import_module("sim.props." + req["prop"].lower())
    os.makedirs(scratch, exist_ok=True)
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            res = child(mod, req, scratch)
            send(w, res)
        except BaseException:
            code = 3
            try:
                send(w, dict(status="error", error=traceback.format_exc()))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    data, hang = b"", False
    deadline = t0 + req.get("timeout", 60)
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        if not select.select([r], [], [], left)[0]:
            hang = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    os.close(r)
    shutil.rmtree(scratch, ignore_errors=True)
    if hang:
        res = dict(status="hang")
    else:
        try:
            res = json.loads(data)
        except ValueError:
            res = dict(status="error", error=f"child ended with status {st} without a report")
    res["id"] = req.get("id")
    res["wall"] = time.monotonic() - t0
    return res


def child(mod, req, scratch):
    from sim.core import Ctx, Skip, Violation, rng_of

    if "scenario" in req:
        scn = req["scenario"]
    else:
        scn = mod.gen(rng_of(req["prop"], req["seed"]), req.get("tier", "quick"))
        scn = json.loads(json.dumps(scn))
    ctx = Ctx(scratch)
    os.chdir(scratch)
    res = dict(status="ok")
    try:
        mod.run(scn, ctx)
    except Violation as v:
        res = dict(status="violation", kind=v.kind, detail=v.detail)
    except Skip as s:
        res = dict(status="skip", why=str(s))
    res.update(ctx.outcome())
    if req.get("want") or res["status"] == "violation":
        res["scenario"] = scn
        res["events"] = [list(e) for e in ctx.events][-200:]
    return res


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if sys.argv[1] == "--job":
        job(int(sys.argv[2]))
    main()
