"""simulated jobs: processes that run the real code on a real (scratch) directory tree,
with every filesystem call decided by the simulator

A job is a forked process.  It stops at each filesystem call below the root and continues
with the answer it gets: proceed, fail, transfer fewer bytes, or die.  Clock, entropy and
process id of a job are simulated.
"""

import errno
import hashlib
import json
import os
import re
import select
import shutil
import signal
import socket
import sys
import traceback

from . import model, native
from .core import Stuck
from .native import Reply

MUT = {"openw", "write", "closew", "rename", "mkdir", "rmdir", "unlink", "link", "symlink", "ftruncate", "truncate", "fsync", "chmod"}
CREATE = {"openw", "write", "mkdir", "link", "symlink", "closew", "fsync"}
READ = {"openr", "read", "opend", "opendir"}


class Op:
    __slots__ = ("op", "arg", "p1", "p2", "made")

    def __init__(self, msg, root):
        op, arg, p1, p2 = msg.decode("utf-8", "surrogateescape").split("\t")
        self.op, self.arg = op, int(arg)
        self.made = True  # False once the simulator has refused it
        self.p1 = os.path.relpath(p1, root) if p1.startswith("/") else p1
        self.p2 = os.path.relpath(p2, root) if p2.startswith("/") else p2

    def show(self):
        return f"{self.op} {self.p1}" + (f" -> {self.p2}" if self.p2 else "") + (f" [{self.arg}]" if self.op in ("write", "read") else "")


def child(root, ops, no, seed, sock, out, clock_step):
    """the job's process: simulated surroundings, then the operations; never returns"""
    import random

    import numpy as np

    signal.signal(signal.SIGINT, signal.default_int_handler)
    lib = native.lib()
    lib.sim_entropy_on((seed * 1000003 + no) & (2**63 - 1), 4711 + no)
    lib.sim_clock_on(seed & 0xFFFF, 10**12 + 10**9 * no, 17 * 10**17, clock_step, 3 * clock_step, 1)
    random.seed(seed + no)
    np.random.seed((seed + no) & 0xFFFFFFFF)
    go = program(root, ops)
    lib.sim_fs_attach(sock, root.encode())
    try:
        res = go()
    finally:
        lib.sim_fs_detach()
    data = json.dumps(res).encode()
    while data:
        data = data[os.write(out, data) :]
    os._exit(0)


def become(hashseed, spec):
    """turn this process into a newly started interpreter with another hash seed"""
    for fd in (spec["sock"], spec["out"]):
        os.set_inheritable(fd, True)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    r, w = os.pipe()
    os.set_inheritable(r, True)
    if os.fork() == 0:
        data = json.dumps(spec).encode()
        while data:
            data = data[os.write(w, data) :]
        os._exit(0)
    os.close(w)
    os.execve(sys.executable, [sys.executable, os.path.join(native.HERE, "worker.py"), "--job", str(r)], {**os.environ, "PYTHONHASHSEED": str(hashseed)})


class Job:
    """a process under the simulator's control"""

    def __init__(self, root, ops, no, seed, label="", cwd=None, clock_step=2000, fresh=None):
        self.no, self.label = no, label or f"job{no}"
        self.root = root
        self.n_ops = 0
        self.result = None
        self.alive = True
        self.pending = None
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                os.close(r)
                os.chdir(cwd or root)
                if fresh is not None:
                    become(fresh, dict(root=root, ops=ops, no=no, seed=seed, sock=b.fileno(), out=w, clock_step=clock_step))
                child(root, ops, no, seed, b.fileno(), w, clock_step)
            except BaseException:
                try:
                    os.write(w, json.dumps(dict(harness_error=traceback.format_exc()[-4000:])).encode())
                finally:
                    os._exit(3)
        b.close()
        os.close(w)
        self.sock, self.rfd = a, r

    def next_op(self, timeout=None):
        """the call the job has stopped at, None if it ended; Stuck if neither in time"""
        if timeout is not None and not select.select([self.sock], [], [], timeout)[0]:
            raise Stuck(self.label)
        msg = self.sock.recv(1 << 16)
        if not msg:
            self._reap()
            return None
        self.n_ops += 1
        self.pending = Op(msg, self.root)
        return self.pending

    def answer(self, action=Reply.GO, err=0, n=0):
        self.pending = None
        try:
            self.sock.send(Reply.pack(action, err, n))
        except (BrokenPipeError, ConnectionError):
            pass

    def _reap(self):
        data = b""
        while True:
            chunk = os.read(self.rfd, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(self.rfd)
        self.sock.close()
        _, self.status = os.waitpid(self.pid, 0)
        self.alive = False
        if data:
            self.result = json.loads(data)
            if isinstance(self.result, dict) and "harness_error" in self.result:
                raise RuntimeError("job harness: " + self.result["harness_error"])

    def kill(self):
        if self.alive:
            os.kill(self.pid, signal.SIGKILL)
            while self.sock.recv(1 << 16):
                pass
            self._reap()

    @property
    def died(self):
        return not self.alive and self.result is None


class Policy:
    """decides the answer to each filesystem call from a list of fault specifications

    {"at": {"cls": c, "nth": k}, "act": "die"|"torn"|"int"|"fail"|"short", "err": E, "frac": f,
     "sticky": bool, "phase": p}
    {"budget": bytes, "phase": p}           a full disk
    {"readonly": E, "phase": p}             nothing can be created or renamed from the start
    phases are counted by marks the job makes; a fault without phase applies in any
    """

    def __init__(self, specs, ctx, job=None):
        self.specs = [dict(s, seen=0, done=False) for s in specs]
        self.ctx, self.job = ctx, job
        self.sticky = None
        self.written = 0
        self.phase = 0
        self.fired = []
        self.healed = False
        self.interrupted = False
        self.persistent = False  # more than one call may have been made to fail

    @staticmethod
    def matches(cls, op):
        return cls == "any" or cls == op.op or (cls == "mut" and op.op in MUT) or (cls == "rd" and op.op in READ)

    def heal(self):
        self.sticky, self.healed = None, True

    def __call__(self, op):
        if op.op == "mark":
            self.phase += 1
            if op.p1 == "heal":
                self.heal()
            return (Reply.GO,)
        if self.healed:
            return (Reply.GO,)
        for s in self.specs:
            if s.get("phase") is not None and s["phase"] != self.phase:
                continue
            if "readonly" in s:
                if not s["done"]:
                    s["done"] = self.persistent = True
                    self.sticky = s["readonly"]
                continue
            if "budget" in s:
                r = self._budget(s, op)
                if r:
                    return r
                continue
            if s["done"] or not self.matches(s["at"]["cls"], op):
                continue
            s["seen"] += 1
            if s["seen"] <= s["at"]["nth"]:
                continue
            if s["act"] == "short":
                if op.op not in ("write", "read"):
                    continue
                s["fires"] = s.get("fires", 0) + 1
                s["done"] = not s.get("sticky") or s["fires"] >= 50
                self._fire(s, op, "short " + op.op)
                return (Reply.SHORT, 0, max(1, int(s["frac"] * op.arg)))
            if s["act"] == "fail" and op.op in ("closer", "closed"):
                continue
            s["done"] = True
            if s["act"] in ("die", "torn"):
                if s["act"] == "torn" and op.op == "write":
                    self._fire(s, op, "torn write, kill")
                    return (Reply.TORN, 0, int(s["frac"] * op.arg))
                self._fire(s, op, f"kill at {op.op}")
                return (Reply.DIE,)
            if s["act"] == "int":  # keyboard interrupt: the call is made, then Python sees the signal
                self._fire(s, op, f"interrupt at {op.op}")
                self.interrupted = True
                os.kill(self.job.pid, signal.SIGINT)
                return (Reply.GO,)
            self._fire(s, op, f"{s['err']} at {op.op}")
            if s.get("sticky"):
                self.sticky, self.persistent = s["err"], True
            return (Reply.FAIL, getattr(errno, s["err"]))
        denied = op.op == "stat" and op.arg & os.W_OK and self.sticky in ("EROFS", "EACCES", "EPERM")
        if self.sticky and (denied or op.op in CREATE | {"rename"} and op.op != "closew"):
            self.ctx.fault(f"persistent {self.sticky}")
            if not self.fired:
                self._fire({}, op, f"persistent {self.sticky} at {op.op}")
            return (Reply.FAIL, getattr(errno, self.sticky))
        return (Reply.GO,)

    def _budget(self, s, op):
        self.persistent = True
        if op.op == "write":
            left = s["budget"] - self.written
            if left <= 0:
                self._fire(s, op, "disk full at write")
                return (Reply.FAIL, errno.ENOSPC)
            if op.arg > left:
                self._fire(s, op, "disk full, short write")
                self.written += left
                return (Reply.SHORT, 0, left)
            self.written += op.arg
        elif op.op in ("mkdir", "openw") and self.written >= s["budget"]:
            self._fire(s, op, f"disk full at {op.op}")
            return (Reply.FAIL, errno.ENOSPC)
        return None

    def _fire(self, s, op, what):
        self.ctx.fault(what)
        self.fired.append((what, op.show()))
        self.ctx.event("fault", what, scrub(op.show()))
        self.ctx.trace.append((what, op.op))


_names = {}


def scrub(text):
    """event logs must not depend on random names"""
    return re.sub(r"[0-9a-f]{8,}|tmp[0-9a-z_]{8}", "~", text)


def drive(job, policy, ctx, watch=None):
    """run one job to its end; watch(op) is called after every executed call, with the next one"""
    while True:
        op = job.next_op()
        if watch is not None:
            watch(op)
        if op is None:
            return job.result
        if op.op != "stat":
            ctx.event(job.no, scrub(op.show()) if op.op not in ("write",) else scrub(f"write {op.p1}"))
        reply = policy(op)
        op.made = reply[0] not in (Reply.FAIL, Reply.DIE)
        job.answer(*reply)


# ------------------------------------------------------------- job programs
_f_calls = [0]
_stop = [None, KeyboardInterrupt]
STOPS = {"interrupt": KeyboardInterrupt, "error": FloatingPointError, "memory": MemoryError, "exit": SystemExit}


def counting_class():
    from fvhoe.solver import EulerSolver

    class Counting(EulerSolver):
        def f(self, t, u):
            _f_calls[0] += 1
            if _f_calls[0] == _stop[0]:
                raise _stop[1]("stopped while computing")
            return super().f(t, u)

    return Counting


def path_of(root, op):
    d = op.get("dir")
    if d is None:
        return None
    style = op.get("path", "abs")
    if style == "rel":
        return d
    if style == "slash":
        return os.path.join(root, d) + "/"
    if style == "dot":
        return "./" + os.path.join(".", d, "..", os.path.basename(d))
    return os.path.join(root, d)


def program(root, ops):
    """ops executed one after another in one process; returns one record per op"""

    def go():
        cls = counting_class()
        solvers, out = {}, []
        for op in ops:
            rec = dict(do=op["do"])
            out.append(rec)
            if op["do"] == "mark":
                native.lib().sim_fs_mark(op["text"].encode())
                continue
            f0 = _f_calls[0]
            s = None
            try:
                if op.get("stop"):
                    _stop[:] = f0 + op["stop"]["at"], STOPS[op["stop"]["as"]]
                if op["do"] == "wrap":
                    s = wrap(root, op)
                    rec["ok"] = True
                    continue
                if op.get("reuse"):
                    s = solvers[op["id"]]
                else:
                    s = model.build(op["cfg"], cls=cls)
                    solvers[op["id"]] = s
                if op.get("before"):  # earlier integration without saving
                    model.entry(s, op["cfg"])(op["before"])
                before = (model.snaps_digest(s), model.state_digest(s))
                kw = dict(op.get("kw", {}))
                if op.get("dir") is not None:
                    kw["snapshot_dir"] = path_of(root, op)
                    if "overwrite" in op:
                        kw["overwrite"] = op["overwrite"]
                db = kw.get("downbeats")
                if db is not None and op.get("np_downbeats"):
                    import numpy as np

                    kw["downbeats"] = np.array(db)
                f0 = _f_calls[0]
                model.entry(s, op["cfg"])(op["T"], **kw)
                rec["ok"] = True
            except BaseException as e:
                rec["ok"] = False
                rec["exc"] = type(e).__name__
                rec["msg"] = str(e)[:300]
                rec["where"] = [f"{f.filename.split('/')[-1]}:{f.name}" for f in traceback.extract_tb(sys.exc_info()[2])][-4:]
                if s is not None:
                    rec["unchanged"] = before == (model.snaps_digest(s), model.state_digest(s)) if "before" in locals() else None
            finally:
                rec["stopped"] = _stop[0] is not None and _f_calls[0] >= _stop[0]
                _stop[0] = None
                note(rec, s, f0, op, root)
        return out

    return go


def wrap(root, op):
    """a call of the scripting wrapper; evaluations of f are counted on the class"""
    from fvhoe.solver import EulerSolver

    if not op.get("direct"):
        from fvhoe import scripting
    if not getattr(EulerSolver, "_counted", False):
        inner = EulerSolver.f

        def f(self, *a, **k):
            _f_calls[0] += 1
            if _f_calls[0] == _stop[0]:
                raise _stop[1]("stopped while computing")
            return inner(self, *a, **k)

        EulerSolver.f = f
        EulerSolver._counted = True
    kw = {k: tuple(v) if isinstance(v := op["kw"][k], list) else v for k in op.get("order") or op["kw"]}
    ic = model.make_ic(op["cfg"])
    if op.get("direct"):
        import numpy as np
        from fvhoe.boundary_conditions import BoundaryCondition

        T, n, i = kw.pop("T"), kw.pop("n_snapshots"), kw.pop("integrator")
        s = EulerSolver(w0=ic, bc=BoundaryCondition(), **kw)
        getattr(s, {-1: "run", 1: "euler", 2: "ssprk2", 3: "ssprk3", 4: "rk4"}[i])(T, downbeats=np.linspace(0, T, n))
        return s
    if op.get("summary"):
        kw["summary_parent_dir"] = os.path.join(root, op["summary"])
    return scripting.EulerSolver_wrapper(project_pref=op["pref"], snapshot_parent_dir=path_of(root, op), ic=ic, overwrite=op["overwrite"], **kw)


def note(rec, s, f0, op, root):
    rec["f_calls"] = _f_calls[0] - f0
    if s is not None:
        rec.update(
            snaps=model.snaps_digest(s),
            state=model.state_digest(s),
            n=len(s.snapshots),
            times=[float(t) for t in s.snapshot_times],
            steps=s.step_count,
            t=float(s.t),
        )
    if op.get("tree"):
        native.lib().sim_fs_pause(1)
        rec["tree"] = tree_hash(os.path.join(root, op["dir"]))
        native.lib().sim_fs_pause(0)


def tree_hash(path):
    """content of a directory, timing figures excepted; None if absent"""
    if not os.path.lexists(path):
        return None
    h = hashlib.sha256()
    for d, ds, fs in os.walk(path):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, path).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        h.update(b"|".join(x.encode() for x in ds))
    return h.hexdigest()


class World:
    """a scratch tree, the jobs run on it, and an inspector of result directories"""

    def __init__(self, ctx, seed=0):
        self.ctx, self.seed = ctx, seed
        self.root = os.path.realpath(os.path.join(ctx.scratch, "fs"))
        os.makedirs(self.root)
        self.n_jobs = 0
        self.verdicts = {}

    def job(self, ops, label="", **kw):
        self.n_jobs += 1
        return Job(self.root, ops, self.n_jobs, self.seed, label, **kw)

    def run(self, ops, faults=(), label="", watch=None, **kw):
        """one job from start to end; returns (records or None if it was killed, policy)"""
        job = self.job(ops, label, **kw)
        pol = Policy(faults, self.ctx, job)
        try:
            res = drive(job, pol, self.ctx, watch)
        finally:
            job.kill()
        self.ctx.steps += sum(r.get("steps", 0) for r in res or ())
        self.ctx.sim_time += sum(r.get("t", 0.0) for r in res or ())
        return res, pol

    def load(self, reldir, ref):
        """what a fresh, undisturbed, non-overwriting run makes of a results directory:
        ("loaded", digest) | ("computed", digest) | ("error", text); inspected on a copy"""
        path = os.path.join(self.root, reldir)
        key = (tree_hash(path), json.dumps(ref, sort_keys=True))
        if key[0] is None:
            return ("absent", None)
        if key not in self.verdicts:
            side = os.path.join(self.ctx.scratch, "inspect")
            shutil.rmtree(side, ignore_errors=True)
            os.makedirs(side)
            if os.path.isdir(path):
                shutil.copytree(path, os.path.join(side, "d"), symlinks=True)
            else:
                shutil.copy(path, os.path.join(side, "d"))
            job = Job(side, [dict(ref, dir="d", overwrite=False, path="abs")], 999, self.seed)
            try:
                while job.next_op() is not None:
                    job.answer()
            finally:
                job.kill()
            r = job.result[0]
            if not r["ok"]:
                v = ("error", f"{r['exc']}: {r['msg']}")
            elif r["f_calls"] == 0:
                v = ("loaded", r["snaps"])
            else:
                v = ("computed", r["snaps"])
            shutil.rmtree(side, ignore_errors=True)
            self.verdicts[key] = v
        return self.verdicts[key]

    def description(self, reldir):
        """what the files of a results directory other than the arrays say: JSON key by key,
        others with numbers and spaces blanked out, and the names of all; None if there are none"""
        path, out = os.path.join(self.root, reldir), {}
        for f in sorted(os.listdir(path)) if os.path.isdir(path) else ():
            if f.endswith(".json"):
                try:
                    with open(os.path.join(path, f), encoding="utf-8") as fh:
                        data = json.load(fh)
                except ValueError:
                    data = "unreadable"
                for k, v in data.items() if isinstance(data, dict) else [("", data)]:
                    out[f, k] = json.dumps(v, sort_keys=True)
                continue
            out[f, ""] = "exists"
            try:
                with open(os.path.join(path, f), encoding="utf-8") as fh:
                    text = fh.read(1 << 16)
                if text.isprintable() or all(c.isprintable() or c in "\r\n\t" for c in text):
                    out[f, "text"] = re.sub(r"[\s#]+", " ", re.sub(r"[-+]?\d[\d.,eE+-]*|[-_=|+]{2,}", "#", text)).strip()
            except (OSError, ValueError):
                pass
        return out or None

    def reference_description(self, base):
        """the part of the description of a run that depends on its settings only: what two
        undisturbed runs into two directories agree on"""
        got = []
        for d, tick in (("ref-1", 2000), ("ref-two/2", 5 * 10**7)):
            res, _ = self.run([dict(base, dir=d, overwrite=False)], clock_step=tick)
            if not res[0]["ok"]:
                return {}
            got.append(self.description(d) or {})
            shutil.rmtree(os.path.join(self.root, d.split("/")[0]))
        return {k: v for k, v in got[0].items() if got[1].get(k) == v}

    def foreign(self, reldir, refs):
        """the first entry in which the description of a directory is none of refs; None if it is one"""
        have = self.description(reldir) or {}
        bad = None
        for ref in refs:
            bad = next((f"{f}: {k} is {have.get((f, k), 'missing')[:60]}" for (f, k), v in sorted(ref.items()) if have.get((f, k)) != v), None)
            if bad is None:
                return None
        return bad

    def directories(self):
        """all directories below the root, relative"""
        out = []
        for d, ds, _ in os.walk(self.root):
            ds.sort()
            for x in ds:
                out.append(os.path.relpath(os.path.join(d, x), self.root))
        return out


ERRNOS = ["ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EROFS", "EPERM"]


def gen_at(rng, classes):
    cls = rng.choices([c for c, _ in classes], [w for _, w in classes])[0]
    top = {"write": 4, "mut": 18, "any": 40, "openw": 2, "closew": 2, "rename": 1, "mkdir": 1, "unlink": 2, "rmdir": 0, "stat": 12, "read": 4, "openr": 1, "rd": 6, "opend": 0}.get(cls, 2)
    if rng.random() < 0.1:
        top = 2 * top + 2
    return dict(cls=cls, nth=rng.randint(0, top))


KILL_CLASSES = [("mut", 10), ("write", 5), ("rename", 4), ("openw", 2), ("mkdir", 2), ("unlink", 3), ("rmdir", 2), ("any", 3), ("closew", 2)]
FAIL_CLASSES = [("mut", 8), ("write", 5), ("rename", 4), ("openw", 3), ("mkdir", 2), ("closew", 3), ("unlink", 2), ("rmdir", 1), ("stat", 1), ("opend", 1)]


def gen_kill(rng):
    at = gen_at(rng, KILL_CLASSES)
    if rng.random() < 0.25:
        return dict(at=at, act="int")
    if rng.random() < 0.4:
        return dict(at=at, act="torn", frac=round(rng.random(), 3))
    return dict(at=at, act="die")


def gen_stop(rng):
    """an interrupt or error at the k-th evaluation of the right-hand side"""
    return {"at": rng.choice([1, 2, 3, 5, rng.randint(1, 30)]), "as": rng.choice(["interrupt", "interrupt", "error", "memory", "exit"])}


def gen_fail(rng, sticky=None):
    s = dict(at=gen_at(rng, FAIL_CLASSES), act="fail", err=rng.choice(ERRNOS))
    if rng.random() < 0.3 if sticky is None else sticky:
        s["sticky"] = True
    return s


def gen_call(rng, cfg, rich=False):
    """T and output times of an integration of a few steps"""
    dt = model.typical_dt(cfg)
    T = round(dt * rng.choice([0.5, 1.5, 3.5, 6.5]), 9)
    kw = {}
    k = rng.choices([0, 1, 3, 8], [4, 3, 2, 1])[0]
    if k:
        kw["downbeats"] = [round(rng.uniform(0, T), 9) for _ in range(k)]
    if rng.random() < 0.25:
        kw["log_every_step"] = True
    if rng.random() < 0.1:
        kw["exact"] = False
    return T, kw


def shrink_faults(scn, *keys):
    """simpler fault lists at keys"""
    from .core import drop_each, get, put

    yield from drop_each(scn, *keys)
    for i, f in enumerate(get(scn, keys)):
        if f.get("act") == "torn":
            yield put(scn, [*keys, i], {**{k: v for k, v in f.items() if k != "frac"}, "act": "die"})
            if f["frac"] != 0.5:
                yield put(scn, [*keys, i, "frac"], 0.5)
        if f.get("act") == "int":
            yield put(scn, [*keys, i], {**f, "act": "die"})
        if f.get("sticky"):
            yield put(scn, [*keys, i], {k: v for k, v in f.items() if k != "sticky"})
        if f.get("act") == "fail" and f["err"] != "EIO":
            yield put(scn, [*keys, i, "err"], "EIO")
        n = f.get("at", {}).get("nth", 0)
        for m in {0, n // 2, n - 1}:
            if 0 <= m < n:
                yield put(scn, [*keys, i, "at", "nth"], m)
