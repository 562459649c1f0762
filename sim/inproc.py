"""solvers under fault injection inside the simulated process

A Rig wraps one solver of the tree under test; faults strike at the k-th occurrence of a
kind of event (user callback, evaluation of f, executed line of the package inside f,
array allocation, write to the progress stream).  Everything else is real code.
"""

import io
import sys
from collections import Counter

from . import model, native

PKG = "/repo/fvhoe/"


class Injected(Exception):
    pass


EXC = dict(
    Injected=Injected,
    KeyboardInterrupt=KeyboardInterrupt,
    ValueError=ValueError,
    RuntimeError=RuntimeError,
    KeyError=KeyError,
    ZeroDivisionError=ZeroDivisionError,
    FloatingPointError=FloatingPointError,
    OSError=OSError,
    MemoryError=MemoryError,
    StopIteration=StopIteration,
    SystemExit=SystemExit,
)
CALLBACK_EXC = ["Injected", "Injected", "KeyboardInterrupt", "ValueError", "RuntimeError", "KeyError", "ZeroDivisionError", "OSError", "StopIteration", "SystemExit", "FloatingPointError"]


def begin(seed, alloc=True, mono=10**12):
    """simulated clock, entropy and allocator for this process"""
    import random

    import numpy as np

    lib = native.lib()
    lib.sim_clock_on(seed & 0xFFFF, mono, 17 * 10**17, 500, 30000, 1)
    lib.sim_entropy_on(seed & (2**62 - 1), 4711)
    random.seed(seed)
    np.random.seed(seed & 0xFFFFFFFF)
    if alloc:
        native.install_alloc_handler()
        lib.sim_alloc_poison(-1, 0)
        lib.sim_alloc_fail(-1, 0)


def forked(fn):
    """result of fn in a forked copy of this process"""
    import os
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("error", f"{type(e).__name__}: {e}"[:300])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data) :]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return "error", "process died"
    return pickle.loads(data)


class Stream(io.StringIO):
    """the progress display's terminal"""

    def __init__(self, rig):
        super().__init__()
        self.rig = rig

    def write(self, text):
        self.rig.hit("stream")
        return len(text)

    def flush(self):
        pass


class Rig:
    def __init__(self, cfg, record=False, bc_shared=None, **build):
        from fvhoe.solver import EulerSolver

        self.cfg = cfg
        self.count = Counter()
        self.fault = None
        self.fired = None
        self.in_f = 0
        self.broke_in_f = False
        self.E = 0  # evaluations of f entered
        self.record = record
        self.states = {}  # step count -> digest of the state
        self.nsnaps = []  # number of snapshots at each f entry
        self.on_helper = None
        self.on_f = None
        self.armed = False
        rig = self

        class Probe(EulerSolver):
            def f(self, t, u):
                rig.E += 1
                if rig.record:
                    rig.note()
                if rig.on_f is not None:
                    rig.on_f(self)
                rig.in_f += 1
                try:
                    rig.hit("f_pre")
                    out = super().f(t, u)
                    rig.hit("f_post")
                except BaseException:
                    rig.broke_in_f = True
                    raise
                finally:
                    rig.in_f -= 1
                return out

        def helper(s):
            rig.hit("helper_pre")
            if rig.on_helper is not None:
                rig.on_helper(s)
            rig.hit("helper")

        self.s = model.build(cfg, cls=Probe, hook=lambda name: self.hit(name), helper=helper if build.pop("helper", True) else None, **build)

    def note(self):
        self.states.setdefault(self.s.step_count, model.state_digest(self.s))
        self.nsnaps.append(len(self.s.snapshots))

    def hit(self, kind):
        if not self.armed:
            return
        self.count[kind] += 1
        f = self.fault
        if f is not None and f["kind"] == kind and self.count[kind] == f["at"]:
            if "value" in f:
                self.fired, self.fault = kind, None
                return float(f["value"])
            self._fire(f)

    def _fire(self, f):
        self.fired = f["kind"]
        self.fault = None
        raise EXC[f["exc"]]("injected by the simulator")

    # -- tracing of the package's lines inside f
    def _global(self, frame, event, arg):
        if self.in_f and frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.in_f:
            self.hit("line")
        return self._local

    def call(self, method, fault=None, trace=False, **kw):
        """run one integration call; returns None or the exception"""
        lib = native.lib()
        self.fault = dict(fault) if fault else None
        self.fired, self.broke_in_f = None, False
        self.in_f = 0
        self.count = Counter()
        kind = fault and fault["kind"]
        err = None
        old = sys.stderr
        sys.stderr = Stream(self)
        a0 = lib.sim_alloc_count()
        f0 = lib.sim_alloc_failed()
        self.armed = True
        try:
            if kind == "alloc":
                lib.sim_alloc_fail(fault["at"], fault.get("len", 1))
            if kind == "line" or trace:
                sys.settrace(self._global)
            getattr(self.s, method)(**kw)
        except BaseException as e:
            err = e
        finally:
            sys.settrace(None)
            lib.sim_alloc_fail(-1, 0)
            self.armed = False
            sys.stderr = old
        self.count["alloc"] = lib.sim_alloc_count() - a0
        if kind == "alloc" and lib.sim_alloc_failed() > f0:
            self.fired = "alloc"
        if err is not None:
            self.err_text = f"{type(err).__name__}: {err}"[:300]
            err.__traceback__ = None
        return err


KINDS = ["bc", "helper", "helper_pre", "f_pre", "f_post", "line", "alloc", "stream"]


def gen_fault(rng, cfg, kinds=None):
    w = dict(bc=3 if uses_callable(cfg) else 0, helper=2, helper_pre=1, f_pre=1, f_post=1, line=3, alloc=4, stream=2 if cfg["progress"] else 0)
    ks = [k for k in (kinds or KINDS) if w.get(k)]
    k = rng.choices(ks, [w[k] for k in ks])[0]
    f = dict(kind=k, frac=round(rng.random(), 4))
    if k in ("bc", "helper", "helper_pre", "f_pre", "f_post"):
        f["exc"] = rng.choice(CALLBACK_EXC)
    elif k == "line":
        f["exc"] = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit"])
    elif k == "stream":
        f["exc"] = "OSError"
    else:
        f["len"] = rng.choice([1, 1, 2, 5])
    return f


def uses_callable(cfg):
    if cfg["bc"] is None or cfg["dirichlet"] != "callable":
        return False
    return any("dirichlet" in cfg["bc"][d] for d in cfg["dims"])


def place(fault, totals):
    """turn the relative position of a fault into an ordinal, given counted totals"""
    n = totals.get(fault["kind"], 0)
    if n <= 0:
        return None
    out = dict(fault)
    out["at"] = 1 + min(n - 1, int(fault["frac"] * n))
    if fault["kind"] == "alloc":
        out["at"] -= 1
    return out


def shrink_fault(scn, *keys):
    from .core import get, put

    f = get(scn, keys)
    for frac in (0.0, 0.5, round(f["frac"] / 2, 4)):
        if frac < f["frac"]:
            yield put(scn, [*keys, "frac"], frac)
    if f.get("exc") not in (None, "Injected", "KeyboardInterrupt", "OSError"):
        yield put(scn, [*keys, "exc"], "Injected" if f["kind"] != "line" else "KeyboardInterrupt")
    if f.get("len", 1) > 1:
        yield put(scn, [*keys, "len"], 1)


def gentle(cfg):
    """a small problem that does not blow up in a long run"""
    if len(cfg["dims"]) > 1 or max(cfg["n"]) >= 20 or cfg["riemann"] == "advection_upwind":
        return False
    smooth = cfg["ic"]["name"] == "sinus" and cfg["form"] == "primitive" and cfg["bc"] is None
    return smooth or max(cfg["p"]) == 0


def gen_args(rng, cfg, t0=0.0, n_mode=True, steps=None):
    """keyword arguments of an integration call covering a few steps from time t0; returns (kw, end time)"""
    dt = model.typical_dt(cfg)
    if n_mode and rng.random() < 0.12:
        return dict(n=rng.randint(0, 3)), t0
    if steps is None:
        steps = rng.choice([0.4, 1.5, 2.5, 4.5])
        if rng.random() < 0.05:  # now and then a long run
            steps = rng.choice([20.5, 120.5])
    if steps > 25 and not gentle(cfg):
        steps = 5.5
    T = round(t0 + dt * steps, 9)
    kw = dict(T=T)
    k = rng.choices([0, 1, 3, 6], [4, 3, 2, 1])[0]
    if k:
        kw["downbeats"] = [round(rng.uniform(t0, T), 9) for _ in range(k)]
        if rng.random() < 0.1:  # two that are almost the same
            kw["downbeats"].append(kw["downbeats"][0] * (1 + 1e-13))
    if rng.random() < 0.25:
        kw["log_every_step"] = True
    if rng.random() < 0.1:
        kw["exact"] = False
    return kw, T
