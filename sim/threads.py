"""baton scheduler: real threads, one of which runs at any moment

Every executed line (or bytecode instruction) of the package under test is a point where
the scheduler may hand the baton to another thread, as decided by a seeded sequence of
segment lengths or by an explicit list of segments.  Locks are cooperative: waiting for
one hands the baton on.
"""

import _thread
import sys
import threading

PKG = "/repo/fvhoe/"
_allocate = _thread.allocate_lock
_ident = _thread.get_ident

CURRENT = None  # active scheduler


class Deadlock(BaseException):
    pass


class SimLock:
    def __init__(self):
        self._l = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.mine():
            return self._l.acquire(blocking, timeout)
        tries = 0
        while not self._l.acquire(False):
            tries += 1
            if not blocking or (timeout >= 0 and tries > 100):
                return False
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _allocate()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if self._owner == _ident():
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner, self._count = _ident(), 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            super().release()

    def _at_fork_reinit(self):
        super()._at_fork_reinit()
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        n, self._count, self._owner = self._count, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Sched:
    """runs functions in threads under a schedule

    schedule: dict(rng=Random, mean=[lo, hi]) for seeded segments, or dict(segments=[[thread, points], ...])
    """

    def __init__(self, bodies, rng=None, longest=100, segments=None, opcodes=False):
        self.bodies = bodies
        self.rng, self.longest = rng, longest
        self.script = [list(x) for x in segments] if segments is not None else None
        self.opcodes = opcodes
        self.gates = [_allocate() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.done_gate = _allocate()
        self.done_gate.acquire()
        self.alive = list(range(len(bodies)))
        self.cur = None
        self.left = 0
        self.idents = {}
        self.segments = []  # taken: [thread, points]
        self.switches = 0
        self.points = 0
        self.spins = 0
        self.stuck = False
        self.results = [None] * len(bodies)
        self.where = []  # (file:line) of preemptions

    def mine(self):
        return _ident() in self.idents

    # -- decisions
    def pick(self, i, must):
        """next thread and number of points; must: i cannot go on"""
        if self.script is not None:
            while self.script:
                t, n = self.script.pop(0)
                if t in self.alive and not (must and t == i):
                    return t, n
            others = [t for t in self.alive if t != i] if must else self.alive
            if not must and i in self.alive:
                return i, 1 << 60
            return others[0], 1 << 60
        others = [t for t in self.alive if t != i]
        t = self.rng.choice(others) if others else i
        n = max(1, int(self.longest ** self.rng.random()))
        return t, n

    def hand(self, i, must=False):
        t, n = self.pick(i, must)
        self.left = n
        if t != i:
            self.switches += 1
            self.cur = t
            self.segments.append([t, 0])
            self.gates[t].release()
            return True
        return False

    # -- points, called by the thread holding the baton
    def point(self, frame=None):
        self.points += 1
        self.segments[-1][1] += 1
        self.spins = 0
        self.left -= 1
        if self.left > 0 or len(self.alive) < 2:
            return
        i = self.idents[_ident()]
        if self.hand(i):
            if frame is not None:
                self.where.append(f"{frame.f_code.co_filename[len(PKG):]}:{frame.f_lineno}")
            self.gates[i].acquire()
            if self.stuck:
                raise Deadlock()

    def blocked(self):
        i = self.idents[_ident()]
        self.spins += 1
        if len(self.alive) < 2 or self.spins > 50 * len(self.alive):
            self.stuck = True
            raise Deadlock()
        self.segments[-1][1] += 1
        if self.hand(i, must=True):
            self.gates[i].acquire()
            if self.stuck:
                raise Deadlock()

    # -- tracing
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._local

    def _main(self, i):
        self.idents[_ident()] = i
        self.gates[i].acquire()
        sys.settrace(self._global)
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:
            self.results[i] = dict(error=f"{type(e).__name__}: {e}"[:300])
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if not self.alive:
                self.done_gate.release()
            elif self.stuck:
                t = self.alive[0]
                self.cur = t
                self.gates[t].release()
            else:
                self.hand(i, must=True)

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            for i in range(len(self.bodies)):
                _thread.start_new_thread(self._main, (i,))
            while len(self.idents) < len(self.bodies):
                import time

                time.sleep(0)
            t, n = self.pick(None, False) if self.script is None or self.script else (0, 1 << 60)
            self.cur, self.left = t, n
            self.segments.append([t, 0])
            self.gates[t].release()
            self.done_gate.acquire()
        finally:
            CURRENT = None
        return self.results
