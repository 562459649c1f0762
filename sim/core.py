"""what a property module sees: run context, verdicts, helpers"""

import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """the property does not hold in this run"""

    def __init__(self, kind: str, detail: str = ""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Skip(Exception):
    """the scenario turned out not to be a case of the property"""


class Stuck(Exception):
    """a simulated process stopped responding"""


class Ctx:
    """one simulated run"""

    def __init__(self, scratch: str):
        self.scratch = scratch  # directory of this run
        self.faults = Counter()  # fault kinds that actually fired
        self.probes = Counter()  # rare conditions that were reached
        self.events = []  # event log: must repeat exactly
        self.trace = []  # interleaving / fault trace: what makes runs distinct
        self.nontrivial = False
        self.sim_time = 0.0  # simulated physical time integrated
        self.sim_clock = 0.0  # simulated wall clock seconds
        self.steps = 0
        self.schedule = None  # explicit schedule taken, for minimisation

    def event(self, *xs):
        self.events.append(xs)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def outcome(self) -> dict:
        return dict(
            faults=dict(self.faults),
            probes=dict(self.probes),
            digest=digest(self.events),
            trace=digest(self.trace),
            nontrivial=self.nontrivial,
            sim_time=self.sim_time,
            sim_clock=self.sim_clock,
            steps=self.steps,
            schedule=self.schedule,
        )


def digest(x) -> str:
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:20]


def rng_of(*xs) -> random.Random:
    return random.Random("/".join(map(str, xs)))


def weighted(rng, pairs):
    return rng.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


# ------------------------------------------------------------------ shrinking
def drop_each(scn, *keys):
    """scenarios with one element of the list at keys removed (last ones first), or all"""
    lst = get(scn, keys)
    if len(lst) > 2:
        yield put(scn, keys, [])
        yield put(scn, keys, lst[: len(lst) // 2])
        yield put(scn, keys, lst[len(lst) // 2 :])
    for i in reversed(range(len(lst))):
        yield put(scn, keys, lst[:i] + lst[i + 1 :])


def get(d, keys):
    for k in keys:
        d = d[k]
    return d


def put(d, keys, value):
    d = json.loads(json.dumps(d))
    e = d
    for k in keys[:-1]:
        e = e[k]
    e[keys[-1]] = value
    return d


def smaller_ints(scn, *keys, lo=0):
    v = get(scn, keys)
    if not isinstance(v, int):
        return
    for w in (lo, lo + (v - lo) // 2, v - 1):
        if lo <= w < v:
            yield put(scn, keys, w)


def shrink_order(scn, *keys):
    """explicit schedules with fewer switches or fewer entries"""
    order = get(scn, keys)
    segs = []
    for x in order:
        if segs and segs[-1][0] == x:
            segs[-1][1] += 1
        else:
            segs.append([x, 1])
    flat = lambda ss: [x for x, n in ss for _ in range(n)]
    for cut in (len(segs) // 2, 3 * len(segs) // 4, len(segs) - 1):
        if 0 < cut < len(segs):
            yield put(scn, keys, flat(segs[:cut]))
    for i in range(len(segs) - 2):
        # let segment i continue first: merge i and i + 2
        if segs[i][0] == segs[i + 2][0]:
            yield put(scn, keys, flat(segs[:i] + [[segs[i][0], segs[i][1] + segs[i + 2][1]], segs[i + 1]] + segs[i + 3 :]))
    for i in range(1, len(segs)):
        if segs[i][1] > 1:
            yield put(scn, keys, flat(segs[:i] + [[segs[i][0], segs[i][1] // 2]] + segs[i + 1 :]))
