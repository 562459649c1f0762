"""interleaving of concurrent jobs at their filesystem calls"""

from . import fs
from .core import Stuck, Violation, put, rng_of, shrink_order


def gen_sched(rng):
    return dict(mode=rng.choices(["uniform", "burst", "prio", "explicit"], [3, 3, 4, 0])[0], seed=rng.randint(0, 1 << 30), burst=rng.choice([2, 5, 12]), changes=[rng.randint(0, 60) for _ in range(rng.randint(1, 4))])


class Scheduler:
    def __init__(self, spec, n):
        self.s, self.rng = spec, rng_of("sched", spec["seed"])
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        self.k, self.left, self.cur = 0, 0, None

    def pick(self, ready):
        self.k += 1
        m = self.s["mode"]
        if m == "explicit":
            order = self.s["order"]
            want = order[self.k - 1] if self.k <= len(order) else None
            return want if want in ready else ready[0]
        if m == "uniform":
            return self.rng.choice(ready)
        if m == "burst":
            if self.left <= 0 or self.cur not in ready:
                self.cur = self.rng.choice(ready)
                self.left = self.rng.randint(1, self.s["burst"])
            self.left -= 1
            return self.cur
        best = max(ready, key=lambda j: self.prio[j])
        if self.k in self.s["changes"]:
            self.prio[best] = min(self.prio) - 1
        return best


def interleave(jobs, pols, sch, ctx, after):
    """run jobs to their ends, one filesystem call at a time; after(recent calls) follows each"""
    ctx.schedule = schedule = []
    recent = []
    try:
        live = {}  # index -> pending op
        blocked = set()
        for i, j in enumerate(jobs):
            live[i] = j.next_op(30)
        live = {i: op for i, op in live.items() if op is not None}
        active = set()
        while live or blocked:
            for i in list(blocked):  # a process waiting for another one
                try:
                    op = jobs[i].next_op(0.0 if live else 20)
                except Stuck:
                    continue
                blocked.discard(i)
                if op is not None:
                    live[i] = op
            if not live:
                if blocked:
                    raise Violation("deadlock", f"runs {sorted(blocked)} wait for each other")
                break
            i = sch.pick(sorted(live))
            op = live.pop(i)
            schedule.append(i)
            recent.append((i, fs.scrub(op.show())))
            if op.op in fs.MUT | fs.READ:
                active.add(i)
                if len(active) > 1:
                    ctx.nontrivial = True
                if not ctx.trace or ctx.trace[-1] != (i, op.op):
                    ctx.trace.append((i, op.op))
            if op.op != "stat":
                ctx.event(i, fs.scrub(op.show().split("[")[0]))
            if len(schedule) > 1 and schedule[-2] != i:
                ctx.faults["switch to another process"] += 1
            jobs[i].answer(*pols[i](op))
            try:
                op = jobs[i].next_op(5)
            except Stuck:
                blocked.add(i)
                ctx.probe("process blocked")
                continue
            if op is not None:
                live[i] = op
            else:
                active.discard(i)
            after(recent)
    finally:
        for j in jobs:
            j.kill()
    return recent


def explicit(scn, schedule):
    return {**scn, "sched": dict(mode="explicit", order=schedule, seed=0)}


def shrink_sched(scn):
    s = scn["sched"]
    if s["mode"] == "explicit":
        yield from shrink_order(scn, "sched", "order")
    if s["mode"] == "prio":
        for i in range(len(s["changes"])):
            yield put(scn, ["sched", "changes"], s["changes"][:i] + s["changes"][i + 1 :])
    if s["mode"] == "burst" and s["burst"] < 40:
        yield put(scn, ["sched", "burst"], s["burst"] * 2)
