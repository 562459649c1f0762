"""seeded search over simulated runs of one property

  driver.py PROPERTY [--tier quick|thorough] [--runs N] [--replay FILE] [--determinism N]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check failed
"""

import argparse
import hashlib
import importlib
import itertools
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sim import native  # noqa: E402

PY = "/opt/venv/bin/python"
HASHSEEDS = ["0", "1", "4242", "77", "123456", "9", "31337", "2"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def ensure_build():
    with open(os.path.join(HERE, "shim.c"), "rb") as f, open(os.path.join(HERE, "fakegit.c"), "rb") as g:
        want = hashlib.sha256(f.read() + g.read()).hexdigest()
    try:
        with open(os.path.join(native.BUILD, "stamp")) as f:
            if f.read().strip() == want and os.path.exists(native.SHIM):
                return
    except OSError:
        pass
    subprocess.run(["bash", os.path.join(HERE, "build.sh")], check=True, stdout=subprocess.DEVNULL)


class Worker:
    def __init__(self, idx, scratch, prop, hashseed=None):
        self.idx = idx
        self.hashseed = hashseed or HASHSEEDS[idx % len(HASHSEEDS)]
        self.scratch = os.path.join(scratch, f"w{idx}")
        os.makedirs(self.scratch, exist_ok=True)
        env = dict(
            PATH=native.GITBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            HOME=self.scratch,
            LANG="C.UTF-8",
            LD_PRELOAD=native.SHIM,
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONHASHSEED=self.hashseed,
            PYTHONNOUSERSITE="1",
            MPLBACKEND="Agg",
            MPLCONFIGDIR="/opt/venv/mplconfig",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            SIM_BUILD=native.BUILD,
            TMPDIR=self.scratch,
        )
        if os.environ.get("SIM_DEBUG"):
            env["SIM_DEBUG"] = "1"
        mod = importlib.import_module("sim.props." + prop.lower())
        env.update(getattr(mod, "ENV", {}))
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), self.scratch],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env,
            cwd=self.scratch,
        )
        self.buf = b""
        self.busy = None
        self.ready = None

    def send(self, req):
        self.busy = req
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()

    def pump(self):
        """complete messages that can be read now"""
        chunk = os.read(self.p.stdout.fileno(), 1 << 16)
        if not chunk:
            raise RuntimeError(f"worker {self.idx} died")
        self.buf += chunk
        msgs = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            msgs.append(json.loads(line))
        return msgs

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, prop, n, scratch, hashseeds=None):
        self.prop = prop
        self.workers = [Worker(i, scratch, prop, hashseeds and hashseeds[i % len(hashseeds)]) for i in range(n)]
        self.sel = selectors.DefaultSelector()
        for w in self.workers:
            self.sel.register(w.p.stdout, selectors.EVENT_READ, w)
        self.import_error = None
        waiting = set(range(n))
        while waiting:
            for key, _ in self.sel.select(120) or self._die("workers did not start"):
                for m in key.data.pump():
                    if not m["ready"]:
                        self.import_error = m["error"]
                    waiting.discard(key.data.idx)

    def _die(self, why):
        raise RuntimeError(why)

    def map(self, reqs, on_result, stop=lambda: False, limit=None):
        """feed requests (iterator of dicts) to idle workers; on_result(req, res)"""
        reqs = iter(reqs)
        exhausted = False
        t0 = time.monotonic()
        while True:
            for w in self.workers:
                if w.busy is None and not exhausted:
                    if stop() or (limit and time.monotonic() - t0 > limit):
                        exhausted = True
                        break
                    try:
                        req = next(reqs)
                    except StopIteration:
                        exhausted = True
                        break
                    pin = req.get("worker")
                    if pin is not None:
                        w = self._wait_for(self.workers[pin], on_result)
                    w.send(req)
            busy = [w for w in self.workers if w.busy is not None]
            if not busy:
                if exhausted:
                    return
                continue
            for key, _ in self.sel.select(300) or self._die("workers stopped answering"):
                self._collect(key.data, on_result)

    def _collect(self, w, on_result):
        for m in w.pump():
            req, w.busy = w.busy, None
            m["worker"] = w.idx
            on_result(req, m)

    def _wait_for(self, w, on_result):
        while w.busy is not None:
            self._collect(w, on_result)
        return w

    def run_one(self, req):
        out = []
        w = next(w for w in self.workers if w.busy is None)
        w.send(req)
        while not out:
            self._collect(w, lambda q, r: out.append(r))
        return out[0]

    def close(self):
        for w in self.workers:
            w.close()
        self.sel.close()


def seed_of(prop, base, i):
    return int.from_bytes(hashlib.sha256(f"{prop}/{base}/{i}".encode()).digest()[:6], "big")


def same_failure(a, b):
    return a["status"] == b["status"] and a.get("kind") == b.get("kind")


def minimise(pool, mod, prop, scn, fail, timeout, budget):
    """greedy shrinking: keep any simpler scenario that fails the same way"""
    t0 = time.monotonic()
    tried, accepted = set(), 0
    if hasattr(mod, "explicit") and fail.get("schedule"):
        # the schedule the seed led to, written out, can be minimised itself
        c = mod.explicit(scn, fail["schedule"])
        r = pool.run_one(dict(prop=prop, scenario=c, timeout=timeout))
        if same_failure(r, fail):
            scn, fail = c, r
    while time.monotonic() - t0 < budget:
        cands = []
        for c in mod.shrinks(scn):
            key = json.dumps(c, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            cands.append(c)
        best = {}

        def on(req, res):
            if same_failure(res, fail):
                best.setdefault(req["id"], (req["scenario"], res))

        pool.map(
            (dict(prop=prop, scenario=c, id=i, timeout=timeout) for i, c in enumerate(cands)),
            on,
            stop=lambda: bool(best) or time.monotonic() - t0 > budget,
        )
        if not best:
            break
        scn, fail = best[min(best)]
        accepted += 1
    return scn, fail, len(tried), accepted


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=" + prop + " "):
                    sig = line.split("signature=", 1)[1].split(" ", 1)
                    out.append((sig[0], sig[1] if len(sig) > 1 else ""))
    except OSError:
        pass
    return out


def signature(mod, scn, res):
    f = getattr(mod, "signature", None)
    return f(scn, res) if f else f"{res.get('kind')}"


def write_replay(prop, scn, res, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, kind=res.get("kind", res["status"]), detail=res.get("detail"), scenario=scn, **extra)
    name = hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def make_scratch():
    for base in ("/dev/shm", "/tmp"):
        try:
            return tempfile.mkdtemp(prefix="fvsim-", dir=base)
        except OSError:
            continue
    raise RuntimeError("no scratch space")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--limit", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    scratch = make_scratch()
    pools = []
    try:
        ensure_build()
        if a.replay:
            return replay(a, scratch, pools)
        if a.determinism:
            return determinism(a, scratch, pools)
        return check(a, scratch, pools)
    except Exception:
        import traceback

        log(traceback.format_exc())
        return 2
    finally:
        for p in pools:
            p.close()
        shutil.rmtree(scratch, ignore_errors=True)


def new_pool(a, scratch, pools, n, hashseeds=None):
    sub = tempfile.mkdtemp(prefix="p", dir=scratch)
    pool = Pool(a.prop, n, sub, hashseeds)
    pools.append(pool)
    return pool


def replay(a, scratch, pools):
    with open(a.replay) as f:
        body = json.load(f)
    mod = importlib.import_module("sim.props." + a.prop.lower())
    pool = new_pool(a, scratch, pools, 1)
    if pool.import_error:
        log(pool.import_error)
        return 2
    fail = execute(a, mod, pool, scratch, pools, body["scenario"])
    print(json.dumps({k: fail.get(k) for k in ("status", "kind", "detail", "digest", "faults", "error")}, indent=1))
    if fail["status"] in ("violation", "hang"):
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    return 0


def execute(a, mod, pool, scratch, pools, scn):
    """one scenario, with the cross-process comparison if the property has one"""
    timeout = getattr(mod, "TIMEOUT", 60)
    r1 = pool.run_one(dict(prop=a.prop, scenario=scn, timeout=timeout, want=True))
    if r1["status"] == "ok" and getattr(mod, "CROSS", False):
        for hs in ["990", *HASHSEEDS[1:]]:
            other = new_pool(a, scratch, pools, 1, hashseeds=[hs])
            r2 = other.run_one(dict(prop=a.prop, scenario=scn, timeout=timeout, want=True))
            other.close()
            pools.remove(other)
            if r2["digest"] != r1["digest"]:
                return dict(r1, status="violation", kind="differs-between-processes", detail=f"event logs differ with PYTHONHASHSEED {pool.workers[0].hashseed} and {hs}")
    return r1


def determinism(a, scratch, pools):
    """every seed under two hash seeds, worker counts and orders: event logs must agree"""
    seeds = [seed_of(a.prop, a.seed, i) for i in range(a.determinism)]
    logs = []
    for n, hs in ((a.jobs, None), (3, ["555", "0", "99"])):
        pool = new_pool(a, scratch, pools, n, hs)
        got = {}
        order = seeds if not logs else list(reversed(seeds))
        pool.map(
            (dict(prop=a.prop, seed=s, id=s, timeout=120, want=True) for s in order),
            lambda q, r: got.__setitem__(q["seed"], (r["status"], r.get("digest"), r.get("events"), r.get("detail"))),
        )
        logs.append(got)
    bad = [s for s in seeds if logs[0][s][:2] != logs[1][s][:2]]
    for s in bad[:3]:
        x, y = logs[0][s], logs[1][s]
        print(s, x[0], y[0], x[3], y[3])
        for e, f in itertools.zip_longest(x[2] or [], y[2] or []):
            if e != f:
                print("   ", e, "<>", f)
                break
    print(f"{a.prop}: {len(seeds)} seeds twice, {len(bad)} differ {bad[:5]} statuses {dict(Counter(v[0] for v in logs[0].values()))}")
    return 1 if bad else 0


def check(a, scratch, pools):
    t0 = time.monotonic()
    mod = importlib.import_module("sim.props." + a.prop.lower())
    timeout = getattr(mod, "TIMEOUT", 60)
    plan = mod.QUICK if a.tier == "quick" else mod.THOROUGH
    runs = a.runs or plan["runs"]
    limit = a.limit or plan["limit"]
    pool = new_pool(a, scratch, pools, a.jobs)
    if pool.import_error:
        # the tree cannot even be imported: no run of any property can complete
        log(pool.import_error)
        return 2
    known = known_findings(a.prop)
    st = dict(status=Counter(), faults=Counter(), probes=Counter(), traces=set(), nontrivial=set(), samples=[], sim_time=0.0, sim_clock=0.0, steps=0, wall=0.0)
    digests, seeds_of, failures, errors, skips, reruns = {}, {}, [], [], Counter(), []
    seen_known = {}
    flaky = []

    n_rerun = max(4, min(runs // 10, plan.get("rerun", 40)))
    if getattr(mod, "CROSS", False):
        n_rerun = runs

    def requests():
        for i in range(runs):
            s = seed_of(a.prop, a.seed, i)
            yield dict(prop=a.prop, seed=s, id=i, timeout=timeout, tier=a.tier, want=i < 3)
            if i < n_rerun:
                reruns.append(i)
            # second execution in a process with another hash seed, later
            if len(reruns) > pool_size and reruns[0] in digests:
                j = reruns.pop(0)
                yield again(j)
        while reruns:
            j = reruns.pop(0)
            yield again(j)

    pool_size = len(pool.workers)

    def again(j):
        w = digests[j][1] if j in digests else 0
        return dict(prop=a.prop, seed=seed_of(a.prop, a.seed, j), id=j, timeout=timeout, tier=a.tier, again=True, want=True, worker=(w + 1) % pool_size if pool_size > 1 else None)

    mism = []
    n_again = [0]

    def on(req, res):
        i = req["id"]
        if req.get("again"):
            n_again[0] += 1
            if i in digests and res.get("digest") != digests[i][0] and res["status"] in ("ok", "skip", "violation"):
                mism.append((i, res))
            return
        st["status"][res["status"]] += 1
        st["wall"] += res["wall"]
        if res["status"] == "error":
            errors.append((i, res.get("error")))
            return
        if res["status"] == "hang":
            failures.append((i, res))
            return
        digests[i] = (res["digest"], res["worker"])
        st["faults"].update(res["faults"])
        st["probes"].update(res["probes"])
        st["traces"].add(res["trace"])
        if res["nontrivial"]:
            st["nontrivial"].add(res["trace"])
        st["sim_time"] += res["sim_time"]
        st["sim_clock"] += res["sim_clock"]
        st["steps"] += res["steps"]
        if res["status"] == "skip":
            skips[res["why"]] += 1
        if req.get("want") and len(st["samples"]) < 3 and "scenario" in res:
            st["samples"].append(dict(run=i, seed=req["seed"], scenario=res["scenario"], faults=res["faults"], event_log_tail=res["events"][-12:]))
        if res["status"] == "violation":
            sig = signature(mod, res["scenario"], res)
            for k, text in known:
                if k == sig:
                    seen_known[k] = text
                    return
            failures.append((i, res))

    pool.map(requests(), on, stop=lambda: bool(failures) or len(errors) > 20, limit=limit)
    if getattr(mod, "CROSS", False) and mism and not failures:
        for i, res in sorted(mism, key=lambda m: m[0])[:5]:
            failures.append((i, dict(res, status="violation", kind="differs-between-processes", detail="event logs differ under another PYTHONHASHSEED")))

    code, viol = 0, None
    for i, res in sorted(failures, key=lambda f: f[0])[:5]:
        viol = confirm(a, mod, pool, scratch, pools, i, res, timeout)
        if viol:
            code = 1
            break
        flaky.append(i)
    evidence(a, mod, st, skips, errors, mism, n_again[0], runs, viol, time.monotonic() - t0, flaky)
    for k, text in seen_known.items():
        print(f"KNOWN-FINDING: property={a.prop} {text}")
    if code:
        log(f"{a.prop}: {viol[1].get('kind', viol[1]['status'])}: {viol[1].get('detail')}")
        print(f"VIOLATION property={a.prop} replay={viol[0]}")
        return 1
    total = sum(st["status"].values())
    log(f"{a.prop}: {total} runs {dict(st['status'])} faults {dict(st['faults'])} probes {dict(st['probes'])} skips {dict(skips)} distinct {len(st['traces'])} rerun {n_again[0]} mismatch {len(mism)} {time.monotonic() - t0:.1f}s")
    if errors:
        log(errors[0][1])
    if mism:
        log("runs that did not repeat:", [m[0] for m in mism][:10])
    if total == 0 or len(errors) > max(2, total // 50):
        return 2
    if st["status"]["skip"] > 0.6 * total:
        log("too few runs were cases of the property")
        return 2
    return 0


def confirm(a, mod, pool, scratch, pools, i, res, timeout):
    """minimise a failure and make sure its replay fails in a fresh process"""
    if res["status"] == "hang":
        s = seed_of(a.prop, a.seed, i)
        scn = json.loads(json.dumps(mod.gen(__import__("sim.core", fromlist=["rng_of"]).rng_of(a.prop, s), a.tier)))
        again = pool.run_one(dict(prop=a.prop, scenario=scn, timeout=2 * timeout, want=True))
        if again["status"] not in ("hang", "violation"):
            return None
        res = dict(again, kind=again.get("kind", "does-not-terminate"), detail=again.get("detail", "the simulated run did not end"))
        fail, small = res, scn
        tried = accepted = 0
    else:
        scn = res["scenario"]
        small, fail, tried, accepted = scn, res, 0, 0
        if res["kind"] != "differs-between-processes":
            small, fail, tried, accepted = minimise(pool, mod, a.prop, scn, res, timeout, 60)
    for cand, f in ((small, fail), (scn, res)):
        fresh = new_pool(a, scratch, pools, 1, hashseeds=["0"])
        for _ in range(2):
            r = execute(a, mod, fresh, scratch, pools, cand)
            if r["status"] in ("violation", "hang"):
                path = write_replay(
                    a.prop, cand, dict(f, **{k: r[k] for k in ("kind", "detail") if k in r}),
                    dict(seed=seed_of(a.prop, a.seed, i), verif_seed=a.seed, run=i, shrink_candidates=tried, shrink_accepted=accepted, event_log_tail=r.get("events", [])[-60:], digest=r.get("digest")),
                )
                return path, dict(f, **{k: r[k] for k in ("kind", "detail") if k in r})
        if cand is scn:
            break
    log(f"{a.prop}: run {i} failed once ({res.get('kind')}: {res.get('detail')}) but did not fail again")
    return None


def evidence(a, mod, st, skips, errors, mism, n_again, runs, viol, wall, flaky):
    total = sum(st["status"].values())
    cov = dict(
        evaluations=total,
        distinct_nontrivial=len(st["nontrivial"]),
        rule=mod.RULE,
        samples=st["samples"],
        outcomes=dict(st["status"]),
        skipped_because=dict(skips),
        runs_per_hour=round(3600 * total / max(wall, 1e-9)),
        seeds_per_hour=round(3600 * total / max(wall, 1e-9)),
        faults_injected=dict(sorted(st["faults"].items())),
        rare_conditions_reached=dict(sorted(st["probes"].items())),
        distinct_traces=len(st["traces"]),
        distinct_traces_measure=mod.MEASURE,
        simulated_physical_time=round(st["sim_time"], 6),
        simulated_clock_seconds=round(st["sim_clock"], 6),
        solver_steps=st["steps"],
        determinism=dict(runs_repeated=n_again, in_other_process_and_hash_seed=True, event_logs_differing=len(mism)),
        real_components=mod.REAL,
        stubbed_components=mod.STUB,
        harness_errors=len(errors),
        unreproducible=len(flaky),
        planned_runs=runs,
    )
    if viol:
        cov["violation"] = dict(kind=viol[1].get("kind"), detail=viol[1].get("detail"), replay=viol[0])
    ev = dict(
        property=a.prop,
        tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=a.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=cov,
        assumptions=mod.ASSUME,
        wall_s=round(wall, 2),
        violations=1 if viol else 0,
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{a.prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{a.prop}.json"))


if __name__ == "__main__":
    sys.exit(main())
