"""Shared runner of all checks.

A check module (nmv/checks/cNN.py) defines

    PID, TITLE, RULE
    TASKS(tier, seed) -> list of (task_id, picklable payload)
    RUN(ctx, payload)     executes the real code, feeds the monitors
    MIN = {event: count}  events that must have been observed (else inconclusive)

Verdicts are three-valued: held (exit 0), violated (exit 1 + VIOLATION line),
inconclusive (exit 2: a monitor was not reached, or the harness itself failed).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import env

VERIF = env.VERIF
EVIDENCE_DIR = os.environ.get("NMV_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAY_DIR = os.environ.get("NMV_REPLAY", os.path.join(VERIF, "replay"))


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx:
    """Collects what the monitors of one task observed."""

    def __init__(self, pid, tier, seed, task_id):
        self.pid, self.tier, self.seed, self.task_id = pid, tier, seed, task_id
        h = hashlib.sha256(f"{pid}:{seed}:{task_id}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.events = {}
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.data = {}

    # -- observations -----------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def case(self, sig=None, nontrivial=True, sample=None, n=1):
        self.evals += n
        if sig is not None and nontrivial:
            self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 2:
            self.samples.append(str(sample)[:600])

    # -- verdicts ---------------------------------------------------------
    def violate(self, key, detail):
        """key names the mechanism (stable), detail shows the failing input."""
        if len(self.violations) < 40:
            self.violations.append({"key": key, "detail": str(detail)[:3000], "task": self.task_id})

    def check(self, cond, key, detail):
        if not cond:
            self.violate(key, detail() if callable(detail) else detail)
        return bool(cond)

    def guarded(self, key, detail=None, cpu=None):
        return _Guard(self, key, detail, cpu)


class _Guard:
    """Runs code under test: an exception it lets escape is a violation (the
    property promises a result), as is exhausting a CPU budget that is more than
    an order of magnitude above what the unchanged code needs."""

    def __init__(self, ctx, key, detail, cpu):
        self.ctx, self.key, self.detail, self.cpu = ctx, key, detail, cpu
        self.ok = True

    def __enter__(self):
        if self.cpu:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, self.cpu)
        return self

    def __exit__(self, et, ev, tb):
        if self.cpu:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if et is None:
            return False
        if et in (KeyboardInterrupt, SystemExit, GeneratorExit):
            return False
        self.ok = False
        where = self.detail() if callable(self.detail) else self.detail
        if et is CaseTimeout:
            self.ctx.violate(self.key + ":no-result", f"{where}: no result within {self.cpu} s of CPU time")
            return True
        frames = traceback.extract_tb(tb)
        last = [f for f in frames if f.filename.startswith(env.REPO)]
        loc = f"{os.path.relpath(last[-1].filename, env.REPO)}:{last[-1].lineno}" if last else f"{frames[-1].filename}:{frames[-1].lineno}"
        self.ctx.violate(f"{self.key}:raised:{et.__name__}", f"{where}: {et.__name__}: {ev} at {loc}")
        return True


_MOD = None


def _work(arg):
    pid, tier, seed, task_id, payload = arg
    ctx = Ctx(pid, tier, seed, task_id)
    t = time.time()
    try:
        _MOD.RUN(ctx, payload)
    except BaseException as e:  # harness failure (or an unguarded call)
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, CaseTimeout):
            ctx.violate("task:no-result", task_id)
        elif frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(env.REPO) + os.sep):
            ctx.violate(f"unexpected:raised:{type(e).__name__}", traceback.format_exc()[-2500:])
        elif any(os.path.realpath(f.filename).startswith(os.path.realpath(env.REPO) + os.sep) for f in frames):
            # raised below the code under test (sympy, networkx, ...)
            ctx.violate(f"unexpected:raised-below:{type(e).__name__}", traceback.format_exc()[-2500:])
        else:
            ctx.errors.append(traceback.format_exc()[-3000:])
    signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(task=task_id, events=ctx.events, evals=ctx.evals, sigs=ctx.sigs, samples=ctx.samples,
                violations=ctx.violations, errors=ctx.errors, data=ctx.data, wall=time.time() - t)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))["findings"]
    except FileNotFoundError:
        return []


def run(pid, tier=None, seed=None, only=None, jobs=None, verbose=False):
    global _MOD
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"nmv.checks.{pid.lower()}")
    _MOD = mod
    out_fd = sys.stdout
    try:
        env.setup()
        if hasattr(mod, "SETUP"):
            mod.SETUP(tier, seed)
    except Exception:
        # the package itself no longer imports / a public entry point is gone
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        print(f"INCONCLUSIVE property={pid} cannot import the code under test or the harness", file=out_fd)
        return 2
    tasks = mod.TASKS(tier, seed)
    if only:
        tasks = [t for t in tasks if t[0] == only]
    args = [(pid, tier, seed, tid, pl) for tid, pl in tasks]
    jobs = jobs or int(os.environ.get("NMV_JOBS", "8"))
    results = []
    sys.stdout.flush()
    if jobs == 1 or len(args) == 1:
        results = [_work(a) for a in args]
    else:
        ctxm = mp.get_context("fork")
        with ctxm.Pool(min(jobs, len(args)), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None)) as pool:
            budget = float(os.environ.get("NMV_WALL", "840" if tier == "quick" else "20000"))
            it = pool.imap_unordered(_work, args, chunksize=1)
            try:
                for _ in range(len(args)):
                    results.append(it.next(timeout=max(1.0, budget - (time.time() - t0))))
            except mp.TimeoutError:
                pool.terminate()
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print(f"  slow task {r['task']}: {r['wall']:.1f}s", file=sys.stderr)
    events, sigs, samples, viol, errors, data = {}, set(), [], [], [], {}
    evals = 0
    for r in sorted(results, key=lambda r: str(r["task"])):
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        sigs |= r["sigs"]
        evals += r["evals"]
        samples += [{"task": r["task"], "case": s} for s in r["samples"]]
        viol += r["violations"]
        errors += r["errors"]
        for k, v in r["data"].items():
            data.setdefault(k, []).append((r["task"], v))
    if not only and len(results) == len(args) and hasattr(mod, "FINISH"):
        ctx = Ctx(pid, tier, seed, "finish")
        try:
            mod.FINISH(ctx, data)
        except Exception:
            errors.append(traceback.format_exc())
        for k, v in ctx.events.items():
            events[k] = events.get(k, 0) + v
        sigs |= ctx.sigs
        evals += ctx.evals
        viol += ctx.violations
        samples += [{"task": "finish", "case": s} for s in ctx.samples]

    known = [k for k in load_known() if k.get("property") == pid and k.get("status") != "fixed"]
    unlisted, seen_known = [], {}
    for v in viol:
        for k in known:
            if v["key"] == k["key"] and k.get("match", "") in v["detail"]:
                seen_known.setdefault(k["key"] + "|" + k.get("match", ""), (k, v))
                break
        else:
            unlisted.append(v)
    for k, v in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}", file=out_fd)

    incomplete = []
    if not only:
        if len(results) < len(args):
            incomplete.append(f"only {len(results)} of {len(args)} tasks finished")
        for k, n in getattr(mod, "MIN", {}).items():
            if events.get(k, 0) < n:
                incomplete.append(f"monitor '{k}' observed {events.get(k, 0)} < {n} events")
        if evals == 0:
            incomplete.append("nothing was evaluated")
    wall = time.time() - t0
    rng = random.Random(seed)
    rng.shuffle(samples)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:6],
            "events_observed": dict(sorted(events.items())),
            "tasks": len(results),
            "inconclusive": incomplete + errors[:3],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(unlisted),
    }
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    with open(os.path.join(EVIDENCE_DIR, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")

    if verbose or errors:
        for e in errors[:5]:
            print(e, file=sys.stderr)
    if unlisted:
        os.makedirs(REPLAY_DIR, exist_ok=True)
        path = os.path.join(REPLAY_DIR, f"{pid}_{tier}_{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed,
                       "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} /opt/venv/bin/python {VERIF}/run.py {pid} --task '{unlisted[0]['task']}'",
                       "violations": unlisted}, f, indent=1, ensure_ascii=False)
        keys = {}
        for v in unlisted:
            keys.setdefault(v["key"], []).append(v)
        for k, vs in list(keys.items())[:12]:
            print(f"  [{k}] x{len(vs)} task={vs[0]['task']}: {vs[0]['detail'][:700]}", file=out_fd)
        print(f"VIOLATION property={pid} replay={path}", file=out_fd)
        return 1
    if errors or incomplete:
        print(f"INCONCLUSIVE property={pid} " + "; ".join(incomplete + [e.strip().splitlines()[-1] for e in errors[:3]]), file=out_fd)
        return 2
    print(f"HELD property={pid} evaluations={evals} distinct={len(sigs)} events={json.dumps(events, sort_keys=True)} wall={wall:.1f}s", file=out_fd)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--task")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    rc = run(a.pid, a.tier, a.seed, a.task, a.jobs, a.v)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
