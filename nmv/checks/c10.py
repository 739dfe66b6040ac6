"""C10: results do not depend on hash seed, call history, repetition or naming."""
import json
import os
import random
import subprocess
import sys
import tempfile
from collections import Counter
from functools import reduce

from nmv import comp, env, gen, tens, work

PID = "C10"
RULE = ("replicas: one workload of public calls executed in separate processes that differ in PYTHONHASHSEED, order of calls, preceding calls and repetition; a case is one call, non-trivial when its result is "
        "not empty; renaming: a case is one random operator re-indexed and re-ordered; distinct by call / operator")
MIN = {"replicas": 5, "compared_calls": 120, "repeated_calls": 18, "state_objects": 60, "reordered": 14}
ASSUMPTIONS = ["results are compared as sets/multisets of physical content; the letters chosen for exotics and the order of lists are not part of the property"]

OPS = ["1", "2", "3a", "3b", "4a", "4b", "8"]


def workload(seed, tier):
    rng = random.Random(f"c10:{seed}")
    nr = 3 if tier == "quick" else 24
    ops = OPS + [f"rand{i}" for i in range(nr)] + ["twin1", "twin2"]
    items = [f"completions:{o}" for o in ops]
    items += [f"clean:{o}" for o in rng.sample(ops, 2)] + [f"filter:{rng.choice(OPS[1:])}", f"export:{rng.choice(ops)}"]
    items += [f"partitions:{o}" for o in rng.sample(ops, 3)]
    items += [f"decompose:{i}" for i in range(nr)] + [f"invariants:{i}" for i in range(nr)]
    items += [f"estimate:{o}" for o in rng.sample(["1", "2", "3a", "3b", "4a", "5a", "8", "9", "11b", "12a", "D2a", "D3", "D4a", "21a", "61a"], 8)]
    items += [f"derivs:{o}" for o in ("D2a", "D2b", "D3")] + ["completions:D3"]
    items += ["topologies:2,2", "topologies:1,4"] + (["seesaw:10000"] if tier == "quick" else ["seesaw:10000", "seesaw:10002"])
    return ops, items


def TASKS(tier, seed):
    v = [("base", 0, [], "in-order", False), ("hash", 1, [], "in-order", False), ("reversed", 2, [], "reversed", False),
         ("history", 3, ["fieldstrings", "tensors", "lagrangian", "latex"], "shuffled", False), ("repeat", 4, ["fieldstrings"], "shuffled", True)]
    if tier == "thorough":
        v += [(f"hash{i}", 100 + i, ["latex", "lagrangian"][: i % 3], "shuffled", i % 2 == 0) for i in range(12)]
    out = [(f"replica-{x[0]}", ("replica", x)) for x in v]
    n = 3 if tier == "quick" else 24
    out += [(f"naming{i}", ("naming", 7 if tier == "quick" else 40)) for i in range(n)]
    return out


def RUN(ctx, payload):
    kind, x = payload
    if kind == "naming":
        return naming(ctx, x)
    name, hseed, prelude, order, repeat = x
    ops, items = workload(ctx.seed, ctx.tier)
    rng = random.Random(f"{ctx.seed}:{name}")
    mine = list(items)
    if order == "reversed":
        mine.reverse()
    elif order == "shuffled":
        rng.shuffle(mine)
    rep = [it for k, it in enumerate(items) if not it.startswith(("seesaw", "clean", "completions")) or k % 4 == 0] if repeat else []
    with tempfile.TemporaryDirectory() as d:
        cfg = {"seed": ctx.seed, "items": mine, "ops": ops, "prelude": prelude, "repeat": rep, "out": os.path.join(d, "out.json")}
        with open(os.path.join(d, "cfg.json"), "w") as f:
            json.dump(cfg, f)
        e = dict(os.environ, PYTHONHASHSEED=str(hseed + 10 * ctx.seed), PYTHONPATH=env.VERIF)
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "nmv.replica", os.path.join(d, "cfg.json")], env=e, cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800 if ctx.tier == "quick" else 7200)
        if p.returncode:
            raise RuntimeError(f"replica {name} failed: {p.stderr[-1500:]}")
        res = json.load(open(cfg["out"]))
    ctx.event("replicas")
    ctx.event("repeated_calls", len([r for r in rep if r in res["results"]]))
    ctx.event("state_objects", res["n_state"])
    for it, msg in res["errors"].items():
        if it.startswith("prelude"):
            ctx.violate("history:raised", f"replica {name}: {it}: {msg}")
    for it, a, b in res["repeat_mismatch"]:
        ctx.violate("repeat:differs", f"replica {name}: {it} returned {a}, then {b}")
    for k, a, b in res["mutated"]:
        ctx.violate("shared-state:mutated", f"replica {name}: {k} was {a}, became {b}")
    ctx.data["replica"] = {"name": name, "results": res["results"], "errors": res["errors"]}


def FINISH(ctx, data):
    reps = [v for _, v in data.get("replica", [])]
    base = next(r for r in reps if r["name"] == "base")
    for r in reps:
        for it, b in base["results"].items():
            ctx.event("compared_calls")
            ctx.case(sig=it, nontrivial=bool(b), sample=f"{it}: {str(b)[:200]} in all replicas")
            if it not in r["results"]:
                ctx.violate("replicas:raised", f"{it} raised only in replica {r['name']}: {r['errors'].get(it)}")
            elif r["results"][it] != b:
                ctx.violate("replicas:differ", f"{it}: base {str(b)[:600]}; replica {r['name']} {str(r['results'][it])[:600]}")
        for it, msg in r["errors"].items():
            if not it.startswith("prelude"):
                key = "replicas:raised" if it not in base["errors"] else "call:raised"
                ctx.violate(key, f"{it} raised in replica {r['name']}: {msg}")


def naming(ctx, n):
    """the same operator with its factors re-ordered and its dummy indices renamed"""
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.core import Operator, IndexedField
    for k in range(n):
        e = comp.random_operator(ctx.rng, 4 if k % 3 else 5)
        if e is None:
            continue
        b = comp.conserves_b(e)
        f2 = rebuilt(ctx.rng, e.operator)
        if tens.canon(e.operator, free_names=False)[0] != tens.canon(f2, free_names=False)[0]:
            raise RuntimeError("harness: renaming changed the operator")
        e2 = EffectiveOperator("Y", f2)
        txt = lambda: f"{e.operator} and the same operator written {f2}"
        with ctx.guarded("naming", txt) as g:
            a = {(comp.comp_sig(c, b), c.topology) for c in work.run(e, False)}
            bb = {(comp.comp_sig(c, b), c.topology) for c in work.run(e2, False)}
            m1, m2 = (e.mass_dimension, e.topology_type), (e2.mass_dimension, e2.topology_type)
        if not g.ok:
            continue
        ctx.event("reordered")
        ctx.event("reordered_completions", len(a))
        ctx.case(sig=repr(e.operator), nontrivial=len(a) > 1, sample=f"{txt()}: {len(a)} completions each")
        ctx.check(a == bb, "naming:completions-differ", lambda: f"{txt()}: only first {str(sorted(map(repr, a - bb))[:1])[:700]}, only second {str(sorted(map(repr, bb - a))[:1])[:700]}")
        ctx.check(m1 == m2, "naming:attributes-differ", lambda: f"{txt()}: {m1} {m2}")


def rebuilt(rng, op):
    """the operator with renamed indices, shuffled factors and flipped epsilon slots"""
    from neutrinomass.tensormethod.core import IndexedField, eps, delta
    fields = [t for t in op.tensors if isinstance(t, IndexedField)]
    inv = [t for t in op.tensors if not isinstance(t, IndexedField)]
    m = {}
    used = Counter()

    def rn(i):
        s = str(i)
        neg, s = s.startswith("-"), s.lstrip("-")
        if s not in m:
            used[s[0]] += 1
            # names of one to three digits, one often a prefix of another
            free = [k for k in [*range(1, 25), *range(100, 125)] if f"{s[0]}{k}" not in m.values()]
            m[s] = f"{s[0]}{rng.choice(free)}"
        return ("-" if neg else "") + m[s]
    rng.shuffle(fields)
    out = []
    for t in fields:
        by = t.indices_by_type
        idx = []
        for key in ("Undotted", "Dotted", "Colour", "Isospin", "Generation"):
            xs = [rn(i) for i in by.get(key, ())]
            idx += xs
        out.append(t.field(" ".join(x for x in idx)))
    es = []
    for t in inv:
        idx = [rn(i) for i in t.indices]
        if len(idx) == 2 and all(x.startswith("-") for x in idx):
            rng.shuffle(idx)
            es.append(eps(" ".join(idx)))
        elif len(idx) == 2:
            es.append(delta(" ".join(idx)))
        else:
            es.append(eps(" ".join(idx)))
    rng.shuffle(es)
    return reduce(lambda a, b: a * b, out + es)
