"""C17: the shipped number tables, the model table and the script that writes them."""
import hashlib
import math
import os
import pickle
import random
import re
import runpy
import signal
import sys
import tempfile
from collections import Counter
from fractions import Fraction

from nmv import reps
from nmv.checks import c16

PID = "C17"
RULE = ("a case is one entry of the shipped exotic/term tables, or one model of a table built from exported completions or random models; non-trivial for models with at least two exotics and entries that are not self-conjugate; "
        "distinct by entry or by the set of exotics")
MIN = {"shipped_exotics": 300, "shipped_terms": 7000, "related": 400, "related_found": 60, "tables": 8, "subtables": 20, "completions": 60}
ASSUMPTIONS = ["the script that writes the tables is run with the numerical solution of the scale equation replaced by bisection (the real one is C19's subject and takes minutes); a run that does not end in time is not judged",
               "no model lists a field together with its conjugate"]


def TASKS(tier, seed):
    n = 7 if tier == "quick" else 24
    return [("shipped", ("shipped", None)), ("pickler", ("pickler", ("1", "2", "3b", "4a", "8"))), ("real", ("real", ("1", "2", "3a", "3b", "4b", "D3")))] + [(f"rand{i}", ("rand", 6 if tier == "quick" else 25)) for i in range(n)]


def fieldnumbers(x):
    from neutrinomass.tensormethod import L, Q, H, ub, db, eb
    S = {f.label: f for f in (L, Q, H, ub, db, eb)}
    b, c = x.split(".conj")[0], x.endswith(".conj")
    if b in S:
        f = S[b]
        p, q, i = (int(k) for k in f.dynkin[2:])
        y, bb, fm = Fraction(str(f.charges["y"])), int(f.charges["3b"]), str(f.comm) in ("1", "fermi")
        return ((q, p) if c else (p, q)), i, (-y if c else y), (-bb if c else bb), fm
    l, col, i, y, bb = x.split(",")
    return (int(col[0]), int(col[1])), int(i), Fraction(y), int(bb), l == "F"


def shipped(ctx):
    from neutrinomass.database import database as m
    from neutrinomass.utils.functions import conjugate_field, conjugate_term
    from sympy import isprime
    for key, tab, conj, own in (("exotics", m.EXOTICS, conjugate_field, c16.cj), ("terms", m.TERMS, conjugate_term, lambda t: tuple(sorted(map(c16.cj, t))))):
        by = {}
        for k, p in tab.items():
            ctx.event(f"shipped_{key}")
            ctx.case(sig=k, nontrivial=own(k) != k, sample=lambda: f"{key} {k} {p}")
            ctx.check(conj(k) == own(k) and conj(conj(k)) == k, f"{key}:conjugate", lambda: f"{k}: {conj(k)}")
            ctx.check(isprime(int(p)), f"{key}:not-prime", lambda: f"{k}: {p}")
            ctx.check(tab.get(own(k)) == p, f"{key}:conjugate-number", lambda: f"{k}: {p}, conjugate {tab.get(own(k))}")
            cls = min(k, own(k))
            ctx.check(by.setdefault(int(p), cls) == cls, f"{key}:shared-number", lambda: f"{k}: {p} also {by[int(p)]}")
        inv = {"exotics": m.MVDF.int2exotic, "terms": m.MVDF.int2term}[key]
        ctx.check(set(inv) == set(tab.values()) and all(tab[v] == k for k, v in inv.items()), f"{key}:inverse", lambda: f"{len(inv)} entries for {len(by)} numbers")
        both = {"exotics": m.MVDF.exotics, "terms": m.MVDF.terms}[key]
        ctx.check(all(both.get(k) == p for k, p in tab.items()) and all(both.get(k) == v for k, v in inv.items()), f"{key}:lookup", key)
    names = {f for t in m.TERMS for f in t if "," in f}
    ctx.check(names == set(m.EXOTICS), "exotics:terms", lambda: f"{sorted(names ^ set(m.EXOTICS))[:6]}")
    cache, none = {}, []
    for t in m.TERMS:
        fs = [fieldnumbers(x) for x in t]
        nf = sum(f[4] for f in fs)
        ctx.check(list(t) == sorted(t), "terms:order", lambda: f"{t}")
        ctx.check(sum(f[2] for f in fs) == 0 and sum(f[3] for f in fs) == 0, "terms:charge", lambda: f"{t}")
        ctx.check(nf in (0, 2) and 3 <= len(fs) + nf // 2 <= 4, "terms:dimension", lambda: f"{t}")
        ctx.check(any("," in x for x in t), "terms:no-exotic", lambda: f"{t}")
        k = tuple(sorted((f[0], f[1]) for f in fs))
        if k not in cache:
            cache[k] = reps.multiplicity(reps.product([f"00{p}{q}{i}" for (p, q), i in k]))
        if not cache[k]:
            none.append(t)
    if none:
        # reported as one finding, identified by the exact set of entries
        dig = hashlib.sha256(repr(sorted(none)).encode()).hexdigest()[:16]
        ctx.violate("terms:not-invariant", f"{len(none)} entries without a gauge singlet, sha256 {dig}, e.g. {min(none)}")


def own_content(m):
    return frozenset(c16.fclass(f) for f in m.head["quantum_numbers"])


def table(ctx, rng, lines, name, real):
    from neutrinomass.database.database import ModelDatabase, ModelDataFrame
    data = {}
    from neutrinomass.database.database import LazyCompletion
    for op, l in lines:
        data.setdefault(op, []).append(eval(l))
    db = ModelDatabase(None, data=data)
    rows = [(k, m) for k, v in db.data.items() for m in v]
    if rng.random() < 0.7:
        rng.shuffle(rows)
    d = {"democratic_num": [db.democratic_model_number(m) for _, m in rows], "stringent_num": [db.stringent_model_number(m) for _, m in rows], "op": [k for k, _ in rows],
         "completion": [m.tail for _, m in rows]}
    g = ctx.guarded("table:raises", lambda: name, cpu=300)
    with g:
        df = ModelDataFrame.new(data=d, exotics=db.exotic_prime_dict, terms=db.term_prime_dict)
    if not g.ok:
        return
    ctx.event("tables")
    ctx.check(len(df) == len(rows) and df.exotic2int == db.exotic_prime_dict and df.term2int == db.term_prime_dict, "table:data", name)
    ctx.check(all(db.exotic_prime_dict[v] == k for k, v in df.int2exotic.items()) and all(db.term_prime_dict[v] == k for k, v in df.int2term.items()), "table:inverse", name)
    con = [own_content(m) for _, m in rows]
    views = [(df, "whole")]
    ops = sorted({k for k, _ in rows})
    op = rng.choice(ops)
    views.append((df[df["op"] == op], f"op={op}"))
    keep = sorted(rng.sample(range(len(rows)), max(2, len(rows) // 2)))
    views.append((df.loc[keep], "half"))
    for v, vn in views:
        ctx.event("subtables")
        if not ctx.check(isinstance(v, ModelDataFrame) and getattr(v, "exotic2int", None) == df.exotic2int and getattr(v, "terms", None) == df.terms, "table:subtable", lambda: f"{name} {vn}: {type(v)}"):
            continue
        idx = list(v.index)
        for i in rng.sample(idx, min(len(idx), 12)):
            txt = lambda: f"{name} {vn} index {i} {sorted(con[i])}"
            g = ctx.guarded("related:raises", txt, cpu=120)
            with g:
                rel = v.related_models(i)
            if not g.ok:
                continue
            got = list(rel.index)
            want = [j for j in idx if j != i and con[j] <= con[i] and len(con[j]) > 1]
            ctx.event("related")
            ctx.event("related_found", len(want))
            ctx.case(sig=(con[i], len(want)), nontrivial=len(con[i]) > 1, sample=lambda: f"{txt()} related {len(want)}")
            ctx.check(set(got) <= set(want), "related:wrong", lambda: f"{txt()}: {[(j, sorted(con[j])) for j in got if j not in want][:2]}")
            ctx.check(set(got) >= set(want), "related:missing", lambda: f"{txt()}: {[(j, sorted(con[j])) for j in want if j not in got][:2]}")
            ctx.check(len(got) == len(set(got)), "related:repeated", lambda: f"{txt()}: {got}")
            ctx.check(i not in got, "related:itself", txt)
            ctx.check(all(df["op"][j] == rel["op"][j] for j in got) and isinstance(rel, ModelDataFrame), "related:rows", txt)
            g = ctx.guarded("completion:raises", txt, cpu=120)
            with g:
                c = v.completion(i)
            if g.ok:
                ctx.event("completions")
                if real:
                    ctx.check(c.operator.name == df["op"][i] and {c16.fclass(q) for q in numbers(c)} == set(con[i]), "completion:wrong", lambda: f"{txt()}: {c.operator.name} {numbers(c)}")
                else:
                    ctx.check(str(c) == rows[i][1].tail, "completion:wrong", lambda: f"{txt()}: {c}")


def numbers(c):
    out = []
    for f in c.exotics:
        fm = str(f.comm) in ("1", "fermi")
        d = f.dynkin
        y, b = Fraction(str(f.charges["y"])), int(f.charges["3b"])
        out.append(",".join(["F" if fm else "S", d[2:4], d[4], str(y), str(b)]))
    return out


# -- the script ---------------------------------------------------------------
def fast_scale(expr):
    """Λ in TeV solving m(Λ) = mv, by bisection (monotonic in Λ)"""
    v, loop = 174.0, 1 / (16 * math.pi ** 2)
    val = {"v": v, "loop": loop, "g2": 0.6295 ** 2, "yu": 172.76 / v, "yd": 4.18 / v, "ye": 1.78 / v}
    pw = {str(k): int(e) for k, e in expr.as_powers_dict().items()}
    pw = {k: e for k, e in pw.items() if k in val or k in ("loopv2", "Λ")}

    def m(lam):
        x = 1.0
        for k, e in pw.items():
            x *= (loop + v * v / lam ** 2 if k == "loopv2" else lam if k == "Λ" else val[k]) ** e
        return x
    lo, hi = 1e-6, 1e30
    for _ in range(400):
        mid = math.sqrt(lo * hi)
        lo, hi = (mid, hi) if m(mid) > 5e-11 else (lo, mid)
    return lo * 1e-3


class Slow(BaseException):
    pass


def run_pickler(ctx, names):
    import neutrinomass.database as ndb
    import neutrinomass.database.closures as cl
    from neutrinomass.database.export import export_completion
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.database.heavyloops import generate_models
    OPS = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}
    path = os.path.join(os.path.dirname(ndb.__file__), "pickler")
    lines = [(nm, export_completion(c, lazy=True)) for nm in names for c in c16.real(nm)[1]]
    memo = {}

    def stand_in(expr):
        if expr not in memo:
            memo[expr] = fast_scale(expr)
        return memo[expr]

    saved = ndb.numerical_np_scale_estimate, cl.numerical_np_scale_estimate, sys.argv

    def alarm(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(240)
    try:
        with tempfile.TemporaryDirectory(prefix="nmv17") as d:
            c16.write(ctx.rng, lines, d)
            ndb.numerical_np_scale_estimate = cl.numerical_np_scale_estimate = stand_in
            sys.argv = [path, "--path", d, "--output", d]
            so, sys.stdout = sys.stdout, open(os.devnull, "w")
            try:
                runpy.run_path(path, run_name="__main__")
            finally:
                sys.stdout = so
                ndb.numerical_np_scale_estimate, cl.numerical_np_scale_estimate, sys.argv = saved
            un, ex, te, de = (pickle.load(open(os.path.join(d, f + ".p"), "rb")) for f in ("unfiltered", "exotics", "terms", "democratic"))
    except Slow:
        ctx.event("script_not_judged")
        return
    except SystemExit as e:
        ctx.violate("script:raises", f"exit {e}")
        return
    except Exception as e:
        ctx.violate("script:raises", f"{type(e).__name__}: {e}")
        return
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.event("script")
    from neutrinomass.database.database import LazyCompletion
    models = [(op, eval(l)) for op, l in lines]
    scale = {op: max(stand_in(e) for e in ndb.neutrino_mass_estimate(OPS[op])) for op in names}

    def num(qs):
        p = 1
        for q in qs:
            p *= ex[q]
        return p
    for nm, tab in (("unfiltered", un), ("democratic", de)):
        ln = {k: len(v) for k, v in tab.items()}
        if not ctx.check(len(set(ln.values())) == 1, "script:columns", lambda: f"{nm}: {ln}"):
            return
        tails = {}
        for op, m in models:
            tails.setdefault(m.tail, (op, m))
        for i in range(len(tab["op"])):
            op, m = tails.get(tab["completion"][i], (None, None))
            if not ctx.check(op == tab["op"][i], "script:row", lambda: f"{nm} {i}: {tab['op'][i]}, completion of {op}"):
                continue
            qs = set(m.head["quantum_numbers"])
            txt = lambda: f"{nm} {i} {op} {sorted(qs)}"
            ctx.check(tab["democratic_num"][i] == num(qs), "script:number", txt)
            ctx.check(abs(float(tab["scale"][i]) / scale[op] - 1) < 1e-9, "script:scale", lambda: f"{txt()}: {tab['scale'][i]}, {scale[op]}")
            ctx.check(tab["dim"][i] == OPS[op].mass_dimension and tab["topology"][i] == m.head["topology"], "script:labels", txt)
            ns, nf = sum(q[0] == "S" for q in qs), sum(q[0] == "F" for q in qs)
            ctx.check((tab["n_scalars"][i], tab["n_fermions"][i], tab["n_fields"][i]) == (ns, nf, ns + nf), "script:counts", txt)
            pw = {str(k): int(e) for k, e in tab["symbolic_scale"][i].as_powers_dict().items()}
            a, b = pw.get("loop", 0), pw.get("loopv2", 0)
            ctx.check((tab["min_loops"][i], tab["max_loops"][i]) == (a, a + b), "script:loops", lambda: f"{txt()}: {tab['symbolic_scale'][i]} {tab['min_loops'][i]} {tab['max_loops'][i]}")
            ctx.check(tab["n_derivs"][i] == sum(f.derivs for f in OPS[op].fields), "script:derivs", txt)
    ctx.check(len(un["op"]) == len(lines), "script:unfiltered", lambda: f"{len(un['op'])} of {len(lines)}")
    # leading models only, without those that give the Weinberg operator at one loop
    strip = {}
    for q in ex:
        strip.setdefault(q.rsplit(",", 1)[0], []).append(q)
    loops = [frozenset(c16.fclass(strip[f][0]) for f in m) for m in generate_models() if all(f in strip for f in m)]
    cut = 605520000000.0 / (16 * math.pi ** 2)
    cls = {(op, own_content(m)) for op, m in models}
    want = {(o, c) for o, c in cls if not any(scale[p] > scale[o] and s <= c for p, s in cls) and not (scale[o] < cut and any(l <= c for l in set(loops)))}
    got = Counter()
    tails = {(op, m.tail): own_content(m) for op, m in models}
    for o, t in zip(de["op"], de["completion"]):
        got[(o, tails[(o, t)])] += 1
    ctx.event("script_kept", len(want))
    ctx.check(set(got) == want, "script:filter", lambda: f"kept {len(set(got) - want)} too many and {len(want - set(got))} too few of {len(want)}, e.g. {[(o, sorted(c)) for o, c in set(got) ^ want][:2]}")
    ctx.check(all(v == 1 for v in got.values()), "script:repeated", lambda: f"{[(o, sorted(c)) for (o, c), v in got.items() if v > 1][:2]}")


def RUN(ctx, payload):
    kind, arg = payload
    rng = ctx.rng
    if kind == "shipped":
        shipped(ctx)
    elif kind == "pickler":
        run_pickler(ctx, arg)
    elif kind == "real":
        from neutrinomass.database.export import export_completion
        lines = [(nm, export_completion(c, lazy=True)) for nm in arg for c in c16.real(nm)[1]]
        table(ctx, rng, lines, "real", True)
    else:
        for i in range(arg):
            table(ctx, rng, c16.random_db(rng, rng.sample(c16.CHEAP, rng.randint(2, 5))), f"{ctx.task_id}.{i}", False)
