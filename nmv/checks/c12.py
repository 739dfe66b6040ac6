"""C12: derivatives are acted in all possible ways, and completions() dispatches."""
import itertools
from collections import Counter
from functools import reduce

from nmv import comp, tens, work

PID = "C12"
RULE = ("a case is one operator with one to three derivatives on distinct fields (catalogue or a random operator of 3-6 SM fields with derivatives put on random fields); non-trivial when at least two inequivalent "
        "placements exist; distinct by its tensors")
MIN = {"operators": 120, "placements": 350, "vanishing": 3, "dispatch": 6, "stripped": 120}
ASSUMPTIONS = ["operators with at most one derivative per field, as the function documents"]


def TASKS(tier, seed):
    out = [(f"cat{i}", ("cat", i)) for i in range(4)]
    out += [(f"rand{i}", ("rand", 16 if tier == "quick" else 80)) for i in range(6 if tier == "quick" else 32)]
    out += [(f"disp{i}", ("disp", i)) for i in range(4)]
    return out


def lor(f):
    """derivative irrep with which the derivative of an SM field is kept (spin 1/2 or 1)"""
    d = f.dynkin[:2]
    return {"00": "11", "10": "01", "01": "10"}[d]


def place(op, where):
    """op without derivatives -> op with one derivative on each of the given fields"""
    from neutrinomass.tensormethod.core import D, IndexedField
    out, n = [], 0
    for t in op.tensors:
        if not isinstance(t, IndexedField):
            out.append(t)
            continue
        f = t.field
        if n in where:
            f = D(f, lor(f))
        idx = t.indices_by_type
        gauge = [str(i) for k in ("Colour", "Isospin", "Generation") for i in idx[k]]
        lo = [str(i) for i in f.fresh_indices().indices if str(i.tensor_index_type) in ("Undotted", "Dotted")]
        out.append(f(" ".join(lo + gauge)))
        n += 1
    return reduce(lambda a, b: a * b, out)


def form(op):
    """gauge structure and the irreps of the fields; the Lorentz indices stay open"""
    return tens.canon(op, free_names=False)[0], tens.canon(op)[1]


def strip(op):
    """independent of the code under test: replace DX by X"""
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import IndexedField
    out = []
    for t in op.tensors:
        if not isinstance(t, IndexedField):
            out.append(t)
            continue
        f = getattr(sm, comp.base_label(t))
        f = f.conj if t.is_conj else f
        idx = t.indices_by_type
        gauge = [str(i) for k in ("Colour", "Isospin", "Generation") for i in idx[k]]
        lo = [str(i) for i in f.fresh_indices().indices if str(i.tensor_index_type) in ("Undotted", "Dotted")]
        out.append(f(" ".join(lo + gauge)))
    return reduce(lambda a, b: a * b, out)


def one(ctx, name, op, wrap):
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.completions.completions import derivative_combinations
    txt = lambda: f"{name}: {op}"
    nd = [int(f.derivs) for f in op.fields]
    n = sum(nd)
    with ctx.guarded("derivatives", txt) as g:
        got = derivative_combinations(EffectiveOperator("DX", op) if wrap else op)
        if wrap:
            ctx.check(all(isinstance(o, EffectiveOperator) and o.name == "DX" for o in got), "derivatives:wrapping", txt)
            got = [o.operator for o in got]
    if not g.ok:
        return None
    ctx.event("operators")
    base = strip(op)
    want, maybe = {}, {}
    for where in itertools.combinations(range(len(nd)), n):
        o = place(base, set(where))
        f, van = form(o)
        maybe[f] = o
        if not van:
            want[f] = o
        else:
            ctx.event("vanishing")
    have = Counter()
    rep = {}
    for o in got:
        f, van = form(o)
        have[f] += 1
        rep.setdefault(f, o)
        ctx.event("placements")
        ctx.check(not van, "derivatives:vanishing", lambda: f"{txt()}: {o}")
        fl = [x for x in o.fields]
        ctx.check(sorted((comp.base_label(x), x.is_conj) for x in fl) == sorted((comp.base_label(x), x.is_conj) for x in op.fields), "derivatives:fields", lambda: f"{txt()}: {o}")
        ctx.check(sum(x.derivs for x in fl) == n and max(x.derivs for x in fl) <= 1, "derivatives:number", lambda: f"{txt()}: {o}")
        for a in o.indexed_fields:
            b = comp.base_label(a)
            ng = sum(1 for i in a.indices if str(i.tensor_index_type) == "Generation")
            ctx.check(ng == (0 if b == "H" else 1), "derivatives:flavour-index", lambda: f"{txt()}: {o}")
            r = expected(a)
            ctx.check((r.dynkin, r.comm, r.charges, r.is_conj, r.nf) == (a.dynkin, a.comm, a.charges, a.is_conj, a.nf), "derivatives:field-data",
                      lambda: f"{txt()}: {a}: {(a.dynkin, a.comm, a.charges, a.nf)}, expected {(r.dynkin, r.comm, r.charges, r.nf)}")
    miss, extra = set(want) - set(have), set(have) - set(maybe)
    ctx.check(not miss, "derivatives:missing", lambda: f"{txt()}: {want[min(miss, key=repr)]} not among {got}")
    ctx.check(not extra, "derivatives:spurious", lambda: f"{txt()}: {rep[min(extra, key=repr)]}")
    ctx.case(sig=repr(op), nontrivial=len(want) > 1, sample=f"{txt()}: {len(got)} placements")
    return got


def expected(a):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D
    f = getattr(sm, comp.base_label(a))
    f = f.conj if a.is_conj else f
    return D(f, lor(f)) if a.derivs else f


def stripped(ctx, name, op):
    from neutrinomass.completions.completions import operator_strip_derivs, construct_operator
    txt = lambda: f"{name}: {op}"
    with ctx.guarded("strip", txt) as g:
        d = operator_strip_derivs(op)
        back = construct_operator(d["fields"], list(d["epsilons"]))
        n = d["n_derivs"]
    if not g.ok:
        return
    ctx.event("stripped")
    ctx.check(n == sum(f.derivs for f in op.fields), "strip:number", lambda: f"{txt()}: {n}")
    ctx.check(form(back)[0] == form(strip(op))[0], "strip:operator", lambda: f"{txt()}: {back}")


def RUN(ctx, payload):
    kind, x = payload
    rng = ctx.rng
    if kind == "disp":
        return dispatch(ctx, x)
    if kind == "cat":
        from neutrinomass.completions.operators import DERIV_EFF_OPERATORS as DE
        for k, (nm, e) in enumerate(sorted(DE.items())):
            if k % 4 == x:
                with ctx.guarded("catalogue", nm):
                    one(ctx, nm, e.operator, k % 3 == 0)
                    stripped(ctx, nm, e.operator)
        return
    for k in range(x):
        e = comp.random_operator(rng, rng.choice([3, 4, 4, 5]))
        if e is None:
            continue
        n = len(e.fields)
        where = set(rng.sample(range(n), rng.choice([1, 1, 2, 2, 3] if n > 3 else [1, 2])))
        if rng.random() < 0.1:
            where = set()
        op = place(e.operator, where)
        one(ctx, "random", op, rng.random() < 0.5)
        stripped(ctx, "random", op)


def dispatch(ctx, i):
    """completions() gives what the function for the kind of operator gives"""
    from neutrinomass.completions.completions import completions, operator_completions, deriv_operator_completions
    from neutrinomass.completions.core import EffectiveOperator
    names = [["1", "D2a"], ["8", "D2b"], ["4b", "D2c"], ["3b", "D3"]][i]
    for nm in names:
        e = work.catalogue(nm)
        b = comp.conserves_b(e)
        sig = lambda cs: Counter((comp.comp_sig(c, b), c.topology) for c in cs)
        with ctx.guarded("dispatch", nm) as g:
            a = sig(completions(e))
            r = sig(deriv_operator_completions(e) if nm[0] == "D" else operator_completions(e))
        if g.ok:
            ctx.event("dispatch")
            ctx.check(a == r, "dispatch:differs", lambda: f"{nm}: {sum(a.values())} completions, expected {sum(r.values())}")
            ctx.case(sig=("dispatch", nm), nontrivial=len(a) > 1, sample=f"completions({nm}): {sum(a.values())}")
        if nm[0] == "D":
            # the operator with its derivatives elsewhere has the same completions
            from neutrinomass.completions.completions import derivative_combinations
            with ctx.guarded("dispatch", nm) as g:
                combos = [o for o in derivative_combinations(e)]
                o2 = ctx.rng.choice(combos)
                s2 = set(sig(completions(EffectiveOperator(nm, o2.operator))))
            if g.ok:
                ctx.event("placement_independent")
                ctx.check(s2 == set(a), "derivatives:placement-dependent", lambda: f"{nm}: {o2.operator} has {len(s2)} inequivalent completions, {e.operator} has {len(a)}")
