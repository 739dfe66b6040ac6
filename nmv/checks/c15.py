"""C15: exported completions come back unchanged (lazy text, full text, JSON)."""
import json
import os
import tempfile
from collections import Counter

from nmv import comp, tens, work

PID = "C15"
RULE = ("a case is one completion (of catalogue operators with and without derivatives, and random operators) exported as text (lazy and full) and JSON and read back; non-trivial when it has a fermionic or conjugated exotic; "
        "distinct by its couplings and diagram")
MIN = {"completions": 120, "forced": 120, "files": 4, "json": 120, "barred": 20, "derivative_completions": 5, "reexported": 120, "operators": 200, "operators_with_derivatives": 40}
ASSUMPTIONS = []


def TASKS(tier, seed):
    return [("ops", ("ops", 1 if tier == "quick" else 6))] + work.samples(tier, seed, 5, 12) + work.tasks(tier, seed, n_rand=10, per4=4, per5=1, medium=1)


def fdata(f):
    """everything observable about a field on indices"""
    kind = type(f).__name__
    lab = str(f.label)
    return (lab, kind, f.dynkin, tuple(sorted((k, comp.frac(v)) for k, v in f.charges.items())), bool(f.is_conj), str(f.comm) in ("1", "fermi"),
            tuple(sorted(str(i) for i in f.indices)), getattr(f, "is_unbarred", None), int(f.derivs or 0), int(f.nf))


def opdata(op):
    from neutrinomass.tensormethod.core import IndexedField
    out = []
    for t in op.tensors:
        if isinstance(t, IndexedField):
            out.append(("F",) + fdata(t))
        else:
            out.append(("I", tens.network(t)[1][0].kind, tuple(str(i) for i in t.indices)))
    return out


def partdata(p):
    if hasattr(p, "field") and hasattr(p, "node"):
        return (fdata(p.field), p.node)
    if isinstance(p, tuple):
        return tuple(partdata(x) for x in p)
    return repr(p)


def graphdata(g):
    return sorted((min(a, b), max(a, b), str(d.get("particle", ""))) for a, b, d in g.edges(data=True)), sorted(g.nodes)


def numbers(c):
    out = []
    for x in c.exotics:
        q = comp.qn(x)
        if q[4] < 0:
            q = comp.conj_qn(q)
        out.append(f"{q[0]},{q[1]}{q[2]},{q[3]},{q[4]},{q[5]}")
    return sorted(out)


def termstr(f):
    b = comp.base_label(f)
    if b:
        return b + (".conj" if f.is_conj else "")
    q = comp.qn(f)
    return f"{q[0]},{q[1]}{q[2]},{q[3]},{q[4]},{q[5]}"


def compare(ctx, key, a, b, txt):
    """a: original completion, b: what came back"""
    ctx.check(b.operator.name == a.operator.name, key + ":operator-name", lambda: f"{txt()}: {b.operator.name}")
    ctx.check(sorted(map(repr, opdata(a.operator.operator))) == sorted(map(repr, opdata(b.operator.operator))), key + ":operator", lambda: f"{txt()}: {b.operator.operator} for {a.operator.operator}")
    ta, tb = [sorted(map(repr, opdata(t))) for t in a.terms], [sorted(map(repr, opdata(t))) for t in b.terms]
    ctx.check(ta == tb, key + ":terms", lambda: f"{txt()}: {b.terms}; first difference {next(((x, y) for p, q in zip(ta, tb) for x, y in zip(p, q) if x != y), (len(ta), len(tb)))}")
    ctx.check(sorted(map(repr, map(fdata, a.exotics))) == sorted(map(repr, map(fdata, b.exotics))), key + ":exotics", lambda: f"{txt()}: {list(map(fdata, b.exotics))} for {list(map(fdata, a.exotics))}")
    ctx.check(graphdata(a.graph) == graphdata(b.graph), key + ":graph", lambda: f"{txt()}: {graphdata(b.graph)} for {graphdata(a.graph)}")
    ctx.check(partdata(a.partition) == partdata(b.partition), key + ":partition", lambda: f"{txt()}: {b.partition} for {a.partition}")
    ctx.check(a.topology == b.topology, key + ":topology", lambda: f"{txt()}: {b.topology} for {a.topology}")


def operators(ctx, rounds):
    """operators (of the catalogue, with derivatives anywhere) as text and back"""
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.database import database as db
    from neutrinomass.database.export import export_operator
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D
    ops = [(n, e.operator) for n, e in list(EFF_OPERATORS.items()) + list(DERIV_EFF_OPERATORS.items())]
    # products with first derivatives of (conjugated) fields
    fields = [sm.L, sm.Q, sm.ub, sm.db, sm.eb, sm.H]
    fields += [f.conj for f in fields]
    for k in range(60 * rounds):
        op, n = None, 0
        for f in [ctx.rng.choice(fields) for _ in range(ctx.rng.randint(2, 4))]:
            if ctx.rng.random() < 0.5:
                opts = ["11"] if f is sm.H or f.label == "H" else (["01", "21"] if f.dynkin[0] == "1" else ["10", "12"])
                f = D(f, ctx.rng.choice(opts))
            idx = []
            for d, kind in zip(f.dynkin, ["u", "d", "c", "-c", "i"]):
                for _ in range(int(d)):
                    idx.append(f"{kind}{n}")
                    n += 1
            if f.nf > 1:
                idx.append(f"g{n}")
                n += 1
            t = f(" ".join(idx))
            op = t if op is None else op * t
        ops.append((f"product{k}", op))
    for n, o in ops:
        if not hasattr(o, "tensors") or any(getattr(t, "derivs", 0) and t.derivs > 1 for t in o.tensors):
            continue
        txt = lambda: f"{n}: {o}"
        with ctx.guarded("export-operator", txt) as g:
            s = export_operator(o)
            back = eval(s, dict(vars(db)))
        if g.ok:
            ctx.event("operators")
            ctx.event("operators_with_derivatives", int(any(getattr(t, "derivs", 0) for t in o.tensors)))
            ctx.check(opdata(back) == opdata(o), "operator:changed", lambda: f"{txt()} became {back}")


def RUN(ctx, payload):
    if payload[0] == "ops":
        return operators(ctx, payload[1])
    from neutrinomass.database.export import export_completion
    from neutrinomass.database import json_serialiser
    from neutrinomass.database import database as db
    for name, e, deriv in work.operators(ctx, payload):
        with ctx.guarded("completions", name) as g:
            cs = work.run(e, deriv)
        if not g.ok or not cs:
            continue
        seen = {}
        for c in cs:
            seen.setdefault((comp.comp_sig(c), c.topology, tuple(sorted(getattr(x, "is_unbarred", True) for x in c.exotics))), c)
        cs = list(seen.values())
        ctx.rng.shuffle(cs)
        cs = cs[: 14 if ctx.tier == "quick" else 80]
        texts = []
        for c in cs:
            with ctx.guarded("export", lambda: f"{name}: {c.terms}") as g:
                t = export_completion(c)
                f = export_completion(c, lazy=False)
            texts.append((t, f) if g.ok else None)
            if g.ok:
                ctx.check("\n" not in t and "\n" not in f, "export:multi-line", lambda: f"{name}: {t[:300]}")
        good = [(c, t) for c, t in zip(cs, texts) if t]
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "x.dat")
            with open(fn, "w") as fh:
                for _, t in good:
                    fh.write(t[0] + "\n")
            with ctx.guarded("read", name) as g:
                back = db.read_completions(fn)
        if not g.ok:
            continue
        ctx.event("files")
        ctx.check(set(back) <= {e.name}, "read:names", lambda: f"{name}: {list(back)}")
        lst = back.get(e.name, [])
        if not ctx.check(len(lst) == len(good), "read:number", lambda: f"{name}: {len(lst)} of {len(good)}"):
            continue
        for (c, t), lazy in zip(good, lst):
            txt = lambda: f"{name}: {c.terms}"
            ctx.event("completions")
            ctx.event("derivative_completions", int(deriv))
            barred = any(not getattr(x, "is_unbarred", True) or "~" in str(f.label) for x in c.exotics for tm in c.terms for f in tm.fields)
            ctx.event("barred", int(barred))
            ctx.case(sig=(comp.comp_sig(c), c.topology), nontrivial=any(x.is_fermion for x in c.exotics) or any("†" in str(f.label) for tm in c.terms for f in tm.fields), sample=t[0][:300])
            ctx.check(sorted(lazy.head["quantum_numbers"]) == numbers(c) and lazy.quantum_numbers == set(numbers(c)), "head:quantum-numbers", lambda: f"{txt()}: {lazy.head['quantum_numbers']}, expected {numbers(c)}")
            want = sorted(sorted(map(termstr, tm.fields)) for tm in c.terms)
            ctx.check(sorted(map(sorted, lazy.head["terms"])) == want, "head:terms", lambda: f"{txt()}: {lazy.head['terms']}, expected {want}")
            ctx.check(lazy.head["topology"] == c.topology and lazy.operator_name == e.name, "head:labels", lambda: f"{txt()}: {lazy.head}")
            with ctx.guarded("force", txt) as g:
                full = lazy.force()
            if not g.ok:
                continue
            ctx.event("forced")
            compare(ctx, "force", c, full, txt)
            with ctx.guarded("reexport", txt) as g:
                again = export_completion(full)
                direct = eval(t[1], dict(vars(db)))
                nu = (full.lagrangian.num_u1_symmetries(), c.lagrangian.num_u1_symmetries()) if ctx.rng.random() < 0.15 else (0, 0)
            if g.ok:
                ctx.event("reexported")
                compare(ctx, "full-text", c, direct, txt)
                l2 = eval(again, dict(vars(db)))
                ctx.check(sorted(l2.head["quantum_numbers"]) == numbers(c) and sorted(map(sorted, l2.head["terms"])) == want, "reexport:head", lambda: f"{txt()}: {l2.head}")
                compare(ctx, "reexport", c, l2.force(), txt)
                ctx.check(nu[0] == nu[1], "force:symmetries", lambda: f"{txt()}: {nu}")
            asjson(ctx, json_serialiser, c, txt)


def jfield(t, d, txt, ctx):
    """one tensor of the JSON form against the tensor"""
    idx = {k: sorted(v) for k, v in d["Indices"].items()} if isinstance(d["Indices"], dict) else None
    mine = {}
    for i in t.indices:
        mine.setdefault(str(i.tensor_index_type), []).append(str(i))
    ok = idx is not None and {k: v for k, v in idx.items() if v} == {k: sorted(v) for k, v in mine.items()} and d["IsConj"] == bool(t.is_conj) and d["Field"] is True
    b = comp.base_label(t)
    if b:
        lab = str(d["Label"]).replace("†", "")
        ok = ok and d["Exotic"] is False and bool(d["Deriv"]) == bool(t.derivs) and lab == b
        if t.derivs:
            ok = ok and d["DerivDynkin"] == t.dynkin[:2]
    else:
        ok = ok and d["Exotic"] is True and d["Label"] == str(t.label) and {k: comp.frac(v) for k, v in d["Charges"].items()} == {k: comp.frac(v) for k, v in t.charges.items()}
        ok = ok and [int(x) for x in d["LorentzDynkin"]] == [int(x) for x in t.dynkin[:2]] and [int(x) for x in d["ColourDynkin"]] == [int(x) for x in t.dynkin[2:4]] and int(d["IsospinDynkin"]) == int(t.dynkin[4])
        ok = ok and d["IsUnbarred"] == getattr(t, "is_unbarred", None)
    return ok


def jop(ctx, key, op, lst, txt):
    from neutrinomass.tensormethod.core import IndexedField
    if not ctx.check(len(lst) == len(op.tensors), key + ":tensors", lambda: f"{txt()}: {len(lst)} of {len(op.tensors)}"):
        return
    for t, d in zip(op.tensors, lst):
        if isinstance(t, IndexedField):
            good = False
            try:
                good = jfield(t, d, txt, ctx)
            except (KeyError, TypeError, ValueError) as ex:
                good = False
            ctx.check(good, key + ":field", lambda: f"{txt()}: {t!r} became {d}")
        else:
            kind = tens.network(t)[1][0].kind
            ctx.check(d.get("Field") is False and d["label"] == ("Delta" if kind == "d" else "Eps") and d["Indices"] == [str(i) for i in t.indices], key + ":invariant", lambda: f"{txt()}: {t!r} became {d}")


def asjson(ctx, js, c, txt):
    with ctx.guarded("json", txt) as g:
        d = json.loads(json.dumps(js.export_completion(c)))
    if not g.ok:
        return
    ctx.event("json")
    ctx.check(d["EffectiveOperator"]["Name"] == c.operator.name, "json:name", txt)
    jop(ctx, "json:operator", c.operator.operator, d["EffectiveOperator"]["Operator"], txt)
    if ctx.check(len(d["Terms"]) == len(c.terms), "json:terms", txt):
        for t, l in zip(c.terms, d["Terms"]):
            jop(ctx, "json:terms", t, l, txt)
    labs = Counter(x["Label"] for x in d["Exotics"])
    ctx.check(labs == Counter(str(x.label) for x in c.exotics), "json:exotics", lambda: f"{txt()}: {labs}")
    g = d["Graph"]
    links = g["links"] if "links" in g else g["edges"]
    got = sorted((min(l["source"], l["target"]), max(l["source"], l["target"]), l["particle"] if isinstance(l["particle"], str) else l["particle"]["Label"]) for l in links)
    ctx.check(got == graphdata(c.graph)[0] and sorted(n["id"] for n in g["nodes"]) == sorted(c.graph.nodes), "json:graph", lambda: f"{txt()}: {got}")

    def leaves(p, q):
        if hasattr(p, "field") and hasattr(p, "node"):
            return isinstance(q, dict) and q["Node"] == p.node and q["Field"] == str(p.field)
        return isinstance(q, list) and len(p) == len(q) and all(leaves(a, b) for a, b in zip(p, q))
    ctx.check(leaves(c.partition, d["Partition"]), "json:partition", lambda: f"{txt()}: {d['Partition']}")
