"""C06: the couplings of every completion are renormalisable, invariant and non-vanishing."""
from collections import Counter
from nmv import comp, tens, work

PID = "C06"
RULE = ("a case is one completion of a catalogue operator (dimension 5-9) or of a random operator; non-trivial when it has at least two exotic fields; distinct by its couplings and diagram")
MIN = {"completions": 1000, "terms": 2500, "terms_with_repeated_fields": 150, "vanishing_tested": 2500, "derivative_completions": 100}


def TASKS(tier, seed):
    return work.samples(tier, seed, 8, 70) + work.tasks(tier, seed, n_rand=16, per4=6, per5=3, medium=2)


def sm_key(f):
    return (comp.base_label(f), bool(f.is_conj))


def check_completion(ctx, name, e, c, deriv, useb):
    txt = lambda: f"{name}: {e.operator} -> {c.terms}"
    exo = {}
    for x in c.exotics:
        nm = str(x.label).replace("†", "").replace("~", "")
        q = comp.qn(x)
        if nm in exo and comp.conj_qn(q) != exo[nm] and q != exo[nm]:
            ctx.violate("labels:ambiguous", f"{txt()}: exotics {nm} with {q} and {exo[nm]}")
        exo.setdefault(nm, q)
    used = set()
    ext = Counter()
    legs = 0
    for t in c.terms:
        ctx.event("terms")
        tt = lambda: f"{t} in {txt()}"
        fs = t.fields
        stats = [comp.qn(f)[0] for f in fs]
        nexo = 0
        ctx.check(all(f.derivs == 0 for f in fs), "terms:derivative", tt)
        nf = stats.count("F")
        ok = len(fs) == 3 and nf in (0, 2) or len(fs) == 4 and nf == 0
        ctx.check(ok, "terms:not-renormalisable", tt)
        try:
            md = float(t.mass_dim)
        except Exception as ex:
            md = repr(ex)
        ctx.check(md == len(fs) + nf / 2, "terms:mass-dim", lambda: f"{tt()}: {md}")
        for ch in ("y", "3b") if useb else ("y",):
            ctx.check(sum(comp.frac(f.charges[ch]) for f in fs) == 0, "terms:charge", lambda: f"{tt()}: {ch}")
        _, nodes = tens.network(t)
        try:
            free, bound = tens.free_and_bound(nodes)
        except tens.Unsupported as ex:
            ctx.violate("terms:indices", f"{tt()}: {ex}")
            continue
        ctx.check(all(k == "Generation" for k, _ in free), "terms:not-invariant", tt)
        ctx.check(all(k != "Generation" for k, _ in bound), "terms:flavour-contracted", tt)
        for f in t.indexed_fields:
            b = comp.base_label(f)
            g = [i for i in f.indices if str(i.tensor_index_type) == "Generation"]
            if b:
                ext[sm_key(f)] += 1
                ctx.check(len(g) == (0 if b == "H" else 1), "terms:flavour-index", tt)
                d = "00001" if b == "H" else None
            else:
                nexo += 1
                nm = str(f.label).replace("†", "").replace("~", "")
                q = comp.qn(f)
                if not useb:
                    q = q[:5] + (0,)
                want = exo.get(nm)
                if not ctx.check(want is not None, "labels:not-listed", lambda: f"{tt()}: {nm} not among {list(exo)}"):
                    continue
                if not useb:
                    want = want[:5] + (0,)
                used.add(nm)
                ctx.check(q in (want, comp.conj_qn(want)), "labels:ambiguous", lambda: f"{tt()}: {f!r} is {q}, listed {want}")
            fermi = (int(f.dynkin[0]) + int(f.dynkin[1])) % 2 == 1
        for nd in nodes:
            if nd.kind == "F":
                lor = sum(1 for k, _, _ in nd.legs if k in ("Undotted", "Dotted"))
                ctx.check(nd.fermi == (lor == 1) and lor <= 1, "terms:statistics", lambda: f"{tt()}: {nd}")
        legs += nexo
        ctx.check(nexo > 0, "terms:no-exotic", tt)
        labels = [str(f.label) for f in fs]
        if len(set(labels)) < len(labels):
            ctx.event("terms_with_repeated_fields")
        try:
            p = tens.poly(t, limit=60000)
            ctx.event("vanishing_tested")
            ctx.check(bool(p), "terms:vanishes", tt)
        except tens.Unsupported:
            ctx.event("vanishing_skipped")
    ctx.check(used == set(exo), "labels:exotics-list", lambda: f"{txt()}: terms use {sorted(used)}, exotics {sorted(exo)}")
    ctx.check(legs == 2 * (len(c.terms) - 1), "terms:propagators", lambda: f"{txt()}: {legs} exotic legs")
    want = Counter(sm_key(f) for f in e.fields)
    ctx.check(ext == want, "terms:external-fields", lambda: f"{txt()}: {ext}")


def RUN(ctx, payload):
    for name, e, deriv in work.operators(ctx, payload):
        with ctx.guarded("completions", f"{name}: {e.operator}") as g:
            cs = work.run(e, deriv)
        if not g.ok:
            continue
        useb = comp.conserves_b(e)
        for c in cs:
            ctx.event("completions")
            ctx.event("derivative_completions", int(deriv))
            check_completion(ctx, name, e, c, deriv, useb)
            ctx.case(sig=(repr(e.operator), comp.comp_sig(c), str(c.partition)), nontrivial=len(c.exotics) > 1, sample=f"{name}: {c.terms}")
