"""C13: exotic fields: kinds, conjugates, partners, mass terms and copies are consistent."""
from copy import deepcopy, copy
from fractions import Fraction

from nmv import comp, tens

PID = "C13"
RULE = ("a case is one exotic field (random colour/isospin irrep, charges, spin 0 or 1/2, chirality, conjugated or not, built directly or by cons_completion_field), or an exotic of a completion; "
        "non-trivial when it carries a gauge index; distinct by (class, dynkin, charges)")
MIN = {"fields": 400, "ComplexScalar": 60, "RealScalar": 20, "MajoranaFermion": 20, "VectorLikeDiracFermion": 60, "mass_terms": 350, "lowered": 350, "copies": 350, "completion_exotics": 25, "info": 100}
ASSUMPTIONS = ["isospin up to quintets, colour Dynkin digits up to two"]


def TASKS(tier, seed):
    return [(f"rand{i}", ("rand", 70 if tier == "quick" else 500)) for i in range(8 if tier == "quick" else 24)] + [(f"op-{n}", ("op", n)) for n in ("2", "3b", "8", "4a", "D3", "1")]


def real_irrep(dyn, y):
    return y == 0 and dyn[2] == dyn[3] and int(dyn[4]) % 2 == 0


def data(f):
    return (type(f).__name__, str(f.label), f.dynkin, tuple(sorted((k, comp.frac(v)) for k, v in f.charges.items())), bool(f.is_conj), str(f.comm) in ("1", "fermi"), tuple(str(i) for i in f.indices), getattr(f, "is_unbarred", None))


def flip(dyn):
    return dyn[1] + dyn[0] + dyn[3] + dyn[2] + dyn[4]


def contracted(expr):
    """(free legs, bound, nodes)"""
    _, nodes = tens.network(expr)
    free, bound = tens.free_and_bound(nodes)
    return free, nodes


def audit(ctx, f, where):
    txt = lambda: f"{where}: {type(f).__name__} {f!r} {dict(f.charges)}"
    y = comp.frac(f.charges["y"])
    dyn = f.dynkin
    fermion = (int(dyn[0]) + int(dyn[1])) % 2 == 1
    kind = ("MajoranaFermion" if real_irrep(dyn, y) else "VectorLikeDiracFermion") if fermion else ("RealScalar" if real_irrep(dyn, y) else "ComplexScalar")
    ctx.event("fields")
    ctx.event(type(f).__name__)
    ctx.check(type(f).__name__ == kind, "kind:wrong-class", lambda: f"{txt()}: expected {kind}")
    ctx.check((str(f.comm) in ("1", "fermi")) == fermion and f.nf == 1 and not f.derivs, "kind:statistics", txt)
    ctx.check(all(nd.fermi == fermion for nd in contracted(f)[1]), "kind:tensor-statistics", txt)
    # ---- conjugation
    with ctx.guarded("conj", txt) as g:
        c, cc = f.conj, f.conj.conj
    if g.ok:
        ctx.check(data(cc) == data(f), "conj:not-involutive", lambda: f"{txt()}: {data(cc)} from {data(f)}")
        ctx.check(type(c) is type(f) and c.is_conj != f.is_conj, "conj:kind", lambda: f"{txt()}: {data(c)}")
        ctx.check(c.dynkin == flip(dyn), "conj:irrep", lambda: f"{txt()}: {c.dynkin}")
        ctx.check(all(comp.frac(c.charges[k]) == -comp.frac(v) for k, v in f.charges.items()), "conj:charges", lambda: f"{txt()}: {c.charges}")
        ctx.check(str(c.label).replace("†", "") == str(f.label).replace("†", "") and str(c.label).count("†") == int(c.is_conj), "conj:label", lambda: f"{txt()}: {c.label}")
        ctx.check(getattr(c, "is_unbarred", None) == getattr(f, "is_unbarred", None), "conj:bar", txt)
    # ---- Dirac partner
    if kind == "VectorLikeDiracFermion" and type(f).__name__ == kind:
        with ctx.guarded("partner", txt) as g:
            p = f.dirac_partner()
            pp = p.dirac_partner()
            cp, pc = f.conj.dirac_partner(), f.dirac_partner().conj
        if g.ok:
            ctx.event("partners")
            ctx.check(data(pp) == data(f), "partner:not-involutive", lambda: f"{txt()}: {data(pp)}")
            ctx.check(data(cp) == data(pc), "partner:conj-order", lambda: f"{txt()}: {data(cp)} {data(pc)}")
            ctx.check(p.dynkin == dyn[:2] + dyn[3] + dyn[2] + dyn[4], "partner:irrep", lambda: f"{txt()}: {p.dynkin}")
            ctx.check(all(comp.frac(p.charges[k]) == -comp.frac(v) for k, v in f.charges.items()), "partner:charges", lambda: f"{txt()}: {p.charges}")
            ctx.check(p.is_conj == f.is_conj and p.is_unbarred != f.is_unbarred and ("~" in str(p.label)) == (not p.is_unbarred), "partner:label", lambda: f"{txt()}: {p}")
    if type(f).__name__ == "MajoranaFermion":
        with ctx.guarded("partner", txt) as g:
            p = f.majorana_partner()
        if g.ok:
            ctx.check(p.dynkin == dyn and str(p.label) == str(f.label), "partner:majorana", lambda: f"{txt()}: {p}")
    # ---- lowering SU(2) indices: equal to the field once the epsilons are contracted
    with ctx.guarded("lower", txt) as g:
        low, epss = f.lower_su2()
        skip = ctx.rng.choice([["Isospin"], ["Undotted", "Dotted"], ["Undotted"], ["Dotted"], ["Undotted", "Dotted", "Isospin"]])
        low2, epss2 = f.lower_su2(skip=skip)
    if g.ok:
        ctx.event("lowered")
        su2 = [i for i in f.indices if str(i.tensor_index_type) in ("Undotted", "Dotted", "Isospin")]
        ctx.check(len(epss) == len(su2), "lower:epsilons", lambda: f"{txt()}: {epss}")
        ctx.check(type(low) is type(f) and low.dynkin == dyn and low.charges == f.charges and low.is_conj == f.is_conj and getattr(low, "is_unbarred", None) == getattr(f, "is_unbarred", None), "lower:data", lambda: f"{txt()}: {data(low)}")
        new = {str(i) for i in low.indices} - {str(i) for i in f.indices}
        ends = sorted(sorted(str(-j) for j in e.indices) for e in epss)
        old = {str(i) for i in su2}
        ctx.check(all(len(set(p) & new) == 1 and len(set(p) & old) == 1 for p in ends) and len({x for p in ends for x in p}) == 2 * len(su2), "lower:epsilons", lambda: f"{txt()}: {low} {epss}")
        kept = {str(i) for i in f.indices if str(i.tensor_index_type) in skip + ["Colour"]}
        ctx.check(kept <= {str(i) for i in low2.indices} and len(epss2) == len([i for i in su2 if str(i.tensor_index_type) not in skip]), "lower:skip", lambda: f"{txt()}: skip {skip}: {low2}")
    # ---- mass term
    with ctx.guarded("mass", txt) as g:
        m = f.mass_term
        nonzero = m.safe_simplify() != 0 if hasattr(m, "safe_simplify") else True
    if g.ok:
        ctx.event("mass_terms")
        try:
            free, nodes = contracted(m)
        except tens.Unsupported as ex:
            ctx.violate("mass:indices", f"{txt()}: {m}: {ex}")
            return
        fs = [t for t in (m.indexed_fields if hasattr(m, "indexed_fields") else [])]
        if str(m) != "" and hasattr(m, "indexed_fields"):
            ctx.check(not free, "mass:not-invariant", lambda: f"{txt()}: {m} free {free}")
            ctx.check(len(fs) == 2 and all(sum(comp.frac(x.charges[k]) for x in fs) == 0 for k in ("y",)), "mass:charge", lambda: f"{txt()}: {m}")
            ctx.check(float(m.mass_dim) == (3 if fermion else 2), "mass:dimension", lambda: f"{txt()}: {m} has {m.mass_dim}")
            labs = sorted(str(x.label) for x in fs)
            partner = {"MajoranaFermion": f, "RealScalar": f, "ComplexScalar": f.conj, "VectorLikeDiracFermion": f.dirac_partner() if kind == "VectorLikeDiracFermion" and type(f).__name__ == kind else f}[kind]
            ctx.check(labs == sorted([str(f.label), str(partner.label)]), "mass:fields", lambda: f"{txt()}: {m}")
            if kind != "ComplexScalar":
                lor = [x.dynkin[:2] for x in fs]
                ctx.check(lor[0] == lor[1], "mass:chirality", lambda: f"{txt()}: {m}")
            try:
                p = tens.poly(m, limit=20000)
                ctx.event("mass_evaluated")
                ctx.check(bool(p), "mass:vanishes", lambda: f"{txt()}: {m}")
                ctx.check(nonzero or not p, "mass:simplifies-to-zero", lambda: f"{txt()}: {m}")
            except tens.Unsupported:
                pass
    # ---- copies
    with ctx.guarded("copy", txt) as g:
        d = deepcopy(f)
    if g.ok:
        ctx.event("copies")
        ctx.check(data(d) == data(f), "copy:differs", lambda: f"{txt()}: {data(d)} from {data(f)}")
        ctx.check(d.charges is not f.charges, "copy:shared", txt)
        if type(f).__name__ == "VectorLikeDiracFermion":
            with ctx.guarded("copy", txt) as g2:
                a, b = data(d.dirac_partner()), data(f.dirac_partner())
            if g2.ok:
                ctx.check(a == b, "copy:partner", lambda: f"{txt()}: {a} {b}")
    ctx.case(sig=(kind, dyn, y), nontrivial=dyn[2:] != "000", sample=f"{kind} {dyn} {dict(f.charges)}")


def make(rng):
    from neutrinomass.tensormethod.core import Field
    from neutrinomass.completions.core import cons_completion_field
    fermion = rng.random() < 0.5
    lor = rng.choice(["10", "01"]) if fermion else "00"
    cu, cd = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (2, 2)])
    i = rng.choice([0, 0, 1, 2, 2, 3, 4])
    y = rng.choice([Fraction(0), Fraction(0), Fraction(1, 6), Fraction(-1, 2), Fraction(2, 3), Fraction(-4, 3), Fraction(5, 2)])
    b = rng.choice([0, 0, 1, -2, 3]) if y or cu != cd or i % 2 else 0
    f = Field(rng.choice(["ψ", "χ", "φ", "S0", "f3"]), f"{lor}{cu}{cd}{i}", charges={"y": str(y), "3b": b}, comm="fermi" if fermion else "bose")
    x = f.fresh_indices() if f.dynkin != "00000" else f("")
    out = cons_completion_field(x)
    steps = rng.randint(0, 3)
    for _ in range(steps):
        if hasattr(out, "dirac_partner") and rng.random() < 0.5:
            out = out.dirac_partner()
        else:
            out = out.conj
    return out


def RUN(ctx, payload):
    kind, x = payload
    if kind == "rand":
        for k in range(x):
            with ctx.guarded("construct", "random exotic") as g:
                f = make(ctx.rng)
            if g.ok:
                audit(ctx, f, "random")
        return
    from nmv import work
    e = work.catalogue(x)
    cs = work.run(e, x[0] == "D")
    seen = set()
    for c in cs:
        d = None
        with ctx.guarded("copy-completion", x) as g:
            if len(seen) < 40:
                d = deepcopy(c)
                sp = deepcopy(c.operator.operator)
        if g.ok and d is not None:
            ctx.event("completion_copies")
            b = comp.conserves_b(e)
            ctx.check(comp.comp_sig(d, b) == comp.comp_sig(c, b) and [repr(t) for t in d.terms] == [repr(t) for t in c.terms], "copy:completion-terms", lambda: f"{x}: {d.terms} from {c.terms}")
            ctx.check(d.topology == c.topology and sorted(map(repr, d.exotics)) == sorted(map(repr, c.exotics)), "copy:completion-data", lambda: f"{x}: {d.exotics} {d.topology}")
            ctx.check(sorted(map(sorted, d.graph.edges)) == sorted(map(sorted, c.graph.edges)), "copy:completion-graph", x)
            ctx.check(repr(sp) == repr(c.operator.operator) and [data_sm(f) for f in sp.indexed_fields] == [data_sm(f) for f in c.operator.operator.indexed_fields], "copy:operator", lambda: f"{x}: {sp}")
            # independent: changing the copy leaves the original
            before = repr(c.terms)
            d.terms.clear()
            ctx.check(repr(c.terms) == before, "copy:shared", x)
        info(ctx, x, c)
        for f in c.exotics:
            k = (type(f).__name__, f.dynkin, str(f.charges), f.is_conj, getattr(f, "is_unbarred", None))
            if k in seen:
                continue
            seen.add(k)
            ctx.event("completion_exotics")
            audit(ctx, f, f"{x}: {c.terms}")


def info(ctx, x, c):
    """the summary of a completion's exotics, hypercharge taken positive"""
    from neutrinomass.completions.core import format_quantum_numbers, Model
    txt = lambda: f"{x}: {c.exotics}"
    with ctx.guarded("info", txt) as g:
        i = c.exotic_info()
        strs = {f: format_quantum_numbers(v) for f, v in i.items()}
        nums = Model([c]).exotic_numbers
    if not g.ok:
        return
    ctx.event("info")
    ctx.check(set(i) == set(c.exotics), "info:fields", lambda: f"{txt()}: {list(i)}")
    for f, v in i.items():
        q = comp.qn(f)
        if q[4] < 0:
            q = comp.conj_qn(q)
        got = (v[0], int(v[1]), int(v[2]), int(v[3]), comp.frac(dict(v[4:])["y"]), comp.frac(dict(v[4:])["3b"]))
        ctx.check(got == q, "info:quantum-numbers", lambda: f"{txt()}: {f!r}: {v}")
        p, r = q[1], q[2]
        want = f"{q[0]}({(p + 1) * (r + 1) * (p + r + 2) // 2}{'b' if r > p else ''}, {q[3] + 1}, {q[4]})({q[5]})"
        ctx.check(strs[f] == want, "info:format", lambda: f"{txt()}: {strs[f]}, expected {want}")
    ctx.check(nums == sorted(set(strs.values())), "info:model-numbers", lambda: f"{txt()}: {nums}")


def data_sm(f):
    return (str(f.label), f.dynkin, dict(f.charges), f.is_conj, f.comm, f.nf, [str(i) for i in f.indices])
