"""C08: the U(1) symmetries found for a model are exactly the charges every term conserves."""
from fractions import Fraction
import itertools
from nmv import comp, work

PID = "C08"
RULE = ("a case is the Lagrangian of one completion (couplings + mass terms + SM Yukawas), of a subset of its couplings, or of the union of two completions' couplings; "
        "non-trivial when it contains at least one exotic fermion or two exotics; distinct by field contents of the terms")
MIN = {"lagrangians": 250, "generators": 500, "operator_neutral": 250, "subsets": 60, "lnv_models": 60, "random_models": 100, "repeated_exotic": 40}

SMO = ["H", "Q", "ub", "db", "L", "eb"]
YUK = [{"H": 1, "Q": 1, "ub": 1}, {"H": -1, "Q": 1, "db": 1}, {"H": -1, "L": 1, "eb": 1}]


def TASKS(tier, seed):
    return work.samples(tier, seed, 6, 25) + [(f"models{i}", ("models", 60 if tier == "quick" else 400)) for i in range(4)] + work.tasks(tier, seed, n_rand=12, per4=5, per5=2, medium=2)


def nullity(rows, n):
    rows = [dict(r) for r in rows]
    rank = 0
    piv = {}
    for r in rows:
        r = {k: Fraction(v) for k, v in r.items() if v}
        while r:
            k = min(r, key=repr)
            if k in piv:
                f = r[k]
                for kk, v in piv[k].items():
                    nv = r.get(kk, 0) - f * v
                    if nv:
                        r[kk] = nv
                    else:
                        r.pop(kk, None)
            else:
                f = r[k]
                piv[k] = {kk: v / f for kk, v in r.items()}
                rank += 1
                break
    return n - rank


def species(f):
    """(name, sign): left-handed species; ψ and ψ~ are different ones."""
    b = comp.base_label(f)
    s = -1 if f.is_conj else 1
    return (b or "x:" + str(f.label).replace("†", ""), s)


def exotic_species(exotics):
    """species of the exotic sector with their mass-term relations"""
    sp, rel = [], []
    for x in exotics:
        nm = "x:" + str(x.label).replace("†", "").replace("~", "")
        d = x.dynkin
        real = comp.frac(x.charges["y"]) == 0 and d[2] == d[3] and int(d[4]) % 2 == 0
        fermion = (int(d[0]) + int(d[1])) % 2
        if nm in sp:
            continue
        if fermion and not real:
            if comp.frac(x.charges["y"]) == 0:
                return None, None       # complex representation without hypercharge
            sp += [nm, nm + "~"]
            rel.append({nm: 1, nm + "~": 1})
        else:
            sp.append(nm)
            if real:
                rel.append({nm: 2})
    return sp, rel


def check_lagrangian(ctx, txt, exotics, terms, operator=None):
    from neutrinomass.tensormethod.lagrangian import Lagrangian
    sp, rel = exotic_species(exotics)
    if sp is None:
        ctx.event("skipped_complex_neutral")
        return None
    rows = [dict(y) for y in YUK] + rel
    for t in terms:
        r = {}
        for f in t.fields:
            n, s = species(f)
            r[n] = r.get(n, 0) + s
        rows.append(r)
    unknown = {k for r in rows for k in r} - set(SMO) - set(sp)
    if unknown:
        ctx.violate("symmetries:unlisted-field", f"{txt()}: {unknown}")
        return None
    want = nullity(rows, len(SMO) + len(sp))
    with ctx.guarded("symmetries", txt) as g:
        lag = Lagrangian(set(exotics), list(terms))
        syms = lag.u1_symmetries()
        num = lag.num_u1_symmetries()
        order = SMO + [species(f)[0] for f in lag.fields]
        sgn = [1] * len(order)   # a column is the charge of the unconjugated species
    if not g.ok:
        return None
    ctx.event("lagrangians")
    ctx.check(sorted(set(order)) == sorted(order) and set(order) == set(SMO) | set(sp), "fields:listed-once", lambda: f"{txt()}: {order}, expected {sp}")
    ctx.check(num == len(syms), "symmetries:count", txt)
    ctx.check(num == want, "symmetries:number", lambda: f"{txt()}: {num} found, {want} exist; fields {order}")
    for v in syms:
        ctx.event("generators")
        q = {n: comp.frac(x) * s for n, x, s in zip(order, list(v), sgn)}
        for r in rows:
            tot = sum(c * q.get(n, 0) for n, c in r.items())
            if not ctx.check(tot == 0, "symmetries:not-conserved", lambda: f"{txt()}: charges {q} violate {r}"):
                break
        if operator is not None:
            tot = sum(q[comp.base_label(f)] * (-1 if f.is_conj else 1) for f in operator.fields)
            ctx.event("operator_neutral")
            ctx.check(tot == 0, "symmetries:operator-forbidden", lambda: f"{txt()}: charges {q} forbid {operator.operator}")
    return num


def random_model(rng):
    """exotics with random charges, and couplings of three or four fields that conserve
    hypercharge (the symmetry finder only looks at which fields a term contains)"""
    from functools import reduce
    from sympy import Rational
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import IndexedField
    from neutrinomass.completions.core import cons_completion_field

    def maker(label, kinds, y, b, how):
        def make(n):
            idx = " ".join(f"{k}{n}{j}" for j, k in enumerate(kinds))
            f = cons_completion_field(IndexedField(label, idx, charges={"y": y, "3b": b}, comm=int("u" in kinds)))
            for h in how:
                f = f.conj if h == "conj" else f.dirac_partner()
            return f
        return make

    def standard(f, kinds):
        return lambda n: f(" ".join(f"{k}{n}{j}" for j, k in enumerate(kinds)))
    exo, pool = [], []
    for k in range(rng.randint(1, 4)):
        fermi = rng.random() < 0.4
        y = Rational(rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]), rng.choice([1, 2]))
        kinds = ("u" if fermi else "") + ("i" if rng.random() < 0.5 else "")
        lab = ("ψχfζ" if fermi else "φηsω")[k]
        exo.append(maker(lab, kinds, y, 0, [])(k))
        pool += [maker(lab, kinds, y, 0, h) for h in ([[], ["conj"], ["partner"], ["partner", "conj"]] if fermi else [[], ["conj"]])]
    n_exo = len(pool)
    if rng.random() < 0.6:
        pool += [standard(sm.H, "i"), standard(sm.H.conj, "i")]
    if rng.random() < 0.6:
        pool += [standard(sm.L, "uig"), standard(sm.eb, "ug"), standard(sm.L.conj, "dig")]
    terms = []
    for _ in range(600):
        picks = [rng.randrange(len(pool)) for _ in range(rng.randint(3, 4))]
        if min(picks) >= n_exo:
            continue
        fs = [pool[p](n) for n, p in enumerate(picks)]
        nf = sum(bool(f.is_fermion) for f in fs)
        if nf not in (0, 2) or (nf and len(fs) == 4) or sum(comp.frac(f.charges["y"]) for f in fs):
            continue
        terms.append(reduce(lambda x, y: x * y, fs))
        if len(terms) >= 3 or rng.random() < 0.4:
            break
    return exo, terms


def models(ctx, n):
    done = 0
    for _ in range(8 * n):
        with ctx.guarded("model", "random couplings") as g:
            exo, terms = random_model(ctx.rng)
        if not g.ok or not terms:
            continue
        txt = lambda: f"model {exo} with {terms}"
        check_lagrangian(ctx, txt, exo, terms)
        ctx.event("random_models")
        ctx.event("repeated_exotic", sum(1 for t in terms if len({str(f.label) for f in t.fields}) < len(t.fields)))
        ctx.case(sig=("model", str(terms)), nontrivial=len(exo) > 1, sample=txt())
        done += 1
        if done >= n:
            return


def RUN(ctx, payload):
    rng = ctx.rng
    if payload[0] == "models":
        return models(ctx, payload[1])
    for name, e, deriv in work.operators(ctx, payload):
        with ctx.guarded("completions", f"{name}: {e.operator}") as g:
            cs = work.run(e, deriv)
        if not g.ok:
            continue
        seen = {}
        for c in cs:
            seen.setdefault((comp.comp_sig(c), c.topology), c)
        chosen = list(seen.values())
        rng.shuffle(chosen)
        for c in chosen[: 12 if ctx.tier == "quick" else 60]:
            txt = lambda: f"{name}: {c.terms}"
            n = check_lagrangian(ctx, txt, c.exotics, c.terms, e)
            ctx.case(sig=tuple(sorted(comp.comp_terms(c))), nontrivial=len(c.exotics) > 1 or any(x.is_fermion for x in c.exotics), sample=f"{c.terms}: {n} U(1)s")
            with ctx.guarded("lagrangian", txt) as g:
                lag = c.lagrangian
                same = list(lag.interaction_terms) == list(c.terms) and len(lag.terms) == len(c.terms) + len(lag.fields)
                m = lag.num_u1_symmetries()
            if g.ok:
                ctx.check(same, "lagrangian:terms", lambda: f"{txt()}: {lag.terms}")
                ctx.check(n is None or m == n, "symmetries:number", lambda: f"{txt()}: {m} vs {n}")
                dl = payload[0] == "op"
                if dl:
                    ctx.event("lnv_models")
                    ctx.check(m == 2, "symmetries:lepton-number-kept", lambda: f"{txt()}: {m} symmetries; only hypercharge and baryon number may survive")
            # fewer couplings: more symmetry, still exactly counted
            if len(c.terms) > 1:
                k = rng.randint(1, len(c.terms) - 1)
                sub = rng.sample(list(c.terms), k)
                ctx.event("subsets")
                check_lagrangian(ctx, lambda: f"{name}: subset {sub} of {c.terms}", c.exotics, sub)
