"""C18: operator closures conserve charges and give consistent neutrino-mass estimates."""
import itertools
from collections import Counter
from fractions import Fraction

from nmv import comp
from nmv.checks import c10

PID = "C18"
RULE = ("a case is one isospin component of an operator (catalogue, or a random |ΔL|=2 operator) closed into a neutrino self-energy; non-trivial when at least one rule applies; distinct by its components")
MIN = {"rules": 30, "operators": 240, "components": 1500, "closed": 800, "open": 200, "estimates": 800, "spellings": 60, "synthetic": 40, "six_vevs": 1}
ASSUMPTIONS = ["operators with up to four isospin contractions, as the parser supports"]

CHARGE = dict(e=-1, nu=0, u=Fraction(2, 3), d=Fraction(-1, 3), h0=0, hp=1, db=Fraction(1, 3), ub=Fraction(-2, 3), eb=1, W=-1)
BARYON = dict(u=Fraction(1, 3), d=Fraction(1, 3), db=Fraction(-1, 3), ub=Fraction(-1, 3))
LEPTON = dict(e=1, nu=1, eb=-1, nunu=2)
FLIPE = dict(eb=1, ye=1)
FLIPQ = dict(ub=1, db=1, yu=1, yd=1)
LAWS = [("charge", CHARGE, 0), ("baryon", BARYON, 0), ("lepton", LEPTON, 0), ("lepton-chirality", FLIPE, 2), ("quark-chirality", FLIPQ, 2)]
CONST = {"v", "nunu", "g2", "loop", "loopv2", "yu", "yd", "ye"}


def TASKS(tier, seed):
    return [("rules", ("rules", None))] + [(f"cat{i}", ("cat", i)) for i in range(16)] + [(f"rand{i}", ("rand", 8 if tier == "quick" else 60)) for i in range(8)]


def items(op):
    for o in op:
        n = type(o).__name__
        if n == "Const":
            yield "const", str(o.operands[0]), 1
        elif n == "c":
            yield "field", str(o.operands[0]), -1
        elif "Wildcard" in n:
            continue
        else:
            yield "field", str(o), 1


def total(its, table, mod):
    t = sum(s * table.get(x, 0) for _, x, s in its)
    return t % mod if mod else t


def conserved(ctx, key, a, b, txt):
    a, b = list(a), list(b)
    for nm, tab, mod in LAWS:
        x, y = total(a, tab, mod), total(b, tab, mod)
        ctx.check(x == y, f"{key}:{nm}", lambda: f"{txt()}: {nm} {x} -> {y}")


def expand(op):
    """components of the operator: every isospin assignment with T3 of contracted indices opposite"""
    from neutrinomass.tensormethod.core import IndexedField
    fields, eps = [], []
    for t in op.tensors:
        if isinstance(t, IndexedField):
            iso = [str(i).lstrip("-") for i in t.indices if str(i.tensor_index_type) == "Isospin"]
            lab = comp.base_label(t)
            y = comp.frac(t.charges["y"])
            fields.append((lab, bool(t.is_conj), y, iso[0] if iso else None))
        else:
            eps.append(tuple(str(i).lstrip("-") for i in t.indices))
    out = Counter()
    for s in itertools.product((Fraction(1, 2), Fraction(-1, 2)), repeat=len(eps)):
        t3 = {}
        for (a, b), x in zip(eps, s):
            t3[a], t3[b] = x, -x
        syms = Counter()
        for lab, cj, y, i in fields:
            if i is None:
                syms[(lab, -1 if cj else 1)] += 1
            else:
                q = t3[i] + y
                q0 = -q if cj else q
                nm = {"H": {1: "hp", 0: "h0"}, "L": {0: "nu", -1: "e"}, "Q": {Fraction(2, 3): "u", Fraction(-1, 3): "d"}}[lab][q0]
                syms[(nm, -1 if cj else 1)] += 1
        out[frozenset(syms.items())] += 1
    return out


def symset(op):
    return frozenset(Counter((x, s) for _, x, s in items(op)).items())


def own_estimate(res):
    c = Counter(x for _, x, _ in res)
    nv = c.pop("v")
    c.pop("nunu")
    c["loopv2"] += (nv - 2) // 2
    c["v"] = 2
    c["Λ"] = -1
    return tuple(sorted((k, v) for k, v in c.items() if v))


def powers(expr):
    return tuple(sorted((str(k), int(v)) for k, v in expr.as_powers_dict().items() if str(k) != "1"))


def audit(ctx, name, eff, full=True):
    from neutrinomass.database import closures as m
    op = eff.operator
    g = ctx.guarded("parse:raises", lambda: f"{name} {op}", cpu=120)
    with g:
        parts = m.parse_operator(eff)
    if not g.ok:
        return None
    ctx.event("operators")
    want = expand(op)
    got = Counter(symset(p) for p in parts)
    ctx.check(got == want, "parse:components", lambda: f"{name} {op}: {dict((got - want) or (want - got))}")
    g2 = ctx.guarded("parse:raises", lambda: f"{name} {op} given as a bare operator", cpu=120)
    with g2:
        ctx.check(Counter(symset(p) for p in m.parse_operator(op)) == got, "parse:wrapper", name)
    ests = []
    for p in parts:
        txt = lambda: f"{name}: {p}"
        a = list(items(p))
        ctx.event("components")
        ctx.check(total(a, CHARGE, 0) == 0 and abs(total(a, LEPTON, 0)) == 2, "component:charges", txt)
        g = ctx.guarded("closure:raises", txt, cpu=120)
        with g:
            r = m.fixed_point(p)
        if not g.ok:
            continue
        b = list(items(r))
        conserved(ctx, "closure", a, b, lambda: f"{txt()} -> {r}")
        ctx.check(m.apply_rules(m.RULES, r) == r, "closure:not-finished", lambda: f"{txt()} -> {r}")
        cl = m.clean(r)
        closed = all(k == "const" for k, _, _ in b)
        ctx.case(sig=symset(p), nontrivial=r != p, sample=lambda: f"{txt()} -> {r}")
        if closed:
            ctx.event("closed")
            c = Counter(x for _, x, _ in b)
            ctx.event("six_vevs", int(c["v"] >= 6))
            ctx.check(isinstance(cl, list) and Counter(cl) == c, "closure:clean", lambda: f"{txt()}: {cl}")
            ctx.check(set(c) <= CONST, "closure:symbols", lambda: f"{txt()}: {dict(c)}")
            ctx.check(c["nunu"] == 1, "closure:neutrinos", lambda: f"{txt()}: {dict(c)}")
            ctx.check(c["v"] % 2 == 0 and c["v"] >= 2, "closure:vevs", lambda: f"{txt()}: {dict(c)}")
            if c["nunu"] == 1 and c["v"] % 2 == 0 and c["v"] >= 2:
                ests.append(own_estimate(b))
        else:
            ctx.event("open")
            ctx.check(not isinstance(cl, list), "closure:clean", lambda: f"{txt()}: {cl}")
    g = ctx.guarded("estimate:raises", lambda: f"{name} {op}", cpu=300)
    with g:
        out = m.neutrino_mass_estimate(eff)
    if g.ok:
        ctx.event("estimates", len(out))
        got = Counter(map(powers, out))
        ctx.check(got == Counter(ests), "estimate:differs", lambda: f"{name}: {dict(got - Counter(ests))} instead of {dict(Counter(ests) - got)}")
        g = ctx.guarded("estimate:raises", lambda: f"{name} {op} as a list", cpu=300)
        with g:
            ctx.check(Counter(map(powers, m.neutrino_mass_estimate(list(parts)))) == got, "estimate:list", name)
        return got
    return None


def RUN(ctx, payload):
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.database import closures as m
    kind, arg = payload
    rng = ctx.rng
    if kind == "rules":
        for k, v in m.RULES.items():
            ctx.event("rules")
            ctx.case(sig=str(k), sample=f"{k} -> {v}")
            conserved(ctx, "rule", items(k), items(v), lambda: f"{k} -> {v}")
            ctx.check(all(x in CONST for t, x, _ in items(v) if t == "const"), "rule:symbols", lambda: f"{k} -> {v}")
        synthetic(ctx)
        return
    ops = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}
    if kind == "cat":
        for nm in list(ops)[arg::16]:
            est = audit(ctx, nm, ops[nm])
            # every operator of the catalogue generates a mass
            ctx.check(est is None or sum(est.values()) > 0, "estimate:none", nm)
            if est is not None and rng.random() < 0.6:
                if any(f.derivs for f in ops[nm].fields):
                    continue
                o2 = c10.rebuilt(rng, ops[nm].operator)
                ctx.event("spellings")
                e2 = m.neutrino_mass_estimate(EffectiveOperator(nm, o2))
                ctx.check(Counter(map(powers, e2)) == est, "estimate:spelling", lambda: f"{nm}: {o2}")
    else:
        done = 0
        while done < arg:
            o = many_vevs(rng) if done % 8 == 1 else many_higgs(rng) if rng.random() < 0.35 else random_lnv(rng)
            if o is None:
                continue
            done += 1
            audit(ctx, f"{ctx.task_id}.{done}", EffectiveOperator("X", o))


def many_vevs(rng):
    """L L and mass insertions only: up to six vevs in the closed diagram"""
    from neutrinomass.tensormethod import L, Q, H, ub, db, eb
    F = {"L": L, "Q": Q, "H": H, "ub": ub, "db": db, "eb": eb}
    up = [[("Q", 0), ("db", 0)], [("L", 0), ("eb", 0)], [("Q", 1), ("ub", 1)]]  # hypercharge 1/2
    down = [[("Q", 0), ("ub", 0)], [("Q", 1), ("db", 1)], [("L", 1), ("eb", 1)]]  # hypercharge -1/2
    names = [("L", 0), ("L", 0)] + rng.choice(up) + rng.choice(up)
    for _ in range(2):
        names += rng.choice(down) + [("H", 0)]
    # contract so that every Higgs can take its vev: t3 = +1/2 ones with t3 = -1/2 ones
    t3 = {0: 1, 1: 1, **{i: (1 if i >= 6 else -1) * (1 if names[i][0] != "H" else -1) for i in range(2, len(names))}}
    dbl = [i for i in t3 if names[i][0] in "LQH"]
    plus, minus = [i for i in dbl if t3[i] > 0], [i for i in dbl if t3[i] < 0]
    rng.shuffle(plus)
    order = [x for ab in zip(plus, minus) for x in ab]
    return build(rng, [(a, bool(c)) for a, c in names], F, order=order)


def synthetic(ctx):
    """closed diagrams with any number of vevs"""
    from neutrinomass.database import closures as m
    rng = ctx.rng
    for nv in range(2, 17, 2):
        for _ in range(6):
            syms = ["nunu"] + ["v"] * nv + [rng.choice(["loop", "yu", "yd", "ye", "g2", "loopv2"]) for _ in range(rng.randint(0, 6))]
            rng.shuffle(syms)
            op = m.Op(*[m.Const(getattr(m, x)) for x in syms])
            ctx.event("synthetic")
            ctx.case(sig=("synthetic",) + tuple(sorted(syms)), sample=str(op))
            g = ctx.guarded("estimate:raises", lambda: str(op), cpu=60)
            with g:
                got = [powers(x) for x in m.neutrino_mass_estimate([op])]
                want = [own_estimate(list(items(op)))]
                ctx.check(got == want, "estimate:differs", lambda: f"{op}: {got} instead of {want}")


def many_higgs(rng):
    """operators with up to six Higgs fields (many vevs in the closed diagram)"""
    from neutrinomass.tensormethod import L, Q, H, ub, db, eb
    F = {"L": L, "Q": Q, "H": H, "ub": ub, "db": db, "eb": eb}
    k = rng.randint(1, 2)
    core = rng.choice([[("L", 0), ("L", 0), ("H", 0), ("H", 0)], [("L", 0), ("Q", 0), ("db", 0), ("L", 0), ("H", 0)][:5], [("L", 0), ("L", 0), ("L", 0), ("eb", 0), ("H", 0)]])
    names = core + [("H", 0), ("H", 1)] * k
    if sum(a in "LQH" for a, _ in names) > 8:
        names = core + [("H", 0), ("H", 1)]
    rng.shuffle(names)
    return build(rng, [(a, bool(c)) for a, c in names], F)


def random_lnv(rng):
    """random hypercharge- and baryon-number-neutral |ΔL|=2 product with isospin fully contracted"""
    from neutrinomass.tensormethod import L, Q, H, ub, db, eb
    F = {"L": L, "Q": Q, "H": H, "ub": ub, "db": db, "eb": eb}
    lep = {"L": 1, "eb": -1}
    for _ in range(400):
        n = rng.randint(4, 8)
        names = [(rng.choice(["L", "L", "Q", "H", "H", "ub", "db", "eb"]), rng.random() < 0.35) for _ in range(n)]
        fs = [F[a].conj if c else F[a] for a, c in names]
        if sum(comp.frac(f.charges["y"]) for f in fs) or sum(int(f.charges["3b"]) for f in fs):
            continue
        if abs(sum(lep.get(a, 0) * (-1 if c else 1) for a, c in names)) != 2:
            continue
        nd = sum(a in "LQH" for a, _ in names)
        if nd % 2 or nd > 8 or nd == 0:
            continue
        return build(rng, names, F)
    return None


def build(rng, names, F, order=None):
    from neutrinomass.tensormethod import eps
    iso, out, un, pos = [], [], 0, {}
    for a, c in names:
        f = F[a].conj if c else F[a]
        u, d, p, q, i = map(int, f.dynkin)
        idx = []
        for n, let in ((u, "u"), (d, "d"), (p, "c"), (q, "-c"), (i, "i")):
            for _ in range(n):
                idx.append(f"{let}{un}")
                if let == "i":
                    iso.append(f"i{un}")
                    pos[len(out)] = f"i{un}"
                un += 1
        if f.nf > 1:
            idx.append(f"g{un}")
            un += 1
        out.append(f(" ".join(idx)))
    rng.shuffle(iso)
    if order:
        iso = [pos[k] for k in order]
    op = out[0]
    for t in out[1:]:
        op = op * t
    for a, b in zip(iso[::2], iso[1::2]):
        op = op * eps(f"-{a} -{b}")
    return op
