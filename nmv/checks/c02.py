"""C02: products of fields decompose into the right irreps with the right multiplicities."""
from collections import Counter
from nmv import gen, reps

PID = "C02"
RULE = "a case is an ordered product of 2-4 fields with random irreps and rational charges; non-trivial when at least two factors are non-singlets; distinct by the factors' irreps"
MIN = {"products": 60, "irreps": 500, "multiplicity>1": 5, "large_colour": 12}


def TASKS(tier, seed):
    n = 16 if tier == "quick" else 96
    return [(f"colour{i}", ("colour", 6 if tier == "quick" else 30)) for i in range(4)] + [(f"rand{i}", (i, 12 if tier == "quick" else 40)) for i in range(n)] + [("sm", None)]


def fields(rng, k):
    from sympy import Rational
    from neutrinomass.tensormethod.core import Field
    out = []
    for n in range(k):
        d = "".join(str(rng.choice([0, 0, 1, 1, 2] if (j > 1 or k < 4) else [0, 0, 1])) for j in range(5))
        f = Field("ABCDEF"[n], dynkin=d, charges={"y": Rational(rng.randint(-6, 6), 6), "3b": rng.randint(-2, 2)}, is_conj=rng.random() < 0.3)
        out.append(f)
    return out


def total_mult(f):
    """number of ways along the recorded history"""
    if not f.history:
        return 1
    return f.multiplicity * total_mult(f.history.left) * total_mult(f.history.right)


def leaves(p):
    if isinstance(p, tuple):
        return leaves(p.left) + leaves(p.right)
    return [p]


def check_product(ctx, fs):
    from neutrinomass.tensormethod.core import decompose_product
    ds = [f.dynkin for f in fs]
    txt = " * ".join(map(repr, fs))
    with ctx.guarded("decompose_product", txt, cpu=300) as g:
        res = decompose_product(*fs)
    if not g.ok:
        return
    ctx.event("products")
    ctx.event("irreps", len(res))
    ctx.case(sig=tuple(ds), nontrivial=sum(d != "00000" for d in ds) > 1, sample=txt)
    want = reps.decompose(reps.product(ds))
    got = Counter()
    for r in res:
        m = total_mult(r)
        got[r.dynkin if isinstance(r.dynkin, str) else tuple(r.dynkin)] += m
        if m > 1:
            ctx.event("multiplicity>1")
    ctx.check(got == want, "product:irreps", lambda: f"{txt}: got {dict(got)} want {dict(want)}")
    ctx.check(all(len(r.dynkin) == 5 for r in res), "product:dynkin", txt)
    for r in res:
        for k in r.charges:
            ctx.check(r.charges[k] == sum(f.charges[k] for f in fs), "product:charge", lambda: f"{txt} -> {r!r} {k}={r.charges[k]}")
        if len(fs) > 1:
            lv = leaves(r.walked())
            ctx.check(lv == list(fs), "product:history", lambda: f"{txt} -> {r!r}: history {lv}")
        c = r.conj
        ctx.check(c.dynkin == "".join(r.dynkin[j] for j in (1, 0, 3, 2, 4)) and c.multiplicity == r.multiplicity and c.charges == {k: -v for k, v in r.charges.items()}
                  and c.conj == r and c.conj.multiplicity == r.multiplicity, "product:conj-of-irrep", lambda: f"{txt} -> {r!r} (x{r.multiplicity}): conjugate {c!r} (x{c.multiplicity})")
    # order of the factors does not matter
    ctx.check(sum(reps.dim(d) * m for d, m in got.items() if isinstance(d, str)) == _prod([reps.dim(d) for d in ds]), "product:dimension", txt)
    with ctx.guarded("conj", txt) as g:
        cres = decompose_product(*[f.conj for f in fs])
        cg = Counter()
        for r in cres:
            cg[r.dynkin] += total_mult(r)
        ctx.check(cg == Counter({d[1] + d[0] + d[3] + d[2] + d[4]: m for d, m in got.items()}), "product:conjugate", lambda: f"{txt}")


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def RUN(ctx, payload):
    if payload is None:
        from neutrinomass.tensormethod import sm
        S = [sm.L, sm.Q, sm.eb, sm.ub, sm.db, sm.H]
        S += [f.conj for f in S]
        for a in S:
            for b in S:
                check_product(ctx, [a, b])
        for _ in range(30):
            check_product(ctx, [ctx.rng.choice(S) for _ in range(3)])
        return
    i, n = payload
    if i == "colour":
        # large colour irreps: the same irrep several times in one product
        from neutrinomass.tensormethod.core import Field
        for _ in range(n):
            ds = [(ctx.rng.randint(1, 3), ctx.rng.randint(1, 3)) for _ in range(2)]
            fs = [Field("AB"[k], dynkin=f"{ctx.rng.randint(0, 1)}0{p}{q}{ctx.rng.randint(0, 3)}", charges={"y": k, "3b": 0}) for k, (p, q) in enumerate(ds)]
            check_product(ctx, fs)
            ctx.event("large_colour")
        return
    for _ in range(n):
        k = ctx.rng.choice([2, 2, 3, 3, 4])
        fs = fields(ctx.rng, k)
        big = 1
        for f in fs:
            big *= reps.dim(f.dynkin)
        if big > 60000:
            continue
        check_product(ctx, fs)
