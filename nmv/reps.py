"""Representation theory of SU(2) x SU(2) x SU(3) x SU(2) by weights, independent
of basisgen.  A weight is (m_u, m_d, a, b, m_i); the dynkin string is
'u d p q i' as used by neutrinomass."""
from collections import Counter
from functools import lru_cache
from fractions import Fraction
import itertools


@lru_cache(None)
def su2_weights(n):
    return tuple((n - 2 * k) for k in range(n + 1))


@lru_cache(None)
def su3_weights(p, q):
    """weights (dynkin basis) with multiplicities of the irrep (p,q): Sym^p(3) x Sym^q(3bar) minus
    Sym^(p-1) x Sym^(q-1)."""
    def sym(n, bar):
        c = Counter()
        for a in range(n + 1):
            for b in range(n - a + 1):
                d = n - a - b
                # fundamental weights of 3: (1,0), (-1,1), (0,-1)
                w = (a - b, b - d)
                c[(-w[0], -w[1]) if bar else w] += 1
        return c

    def prod(x, y):
        c = Counter()
        for (a, b), m in x.items():
            for (e, f), n in y.items():
                c[(a + e, b + f)] += m * n
        return c
    c = prod(sym(p, False), sym(q, True))
    if p and q:
        for w, m in prod(sym(p - 1, False), sym(q - 1, True)).items():
            c[w] -= m
    return tuple((w, m) for w, m in sorted(c.items()) if m)


@lru_cache(None)
def weights(dynkin):
    u, d, p, q, i = [int(x) for x in dynkin]
    c = Counter()
    for a in su2_weights(u):
        for b in su2_weights(d):
            for (x, y), m in su3_weights(p, q):
                for e in su2_weights(i):
                    c[(a, b, x, y, e)] += m
    return c


def mul(x, y):
    c = Counter()
    for a, m in x.items():
        for b, n in y.items():
            c[tuple(s + t for s, t in zip(a, b))] += m * n
    return c


def power(x, n, fermi):
    """graded symmetric power: Sym^n for bosons, Alt^n for fermions"""
    # Newton: n*h_n = sum_k (+-)^(k-1) p_k h_{n-k}
    hs = [Counter({(0,) * 5: Fraction(1)})]
    for m in range(1, n + 1):
        acc = Counter()
        for k in range(1, m + 1):
            s = (-1) ** (k - 1) if fermi else 1
            pk = Counter()
            for w, mult in x.items():
                pk[tuple(k * t for t in w)] += s * mult
            for w, c in mul(pk, hs[m - k]).items():
                acc[w] += c
        hs.append(Counter({w: Fraction(c) / m for w, c in acc.items() if c}))
    return Counter({w: int(c) for w, c in hs[n].items() if c})


# Weyl-alternated shifts w(rho)-rho
_S2 = [((0,), 1), ((-2,), -1)]


def _su3_shifts():
    rho = (1, 1)
    out = []

    def refl(w, i):
        a, b = w
        return (-a, a + b) if i == 0 else (a + b, -b)
    elems = {rho: 1}
    frontier = [rho]
    while frontier:
        new = []
        for w in frontier:
            for i in (0, 1):
                v = refl(w, i)
                if v not in elems:
                    elems[v] = -elems[w]
                    new.append(v)
        frontier = new
    return [((a - 1, b - 1), s) for (a, b), s in elems.items()]


_S3 = _su3_shifts()


def multiplicity(char, dynkin="00000"):
    u, d, p, q, i = [int(x) for x in dynkin]
    tot = 0
    for (a,), sa in _S2:
        for (b,), sb in _S2:
            for (x, y), sc in _S3:
                for (e,), se in _S2:
                    tot += sa * sb * sc * se * char.get((u - a, d - b, p - x, q - y, i - e), 0)
    return tot


def decompose(char):
    c = Counter({k: v for k, v in char.items() if v})
    out = Counter()
    doms = [w for w in c if all(x >= 0 for x in w)]
    for w in doms:
        m = multiplicity(c, w)
        if m:
            out["".join(map(str, w)) if max(w) < 10 else tuple(w)] = m
    return out


def dim(dynkin):
    u, d, p, q, i = [int(x) for x in dynkin]
    return (u + 1) * (d + 1) * (i + 1) * (p + 1) * (q + 1) * (p + q + 2) // 2


def product(dynkins):
    c = Counter({(0,) * 5: 1})
    for d in dynkins:
        c = mul(c, weights(d))
    return c


def mask(dynkin, keep):
    """zero the digits of the kinds not in keep ('u','d','c','i')"""
    d = list(dynkin)
    if "u" not in keep:
        d[0] = "0"
    if "d" not in keep:
        d[1] = "0"
    if "c" not in keep:
        d[2] = d[3] = "0"
    if "i" not in keep:
        d[4] = "0"
    return "".join(d)
