"""C20: the shipped Hilbert series count the operators, and reading them gives their field contents."""
from collections import Counter
from fractions import Fraction
import itertools

from nmv import comp, reps

PID = "C20"
RULE = ("a case is one term of a Hilbert series (shipped or random) whose coefficient is recounted by characters, or whose field contents are read and compared with an own placement of the derivatives; "
        "non-trivial when a field is repeated or derivatives occur; distinct by term")
MIN = {"terms": 200, "recounted": 500, "recounted_derivative": 150, "contents_enumerated": 200, "read": 250, "read_derivative": 120, "field_choices": 60, "lookups": 18, "bl_contents": 60, "bl_operators": 150, "longest": 3}
ASSUMPTIONS = ["numbers of flavours 1 to 4 (1 for the dimension-six list, which has no flavour dependence)"]

# name: (dynkin, hypercharge, lepton number, 3 x baryon number, twice the dimension)
FIELDS = {
    "H": ("00001", Fraction(1, 2), 0, 0, 2), "L": ("10001", Fraction(-1, 2), 1, 0, 3), "Q": ("10101", Fraction(1, 6), 0, 1, 3),
    "eb": ("10000", Fraction(1), -1, 0, 3), "ub": ("10010", Fraction(-2, 3), 0, -1, 3), "db": ("10010", Fraction(1, 3), 0, -1, 3),
    "G": ("20110", Fraction(0), 0, 0, 4), "W": ("20002", Fraction(0), 0, 0, 4), "B": ("20000", Fraction(0), 0, 0, 4)}


def conj(x):
    d, y, l, b, m = x
    return d[1] + d[0] + d[3] + d[2] + d[4], -y, -l, -b, m


for _n in list(FIELDS):
    FIELDS[_n + ("b" if _n in "GWB" else "d")] = conj(FIELDS[_n])
FS = ("G", "Gb", "W", "Wb", "B", "Bb")
MATTER = [n for n in FIELDS if n not in FS]


def fermi(n):
    d = FIELDS[n][0]
    return (int(d[0]) + int(d[1])) % 2 == 1


# --- counting ---------------------------------------------------------------
VEC = reps.weights("11000")
SYM = [reps.power(VEC, k, False) for k in range(5)]
ALT = [reps.power(VEC, k, True) for k in range(5)]


def module(dyn, nmax, eom):
    """derivatives of a field: weights with the number of derivatives as sixth entry"""
    u, d, rest = int(dyn[0]), int(dyn[1]), dyn[2:]
    out = Counter()
    for n in range(nmax + 1):
        c = reps.weights(f"{u + n}{d + n}{rest}") if eom else reps.mul(SYM[n], reps.weights(dyn))
        for w, m in c.items():
            out[w + (n,)] += m
    return out


def gmul(x, y, nmax):
    c = Counter()
    for a, m in x.items():
        for b, n in y.items():
            if a[5] + b[5] <= nmax:
                c[tuple(s + t for s, t in zip(a, b))] += m * n
    return c


def gpower(x, n, anti, nmax):
    hs = [Counter({(0,) * 6: Fraction(1)})]
    for m in range(1, n + 1):
        acc = Counter()
        for k in range(1, m + 1):
            s = (-1) ** (k - 1) if anti else 1
            pk = Counter()
            for w, mu in x.items():
                if k * w[5] <= nmax:
                    pk[tuple(k * t for t in w)] += s * mu
            for w, c in gmul(pk, hs[m - k], nmax).items():
                acc[w] += c
        hs.append(Counter({w: c / m for w, c in acc.items() if c}))
    return hs[n]


def count(mono, nd, nf, eom=True):
    """number of operators with these fields and nd derivatives, up to total derivatives
    (and, if eom, the equations of motion)"""
    c = Counter({(0,) * 6: 1})
    for n, k in mono:
        x = module(FIELDS[n][0], nd, eom)
        if fermi(n):
            x = Counter({w: m * nf for w, m in x.items()})
        c = gmul(c, gpower(x, k, fermi(n), nd), nd)
    tot = 0
    for k in range(min(4, nd) + 1):
        sl = Counter({w[:5]: m for w, m in c.items() if w[5] == nd - k})
        tot += (-1) ** k * reps.multiplicity(reps.mul(sl, ALT[k]))
    return tot


def contents(dim, names, sel):
    """all contents (number of derivatives, fields) of the dimension that conserve hypercharge and meet sel(L, 3B)"""
    def rec(i, left, y, l, b, acc):
        if i == len(names):
            if left % 2 == 0 and y == 0 and sel(l, b) and acc:
                yield left // 2, tuple(sorted(acc))
            return
        d, yy, ll, bb, m = FIELDS[names[i]]
        k = 0
        while k * m <= left:
            yield from rec(i + 1, left - k * m, y + k * yy, l + k * ll, b + k * bb, acc + ([(names[i], k)] if k else []))
            k += 1
    yield from rec(0, 2 * dim, Fraction(0), 0, 0, [])


def read_terms(expr):
    """{(derivatives, ((name, power), ...)): coefficient}"""
    import sympy
    out = {}
    for t in sympy.Add.make_args(sympy.expand(expr)):
        co, mono, d = sympy.Integer(1), [], 0
        for a in sympy.Mul.make_args(t):
            b, e = a.as_base_exp()
            if isinstance(b, sympy.Function):
                mono.append((str(b.func), int(e)))
            elif str(b) == "D":
                d = int(e)
            else:
                co *= a
        k = (d, tuple(sorted(mono)))
        out[k] = out.get(k, 0) + co
    return out


# --- derivatives --------------------------------------------------------------
def choices(name, k):
    """Lorentz irreps of a field with k derivatives (equations of motion removed as the code documents)"""
    u, d = int(FIELDS[name][0][0]), int(FIELDS[name][0][1])
    cur = {(u, d)}
    for _ in range(k):
        new = set()
        for a, b in cur:
            for x, y in ((1, 1), (-1, 1), (1, -1)) if (u + d) % 2 else ((1, 1), (-1, -1)):
                if a + x >= 0 and b + y >= 0:
                    new.add((a + x, b + y))
        cur = new
    return cur


def placements(nd, mono):
    """all fields contents: set of sorted tuples of (name, derivatives, irrep)"""
    flat = [n for n, k in mono for _ in range(k)]
    out = set()
    for comb in itertools.combinations_with_replacement(range(len(flat)), nd):
        ks = Counter(comb)
        opts = [[(n, ks.get(i, 0), ir) for ir in choices(n, ks.get(i, 0))] for i, n in enumerate(flat)]
        for c in itertools.product(*opts):
            out.add(tuple(sorted(c)))
    return out


def describe(f):
    """(name, derivatives, irrep) of a field"""
    lab, n = str(f.label).replace("†", ""), f.derivs or 0
    for _ in range(n):
        assert lab.startswith("D"), f
        lab = lab[1:]
    if f.is_conj:
        lab += "b" if lab in "GWB" else "d"
    return lab, n, tuple(f.lorentz_irrep)


def same_charges(f):
    name = describe(f)[0]
    d, y, l, b, m = FIELDS[name]
    return "".join(map(str, f.dynkin))[2:] == d[2:] and comp.frac(f.charges.get("y", 0)) == y


def TASKS(tier, seed):
    n = 30 if tier == "quick" else 400
    return ([(f"H9.{i}", ("series", ("H9_LNV", 9, i, 6))) for i in range(6)] + [(f"H11.{i}", ("series", ("H11_LNV", 11, i, 4))) for i in range(4)]
            + [("H7", ("series", ("H7_LNV", 7, 0, 1))), ("H6", ("six", None)), ("complete", ("complete", None)), ("read", ("read", None)), ("bl", ("bl", None)), ("longest", ("longest", tier))]
            + [(f"rand{i}", ("rand", n)) for i in range(4)])


def series(ctx, name, dim, i, n):
    import sympy
    from neutrinomass.tensormethod import hs, parse_hs
    expr = getattr(hs, name)
    A = read_terms(expr)
    three = read_terms(getattr(parse_hs, name + "_NF3"))
    ctx.check(set(A) == set(three), "series:three-flavours", name)
    for k in sorted(A)[i::n]:
        nd, mono = k
        txt = lambda: f"{name}: D^{nd} {mono} with coefficient {A[k]}"
        ctx.event("terms")
        ctx.case(sig=(name, k), nontrivial=nd > 0 or any(e > 1 for _, e in mono), sample=txt())
        if not ctx.check(all(x in FIELDS for x, _ in mono), "series:fields", txt):
            continue
        ctx.check(sum(FIELDS[x][4] * e for x, e in mono) + 2 * nd == 2 * dim, "series:dimension", txt)
        for q, lab in ((1, "hypercharge"), (2, "lepton"), (3, "baryon")):
            ctx.check(sum(FIELDS[x][q] * e for x, e in mono) == (2 if lab == "lepton" else 0), f"series:{lab}", txt)
        for nf in (1, 2, 3, 4):
            v, w = sympy.sympify(A[k]).subs(hs.Nf, nf), count(mono, nd, nf)
            ctx.event("recounted")
            ctx.event("recounted_derivative", int(nd > 0))
            ctx.check(v == w, "series:count", lambda: f"{txt()}: {v} operators for {nf} flavours, counted {w}")
            if nf == 3:
                ctx.check(three.get(k) == w, "series:three-flavours", lambda: f"{txt()}: {three.get(k)} instead of {w}")


def reading(ctx, nd, mono, term, txt):
    """reading one term gives every placement of the derivatives"""
    from neutrinomass.tensormethod.parse_hs import parse
    g = ctx.guarded("parse:raises", txt, cpu=120)
    with g:
        got = parse([term])
    if not g.ok:
        return
    ctx.event("read")
    ctx.event("read_derivative", int(nd > 0))
    want = placements(nd, mono)
    fs = {tuple(sorted(map(describe, c))) for c in got}
    ctx.check(fs == want, "parse:contents", lambda: f"{txt()}: missing {sorted(want - fs)[:3]}, surplus {sorted(fs - want)[:3]}")
    ctx.check(all(same_charges(f) for c in got for f in c), "parse:fields", lambda: f"{txt()}: {got[0]}")
    if nd == 0:
        ctx.check(len(got) == 1, "parse:contents", lambda: f"{txt()}: {got}")


def expression(nd, mono, co=1):
    from neutrinomass.tensormethod import hs
    t = co * hs.D ** nd if nd else co
    for n, k in mono:
        t = t * getattr(hs, n)(hs.X) ** k
    return t


def wanted_structure(content):
    """the derivative structures that are kept: at most one derivative on a field, none in the irreps (2,1), (1,2)"""
    return all(n == 0 or (n != 2 and ir in ((1, 1), (0, 1), (1, 0))) for _, n, ir in content)


def RUN(ctx, payload):
    import sympy
    kind, arg = payload
    rng = ctx.rng
    from neutrinomass.tensormethod import hs, parse_hs
    if kind == "series":
        return series(ctx, *arg)
    if kind == "six":
        seen = {}
        for t in hs.H6:
            (k, v), = read_terms(t).items()
            nd, mono = k
            ctx.event("terms")
            ctx.case(sig=("H6", k), nontrivial=True, sample=str(t))
            ctx.check(k not in seen, "six:repeated", str(t))
            seen[k] = v
            w = count(mono, nd, 1, eom=False)
            ctx.event("recounted")
            ctx.event("recounted_derivative", int(nd > 0))
            ctx.check(v == w, "six:count", lambda: f"{t}: counted {w}")
        for nd, mono in contents(6, MATTER, lambda l, b: True):
            ctx.event("contents_enumerated")
            if count(mono, nd, 1, eom=False) > 0:
                ctx.check((nd, mono) in seen, "six:missing", lambda: f"D^{nd} {mono}")
        return
    if kind == "complete":
        for name, dim in (("H7_LNV", 7), ("H9_LNV", 9), ("H11_LNV", 11)):
            A = read_terms(getattr(hs, name))
            names = list(FIELDS) if dim < 11 else MATTER
            for nd, mono in contents(dim, names, lambda l, b: l == 2 and b == 0):
                if dim == 11 and nd:
                    continue
                ctx.event("contents_enumerated")
                if (nd, mono) not in A:
                    w = count(mono, nd, 3)
                    ctx.check(w == 0, "series:missing", lambda: f"{name} lacks D^{nd} {mono}: {w} operators")
        return
    if kind == "read":
        for f, fld in parse_hs.FIELD_LOOKUP.items():
            name = str(f.func)
            ctx.event("lookups")
            d, y, l, b, m = FIELDS[name]
            ctx.check("".join(map(str, fld.dynkin)) == d and comp.frac(fld.charges.get("y", 0)) == y and comp.frac(fld.charges.get("3b", 0)) == b, "lookup", lambda: f"{f}: {fld}")
        ctx.check({str(f.func) for f in parse_hs.FIELD_LOOKUP} == set(FIELDS), "lookup", lambda: str(list(parse_hs.FIELD_LOOKUP)))
        for name in ("H7_LNV", "H9_LNV", "H11_LNV"):
            whole = set()
            for (nd, mono), co in read_terms(getattr(hs, name)).items():
                t = expression(nd, mono, sympy.sympify(co).subs(hs.Nf, 3))
                reading(ctx, nd, mono, t, lambda: str(t))
                whole |= placements(nd, mono)
            with ctx.guarded("parse:raises", name, cpu=200) as g:
                got = {tuple(sorted(map(describe, c))) for c in parse_hs.parse(getattr(parse_hs, name + "_NF3"))}
                ctx.check(got == whole, "parse:series", lambda: f"{name}: missing {sorted(whole - got)[:3]}, surplus {sorted(got - whole)[:3]}")
        for t in hs.H6:
            ((nd, mono), co), = read_terms(t).items()
            reading(ctx, nd, mono, t, lambda: str(t))
        return
    if kind == "rand":
        for _ in range(arg):
            k = rng.randint(1, 4)
            mono = tuple(sorted((n, rng.choice((1, 1, 2, 3))) for n in rng.sample(list(FIELDS), k)))
            nd = rng.choice((0, 1, 1, 2, 2, 3, 4))
            if len(mono) == 1 and mono[0][1] == 1:
                continue
            if nd == 4 and sum(e for _, e in mono) > 5:
                nd = 2
            t = expression(nd, mono, rng.choice((1, 1, 2, 5)))
            ctx.case(sig=("random", nd, mono), nontrivial=nd > 0, sample=str(t))
            reading(ctx, nd, mono, t, lambda: str(t))
            # the irreps of one field with derivatives
            n, j = rng.choice(list(FIELDS)), rng.randint(0, 4)
            fld = parse_hs.FIELD_LOOKUP[getattr(hs, n)(hs.X)]
            g = ctx.guarded("deriv:raises", lambda: f"{n} with {j} derivatives", cpu=60)
            with g:
                got = parse_hs.deriv_possibilities(fld, j)
                ctx.event("field_choices")
                ctx.check({describe(f) for f in got} == {(n, j, ir) for ir in choices(n, j)}, "deriv:choices", lambda: f"{n} with {j} derivatives: {got}")
                for f in got:
                    ctx.check(same_charges(f) and f.is_fermion == fermi(n), "deriv:field", lambda: f"{n}: {f}")
            # selection of derivative structures
            if nd:
                from neutrinomass.tensormethod.deriv_operators import remove_unwanted_deriv_structures
                g = ctx.guarded("deriv:raises", lambda: str(t), cpu=60)
                with g:
                    alls = parse_hs.parse([t])
                    kept = remove_unwanted_deriv_structures(alls)
                    want = [c for c in alls if wanted_structure([describe(f) for f in c])]
                    ctx.check(list(map(repr, kept)) == list(map(repr, want)), "deriv:structures", lambda: f"{t}: {kept[:3]}")
        return
    if kind == "bl":
        return classification(ctx)
    if kind == "longest":
        return longest(ctx, arg)


def classification(ctx):
    """the operators of the literature and the labels of the catalogue's operators"""
    rng = ctx.rng
    import re
    from neutrinomass.tensormethod.lnv import BL_LIST
    from neutrinomass.tensormethod import sm
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    nm = lambda s: s[:-5] + "d" if s.endswith(".conj") else s
    table = {}
    for names, label in BL_LIST.items():
        ctx.event("bl_contents")
        txt = lambda: f"{label}: {names}"
        fs = [nm(s) for s in names]
        ctx.case(sig=("bl", tuple(sorted(fs))), sample=txt())
        if not ctx.check(all(f in MATTER for f in fs), "bl:fields", txt):
            continue
        tot = lambda q: sum(FIELDS[f][q] for f in fs)
        ctx.check(tot(1) == 0 and tot(2) == 2 and tot(3) == 0, "bl:charges", txt)
        ctx.check(tot(4) in (10, 14, 18, 22), "bl:dimension", txt)
        ctx.check(count(tuple(sorted(Counter(fs).items())), 0, 3) > 0, "bl:no-operator", txt)
        ctx.check(label not in table.values(), "bl:label-twice", txt)
        table[tuple(sorted(fs))] = label
    cat = {}
    for fields, label in sm.LNV_OPERATORS.items():
        cat[tuple(sorted(describe(f)[0] for f in fields))] = label
    ctx.check(cat == table, "bl:fields-table", lambda: f"{len(cat)} contents instead of {len(table)}")
    for name, eff in {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}.items():
        op = eff.operator
        g = ctx.guarded("bl:raises", lambda: f"{name}: {op}", cpu=60)
        with g:
            got = op.BL_classification
            ctx.event("bl_operators")
            key = tuple(sorted(describe(f)[0] for f in op.fields))
            if any(f.derivs for f in op.fields):
                want = -1
            else:
                want = table.get(key, -1)
                m = re.fullmatch(r"(\d+)[a-z]?", name)
                ctx.check(m is None or want in (-1, int(m.group(1))), "bl:label", lambda: f"{name}: {op.fields} is {want}")
            ctx.check(got == want, "bl:classification", lambda: f"{name}: {op}: {got} instead of {want}")
            # whatever the order of the fields
            from functools import reduce
            from neutrinomass.tensormethod.core import IndexedField
            ts = [t for t in op.tensors if isinstance(t, IndexedField)]
            rest = [t for t in op.tensors if not isinstance(t, IndexedField)]
            rng.shuffle(ts)
            o2 = reduce(lambda x, y: x * y, ts + rest)
            ctx.check(o2.BL_classification == want, "bl:order", lambda: f"{o2}: {o2.BL_classification}")


def longest(ctx, tier):
    """the derivative operators that get a name"""
    rng = ctx.rng
    from neutrinomass.tensormethod import deriv_operators as m
    from neutrinomass.tensormethod.contract import invariants
    from neutrinomass.tensormethod.parse_hs import parse
    names = m.deriv_operator_names
    seen = {}
    series = {}
    from neutrinomass.tensormethod import hs
    for n in ("H7_LNV", "H9_LNV"):
        series.update({k: n for k in read_terms(getattr(hs, n)) if k[0] and not any(x in FS for x, _ in k[1])})
    for k, v in names.items():
        (t, co), = read_terms(v).items()
        ctx.check(t not in seen, "names:twice", lambda: f"{k}: {v}")
        seen[t] = k
        tot = lambda q: sum(FIELDS[x][q] * e for x, e in t[1])
        ctx.check(co == 1 and t[0] > 0 and tot(1) == 0 and tot(2) == 2 and tot(3) == 0 and tot(4) + 2 * t[0] in (14, 18), "names:content", lambda: f"{k}: {v}")
    for t in series:
        ctx.check(t in seen, "names:missing", lambda: f"D^{t[0]} {t[1]} is in {series[t]} but has no name")
    chosen = ["1", "2", "3", rng.choice(["8", "10", "14"]), rng.choice(["13", "15", "4"])] if tier == "quick" else list(names)
    picked = {k: names[k] for k in chosen}
    g = ctx.guarded("longest:raises", str(chosen), cpu=800)
    with g:
        out = m.longest_deriv_invariants(picked)
    if not g.ok:
        return
    ctx.check(list(out) == chosen, "longest:keys", lambda: str(list(out)))
    for k in chosen:
        (t, _), = read_terms(names[k]).items()
        lens = [len(invariants(*c)) for c in parse([names[k]]) if wanted_structure([describe(f) for f in c])]
        ctx.event("longest")
        ctx.case(sig=("longest", k), nontrivial=True, sample=f"{names[k]}: {out[k]}")
        ctx.check(len(out[k]) == max(lens, default=0), "longest:length", lambda: f"{k}: {len(out[k])} invariants, lists of {lens}")
        for o in out[k]:
            c = [describe(f) for f in o.fields]
            ctx.check(Counter(n for n, _, _ in c) == Counter(dict(t[1])) and sum(n for _, n, _ in c) == t[0], "longest:content", lambda: f"{k}: {o}")
    g = ctx.guarded("labels:raises", str(chosen), cpu=60)
    with g:
        lab = m.label_operators(out)
        want = []
        for k in chosen:
            want += [(k if len(out[k]) == 1 else k + "abcdefghijklmnopqrstuvwxyz"[i], o) for i, o in enumerate(out[k])]
        ctx.check([(a, str(b)) for a, b in lab.items()] == [(a, str(b)) for a, b in want], "labels", lambda: str(list(lab)))
