"""C04: the invariants built from given fields are invariant, complete and not repeated."""
import itertools
from collections import Counter
from nmv import gen, reps, tens

PID = "C04"
RULE = ("a case is a list of 2-5 SM or exotic fields and a set of ignored index kinds; non-trivial when at least one invariant exists and one kind has >= 2 indices; distinct by (fields, ignored)")
ASSUMPTIONS = ["colour content restricted to what colour_singlets documents: up to three (anti)triplet pairs, or exactly three (anti)triplets"]
MIN = {"spans": 60, "invariants_built": 150, "no_invariant": 10, "clean_cover": 30, "repeat_checks": 3, "colour_spans": 20}


FIXED = [
    (("L", "L", "H", "H"), "udc"), (("L", "L", "L", "eb", "H"), "udc"), (("L", "L", "Q", "db", "H"), "udc"), (("L", "L", "Q", "db", "H"), "ud"),
    (("L", "L", "Q", "db", "H"), ""), (("L", "L", "Q†", "ub†", "H"), ""), (("L", "L", "H", "H", "H", "H†"), "udc"), (("Q", "Q", "Q", "L"), "ud"),
    (("Q", "Q", "Q", "L"), ""), (("L", "H", "eb"), ""), (("Q", "H", "ub"), ""), (("Q", "H†", "db"), ""), (("H", "H†", "H", "H†"), ""),
    (("L", "L†", "H", "H†"), ""), (("L", "L", "Q", "db", "Q", "db"), "ud"), (("L", "L", "Q", "Q†", "H", "H"), "ud"), (("Q", "Q", "ub†", "eb†"), ""),
    (("L", "eb", "Q", "ub"), ""), (("L", "L", "eb", "L", "eb", "L"), "u"), (("H", "H"), ""), (("L", "H"), ""), (("H", "H", "H†"), ""), (("eb", "eb", "H"), ""),
    (("L", "L", "L", "L"), ""), (("Q", "L", "db"), ""), (("L", "L", "L", "H", "H", "H"), "udc"), (("L", "L", "L†", "H", "H", "H"), "udc"),
    (("L", "L", "H", "H", "Q", "Q†"), "udc"), (("Q†", "Q", "Q†", "Q"), "udc"),
]
# remove_relabellings compares the pairs in sorted orientation only and keeps two of these three (recorded in known_findings.json)
KNOWN_REPEAT = ("Q†", "Q", "Q†", "Q")


def TASKS(tier, seed):
    n = 16 if tier == "quick" else 96
    return [(f"rand{i}", ("r", 9 if tier == "quick" else 40)) for i in range(n)] + [(f"sm{i}", ("f", f)) for i, f in enumerate(FIXED)] + \
        [(f"colour{i}", ("c", 6 if tier == "quick" else 25)) for i in range(4 if tier == "quick" else 16)]


def by_name(nm):
    from neutrinomass.tensormethod import sm
    f = getattr(sm, nm.replace("†", ""))
    return f.conj if "†" in nm else f


def relabel(op):
    """rename free indices (and generations) by the place they occupy, so operators on the same
    fields can be compared component by component"""
    from neutrinomass.tensormethod.core import IndexedField
    return op


def slot_poly(op, limit=40000):
    """component polynomial with every free index named after (field label, occurrence, slot)"""
    _, nodes = tens.network(op)
    free, _ = tens.free_and_bound(nodes)
    occ = Counter()
    m = {}
    for n, nd in enumerate(nodes):
        if nd.kind == "F":
            k = occ[nd.label]
            occ[nd.label] += 1
            if any((kind, nm) in free for kind, nm, _ in nd.legs):
                nd.label2 = f"{nd.label}.{k}"
            for p, (kind, nm, up) in enumerate(nd.legs):
                if (kind, nm) in free:
                    m[(kind, nm)] = f"{nd.label}.{k}.{p}"
    for nd in nodes:
        nd.legs = [(k, m.get((k, nm), nm), up) for k, nm, up in nd.legs]
        if nd.label2:
            nd.label = nd.label2
    return tens.poly(_Wrap(nodes), limit=limit)


class _Wrap:
    def __init__(self, nodes):
        self.nodes = nodes


_net = tens.network


def _network(x):
    if isinstance(x, _Wrap):
        from fractions import Fraction
        return Fraction(1), x.nodes
    return _net(x)


tens.network = _network


def expected(fields, ignore):
    """dimension of the space of invariants in the kinds not ignored; fields with generation indices (nf=3) are distinguishable.
    Ignored kinds stay free: they make every field slot distinguishable only through the components, so plain tensor product multiplicity
    is used per kind and the exchange symmetry of flavourless fields is applied only if nothing is ignored or those fields carry no ignored index."""
    keep = [k for k in "udci" if k not in ignore]
    char = Counter({(0,) * 5: 1})
    groups = Counter()
    rep = {}
    for f in fields:
        groups[repr(f)] += 1
        rep[repr(f)] = f
    for r, n in groups.items():
        f = rep[r]
        masked = reps.mask(f.dynkin, keep)
        w = reps.weights(masked)
        if f.nf == 3 or masked != f.dynkin:
            for _ in range(n):
                char = reps.mul(char, w)
        else:
            char = reps.mul(char, reps.power(w, n, str(f.comm) == "fermi"))
    return reps.multiplicity(char)


def exp_fields(rng):
    from sympy import Rational
    from neutrinomass.tensormethod import sm
    pool = [sm.L, sm.eb, sm.H, sm.Q, sm.db, sm.ub]
    pool = pool + [f.conj for f in pool]
    ext = [f for f in gen.make_pool(rng, nf3=True)[12:]]
    k = rng.choice([2, 3, 3, 4, 4, 5])
    for _ in range(300):
        kinds = rng.sample(pool + ext[:5], rng.randint(1, min(k, 3)))
        fs = [rng.choice(kinds) for _ in range(k)]
        u, d, cu, cd, i = gen.counts(fs)
        if u % 2 or d % 2 or i % 2 or u + d + i > 8 or (len(fs) == 5 and cu > 1):
            continue
        if not ((cu == cd and cu <= 2) or (cu == 3 and cd == 0) or (cd == 3 and cu == 0)):
            continue
        if max(int(x) for f in fs for x in f.dynkin[2:4]) > 1 or any(f.dynkin[2] != "0" and f.dynkin[3] != "0" for f in fs):
            continue
        if reps.multiplicity(reps.product([f.dynkin for f in fs])) > 8:
            continue
        return fs
    return None


def neutral(fields):
    """copies with zero hypercharge (the decomposition only keeps neutral irreps)"""
    from neutrinomass.tensormethod.core import Field
    return [Field(f.label, dynkin=f.dynkin, charges={"y": 0, "3b": 0}, is_conj=f.is_conj, comm=f.comm, nf=f.nf, latex=f.latex) for f in fields]


def check_fields(ctx, fields, ignore, repeats=None):
    from neutrinomass.tensormethod.contract import unsimplified_invariants, clean_operators, invariants
    names = [f.label_with_dagger for f in fields]
    txt = f"{' '.join(f'{f!r}nf{f.nf}' for f in fields)} ignoring '{ignore}'"
    with ctx.guarded("unsimplified_invariants", txt, cpu=400) as g:
        ops = unsimplified_invariants(*fields, ignore=list(ignore))
    if not g.ok:
        return
    y0 = sum(f.charges["y"] for f in fields) == 0
    dimfull = reps.multiplicity(reps.product([f.dynkin for f in fields]))
    if not y0 or dimfull == 0:
        ctx.event("no_invariant")
        ctx.check(ops == [], "invariants:not-a-singlet", lambda: f"{txt}: {ops}")
        ctx.case(sig=(tuple(names), ignore, 0), nontrivial=False)
        return
    if not ctx.check(len(ops) > 0, "invariants:missing", txt):
        return
    ctx.event("invariants_built", len(ops))
    ctx.case(sig=(tuple((n, f.dynkin) for n, f in zip(names, fields)), ignore), nontrivial=any(sum(int(f.dynkin[j]) for f in fields) > 1 for j in range(5)), sample=txt + " -> " + str(ops[0]))
    keep = [k for k in "udci" if k not in ignore]
    polys = []
    for op in ops:
        ctx.check(sorted(f.label_with_dagger for f in op.fields) == sorted(names), "invariants:fields", lambda: f"{txt}: {op}")
        free = {str(i.tensor_index_type)[0].lower() for i in op.free_indices}
        ctx.check(not (free & set(keep)), "invariants:open-indices", lambda: f"{txt}: {op} has free {op.free_indices}")
        for k in ignore:
            kind = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin"}[k]
            nfree = len(op.indices_by_type[kind])
            tot = sum(len(f.indices_by_type[kind]) for f in op.indexed_fields)
            ctx.check(nfree == tot, "invariants:contracts-ignored", lambda: f"{txt}: {op}")
    try:
        polys = [slot_poly(op) for op in ops]
    except tens.Unsupported as e:
        ctx.event("skipped_size")
        polys = None
    if polys is not None:
        want = expected(fields, ignore)
        r = tens.rank(polys)
        ctx.event("spans")
        if "c" not in ignore and any(f.dynkin[2:4] != "00" for f in fields):
            ctx.event("colour_spans")
        ctx.check(r == want, "invariants:span", lambda: f"{txt}: rank {r}, {want} independent invariants exist; {len(ops)} structures {ops[:4]}")
    # cleaning: nothing is lost up to relabelling of free indices, nothing vanishing is kept
    if len(fields) <= 5:
        with ctx.guarded("clean", txt, cpu=400) as g:
            cl = clean_operators(ops)
        if g.ok:
            try:
                have = [tens.canon(o, free_names=False)[0] for o in cl]
                for o in ops:
                    f, v = tens.canon(o, free_names=False)
                    ctx.event("clean_cover")
                    ctx.check(f in have or polyzero(o), "clean:loses", lambda: f"{txt}: {o} not represented in {cl}")
            except tens.Unsupported:
                pass
            if "c" in ignore and "u" in ignore and "d" in ignore:
                with ctx.guarded("invariants", txt, cpu=400) as g:
                    inv = invariants(*fields)
                if g.ok:
                    have = Counter(tens.canon(o, free_names=False)[0] for o in inv)
                    ctx.event("invariants_lists")
                    for o in cl:
                        f = tens.canon(o, free_names=False)[0]
                        ctx.check(have[f] >= 1, "invariants:loses", lambda: f"{txt}: {o} not represented in {inv}")
                    if repeats:
                        ctx.event("repeat_checks")
                        ctx.check(all(n == 1 for n in have.values()), repeats, lambda: f"{txt}: {inv}")


def polyzero(op):
    try:
        return not tens.poly(op, limit=60000)
    except tens.Unsupported:
        return True


def RUN(ctx, payload):
    kind, x = payload
    rng = ctx.rng
    if kind == "f":
        names, ignore = x
        key = "invariants:repeats"
        if names == KNOWN_REPEAT:
            key = "invariants:repeats:opposite-orientation"
        check_fields(ctx, [by_name(n) for n in names], ignore, repeats=key)
        return
    if kind == "c":
        return colour(ctx, x)
    for _ in range(x):
        fs = exp_fields(rng)
        if fs is None:
            continue
        ignore = rng.choice(["udc", "ud", "", "c", "u", "di"])
        if rng.random() < 0.8:
            fs = neutral(fs)
        check_fields(ctx, fs, ignore)


def colour(ctx, n):
    """colour_singlets on open-colour products: exactly the singlets, all of them"""
    from functools import reduce
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.contract import colour_singlets
    rng = ctx.rng
    up = [sm.Q, sm.ub.conj, sm.db.conj]
    down = [sm.ub, sm.db, sm.Q.conj]
    for _ in range(n):
        a, b = rng.choice([(1, 1), (2, 2), (3, 3), (3, 0), (0, 3), (2, 1), (1, 0), (4, 1)])
        fs = [rng.choice(up) for _ in range(a)] + [rng.choice(down) for _ in range(b)]
        rng.shuffle(fs)
        ix = gen.index_fields(fs, gens=True)
        ts = [f(" ".join(i)) for f, i in ix]
        op = reduce(lambda p, q: p * q, ts) if len(ts) > 1 else None
        if op is None:
            op = ts[0] * sm.H("i99")
        txt = str(op)
        over = rng.random() < 0.3
        ok = (a == b) or (a, b) in ((3, 0), (0, 3))
        if not ok:
            try:
                r = colour_singlets([op], overcomplete=over)
                ctx.violate("colour_singlets:accepts", f"{txt} -> {r}")
            except ValueError:
                ctx.event("colour_refused")
            continue
        with ctx.guarded("colour_singlets", txt, cpu=120) as g:
            res = colour_singlets([op], overcomplete=over)
        if not g.ok:
            continue
        ctx.case(sig=("colour", a, b, over, tuple(repr(f) for f in fs)), sample=txt)
        polys = []
        for o in res:
            ctx.check(not o.indices_by_type["Colour"], "colour_singlets:open", lambda: f"{txt} -> {o}")
        try:
            polys = [colour_poly(o) for o in res]
        except tens.Unsupported:
            continue
        want = {(1, 1): 1, (2, 2): 2, (3, 3): 6, (3, 0): 1, (0, 3): 1}[(a, b)]
        ctx.event("colour_spans")
        ctx.check(tens.rank(polys) == want, "colour_singlets:span", lambda: f"{txt} -> rank {tens.rank(polys)} of {len(res)}, want {want}")


def colour_poly(op):
    """polynomial in the colour components only (other indices dropped)"""
    _, nodes = tens.network(op)
    n = 0
    for nd in nodes:
        nd.legs = [l for l in nd.legs if l[0] == "Colour"]
        if nd.kind == "F":
            nd.label = f"{nd.label}#{n}"
            n += 1
    nodes = [nd for nd in nodes if nd.kind == "F" or nd.legs]
    return tens.poly(_Wrap(nodes))
