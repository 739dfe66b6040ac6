"""C03: simplification of operators keeps their meaning, and decides vanishing and
equality exactly (up to monoterm symmetries)."""
from collections import Counter

from nmv import gen, tens

PID = "C03"
RULE = ("a case is a random fully contracted product of 2-5 fields (SM and exotic representations, repeated fields, epsilon/delta "
        "contractions) together with a renamed/reordered copy and a re-contracted sibling; non-trivial when at least two fields share a label "
        "or the operator has >= 3 contractions; distinct by canonical form")
MIN = {"zero_by_symmetry": 5, "nonzero": 50, "rewritten_equal": 50, "siblings_equal": 5, "siblings_different": 20, "clean_lists_exact": 20, "nonzero_exact": 50, "nonzero_pairs": 100}


def TASKS(tier, seed):
    n = 16 if tier == "quick" else 128
    return [(f"rand{i}", (i, 45 if tier == "quick" else 150)) for i in range(n)]


def exact_class(fields, indexed, inv):
    """The class on which canonicalisation is claimed to be *complete*: at most four
    fields of spin <= 1/2, at most one of them occurring twice, no colour epsilon,
    and the repeated pair neither coloured and contracted together nor linked to one
    and the same tensor through colour deltas (there sympy 1.2's own canonicaliser, a dependency, is incomplete; see
    DESIGN.md).  Soundness is checked on everything."""
    if len(fields) > 4 or any(int(f.dynkin[0]) + int(f.dynkin[1]) > 1 for f in fields):
        return False
    cnt = {}
    for f in fields:
        cnt[f.label_with_dagger] = cnt.get(f.label_with_dagger, 0) + 1
    rep = [k for k, n in cnt.items() if n > 1]
    if len(rep) > 1 or any(n > 2 for n in cnt.values()):
        return False
    if any(k == "eps" and s.lstrip("-")[0] == "c" for k, s in inv):
        return False
    if not rep:
        return True
    own = {x.lstrip("-"): n for n, (f, idx) in enumerate(indexed) for x in idx}
    ends = []
    for k, s in inv:
        if k == "eps" and any(kk == "delta" for kk, _ in inv):
            if {fields[own[x.lstrip("-")]].label_with_dagger for x in s.split()} == {rep[0]}:
                return False
        if k == "delta":
            a, b = [own[x.lstrip("-")] for x in s.split()]
            la, lb = fields[a].label_with_dagger, fields[b].label_with_dagger
            if la == rep[0] and lb == rep[0]:
                return False
            if la == rep[0]:
                ends.append(b)
            if lb == rep[0]:
                ends.append(a)
    return len(set(ends)) == len(ends)


def simp(op):
    z = op.safe_simplify()
    return z


def is_zero(z):
    return z == 0


def RUN(ctx, payload):
    i, n = payload
    rng = ctx.rng
    from neutrinomass.tensormethod.contract import clean_operators
    for c in range(n):
        gens = rng.random() < 0.25
        pool = gen.make_pool(rng, nf3=gens)
        small = rng.random() < 0.6
        fs = gen.random_fields(rng, pool, nmax=4 if small else 5)
        if fs is None:
            continue
        ix = gen.index_fields(fs, gens=gens)
        inv = gen.random_contraction(rng, ix)
        txt = gen.describe(ix, inv)
        exact = exact_class(fs, ix, inv)
        with ctx.guarded("simplify", txt, cpu=120) as g:
            op = gen.build(ix, inv)
            z = simp(op)
        if not g.ok:
            continue
        try:
            form, vanish = tens.canon(op)
            p = tens.poly(op, limit=60000)
        except tens.Unsupported:
            ctx.event("skipped_size")
            continue
        nontriv = len({f.label_with_dagger for f in fs}) < len(fs) or len(inv) >= 3
        ctx.case(sig=form, nontrivial=nontriv, sample=txt)
        if is_zero(z):
            ctx.event("zero_by_symmetry")
            ctx.check(not p, "simplify:drops-nonvanishing", txt)
            ctx.check(vanish, "simplify:zero-not-by-symmetry", txt)
        else:
            ctx.event("nonzero")
            if max(Counter(f.label_with_dagger for f in fs).values()) <= 2:
                # exchanges of two identical fields are always recognised
                ctx.event("nonzero_pairs")
                ctx.check(not vanish, "simplify:keeps-vanishing", txt)
            if exact:
                ctx.event("nonzero_exact")
                ctx.check(not vanish, "simplify:keeps-vanishing", txt)
            try:
                q = tens.poly(z, limit=60000)
                ctx.check(tens.poly_sign_equal(p, q) != 0, "simplify:changes-operator", lambda: f"{txt} -> {z}")
            except tens.Unsupported as e:
                ctx.event("unreadable_result")
        # the coefficient-free operator, and its factors in any order
        shuffled = list(op.tensors)
        rng.shuffle(shuffled)
        with ctx.guarded("simplify", txt, cpu=120) as g:
            zn = simp(op.nocoeff)
            zs = simp(type(op)(*shuffled))
        if g.ok:
            ctx.event("factor_orders")
            ctx.check(is_zero(zn) == is_zero(z), "simplify:nocoeff", lambda: f"{txt}: {z} but without coefficient {zn}")
            ctx.check(not is_zero(zs) or (vanish and not p), "simplify:drops-nonvanishing", lambda: f"{txt} with factors in the order {shuffled}")
            if exact and not is_zero(z):
                ctx.check(not is_zero(zs) and nocoeff(zs) == nocoeff(z), "simplify:not-canonical", lambda: f"{txt}: {z}; factors in the order {shuffled}: {zs}")
        # the same operator written differently
        ix2, inv2 = gen.rename(rng, ix, inv)
        with ctx.guarded("simplify", txt, cpu=120) as g:
            op2 = gen.build(ix2, inv2)
            z2 = simp(op2)
        if g.ok:
            a, b = nocoeff(z), nocoeff(z2)
            ctx.event("rewritten_equal")
            if is_zero(z2):
                ctx.check(vanish and not p, "simplify:drops-nonvanishing", lambda: gen.describe(ix2, inv2))
            if exact:
                ctx.event("rewritten_exact")
                ctx.check(a == b, "simplify:not-canonical", lambda: f"{txt} vs {gen.describe(ix2, inv2)}: {z} / {z2}")
                # (two spellings of one operator)
        # another contraction of the same fields
        inv3 = gen.random_contraction(rng, ix)
        with ctx.guarded("simplify", txt, cpu=120) as g:
            op3 = gen.build(ix, inv3)
            z3 = simp(op3)
        if not g.ok:
            continue
        try:
            form3, vanish3 = tens.canon(op3)
        except tens.Unsupported:
            continue
        if not vanish and not vanish3:
            same = form == form3
            ctx.event("siblings_equal" if same else "siblings_different")
            exact3 = exact and exact_class(fs, ix, inv3)
            equal = nocoeff(z) == nocoeff(z3)
            ctx.check(same or not equal, "simplify:conflates", lambda: f"{txt} vs {gen.describe(ix, inv3)}: {z} / {z3}")
            ctx.check(equal or not same or not exact3, "simplify:equality", lambda: f"{txt} vs {gen.describe(ix, inv3)}: expected {'equal' if same else 'different'}: {z} / {z3}")
        open_indices(ctx, ix, inv)
        # list cleaning (free generation indices are filled in order of appearance: only without them)
        if not gens:
            allexact = exact and exact_class(fs, ix, inv3)
            ops, forms = [op, op2, op3], [(form, vanish), (form, vanish), (form3, vanish3)]
            for _ in range(3):
                invk = gen.random_contraction(rng, ix)
                ok = gen.build(ix, invk)
                try:
                    forms.append(tens.canon(ok))
                except tens.Unsupported:
                    break
                ops.append(ok)
                allexact = allexact and exact_class(fs, ix, invk)
            if len(ops) != len(forms):
                continue
            with ctx.guarded("clean_operators", txt, cpu=240) as g:
                out = clean_operators(ops)
            if not g.ok:
                continue
            ctx.event("clean_lists")
            want = {f for f, v in forms if not v}
            got = [tens.canon(o) for o in out]
            ctx.check(want <= {f for f, _ in got}, "clean_operators:loses", lambda: f"{txt}: {len(want)} inequivalent given, {out}")
            ctx.check({f for f, _ in got} <= {f for f, _ in forms}, "clean_operators:invents", lambda: f"{txt}: {out}")
            if allexact:
                ctx.event("clean_lists_exact")
                ctx.check(not any(v for _, v in got), "clean_operators:keeps-vanishing", lambda: f"{txt}: {out}")
                ctx.check(len(got) == len({f for f, _ in got}), "clean_operators:duplicates", lambda: f"{txt}: {out}")


def open_indices(ctx, ix, inv):
    """the same operator with some contractions left open"""
    from collections import Counter
    rng = ctx.rng
    if not inv:
        return
    inv4 = [x for x in inv if rng.random() < 0.5]
    if len(inv4) == len(inv):
        inv4 = inv4[1:]
    txt = gen.describe(ix, inv4) + " (open)"
    with ctx.guarded("simplify-open", txt, cpu=120) as g:
        op = gen.build(ix, inv4)
        if not hasattr(op, "safe_simplify") or not op.get_indices():
            return
        filled = op.fill_free_indices()
        z = simp(op)
        zf = op.safe_simplify(fill=True)
    if not g.ok:
        return
    try:
        p = tens.poly(op, limit=20000)
        form, _ = tens.canon(op, free_names=False)
        ff, _ = tens.canon(filled, free_names=False)
    except tens.Unsupported:
        ctx.event("skipped_size")
        return
    ctx.event("open_operators")
    kinds = lambda o: Counter((str(i.tensor_index_type), bool(i.is_up)) for i in o.get_free_indices())
    ctx.check(kinds(filled) == kinds(op), "fill:open-indices", lambda: f"{txt}: {filled}")
    ctx.check(ff == form, "fill:changes-operator", lambda: f"{txt}: {filled}")
    if is_zero(z):
        ctx.check(not p, "simplify:drops-nonvanishing", txt)
    else:
        try:
            ctx.check(tens.poly_sign_equal(p, tens.poly(z, limit=20000)) != 0, "simplify:changes-operator", lambda: f"{txt} -> {z}")
        except tens.Unsupported:
            ctx.event("unreadable_result")
    if is_zero(zf):
        ctx.check(not p, "simplify:drops-nonvanishing", lambda: txt + " filled")
    else:
        ctx.event("open_filled")
        ctx.check(kinds(zf) == kinds(op), "fill:open-indices", lambda: f"{txt}: simplified {zf}")
        try:
            fz, _ = tens.canon(zf, free_names=False)
            # when it vanishes there is no canonical form
            ctx.check(not p or fz == form, "fill:changes-operator", lambda: f"{txt}: simplified {zf}")
        except tens.Unsupported:
            ctx.event("unreadable_result")


def nocoeff(z):
    return 0 if is_zero(z) else z.nocoeff
