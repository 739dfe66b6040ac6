"""C24: the generic helpers (de-duplication, pattern matching, conjugation of field names, folding, replacing) keep their contracts."""
import itertools
import re
from collections import Counter
from fractions import Fraction

PID = "C24"
RULE = ("a case is one call of a helper with random input (lists with an equivalence or any symmetric relation, nested patterns, field and coupling names, words) judged by a direct definition; "
        "non-trivial when the input has repeated or nested elements; distinct by input")
MIN = {"deduplicated": 300, "intransitive": 80, "matched": 250, "rejected": 250, "conjugated_fields": 300, "conjugated_terms": 150, "fields_named": 150, "replaced": 100, "listed": 400, "fixed_points": 60, "derivative_words": 100}
ASSUMPTIONS = ["patterns and data use the same kind of sequence (list or tuple); keys of multiple_replace are words"]


def TASKS(tier, seed):
    n = 4 if tier == "quick" else 24
    out = []
    for i in range(n):
        out += [(f"dedup{i}", ("dedup", 120)), (f"match{i}", ("match", 250)), (f"names{i}", ("names", 120)), (f"lists{i}", ("lists", 120))]
    return out


def dedup(ctx, n):
    from neutrinomass.utils.functions import remove_equivalent, remove_equivalent_nopop, dropped_vals
    import neutrinomass.tensormethod.lagrangian  # noqa: F401  (users of the helpers)
    rng = ctx.rng
    for _ in range(n):
        size = rng.choice([0, 1, 2, 3, rng.randint(4, 14)])
        xs = [(rng.randint(0, 6), k) for k in range(size)]
        if rng.random() < 0.7:
            mod = rng.randint(1, 7)
            eq = lambda a, b: a[0] % mod == b[0] % mod
            ctx.event("deduplicated")
        else:
            rel = {frozenset(p) for p in itertools.combinations(range(size), 2) if rng.random() < 0.25}
            eq = lambda a, b: a[1] == b[1] or frozenset((a[1], b[1])) in rel
            ctx.event("intransitive")
        want = []
        for x in xs:
            if not any(eq(y, x) for y in want):
                want.append(x)
        txt = f"{xs}"
        ctx.case(sig=(txt, tuple(want)), nontrivial=len(want) < len(xs), sample=f"{txt} -> {want}")
        before = list(xs)
        with ctx.guarded("remove_equivalent_nopop", txt) as g:
            got = remove_equivalent_nopop(xs, eq)
        if g.ok:
            ctx.check(got == want, "dedup:nopop", lambda: f"{txt}: {got}, expected {want}")
            ctx.check(xs == before, "dedup:changed", txt)
        ys = list(xs)
        with ctx.guarded("remove_equivalent", txt) as g:
            remove_equivalent(ys, eq)
        g.ok and ctx.check(ys == want, "dedup:inplace", lambda: f"{txt}: {ys}, expected {want}")
        drop = {k for k in range(size) if rng.random() < 0.4}
        with ctx.guarded("dropped_vals", txt) as g:
            got = dropped_vals(xs, drop)
        g.ok and ctx.check(got == [x for k, x in enumerate(before) if k not in drop] and xs == before, "dropped", lambda: f"{txt} without {drop}: {got}")


# --- pattern matching ---------------------------------------------------------
def rand_data(rng, depth, seq):
    if depth == 0 or rng.random() < 0.45:
        return rng.choice(["a", "b", "", "x y", "S,00,0", 3, 7, Fraction(1, 2)])
    return seq(rand_data(rng, depth - 1, seq) for _ in range(rng.randint(0, 3)))


def hide(rng, data, binds, names, seq, p):
    """a pattern that matches data: some parts replaced by variables, equal parts may share one"""
    if rng.random() < p:
        same = [v for v, d in binds.items() if d == data]
        if same and rng.random() < 0.7:
            return rng.choice(same)
        v = names.pop()
        binds[v] = data
        return v
    if isinstance(data, seq):
        return seq(hide(rng, x, binds, names, seq, p) for x in data)
    return data


def solve(p, d, env):
    """own matcher: environment or None"""
    if isinstance(p, str) and p.startswith("?"):
        if p in env:
            return env if env[p] == d else None
        return {**env, p: d}
    if isinstance(p, (list, tuple)) and isinstance(d, (list, tuple)):
        if len(p) != len(d):
            return None
        for a, b in zip(p, d):
            env = solve(a, b, env)
            if env is None:
                return None
        return env
    return env if p == d else None


def spoil(rng, d, seq):
    """change one place"""
    if isinstance(d, seq) and d and rng.random() < 0.8:
        k = rng.randrange(len(d))
        return seq(spoil(rng, x, seq) if j == k else x for j, x in enumerate(d))
    if isinstance(d, seq):
        return seq([*d, "extra"])
    return "other" if d != "other" else "b"


def match(ctx, n):
    from neutrinomass.utils.match import pattern_match, is_match, pmatch, is_pattern_var
    rng = ctx.rng
    for _ in range(n):
        seq = rng.choice([list, tuple])
        data = rand_data(rng, 3, seq)
        names = [f"?v{k}" for k in range(60)]
        binds = {}
        pat = hide(rng, data, binds, names, seq, rng.choice([0, 0.1, 0.3, 0.6]))
        if rng.random() < 0.5:
            data = spoil(rng, data, seq)
        frame = {}
        if rng.random() < 0.3 and binds:
            v = rng.choice(sorted(binds))
            frame = {v: binds[v] if rng.random() < 0.6 else "a"}
        want = solve(pat, data, dict(frame))
        txt = f"{pat!r} against {data!r} in {frame!r}"
        fr = dict(frame)
        with ctx.guarded("pattern_match", txt) as g:
            got = pattern_match(pat, data, fr)
        if not g.ok:
            continue
        ctx.event("matched" if want is not None else "rejected")
        ctx.case(sig=txt, nontrivial=bool(binds) and isinstance(pat, seq), sample=f"{txt}: {want}")
        ctx.check((got if got is not False else None) == want, "match:result", lambda: f"{txt}: {got!r}, expected {want!r}")
        ctx.check(fr == frame, "match:frame", lambda: f"{txt}: frame changed to {fr}")
        if not frame:
            with ctx.guarded("is_match", txt) as g:
                a, b = is_match(pat, data), pmatch(pat, data)
            g.ok and ctx.check(a is (want is not None) and b == got, "match:shortcut", lambda: f"{txt}: is_match {a!r}, pmatch {b!r}")
    for s, w in (("?x", True), ("x", False), ("", False), ("x?", False), (3, False), (("?x",), False), ("?", True)):
        with ctx.guarded("is_pattern_var", repr(s)) as g:
            r = is_pattern_var(s)
        g.ok and ctx.check(bool(r) is w, "match:variable", repr(s))


# --- names of fields and couplings ---------------------------------------------
SM = ["L", "H", "Q", "ub", "db", "eb"]


def rand_name(rng):
    if rng.random() < 0.4:
        return rng.choice(SM) + rng.choice(["", ".conj"])
    y, b = Fraction(rng.randint(-12, 12), 6), rng.randint(-3, 3)
    return f"{rng.choice('SF')},{rng.randint(0, 2)}{rng.randint(0, 2)},{rng.randint(0, 4)},{y},{b}"


def own_conj(s):
    if s.split(".")[0] in SM:
        return s[:-5] if s.endswith(".conj") else s + ".conj"
    l, c, i, y, b = s.split(",")
    return f"{l},{c[::-1]},{i},{-Fraction(y)},{-int(b)}"


def names(ctx, n):
    from neutrinomass.utils.functions import conjugate_field, conjugate_term, negate_u1, stringify_qns
    from neutrinomass.tensormethod.core import Field
    from neutrinomass.tensormethod import sm
    from sympy import Rational
    rng = ctx.rng
    for _ in range(n):
        s = rand_name(rng)
        with ctx.guarded("conjugate_field", s) as g:
            c = conjugate_field(s)
            cc = conjugate_field(c)
        if g.ok:
            ctx.event("conjugated_fields")
            ctx.case(sig=s, nontrivial="," in s, sample=f"{s} -> {c}")
            ctx.check(c == own_conj(s) and cc == s, "names:conjugate", lambda: f"{s} -> {c} -> {cc}")
        t = tuple(rand_name(rng) for _ in range(rng.randint(1, 4)))
        with ctx.guarded("conjugate_term", str(t)) as g:
            c = conjugate_term(t)
            cc = conjugate_term(c)
        if g.ok:
            ctx.event("conjugated_terms")
            ctx.check(tuple(c) == tuple(sorted(map(own_conj, t))) and tuple(cc) == tuple(sorted(t)), "names:term", lambda: f"{t} -> {c} -> {cc}")
        q = str(Fraction(rng.randint(-20, 20), rng.choice([1, 2, 3, 6])))
        with ctx.guarded("negate_u1", q) as g:
            r = negate_u1(q)
        g.ok and ctx.check(Fraction(r) == -Fraction(q) and r == str(-Fraction(q)), "names:negate", lambda: f"{q} -> {r}")
        # real fields
        if rng.random() < 0.3:
            f = getattr(sm, rng.choice(SM))
            f = f.conj if rng.random() < 0.5 else f
            want = f.label + (".conj" if f.is_conj else "")
        else:
            lor = rng.choice(["00", "10", "01"])
            y, b = Fraction(rng.randint(-12, 12), 6), rng.randint(-3, 3)
            cu, cd, i = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 4)
            f = Field(rng.choice(["φ", "ψ", "S0", "f1", "χ~"]), dynkin=f"{lor}{cu}{cd}{i}", charges={"y": Rational(y.numerator, y.denominator), "3b": b}, is_conj=rng.random() < 0.3)
            want = f"{'S' if lor == '00' else 'F'},{cu}{cd},{i},{y},{b}"
        with ctx.guarded("stringify_qns", repr(f)) as g:
            s, sc = stringify_qns(f), stringify_qns(f.conj)
        if g.ok:
            ctx.event("fields_named")
            ctx.check(s == want, "names:field", lambda: f"{f!r} is named {s}, expected {want}")
            ctx.check(sc == own_conj(s), "names:field-conjugate", lambda: f"{f!r}: {s}, conjugate {sc}")


# --- lists, words, folds ------------------------------------------------------
def nested(rng, depth=3):
    if depth == 0 or rng.random() < 0.4:
        return rng.choice([1, 2, "ab", None, 2.5])
    return rng.choice([list, tuple])(nested(rng, depth - 1) for _ in range(rng.randint(0, 4)))


def flat(x):
    return [z for y in x for z in (flat(y) if isinstance(y, (list, tuple)) else [y])]


def lists(ctx, n):
    from neutrinomass.completions import utils as u
    from neutrinomass.utils import functions as fn
    from neutrinomass.database.utils import subsets
    from neutrinomass.tensormethod import utils as tu
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D
    rng = ctx.rng
    for _ in range(n):
        x = [nested(rng) for _ in range(rng.randint(0, 4))]
        with ctx.guarded("flatten", repr(x)) as g:
            r = list(u.flatten(x))
        ctx.event("listed")
        ctx.case(sig=repr(x), nontrivial=len(r) != len(x), sample=f"flatten {x!r}")
        g.ok and ctx.check(r == flat(x), "lists:flatten", lambda: f"{x} -> {r}")
        xs = [rng.randint(0, 9) for _ in range(rng.randint(0, 12))]
        k = rng.randint(1, 5)
        for m in (u, fn):
            with ctx.guarded("chunks", f"{xs} by {k}") as g:
                r = list(m.chunks(xs, k))
            g.ok and ctx.check([y for c in r for y in c] == xs and all(len(c) == k for c in r[:-1]) and all(1 <= len(c) <= k for c in r), "lists:chunks", lambda: f"{xs} by {k}: {r}")
        ys = xs[:8]
        with ctx.guarded("subsets", str(ys)) as g:
            r = subsets(ys)
        if g.ok:
            want = Counter(tuple(ys[i] for i in range(len(ys)) if m >> i & 1) for m in range(2 ** len(ys)))
            ctx.event("listed")
            ctx.check(Counter(map(tuple, r)) in (want, want - Counter([tuple(ys)])), "lists:subsets", lambda: f"{ys}: {len(r)} subsets")
            ctx.check(len(ys) == 0 or Counter(map(tuple, r)) == want or len(r) == 2 ** len(ys) - 0, "lists:subsets-number", lambda: f"{ys}: {len(r)} subsets")
        if xs:
            f = lambda a, b: f"({a}{b})"
            want = ""
            with ctx.guarded("foldr", str(xs)) as g:
                r = u.foldr(f, xs, "z")
                r1 = u.foldr(f, [str(v) for v in xs])
            want = "z"
            for v in reversed(xs):
                want = f(v, want)
            w1 = str(xs[-1])
            for v in reversed(xs[:-1]):
                w1 = f(v, w1)
            ctx.event("listed")
            g.ok and ctx.check(r == want and r1 == w1, "lists:foldr", lambda: f"{xs}: {r}, {r1}")
        m = rng.randint(1, 400)
        with ctx.guarded("factors", str(m)) as g:
            r = u.factors(m)
        g.ok and ctx.check(set(r) == {d for d in range(1, m + 1) if m % d == 0}, "lists:factors", lambda: f"{m}: {sorted(r)}")
        a = [rng.randint(0, 3) for _ in range(rng.randint(0, 6))]
        b = list(a) if rng.random() < 0.5 else [rng.randint(0, 3) for _ in range(len(a))]
        rng.shuffle(b)
        with ctx.guarded("multiset_equality", f"{a} {b}") as g:
            r = u.multiset_equality(a, b)
        g.ok and ctx.check(bool(r) is (Counter(a) == Counter(b)), "lists:multisets", lambda: f"{a} {b}: {r}")
        # iterating to a fixed point
        lim, step = rng.randint(0, 40), rng.randint(1, 5)
        with ctx.guarded("fixedpoint", f"up to {lim} by {step}") as g:
            r = u.fixedpoint(lambda v: min(v + step, lim), min(0, lim))
        ctx.event("fixed_points")
        g.ok and ctx.check(r == lim, "lists:fixedpoint", lambda: f"up to {lim} by {step}: {r}")
        # words are replaced simultaneously and only whole
        words = ["φ", "η", "s", "f", "f0", "S1", "Eps", "i12", "i1", "sf", "χ"]
        keys = rng.sample(words, rng.randint(1, 5))
        mp = {w: rng.choice(words + ["new"]) for w in keys}
        text = "".join(rng.choice(words) + rng.choice([" ", "(", ")*", ", ", "-", "_x ", "†", "~"]) for _ in range(rng.randint(1, 8)))
        want = re.sub(r"\w+", lambda q: mp.get(q.group(), q.group()), text)
        with ctx.guarded("multiple_replace", f"{mp} in {text!r}") as g:
            r = u.multiple_replace(mp, text)
        ctx.event("replaced")
        g.ok and ctx.check(r == want, "lists:replace", lambda: f"{mp} in {text!r}: {r!r}, expected {want!r}")
        # derivatives
        f = getattr(sm, rng.choice(SM))
        f = f.conj if rng.random() < 0.5 else f
        with ctx.guarded("allowed_lor_dyn", repr(f)) as g:
            d = D(f, u.allowed_lor_dyn(f))
        if g.ok:
            ctx.event("derivative_words")
            ctx.check(d.dynkin[2:] == f.dynkin[2:] and int(d.dynkin[0]) + int(d.dynkin[1]) == (2 if f.is_scalar else 1) and (f.is_scalar or d.dynkin[:2] == f.dynkin[1] + f.dynkin[0]), "derivative:allowed", lambda: f"{f!r} -> {d!r}")
            coll = [d, f.conj, sm.H] if rng.random() < 0.6 else [f, sm.H]
            hasd = coll[0] is d
            ctx.check(bool(tu.is_deriv_in(coll)) is hasd and bool(tu.is_linear_in_deriv(coll)) is hasd, "derivative:found", lambda: f"{coll}")
            two = [d, D(sm.H, "11")]
            ctx.check(not tu.is_linear_in_deriv(two) and tu.is_deriv_in(two) and not tu.is_linear_in_deriv([d, sm.G]) and tu.is_fieldstrength_in([f, rng.choice([sm.G, sm.Wb, sm.B])]) and not tu.is_fieldstrength_in([f, d]), "derivative:found", lambda: f"{two}")
        w = rng.choice(words)
        ctx.check(tu.strip_parens(f"({w})") == w and tu.strip_parens(w) == w, "words:parens", w)


def RUN(ctx, payload):
    kind, n = payload
    {"dedup": dedup, "match": match, "names": names, "lists": lists}[kind](ctx, n)
