"""C11: grouping, cleaning, filtering and comparing completions loses and invents nothing."""
import random
from collections import Counter, defaultdict

from nmv import comp, reps, tens, work

PID = "C11"
RULE = ("a case is a list of completions (of one or two operators, shuffled and duplicated), a pair of completions, or a pair of synthetic dictionaries of field contents; non-trivial when the list has at least two "
        "inequivalent members; distinct by the signatures of the members")
MIN = {"clean": 25, "collected": 25, "filtered": 150, "filtered_out": 40, "pairs": 150, "equivalent_pairs": 20, "inequivalent_pairs": 60, "numbers": 100, "reduced": 5}
ASSUMPTIONS = ["two exotics of one completion with equal quantum numbers: only soundness of the comparison is demanded"]


def TASKS(tier, seed):
    names = ["1", "2", "3a", "3b", "4a", "4b", "8"]
    out = [(f"op-{n}", ("op", n)) for n in names]
    out += [(f"rand{i}", ("rand", (i, 4, 1))) for i in range(5 if tier == "quick" else 40)]
    out = [("three", ("three", 180 if tier == "quick" else 800))] + out + [("mixed", ("mixed", None))]
    out += [(f"syn{i}", ("syn", 60 if tier == "quick" else 400)) for i in range(4 if tier == "quick" else 16)]
    if tier == "thorough":
        out += [(f"op-{n}", ("op", n)) for n in ["D3", "D2a", "D4a", "D15", "1p", "61a"]]
    return out


def content(c):
    """the field content as collect_completions documents it: sorted, normalised, as a set"""
    out = set()
    for x in c.exotics:
        q = comp.qn(x)
        if q[4] < 0:
            q = comp.conj_qn(q)
        out.add(q)
    return frozenset(out)


def key_content(k):
    out = set()
    for lor, cu, cd, i, *charges in k:
        ch = {a: comp.frac(b) for a, b in charges}
        out.add((lor, int(cu), int(cd), int(i), ch["y"], ch["3b"]))
    return frozenset(out)


def lists(ctx, name, cs):
    from neutrinomass.completions.completions import clean_completions, collect_completions, collect_models, cons_term_prime_dict, completion_characteristic_number
    rng = ctx.rng
    cs = list(cs)
    rng.shuffle(cs)
    sig = {id(c): (tuple(sorted(comp.comp_terms(c))), c.topology) for c in cs}
    txt = lambda: f"{name}: {len(cs)} completions"
    before = [id(c) for c in cs]
    with ctx.guarded("clean", txt) as g:
        cl = clean_completions(iter(cs) if rng.random() < 0.5 else cs)
    if g.ok:
        ctx.event("clean")
        ctx.check([id(c) for c in cs] == before, "clean:input-changed", txt)
        ctx.check(all(any(c is x for x in cs) for c in cl), "clean:invented", txt)
        got = Counter(sig.get(id(c)) for c in cl)
        want = set(sig.values())
        ctx.check(set(got) == want, "clean:lost", lambda: f"{txt()}: {len(want - set(got))} inequivalent completions dropped, e.g. {str(min(want - set(got), default='')).replace('Fraction', '')[:700]}")
        ctx.check(all(v == 1 for v in got.values()), "clean:duplicates", lambda: f"{txt()}: {str(got.most_common(1)).replace('Fraction', '')[:700]}")
    # characteristic numbers: equal exactly when the couplings have the same contents
    with ctx.guarded("characteristic", txt) as g:
        pd = cons_term_prime_dict(cs)
        nums = [completion_characteristic_number(c, pd) for c in cs]
    if g.ok:
        m1, m2 = {}, {}
        for c, n in zip(cs, nums):
            ctx.event("numbers")
            s = sig[id(c)][0]
            ctx.check(m1.setdefault(n, s) == s, "characteristic:collision", lambda: f"{name}: {n} for two different models, {c.terms}")
            ctx.check(m2.setdefault(s, n) == n, "characteristic:not-unique", lambda: f"{name}: {n} and {m2[s]} for equal models {c.terms}")
    with ctx.guarded("collect", txt) as g:
        co = collect_completions(cs)
        models = collect_models(cs)
    if g.ok:
        ctx.event("collected")
        flat = [c for v in co.values() for c in v]
        ctx.check(Counter(map(id, flat)) == Counter(map(id, cs)), "collect:lost-or-repeated", lambda: f"{txt()}: {len(flat)} after grouping")
        for k, v in co.items():
            kc = key_content(k)
            ctx.check(len(kc) == len(k) and list(k) == sorted(k), "collect:key", lambda: f"{name}: {k}")
            for c in v:
                if not ctx.check(content(c) == kc, "collect:wrong-group", lambda: f"{name}: {c.exotics} listed under {k}"):
                    break
        ctx.check(len({key_content(k) for k in co}) == len(co), "collect:split-group", txt)
        ctx.check(sorted(len(m.completions) for m in models) == sorted(map(len, co.values())), "collect:models", txt)
        for m in models:
            ctx.check(len(m.exotic_numbers) == len(content(m.completions[0])), "collect:model-numbers", lambda: f"{name}: {m!r} for {m.completions[0].exotics}")
    ctx.case(sig=tuple(sorted(map(repr, set(sig.values())))), nontrivial=len(set(sig.values())) > 1, sample=f"{txt()}: {len(set(sig.values()))} inequivalent, {len(set(map(content, cs)))} field contents")
    return co if g.ok else None


def unique_structure(c):
    """every coupling admits exactly one gauge contraction, and one way of writing it"""
    return all(x.dynkin[2:4] in ("00", "10", "01") for x in c.exotics) and all(reps.multiplicity(reps.product(["00" + f.dynkin[2:] for f in t.fields])) == 1 for t in c.terms)


def same_orientation(a, b):
    """the exotics of both are written in the same sense (not one the conjugate of the other)"""
    return {comp.qn(x) for x in a.exotics} == {comp.qn(x) for x in b.exotics}


def pairs(ctx, name, cs, n):
    from neutrinomass.completions.completions import are_equivalent_completions, slow_remove_equivalent_completions
    rng = ctx.rng
    if not cs:
        return
    terms = {id(c): tuple(sorted(comp.comp_terms(c))) for c in cs}
    by = defaultdict(list)
    for c in cs:
        by[terms[id(c)]].append(c)
    for k in range(n):
        a = rng.choice(cs)
        b = rng.choice(by[terms[id(a)]]) if k % 2 else rng.choice(cs)
        txt = lambda: f"{name}: {a.terms} / {b.terms}"
        with ctx.guarded("equivalent", txt) as g:
            r1, r2 = are_equivalent_completions(a, b), are_equivalent_completions(b, a)
        if not g.ok:
            continue
        ctx.event("pairs")
        same = set(terms[id(a)]) == set(terms[id(b)])
        ctx.event("equivalent_pairs" if r1 and a is not b else "identical_pairs" if a is b else "inequivalent_pairs")
        ctx.case(sig=(terms[id(a)], terms[id(b)]), nontrivial=a is not b)
        distinct = all(len({comp.qn(x)[:4] + (abs(comp.qn(x)[4]),) for x in c.exotics}) == len(c.exotics) for c in (a, b))
        ctx.check(same or not r1, "equivalent:different-couplings", txt)
        ctx.check(r1 or a is not b, "equivalent:not-reflexive", txt)
        if distinct:
            ctx.check(r1 == r2, "equivalent:not-symmetric", txt)
            if terms[id(a)] == terms[id(b)] and unique_structure(a) and same_orientation(a, b):
                ctx.event("must_be_equivalent")
                ctx.check(r1, "equivalent:relabelling-not-seen", txt)
    few = rng.sample(cs, min(len(cs), 6))
    lst = list(few) + few[:1]
    with ctx.guarded("slow_remove", lambda: f"{name}") as g:
        slow_remove_equivalent_completions(lst)
    if g.ok:
        ctx.event("reduced")
        ctx.check(all(any(x is y for y in few) for x in lst), "slow_remove:invented", name)
        ctx.check({frozenset(terms[id(x)]) for x in lst} == {frozenset(terms[id(x)]) for x in few}, "slow_remove:lost", lambda: f"{name}: {len(few)} -> {len(lst)}")
        ctx.check(len({id(x) for x in lst}) == len(lst), "slow_remove:kept-duplicate", lambda: f"{name}: {len(lst)}")


def three_exotics(ctx, cs):
    """pairs with the same couplings whose exotics are named differently"""
    from neutrinomass.completions.completions import are_equivalent_completions
    ctx.event("three_exotics", len(cs))
    groups = defaultdict(dict)
    for c in cs:
        names = {}
        for x in c.exotics:
            names[str(x.label)] = comp.qn(x)
        if len(set(names.values())) == len(c.exotics) and unique_structure(c):
            key = (tuple(sorted(comp.comp_terms(c))), frozenset(names.values()))
            groups[key].setdefault(tuple(sorted(names.items())), c)
    for key, v in groups.items():
        v = list(v.values())
        for a, b in zip(v, v[1:] + v[:1]):
            if a is b:
                continue
            ctx.event("renamed_pairs")
            with ctx.guarded("equivalent", lambda: f"76: {a.terms} / {b.terms}") as g:
                ctx.check(are_equivalent_completions(a, b), "equivalent:relabelling-not-seen", lambda: f"76: {a.terms} / {b.terms}")


def filters(ctx, name, cs, sieve, keep=None):
    from neutrinomass.completions.completions import filter_completions
    c0, s0 = dict(cs), dict(sieve)
    with ctx.guarded("filter", lambda: f"{name}") as g:
        out = filter_completions(cs, sieve)
    if not g.ok:
        return
    want = {k for k in cs if not any(set(s) <= set(k) for s in sieve)}
    ctx.event("filtered", len(cs))
    ctx.event("filtered_out", len(cs) - len(want))
    ctx.check(cs == c0 and sieve == s0, "filter:input-changed", name)
    ctx.check(set(out) <= set(cs), "filter:invented", lambda: f"{name}: {set(out) - set(cs)}")
    ctx.check(want <= set(out), "filter:removed-unrelated", lambda: f"{name}: {sorted(map(str, want - set(out)))[:1]} contains none of {str(list(sieve))[:600]}")
    ctx.check(set(out) <= want, "filter:kept", lambda: f"{name}: {sorted(map(str, set(out) - want))[:1]} contains a model of {str(list(sieve))[:600]}")
    ctx.check(all(out[k] is cs[k] for k in out if k in cs), "filter:wrong-completions", name)
    ctx.case(sig=(tuple(map(str, cs)), tuple(map(str, sieve))), nontrivial=0 < len(want) < len(cs))


def RUN(ctx, payload):
    from neutrinomass.completions.completions import collect_completions
    kind, x = payload
    if kind == "syn":
        return synthetic(ctx, x)
    if kind == "three":
        # completions with three exotics and colour epsilons, a sample of those of 76
        import itertools
        import importlib
        m = importlib.import_module("neutrinomass.completions.completions")
        from neutrinomass.completions.core import Completion
        e = work.catalogue("76")
        with ctx.guarded("completions", "76") as g:
            if hasattr(m, "partitions") and hasattr(m, "partition_completion"):
                parts = list(m.partitions(e))
                ctx.rng.shuffle(parts)
                found = (m.partition_completion(p) for p in parts)
            else:
                found = m.operator_completions(e)
            cs = list(itertools.islice((c for c in found if isinstance(c, Completion)), x))
        if g.ok:
            three_exotics(ctx, cs)
        return
    if kind == "mixed":
        names = ctx.rng.sample(["1", "2", "3a", "3b", "4a", "8"], 3)
        es = [(n, work.catalogue(n), False) for n in names]
        allc = [c for n, e, d in es for c in work.run(e, d)]
        co = lists(ctx, "+".join(names), allc)
        pairs(ctx, "+".join(names), allc, 30)
        return
    sieve = None
    for name, e, deriv in work.operators(ctx, payload):
        with ctx.guarded("completions", name) as g:
            cs = work.run(e, deriv)
        if not g.ok:
            continue
        co = None
        for _ in range(3):
            co = lists(ctx, f"{name} ({e.operator})", cs) or co
        pairs(ctx, name, cs, 14 if kind == "op" else 5)
        if co:
            if sieve is None:
                sieve = collect_completions(work.run(work.catalogue("1"), False))
            filters(ctx, name, co, sieve)
            ks = list(co)
            filters(ctx, name + " by some of its own", co, {k: co[k] for k in ctx.rng.sample(ks, max(1, len(ks) // 3))})
            filters(ctx, name + " by single fields", co, {(k[0],): [] for k in ctx.rng.sample(ks, max(1, len(ks) // 4))})
            filters(ctx, name + " by nothing", co, {})


def doubled(ctx, n):
    """completions in which several exotics may have the same quantum numbers"""
    from sympy import Rational
    from neutrinomass.completions.completions import collect_completions
    from neutrinomass.completions.core import Completion, cons_completion_field
    from neutrinomass.tensormethod.core import IndexedField
    rng = ctx.rng

    def exotic(spec, label):
        kinds, y = spec
        idx = " ".join(f"{k}{j}" for j, k in enumerate(kinds))
        return cons_completion_field(IndexedField(label, idx, charges={"y": Rational(y, 6), "3b": 0}, comm=int("u" in kinds)))

    e = work.catalogue("1")
    for k in range(n):
        specs = [(rng.choice(["", "i", "ii", "c", "u", "ui", "ci", "uii"]), rng.choice([1, 2, 3, 4, 6])) for _ in range(rng.randint(2, 4))]
        mk = lambda: Completion(e, None, None, {exotic(rng.choice(specs), lab) for lab in rng.sample(["φ", "η", "s", "ω"], rng.randint(1, 3))}, [])
        with ctx.guarded("collect", "synthetic completions") as g:
            cs, sv = [mk() for _ in range(rng.randint(1, 10))], [mk() for _ in range(rng.randint(1, 3))]
            a, b = collect_completions(list(cs)), collect_completions(list(sv))
        if not g.ok:
            continue
        ctx.event("doubled", sum(1 for c in cs + sv if len(content(c)) < len(c.exotics)))
        txt = lambda: f"{[c.exotics for c in cs]}"
        ctx.check(sorted(id(c) for v in a.values() for c in v) == sorted(map(id, cs)), "collect:lost", txt)
        ctx.check(all(len({content(c) for c in v}) == 1 for v in a.values()) and len(a) == len({content(c) for c in cs}), "collect:content", lambda: f"{txt()}: {list(a)}")
        contents = {content(c) for c in sv}
        from neutrinomass.completions.completions import filter_completions
        with ctx.guarded("filter", txt) as g:
            out = filter_completions(a, b)
        if g.ok:
            left = {id(c) for v in out.values() for c in v}
            for c in cs:
                gone = any(s <= content(c) for s in contents)
                ctx.event("filtered")
                ctx.check((id(c) in left) != gone, "filter:kept" if gone else "filter:removed-unrelated", lambda: f"{c.exotics} sieved by {[x.exotics for x in sv]}")


def synthetic(ctx, n):
    """dictionaries of field contents as collect_completions returns them"""
    rng = ctx.rng
    if n:
        doubled(ctx, max(4, n // 6))
    for k in range(n):
        pool = [(rng.choice("SF"), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 3), ("3b", rng.randint(-1, 1)), ("y", rng.randint(0, 5))) for _ in range(rng.randint(2, 14))]
        mk = lambda m: {tuple(sorted(set(rng.sample(pool, min(len(pool), rng.randint(1, 4)))))): [object()] for _ in range(m)}
        sieve, cs = mk(rng.randint(0, 6)), mk(rng.randint(1, 12))
        filters(ctx, f"synthetic: {str(list(cs))[:500]}", cs, sieve)
