"""C14: the full Lagrangian of a set of fields contains every renormalisable coupling."""
import itertools
from collections import Counter, defaultdict

from nmv import comp, reps, tens

PID = "C14"
RULE = ("a case is one field content of dimension <= 4 with at least one exotic, for a model with one or two exotics (Lagrangian.generate_full) or a random small field list (npoint_terms); "
        "non-trivial when an invariant exists; distinct by (exotics, content)")
MIN = {"models": 4, "contents": 1500, "allowed_contents": 40, "terms": 25, "spans": 20, "npoint_lists": 12}
ASSUMPTIONS = ["colour octet self-couplings and contents with four colour-charged fields are checked for presence, not for the number of independent contractions",
               "a real field and its conjugate are formally different, as in the code"]

SMN = ("H", "Q", "ub", "db", "L", "eb")
# (dynkin, y, 3b): exotics whose full Lagrangians are audited; slower ones only in the thorough tier
MODELS = [[("10000", "0", 0)], [("00000", "0", 0)], [("00000", "1", 0)], [("10000", "1", 0)], [("00100", "-1/3", 1)], [("00001", "1/2", 0)], [("10001", "1/2", 0)],
          [("00002", "1", 0)], [("10100", "2/3", 1)]]
SLOW = [[("00101", "1/6", 1)], [("10002", "0", 0)], [("00002", "0", 0)], [("10000", "0", 0), ("00000", "1", 0)], [("00100", "-1/3", 1), ("00101", "1/6", 1)], [("00003", "3/2", 0)], [("10101", "1/6", 1)],
        [("00110", "0", 0)], [("00111", "1/2", 0)], [("00200", "1/3", 2)], [("00000", "2", 0), ("00000", "1", 0)]]


def TASKS(tier, seed):
    k = seed % len(MODELS)
    ms = [MODELS[0]] + [MODELS[1 + (seed * 2 + j) % (len(MODELS) - 1)] for j in range(4)] if tier == "quick" else MODELS + SLOW
    out = [("model-" + "+".join(f"{d}/{y}" for d, y, _ in m), ("model", m)) for m in ms]
    out += [(f"npoint{i}", ("npoint", 4 if tier == "quick" else 20)) for i in range(5 if tier == "quick" else 24)]
    return out


def exotic(d, y, b, label=None):
    from neutrinomass.tensormethod.core import Field
    from neutrinomass.completions.core import cons_completion_field
    fermi = d[0] == "1"
    f = Field(label or ("ψ" if fermi else "φ"), d, charges={"y": y, "3b": b}, comm="fermi" if fermi else "bose")
    return cons_completion_field(f.fresh_indices() if d != "00000" else f(""))


def key(f):
    return (str(f.label).replace("†", ""), bool(f.is_conj))


def fermi(f):
    return (int(f.dynkin[0]) + int(f.dynkin[1])) % 2 == 1


def number(content, nf3):
    """independent singlets for a content {key: (field, multiplicity)}; flavoured fields count as distinct copies"""
    c = Counter({(0,) * 5: 1})
    for f, m in content:
        w = reps.weights(f.dynkin)
        if key(f) in nf3:
            for _ in range(m):
                c = reps.mul(c, w)
        else:
            c = reps.mul(c, reps.power(w, m, fermi(f)))
    return reps.multiplicity(c)


def contents(fields, n):
    """multisets of n of the fields and their conjugates, pre-filtered by charges and chirality"""
    pool = [f for f in fields] + [f.conj for f in fields]
    ys = [comp.frac(f.charges["y"]) for f in pool]
    for idx in itertools.combinations_with_replacement(range(len(pool)), n):
        yield [pool[i] for i in idx], sum(ys[i] for i in idx)


def audit(ctx, name, fields, exotic_keys, terms, orders, need_exotic=True, dims=True):
    nf3 = {(n, c) for n in SMN if n != "H" for c in (False, True)}
    have = defaultdict(list)
    for t in terms:
        ctx.event("terms")
        fs = t.fields
        k = tuple(sorted(Counter(map(key, fs)).items()))
        have[k].append(t)
        txt = lambda: f"{name}: {t}"
        nfm = sum(map(fermi, fs))
        ctx.check(sum(comp.frac(f.charges["y"]) for f in fs) == 0, "terms:charge", txt)
        if dims:
            ctx.check(len(fs) + nfm / 2 <= 4 and float(t.mass_dim) == len(fs) + nfm / 2, "terms:dimension", txt)
        if need_exotic:
            ctx.check(any(key(f)[0] in exotic_keys for f in fs), "terms:no-exotic", txt)
        try:
            _, nodes = tens.network(t)
            free, bound = tens.free_and_bound(nodes)
            ctx.check(all(x == "Generation" for x, _ in free), "terms:not-invariant", txt)
            p = tens.poly(t, limit=60000)
            ctx.check(bool(p), "terms:vanishes", txt)
        except tens.Unsupported:
            ctx.event("term_too_large")
    for n in orders:
        for fs, y in contents(fields, n):
            if need_exotic and not any(key(f)[0] in exotic_keys for f in fs):
                continue
            nfm = sum(map(fermi, fs))
            if dims and len(fs) + nfm / 2 > 4:
                continue
            ctx.event("contents")
            cnt = {}
            for f in fs:
                cnt.setdefault(key(f), [f, 0])[1] += 1
            k = tuple(sorted((a, b[1]) for a, b in cnt.items()))
            want = 0
            if y == 0 and all(sum(int(f.dynkin[j]) for f in fs) % 2 == 0 for j in (0, 1, 4)):
                want = number([tuple(v) for v in cnt.values()], nf3)
            got = have.pop(k, [])
            ctx.case(sig=(name, k), nontrivial=want > 0)
            txt = lambda: f"{name}: {' '.join(a + ('†' if c else '') + ('^%d' % m if m > 1 else '') for (a, c), m in k)}: {want} independent contractions, listed {got}"
            if not want:
                ctx.check(not got, "terms:not-allowed", txt)
                continue
            ctx.event("allowed_contents")
            if not ctx.check(bool(got), "terms:missing", txt):
                continue
            forms = []
            try:
                forms = [tens.canon(t, free_names=False)[0] for t in got]
            except tens.Unsupported:
                continue
            ctx.event("duplicate_checks")
            ctx.check(len(set(forms)) == len(forms), "terms:duplicate", txt)
            rep3 = [a for a, m in k if a in nf3 and m > 1]
            coloured = sum(1 for f in fs if f.dynkin[2:4] != "00")
            if not rep3 and coloured < 4 and not any(int(f.dynkin[2]) + int(f.dynkin[3]) > 1 for f in fs):
                try:
                    polys = [tens.poly(t, limit=40000, rename=None) for t in same_flavour(got)]
                    r = tens.rank(polys)
                    ctx.event("spans")
                    ctx.check(r == want, "terms:span", lambda: f"{txt()} of rank {r}")
                except tens.Unsupported:
                    pass
    for k, v in have.items():
        if sum(m for _, m in k) in orders:
            ctx.violate("terms:unexpected-content", f"{name}: {v}")


def same_flavour(terms):
    """generation indices named after the field they sit on"""
    out = []
    for t in terms:
        _, nodes = tens.network(t)
        for nd in nodes:
            if nd.kind == "F":
                nd.legs = [(k, nd.label if k == "Generation" else nm, up) for k, nm, up in nd.legs]
        out.append(Net(nodes))
    return out


class Net:
    """hands nodes to tens.poly"""

    def __init__(self, nodes):
        self.tensors = []
        self.nodes = nodes


_network = tens.network


def network(x):
    if isinstance(x, Net):
        from fractions import Fraction
        return Fraction(1), x.nodes
    return _network(x)


tens.network = network


def RUN(ctx, payload):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.lagrangian import Lagrangian, npoint_terms
    kind, x = payload
    smf = [getattr(sm, n) for n in SMN]
    if kind == "model":
        labels = ["ψ", "χ"] if x[0][0][0] == "1" else ["φ", "η"]
        if len({m[0][0] for m in x}) > 1:
            labels = ["ψ", "φ"]
        exo = [exotic(d, y, b, l) for (d, y, b), l in zip(x, labels)]
        name = " + ".join(f"{d} y={y}" for d, y, _ in x)
        with ctx.guarded("full", name) as g:
            lag = Lagrangian(set(exo), [])
            before = [repr(t) for t in lag.terms]
            full = lag.generate_full()
            terms = list(full.interaction_terms)
            masses = [t for t in full.terms if len(t.fields) == 2]
            fields = [f.field for f in full.fields]
            alike = [repr(t) for t in lag.terms] == before
        if not g.ok:
            return
        ctx.event("models")
        ctx.check(alike, "full:input-changed", name)
        ctx.check(set(full.exotics) == set(exo), "full:exotics", lambda: f"{name}: {full.exotics}")
        ctx.check(all(len(t.fields) > 2 for t in terms) and len(full.terms) == len(terms) + len(masses), "full:mass-terms", lambda: f"{name}: {full.terms}")
        want = set()
        for f in exo:
            want.add(key(f))
            if fermi(f) and comp.frac(f.charges["y"]) != 0:
                want.add((key(f)[0] + "~", False))
        ctx.check(set(map(key, fields)) == want and len(fields) == len(want), "full:fields", lambda: f"{name}: {fields}, expected {want}")
        mlabs = {key(f)[0].replace("~", "") for t in masses for f in t.fields}
        ctx.check(mlabs == {key(f)[0] for f in exo}, "full:mass-terms", lambda: f"{name}: {masses}")
        audit(ctx, name, smf + fields, {a for a, _ in map(key, fields)}, terms, (3, 4))
        return
    rng = ctx.rng
    EX = [("00000", "0", 0), ("00000", "1", 0), ("00002", "1", 0), ("00100", "-1/3", 1), ("10000", "0", 0), ("10002", "0", 0), ("10001", "-1/2", 0), ("00001", "1/2", 0), ("00101", "1/6", 1), ("00003", "1/2", 0), ("00002", "0", 0)]
    for _ in range(x):
        fs = rng.sample(smf, rng.randint(1, 2))
        for j in range(rng.randint(1, 2)):
            d, y, b = rng.choice(EX)
            fs.append(exotic(d, y, b, ["X", "Y"][j]).field)
        n = rng.choice([2, 3, 3, 4] if not any(f.dynkin in ("00003", "00101", "10002") for f in fs) else [2, 3])
        name = f"npoint_terms({n}, {fs})"
        with ctx.guarded("npoint", name) as g:
            terms = npoint_terms(n, fs)
        if not g.ok:
            continue
        ctx.event("npoint_lists")
        # unsimplified: only contents and presence of a non-vanishing contraction are judged
        have = defaultdict(list)
        for t in terms:
            have[tuple(sorted(Counter(map(key, t.fields)).items()))].append(t)
        nf3 = {(m, c) for m in SMN if m != "H" for c in (False, True)}
        for cs, y in contents(fs, n):
            cnt = {}
            for f in cs:
                cnt.setdefault(key(f), [f, 0])[1] += 1
            k = tuple(sorted((a, b[1]) for a, b in cnt.items()))
            ctx.event("contents")
            want = 0
            if y == 0 and all(sum(int(f.dynkin[j]) for f in cs) % 2 == 0 for j in (0, 1, 4)):
                want = number([tuple(v) for v in cnt.values()], nf3)
            got = have.get(k, [])
            ctx.case(sig=(n, str(fs), k), nontrivial=want > 0)
            txt = lambda: f"{name}: {k}: {want} contractions, listed {got}"
            alive = []
            for t in got:
                try:
                    alive.append(bool(tens.poly(t, limit=60000)))
                except tens.Unsupported:
                    alive.append(True)
            if want:
                ctx.event("allowed_contents")
                ctx.check(any(alive), "npoint:missing", txt)
            else:
                ctx.check(y == 0 or not got, "npoint:charge", txt)
                ctx.check(not any(alive), "npoint:not-allowed", txt)
