"""C05: the catalogue of effective operators."""
import itertools
import pickle
from collections import Counter, defaultdict
from nmv import tens

PID = "C05"
RULE = ("every operator of EFF_OPERATORS and DERIV_EFF_OPERATORS, and every field content occurring in them (all isospin contractions enumerated by brute force); "
        "non-trivial when the content admits more than one contraction; distinct by operator name / field content")
MIN = {"operators": 240, "contents": 60, "roundtrips": 240, "invariants_regenerated": 15}
ASSUMPTIONS = ["regeneration with invariants() is limited to contents with at most 6 isospin indices (quick) / 8 (thorough)"]

# hypercharge, 3*baryon number, lepton number of the left-handed SM fields (the standard assignments)
SM = {"L": ("-1/2", 0, 1), "Q": ("1/6", 1, 0), "eb": ("1", 0, -1), "ub": ("-2/3", -1, 0), "db": ("1/3", -1, 0), "H": ("1/2", 0, 0)}
DYN = {"L": "10001", "Q": "10101", "eb": "10000", "ub": "10010", "db": "10010", "H": "00001"}


def TASKS(tier, seed):
    lim = 6 if tier == "quick" else 8
    return [("sm", ("sm", None))] + [(f"ops{i}", ("ops", i)) for i in range(8)] + [(f"cont{i}", ("cont", (i, lim))) for i in range(24)]


def base(f):
    lab = f.label
    n = f.derivs
    while n and lab.startswith("D"):
        lab, n = lab[1:], n - 1
    return lab.replace("†", "")


def lepton(f):
    return SM[base(f)][2] * (-1 if f.is_conj else 1)


def matchings(xs):
    if not xs:
        yield []
        return
    a = xs[0]
    for j in range(1, len(xs)):
        for m in matchings(xs[1:j] + xs[j + 1:]):
            yield [(a, xs[j])] + m


def RUN(ctx, payload):
    from neutrinomass.completions.operators import EFF_OPERATORS, DERIV_EFF_OPERATORS
    kind, x = payload
    if kind == "sm":
        return sm_content(ctx)
    if kind == "ops":
        allops = [(k, e, False) for k, e in EFF_OPERATORS.items()] + [(k, e, True) for k, e in DERIV_EFF_OPERATORS.items()]
        for k, e, d in allops[x::8]:
            with ctx.guarded("operator", k):
                check_op(ctx, k, e, d)
        return
    contents(ctx, *x)


def sm_content(ctx):
    from sympy import Rational as R
    from neutrinomass.tensormethod import sm
    for n, (y, b, l) in SM.items():
        f = getattr(sm, n)
        ctx.case(sig=n, sample=repr(f))
        ctx.check(f.dynkin == DYN[n] and f.charges["y"] == R(y) and f.charges["3b"] == b, "sm:quantum-numbers", lambda: f"{f!r} {f.charges}")
        ctx.check(f.nf == (1 if n == "H" else 3) and str(f.comm) == ("bose" if n == "H" else "fermi"), "sm:flavour-statistics", lambda: f"{f._dict}")
    ferm = [getattr(sm, n) for n in SM if n != "H"]

    def dimr(f):
        return (3 if f.dynkin[2:4] != "00" else 1) * (int(f.dynkin[4]) + 1)
    # gauge anomalies
    ctx.check(sum(dimr(f) * f.y for f in ferm) == 0, "sm:anomaly-grav", "")
    ctx.check(sum(dimr(f) * f.y ** 3 for f in ferm) == 0, "sm:anomaly-y3", "")
    ctx.check(sum(3 * f.y for f in ferm if f.dynkin[4] == "1" and f.dynkin[2:4] != "00") + sum(f.y for f in ferm if f.dynkin[4] == "1" and f.dynkin[2:4] == "00") == 0, "sm:anomaly-su2", "")
    ctx.check(sum((int(f.dynkin[4]) + 1) * f.y for f in ferm if f.dynkin[2:4] != "00") == 0, "sm:anomaly-su3", "")
    for n, d in (("G", "20110"), ("W", "20002"), ("B", "20000")):
        f, fb = getattr(sm, n), getattr(sm, n + "b")
        ctx.check(f.dynkin == d and fb.dynkin == "02" + d[2:] and f.y == 0 and fb.y == 0, "sm:field-strength", lambda: f"{f!r} {fb!r}")


def check_op(ctx, name, e, deriv):
    from neutrinomass.tensormethod.core import Operator
    op = e.operator
    txt = lambda: f"{name}: {op}"
    ctx.event("operators")
    ctx.case(sig=name, sample=f"{name}: {op}")
    ctx.check(e.name == name, "catalogue:name", txt)
    fs = op.fields
    from sympy import Rational as R
    for f in fs:
        s = f.strip_derivs() if False else f
        y, b, l = SM.get(base(f), (None, None, None))
        if not ctx.check(y is not None, "catalogue:unknown-field", lambda: f"{txt()} {f!r}"):
            return
        sg = -1 if f.is_conj else 1
        ctx.check(f.charges["y"] == sg * R(y) and f.charges["3b"] == sg * b, "catalogue:charges", lambda: f"{txt()}: {f!r} {f.charges}")
        dy = DYN[base(f)]
        sm_d = dy[2:] if not f.is_conj else dy[3] + dy[2] + dy[4]
        ctx.check(f.dynkin[2:] == sm_d, "catalogue:gauge-irrep", lambda: f"{txt()}: {f!r}")
        ctx.check(str(f.comm) == ("bose" if base(f) == "H" else "fermi"), "catalogue:statistics", lambda: f"{txt()}: {f!r} {f.comm}")
        ctx.check(f.nf == (1 if base(f) == "H" else 3), "catalogue:flavours", lambda: f"{txt()}: {f!r} {f.nf}")
    ctx.check(sum(f.charges["y"] for f in fs) == 0, "catalogue:hypercharge", txt)
    ctx.check(sum(f.charges["3b"] for f in fs) == 0, "catalogue:baryon-number", txt)
    ctx.check(abs(sum(map(lepton, fs))) == 2, "catalogue:lepton-number", txt)
    u, d = sum(int(f.dynkin[0]) for f in fs), sum(int(f.dynkin[1]) for f in fs)
    ctx.check(u % 2 == 0 and d % 2 == 0, "catalogue:lorentz", txt)
    up, dn = sum(int(f.dynkin[2]) for f in fs), sum(int(f.dynkin[3]) for f in fs)
    ctx.check((up - dn) % 3 == 0, "catalogue:triality", txt)
    ctx.check(not op.indices_by_type["Isospin"], "catalogue:open-isospin", txt)
    nder = sum(f.derivs for f in fs)
    ctx.check((nder > 0) == deriv, "catalogue:derivatives", txt)
    ns = sum(1 for f in fs if base(f) == "H")
    nf = len(fs) - ns
    want = ns + (3 * nf) // 2 + nder
    ctx.check(nf % 2 == 0 and e.mass_dimension == want, "catalogue:mass-dimension", lambda: f"{txt()}: {e.mass_dimension} vs {want}")
    ctx.check(want % 2 == 1 and 5 <= want <= 11, "catalogue:dimension-range", lambda: f"{txt()}: {want}")
    tt = e.topology_type
    nbos = sum(1 for f in fs if (int(f.dynkin[0]) + int(f.dynkin[1])) % 2 == 0)
    ctx.check(tt == {"n_scalars": nbos, "n_fermions": len(fs) - nbos}, "catalogue:topology-type", lambda: f"{txt()}: {tt}")
    ctx.check(e.fields == fs and e.indexed_fields == op.indexed_fields, "catalogue:fields", txt)
    ctx.check(not tens.canon(op)[1], "catalogue:vanishes", txt)
    # round trip through the pickle form
    pf = pickle.loads(pickle.dumps(op.pickle_form()))
    back = Operator.from_pickle_form(pf)
    ctx.event("roundtrips")
    ctx.check(tens.canon(back) == tens.canon(op), "pickle_form:structure", lambda: f"{txt()} -> {back}")
    ctx.check([f._dict for f in back.fields] == [f._dict for f in fs], "pickle_form:fields", lambda: f"{txt()} -> {[f._dict for f in back.fields]}")
    ctx.check([repr(t) for t in back.tensors] == [repr(t) for t in op.tensors], "pickle_form:tensors", lambda: f"{txt()} -> {back}")


def contents(ctx, part, lim):
    from neutrinomass.completions.operators import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.tensormethod.contract import invariants
    by = defaultdict(list)
    for k, e in EFF_OPERATORS.items():
        _, nodes = tens.network(e.operator)
        by[tuple(sorted(n.label for n in nodes if n.kind == "F"))].append((k, e, nodes))
    keys = sorted(by)
    for key in keys[part::24]:
        nodes = by[key][0][2]
        F = [n for n in nodes if n.kind == "F"]
        iso = [nm for n in F for (kk, nm, _) in n.legs if kk == "Isospin"]
        if len(iso) > 8 and lim < 8:
            ctx.event("contents_skipped_large")
            continue
        forms = {}
        for m in matchings(iso):
            inv = [tens.Node("e2", "eps", False, [("Isospin", a, False), ("Isospin", b, False)]) for a, b in m]
            oth = [n for n in nodes if n.kind != "F" and n.legs[0][0] != "Isospin"]
            if tens.canon_nodes(F + inv + oth)[1]:
                continue
            forms[tens.canon_nodes(F + inv + oth, free_names=False)[0]] = m
        have = defaultdict(list)
        for k, e, nd in by[key]:
            have[tens.canon(e.operator, free_names=False)[0]].append(k)
        names = sorted(k for k, _, _ in by[key])
        ctx.event("contents")
        ctx.event("isospin_structures", len(forms))
        ctx.case(sig=key, nontrivial=len(forms) > 1, sample=f"{key}: {names}")
        for f, ks in have.items():
            ctx.check(len(ks) == 1, "catalogue:duplicate", lambda: f"{key}: {ks} are the same operator")
            ctx.check(f in forms, "catalogue:not-a-contraction", lambda: f"{key}: {ks}")
        ctx.check(len(have) == len(forms), "catalogue:incomplete", lambda: f"{key}: {names} but {len(forms)} inequivalent contractions exist")
        # the generator finds the same list again
        if 2 <= len(iso) <= lim and len(F) <= lim:
            fields = by[key][0][1].operator.fields
            with ctx.guarded("invariants", str(key), cpu=600) as g:
                inv = invariants(*fields)
            if g.ok:
                ctx.event("invariants_regenerated")
                got = Counter(tens.canon(o, free_names=False)[0] for o in inv)
                ctx.check(set(forms) <= set(got), "invariants:incomplete", lambda: f"{key}: {len(got)} of {len(forms)}")
                ctx.check(set(got) <= set(forms), "invariants:spurious", lambda: f"{key}: {inv}")
