"""C01: fields, indexed fields and indices carry consistent quantum numbers under every operation."""
from nmv import gen, reps

PID = "C01"
RULE = ("a case is a field with random irrep, charges, statistics, flavours and (for a third) 1-2 derivatives, pushed through a random sequence of operations "
        "(call, fresh_indices, conj, field, substitute, D, strip, product); non-trivial when it carries at least two indices or a derivative; distinct by field and operation sequence")
MIN = {"fields": 300, "conj": 600, "rejections": 100, "derivatives": 50, "operators": 200, "sequences": 100}


def TASKS(tier, seed):
    n = 16 if tier == "quick" else 96
    return [(f"rand{i}", (i, 40 if tier == "quick" else 200)) for i in range(n)]


def random_field(rng):
    from sympy import Rational
    from neutrinomass.tensormethod.core import Field, FERMI, BOSE
    d = [rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.choice([0, 1, 2, 3])]
    ferm = (d[0] + d[1]) % 2
    y = Rational(rng.randint(-7, 7), rng.choice([1, 2, 3, 6]))
    ch = {"y": str(y) if rng.random() < 0.2 else y}
    if rng.random() < 0.7:
        ch["3b"] = rng.randint(-3, 3)
    return Field(rng.choice(["A", "B", "φ", "ψ", "χ"]), dynkin="".join(map(str, d)), charges=ch, is_conj=rng.random() < 0.3,
                 comm=FERMI if ferm else BOSE, nf=rng.choice([1, 3]), latex=rng.choice([None, r"\phi", "X_1"]))


KIND = {"Undotted": 0, "Dotted": 1, "Isospin": 4}


def dynkin_of_indices(idx):
    d = [0] * 5
    for i in idx:
        k = str(i.tensor_index_type)
        if k == "Generation":
            continue
        if k == "Colour":
            d[2 if i.is_up else 3] += 1
        else:
            d[KIND[k]] += 1
    return "".join(map(str, d))


def conj_dynkin(d):
    return d[1] + d[0] + d[3] + d[2] + d[4]


def conserved(f):
    return dict(label=f.label.replace("†", ""), comm=f.comm, nf=f.nf, derivs=f.derivs, latex=f.latex)


def check_indexed(ctx, f, ifd, what):
    """what every indexed field must satisfy w.r.t. the field it came from"""
    txt = lambda: f"{what}: {f!r} -> {ifd!r}"
    ctx.check(ifd.dynkin == f.dynkin, "indexed:dynkin", txt)
    ctx.check(dynkin_of_indices(ifd.indices) == f.dynkin, "indexed:indices", txt)
    ctx.check(dict(ifd.charges) == dict(f.charges), "indexed:charges", txt)
    ctx.check(ifd.is_conj == f.is_conj, "indexed:is_conj", txt)
    ctx.check(conserved(ifd) == conserved(f), "indexed:attributes", lambda: f"{txt()} {conserved(ifd)} {conserved(f)}")
    ctx.check(str(ifd.label) == f.label_with_dagger, "indexed:label", txt)
    b = ifd.field
    ctx.check(b == f, "indexed:field-roundtrip", lambda: f"{txt()} back {b!r} {b._dict} vs {f._dict}")
    ctx.check(hash(b) == hash(f), "field:hash", txt)
    ctx.check(len(ifd.get_indices()) == len(set(map(str, ifd.get_indices()))), "indexed:duplicate-index", txt)
    t = ifd.indices_by_type
    ctx.check(sum(len(v) for v in t.values()) == len(ifd.indices) and all(str(i.tensor_index_type) == k for k, v in t.items() for i in v), "indexed:by-type", txt)


def check_field(ctx, f):
    txt = lambda: f"{f!r} {f._dict}"
    u, d, p, q, i = [int(x) for x in f.dynkin]
    ctx.check(f.is_boson == ((u + d) % 2 == 0) and f.is_fermion != f.is_boson, "field:statistics", txt)
    ctx.check(f.is_scalar == (u == d == 0), "field:is_scalar", txt)
    ctx.check(f.is_vector == (u == d == 1), "field:is_vector", txt)
    ctx.check(f.is_left_fermion == ((u, d) == (1, 0)) and f.is_right_fermion == ((u, d) == (0, 1)), "field:chirality", txt)
    ctx.check(f.is_singlet == (f.dynkin == "00000" and f.charges["y"] == 0), "field:singlet", txt)
    ctx.check(f.is_sm_singlet == (f.dynkin[2:] == "000" and f.charges["y"] == 0), "field:sm-singlet", txt)
    ctx.check(f.is_real_sm_irrep == (p == q and i % 2 == 0 and f.charges["y"] == 0), "field:real", txt)
    ctx.check(tuple(f.lorentz_irrep) == (u, d) and tuple(f.colour_irrep) == (p, q) and tuple(f.isospin_irrep) == (i,) and tuple(f.sm_irrep) == (p, q, i), "field:irreps", txt)
    ctx.check(tuple(f.quantum_numbers) == (p, q, i, f.charges["y"]), "field:quantum-numbers", txt)
    if (u, d) in ((0, 0), (1, 1)) or (u + d) % 2:
        ctx.check(f.mass_dim == (1.5 if (u + d) % 2 else 1), "field:mass-dim", txt)
    c = f.conj
    ctx.event("conj")
    ctx.check(c.dynkin == conj_dynkin(f.dynkin), "conj:dynkin", txt)
    ctx.check(all(c.charges[k] == -f.charges[k] for k in f.charges) and set(c.charges) == set(f.charges), "conj:charges", txt)
    ctx.check(c.is_conj != f.is_conj and c.label == f.label and conserved(c) == conserved(f), "conj:attributes", txt)
    cc = c.conj
    ctx.check(cc == f and hash(cc) == hash(f), "conj:involution", lambda: f"{txt()} -> {cc._dict}")
    ctx.check((c == f) is False, "conj:distinct", txt)


def check_eq_hash(ctx, a, b):
    """equality is what it says and hashing agrees with it"""
    same = (a.label == b.label and a.dynkin == b.dynkin and dict(a.charges) == dict(b.charges) and a.is_conj == b.is_conj and a.comm == b.comm
            and a.nf == b.nf and a.derivs == b.derivs and a.stripped == b.stripped and a.symmetry == b.symmetry)
    ctx.check((a == b) == same, "field:equality", lambda: f"{a._dict} / {b._dict}: == gives {a == b}")
    if a == b:
        ctx.check(hash(a) == hash(b), "field:hash", lambda: f"{a._dict}")


def variants(rng, f):
    from sympy import Rational
    from neutrinomass.tensormethod.core import Field
    base = dict(label=f.label, dynkin=f.dynkin, charges=dict(f.charges), is_conj=f.is_conj, comm=f.comm, nf=f.nf, derivs=f.derivs, symmetry=f.symmetry, stripped=f.stripped)
    out = [Field(**base)]
    for k, v in [("label", f.label + "x"), ("charges", {**f.charges, "y": f.charges["y"] + Rational(1, 6)}), ("charges", {**f.charges, "3b": f.charges["3b"] + 1}),
                 ("is_conj", not f.is_conj), ("nf", 4 - f.nf)]:
        out.append(Field(**{**base, k: v}))
    d = list(f.dynkin)
    j = rng.randrange(5)
    d[j] = str((int(d[j]) + 1) % 4)
    out.append(Field(**{**base, "dynkin": "".join(d), "symmetry": None}))
    return out


def call_indices(rng, f, start=None):
    n = {"u": rng.randint(0, 3), "d": rng.randint(0, 3), "c": rng.randint(0, 3), "i": rng.randint(0, 3), "g": rng.randint(0, 9)}
    if start:
        n.update(start)
    s = []
    for k, cnt in zip("udcCi", f.dynkin):
        for _ in range(int(cnt)):
            kk = k.lower()
            s.append(("-" if k == "C" else "") + f"{kk}{n[kk]}")
            n[kk] += 1
    if f.nf == 3 and rng.random() < 0.7:
        s.append(f"g{n['g']}")
        n["g"] += 1
    return " ".join(s), n


def check_rejects(ctx, f):
    """wrong indices are refused, never silently accepted"""
    rng = ctx.rng
    good, _ = call_indices(rng, f)
    toks = [t for t in good.split() if t[0] != "g"]
    bad = []
    bad.append(toks + ["i7"])
    bad.append(toks + ["u7"])
    if toks:
        bad.append(toks[:-1])
        j = rng.randrange(len(toks))
        t = toks[j]
        bad.append(toks[:j] + [t[1:] if t[0] == "-" else "-" + t] + toks[j + 1:])
        other = {"u": "d9", "d": "i9", "c": "u9", "-": "d9", "i": "c9"}[t[0]]
        bad.append(toks[:j] + [other] + toks[j + 1:])
    for b in bad:
        ctx.event("rejections")
        try:
            r = f(" ".join(b))
        except (AssertionError, ValueError):
            continue
        except Exception as e:  # noqa
            ctx.violate("call:odd-exception", f"{f!r}({b}): {type(e).__name__} {e}")
            continue
        ctx.violate("call:accepts-wrong-indices", f"{f!r}({b}) -> {r!r}")


def derivs_of(ctx, f):
    from neutrinomass.tensormethod.core import D
    rng = ctx.rng
    out = f
    for _ in range(rng.randint(1, 2)):
        u, d = int(out.dynkin[0]), int(out.dynkin[1])
        opts = [(a, b) for a in (u - 1, u + 1) for b in (d - 1, d + 1) if a >= 0 and b >= 0]
        a, b = rng.choice(opts)
        g = D(out, f"{a}{b}")
        ctx.event("derivatives")
        txt = lambda: f"D({out!r}, {a}{b}) = {g!r}"
        ctx.check(g.dynkin == f"{a}{b}" + out.dynkin[2:], "deriv:dynkin", txt)
        ctx.check(dict(g.charges) == dict(out.charges), "deriv:charges", txt)
        ctx.check(g.derivs == out.derivs + 1, "deriv:count", txt)
        ctx.check(g.nf == f.nf and g.comm == f.comm and g.is_conj == f.is_conj, "deriv:attributes", txt)
        for w in ((u, d), (u + 2, d), (u + 1, d), (u, d + 1)):
            try:
                bad = D(out, f"{w[0]}{w[1]}")
                ctx.violate("deriv:accepts-impossible", f"D({out!r},{w}) -> {bad!r}")
            except AssertionError:
                pass
        out = g
    return out


def RUN(ctx, payload):
    from neutrinomass.tensormethod.core import Index, Operator, get_dynkin
    _, n = payload
    rng = ctx.rng
    prev = None
    for c in range(n):
        f = random_field(rng)
        with ctx.guarded("field", repr(f)) as g:
            ctx.event("fields")
            check_field(ctx, f)
            for v in variants(rng, f):
                check_eq_hash(ctx, f, v)
            if prev is not None:
                check_eq_hash(ctx, f, prev)
            prev = f
            check_rejects(ctx, f)
            h = f
            if rng.random() < 0.35:
                h = derivs_of(ctx, f)
                check_field(ctx, h)
            # call / fresh
            s, nxt = call_indices(rng, h)
            ctx.case(sig=(f.dynkin, str(f.charges), f.is_conj, h.derivs, s), nontrivial=len(s.split()) > 1 or h.derivs, sample=f"{h!r}({s})")
            a = h(s)
            check_indexed(ctx, h, a, f"call {s}")
            ctx.check([str(i) for i in a.indices] == s.split(), "call:indices", lambda: f"{h!r}({s}) -> {a.indices}")
            ctx.check(get_dynkin(s) == h.dynkin and get_dynkin(a.indices) == h.dynkin, "get_dynkin", lambda: f"{s}: {get_dynkin(s)} vs {h.dynkin}")
            b, e = h.fresh_indices(), h.fresh_indices()
            check_indexed(ctx, h, b, "fresh_indices")
            ctx.check(not set(map(str, b.indices)) & (set(map(str, e.indices)) | set(map(str, a.indices))), "fresh:collides", lambda: f"{a!r} {b!r} {e!r}")
            ctx.check(any(str(i.tensor_index_type) == "Generation" for i in b.indices) == (h.nf == 3), "fresh:generation", lambda: f"{b!r} nf={h.nf}")
            # conjugation of indexed fields commutes with stripping off the indices
            ac = a.conj
            ctx.event("conj")
            check_indexed(ctx, h.conj, ac, "conj of indexed")
            acc = ac.conj
            ctx.check(acc == a or (list(map(str, acc.indices)) == list(map(str, a.indices)) and acc.field == a.field), "conj:involution-indexed", lambda: f"{a!r} -> {acc!r}")
            for i, j in zip(a.indices, ac.indices):
                k = str(i.tensor_index_type)
                want = {"Undotted": "Dotted", "Dotted": "Undotted"}.get(k, k)
                ctx.check(str(j.tensor_index_type) == want and (j.is_up == i.is_up) == (k != "Colour"), "index:conj", lambda: f"{i} -> {j}")
                ctx.check(str(-(-i)) == str(i) and (-i).is_up != i.is_up and (-i).tensor_index_type == i.tensor_index_type, "index:neg", lambda: f"{i}")
            # substitution
            if a.indices:
                sub = [(i, Index(("" if i.is_up else "-") + Index.get_index_labels()[str(i.tensor_index_type)] + str(40 + k))) for k, i in enumerate(a.indices)]
                rng.shuffle(sub)
                sub = sub[: rng.randint(1, len(sub))]
                t = a.substituted_indices(*sub)
                m = dict((str(x), str(y)) for x, y in sub)
                ctx.check([str(i) for i in t.indices] == [m.get(str(i), str(i)) for i in a.indices], "substituted:indices", lambda: f"{a!r} {sub} -> {t!r}")
                check_indexed(ctx, h, t, "substituted_indices")
                ctx.check([str(i) for i in a.indices] == s.split(), "substituted:mutates", lambda: f"{s} -> {a!r}")
            # derivative stripping
            if h.derivs:
                st = a.strip_derivs()
                ctx.check(st.label_with_dagger == f.label_with_dagger and st.dynkin == f.dynkin and dict(st.charges) == dict(f.charges) and st.derivs == 0
                          and st.is_conj == f.is_conj and st.comm == f.comm and st.nf == f.nf and st.latex == f.latex, "strip:field", lambda: f"{h!r} -> {st._dict} wanted {f._dict}")
                stc = a.conj.strip_derivs()
                ctx.check(stc == f.conj, "strip:conj", lambda: f"{h!r}: {stc._dict} wanted {f.conj._dict}")
            # products
            k = random_field(rng)
            s2, _ = call_indices(rng, k, {x: y + 20 for x, y in nxt.items()})
            op = a * k(s2)
            ctx.event("operators")
            ctx.check(isinstance(op, Operator) and [repr(x) for x in op.fields] == [repr(h), repr(k)], "operator:fields", lambda: f"{op} {op.fields}")
            ctx.check(op.fields == [h, k], "operator:field-attributes", lambda: f"{[x._dict for x in op.fields]}")
            ctx.check(op.dynkin == "".join(str(int(x) + int(y)) for x, y in zip(h.dynkin, k.dynkin)), "operator:dynkin", lambda: f"{op}: {op.dynkin}")
            ctx.check({str(i) for i in op.free_indices} == set(s.split()) | set(s2.split()), "operator:free-indices", lambda: f"{op}: {op.free_indices}")
            ctx.check(not op.epsilons and op.indexed_fields == [a, k(s2)], "operator:tensors", lambda: f"{op}")
            try:
                md = op.mass_dim
                ctx.check(md == h.mass_dim + k.mass_dim, "operator:mass-dim", lambda: f"{op}: {md}")
            except Exception:
                pass
            if rng.random() < 0.5:
                sequence(ctx, h)


def sequence(ctx, f):
    """random walk of conj / indexing / unindexing compared with a 5-line model"""
    rng = ctx.rng
    cur, indexed = f, False
    state = (f.dynkin, dict(f.charges), f.is_conj)
    trace = []
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["conj", "fresh", "field", "call"])
        if op == "conj":
            cur = cur.conj
            state = (conj_dynkin(state[0]), {k: -v for k, v in state[1].items()}, not state[2])
        elif op == "fresh":
            cur = cur.fresh_indices()
            indexed = True
        elif op == "field":
            if indexed:
                cur = cur.field
                indexed = False
        elif not indexed:
            s, _ = call_indices(rng, cur)
            cur = cur(s)
            indexed = True
        trace.append(op)
        got = (cur.dynkin, dict(cur.charges), cur.is_conj)
        ctx.check(got == state and cur.nf == f.nf and cur.comm == f.comm and cur.derivs == f.derivs and cur.latex == f.latex, "sequence", lambda: f"{f!r} {trace}: {got} wanted {state}")
    ctx.event("sequences")
