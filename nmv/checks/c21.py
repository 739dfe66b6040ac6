"""C21: the LaTeX form of an operator denotes that operator; the operator table shows every operator once with its own data."""
import contextlib
import io
import itertools
import pickle
import re

import networkx as nx

from nmv import comp, gen, tens, tex

PID = "C21"
RULE = ("a case is one operator (catalogue, random, coupling of a completion, derivative or conjugated derivative) printed with a set of ignored index kinds, or one row of the operator table; "
        "non-trivial when at least two fields are contracted with each other; distinct by the printed text")
MIN = {"printed": 700, "ignoring": 300, "derivatives": 120, "conjugated_derivatives": 40, "couplings": 60, "colour_contracted": 40, "direct_colour": 15, "chained_tensors": 45, "rows": 230, "rows_with_reference": 60, "rows_derivative": 30, "own_estimate": 200, "outside": 3}
ASSUMPTIONS = ["raised and lowered colour indices are not distinguished in LaTeX (documented in the code); tildes mark conjugated doublets; bars of exotic fermions are not printed"]

LONG = ["S0", "f3", "S1", "Xi", "T2"]
KIND = {"Undotted": "u", "Dotted": "d", "Colour": "c", "Isospin": "i"}
SMTEX = {"eb": "\\bar{e}", "ub": "\\bar{u}", "db": "\\bar{d}", "Gb": "\\bar{G}", "Wb": "\\bar{W}", "Bb": "\\bar{B}"}
GREEK = dict(zip("αβγδεζηθικλμνξπρστυφχψω", "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi pi rho sigma tau upsilon phi chi psi omega".split()))
GREEKSET = {"\\" + g for g in GREEK.values()}


def TASKS(tier, seed):
    n = 12 if tier == "quick" else 80
    return [("table", ("table",)), ("catalogue", ("catalogue",))] + [(f"rand{i}", ("rand", 45)) for i in range(n)] + [(f"deriv{i}", ("deriv", 40)) for i in range(n // 3)] + \
        [(f"compl{i}", ("completions", x)) for i, x in enumerate(["1", "2", "3a", "3b", "4a", "8", "D3"])]


def base_tex(label):
    lab = label.replace("†", "").replace("~", "")
    n = 0
    while len(lab) > 1 and lab[0] == "D":
        lab, n = lab[1:], n + 1
    if lab in SMTEX:
        return SMTEX[lab], n
    if lab[0] in GREEK:
        return "\\" + GREEK[lab[0]], n
    return lab, n


def own_graph(op, kinds):
    """contraction graph of an operator restricted to some index kinds (edges carry the kind)"""
    _, nodes = tens.network(op)
    fl = iter(op.indexed_fields)
    g = nx.MultiGraph()
    ends = {}
    for k, nd in enumerate(nodes):
        if nd.kind == "F":
            f = next(fl)
            b, n = base_tex(str(f.label))
            g.add_node(k, lab=("field", b, bool(f.is_conj), n))
        else:
            if not any(KIND.get(a) in kinds for a, _, _ in nd.legs):
                continue
            g.add_node(k, lab=("tensor", "delta" if nd.kind == "d" else "epsilon", len(nd.legs)))
        for a, name, up in nd.legs:
            q = KIND.get(a)
            if q in kinds:
                ends.setdefault((q, name), []).append(k)
    return finish(g, ends)


def finish(g, ends):
    for (q, name), e in ends.items():
        if len(e) == 1:
            o = ("open", q, name)
            g.add_node(o, lab=("open", q))
            g.add_edge(e[0], o, kind=q)
        else:
            g.add_edge(e[0], e[1], kind=q)
    return contract_pairs(g)


def contract_pairs(g):
    """colour deltas are lines; how a line is drawn (directly or with a delta) does not matter"""
    h = nx.MultiGraph(g)
    for k, d in list(h.nodes(data=True)):
        if d["lab"][0] == "tensor" and d["lab"][1] == "delta":
            nb = [v for _, v in h.edges(k)]
            if len(nb) == 2 and k not in nb:
                h.add_edge(nb[0], nb[1], kind="c")
                h.remove_node(k)
    return h


def kind_of(sym):
    if sym.startswith("\\dot{"):
        return "d"
    if sym in GREEKSET:
        return "u"
    if len(sym) == 1 and sym in "abcdefgh":
        return "c"
    if len(sym) == 1 and "i" <= sym <= "z" and sym != "o":
        return "i"
    raise tex.Bad(f"index symbol {sym}")


def read_graph(r):
    g = nx.MultiGraph()
    ends = {}
    for k, (b, c, n, idx) in enumerate(r.fields):
        g.add_node(("f", k), lab=("field", b, c, n))
        for s in idx:
            ends.setdefault((kind_of(s.split("#")[0]), s), []).append(("f", k))
    for k, (kd, idx) in enumerate(r.tensors):
        g.add_node(("t", k), lab=("tensor", kd, len(idx)))
        for s in idx:
            ends.setdefault((kind_of(s.split("#")[0]), s), []).append(("t", k))
    for key, e in ends.items():
        if len(e) > 2:
            raise tex.Bad(f"index {key[1]} occurs {len(e)} times")
    return finish(g, ends)


def same(a, b):
    if sorted(d["lab"] for _, d in a.nodes(data=True)) != sorted(d["lab"] for _, d in b.nodes(data=True)) or a.number_of_edges() != b.number_of_edges():
        return False
    a, b = simple(a), simple(b)
    return nx.is_isomorphic(a, b, node_match=lambda x, y: x["lab"] == y["lab"])


def simple(g):
    """edges become nodes, so that kinds and multiplicities count"""
    h = nx.Graph()
    for k, d in g.nodes(data=True):
        h.add_node(k, lab=d["lab"])
    for n, (u, v, d) in enumerate(g.edges(data=True)):
        h.add_node(("e", n), lab=("edge", d["kind"]))
        h.add_edge(u, ("e", n))
        h.add_edge(v, ("e", n))
    return h


def check_print(ctx, op, txt, ignore=(), what="printed"):
    kinds = {k for k in "udci" if k not in ignore}
    with ctx.guarded("latex:raises", lambda: f"{txt} ignoring {ignore}") as g:
        s = op.latex(ignore=list(ignore)) if ignore else op.latex()
    if not g.ok:
        return
    ctx.event("printed")
    if what != "printed":
        ctx.event(what)
    if ignore:
        ctx.event("ignoring")
    ctx.case(sig=s, nontrivial=len(op.indexed_fields) > 1 and "epsilon" in s, sample=f"{txt} -> {s}")
    try:
        got = read_graph(tex.Reader(s, LONG))
    except tex.Bad as e:
        ctx.violate("latex:unreadable", f"{txt} ignoring {ignore}: {s}: {e}")
        return
    want = own_graph(op, kinds)
    ctx.check(same(got, want), "latex:different", lambda: f"{txt} ignoring {''.join(ignore)} prints {s}")


def capacity(op):
    """enough names for all indices?"""
    n = {k: 0 for k in "udci"}
    _, nodes = tens.network(op)
    for nd in nodes:
        for a, _, _ in nd.legs:
            if a in KIND:
                n[KIND[a]] += 1
    return n["u"] <= 23 and n["d"] <= 23 and n["c"] <= 8 and n["i"] <= 17


def random_ignore(rng):
    return tuple(k for k in "udc" if rng.random() < 0.5) if rng.random() < 0.7 else tuple(k for k in "udci" if rng.random() < 0.4)


def rand(ctx, n):
    from neutrinomass.tensormethod.core import Field
    rng = ctx.rng
    for _ in range(n):
        pool = gen.make_pool(rng, nf3=rng.random() < 0.5)
        # some names of several letters, as in README and in completions with many exotics
        pool = [Field(rng.choice(LONG) if (f.label in ("X", "Y", "Z") and rng.random() < 0.5) else f.label, dynkin=f.dynkin, charges=f.charges, comm=f.comm, nf=f.nf, is_conj=f.is_conj, latex=SMTEX.get(f.label)) for f in pool]
        fs = gen.random_fields(rng, pool, 2, 5)
        coloured = [f for f in pool if f.dynkin[2:4] != "00"]
        if rng.random() < 0.4 and len(coloured) > 1:
            fs = gen.random_fields(rng, coloured, 3, 6)
        if fs is None or len({(f.label, f.dynkin) for f in fs}) != len({f.label_with_dagger for f in fs}):
            continue
        idx = gen.index_fields(fs, gens=True)
        inv = gen.random_contraction(rng, idx)
        drop = []
        if rng.random() < 0.2 and inv:      # open indices
            drop = [rng.choice(inv)]
        op = gen.build(idx, [e for e in inv if e not in drop])
        if not hasattr(op, "indexed_fields") or not capacity(op):
            continue
        txt = gen.describe(idx, [e for e in inv if e not in drop])
        if any(len(s.split()) == 3 for k, s in inv) or any(k == "delta" for k, s in inv):
            ctx.event("colour_contracted")
        check_print(ctx, op, txt)
        ig = random_ignore(rng)
        if ig:
            check_print(ctx, op, txt, ig)
        direct = contract_directly(rng, idx, inv)
        if direct is not None and not drop:
            op = gen.build(*direct)
            ctx.event("direct_colour")
            check_print(ctx, op, gen.describe(*direct))
        for _ in range(3):
            chained = chain(rng, inv)
            if chained is None:
                break
            op = gen.build(idx, chained)
            if hasattr(op, "indexed_fields") and capacity(op):
                ctx.event("chained_tensors")
                check_print(ctx, op, gen.describe(idx, chained))


def chain(rng, inv):
    """contract invariant tensors with each other: two deltas become two epsilons with a common index, a delta becomes two"""
    deltas = [e for e in inv if e[0] == "delta" and e[1].split()[0].startswith("c")]
    rest = [e for e in inv if e not in deltas]
    rng.shuffle(deltas)
    if len(deltas) >= 2 and rng.random() < 0.7:
        (b1, a1), (b2, a2) = (e[1].split() for e in deltas[:2])
        new = [("eps", " ".join(rng.sample([a1, a2, "-c77"], 3))), ("eps", " ".join(rng.sample([b1, b2, "c77"], 3)))]
        rng.shuffle(new)
        return rest + new + deltas[2:]
    if deltas:
        b, a = deltas[0][1].split()
        new = [("delta", f"{b} -c77"), ("delta", f"c77 {a}")]
        rng.shuffle(new)
        return rest + new + deltas[1:]
    eps3 = [e for e in inv if len(e[1].split()) == 3 and e[1].startswith("-c")]
    if eps3:
        a, b, c = eps3[0][1].split()
        new = [("eps", f"{a} {b} -c77"), ("delta", f"c77 {c}")]
        rng.shuffle(new)
        return [e for e in inv if e != eps3[0]] + new
    return None



def contract_directly(rng, idx, inv):
    """replace a colour delta by equal names on the fields"""
    for n, (k, s) in enumerate(inv):
        if k != "delta":
            continue
        b, a = s.split()
        a = a.lstrip("-")
        b = b.lstrip("-")
        where = lambda nm: [m for m, (_, i) in enumerate(idx) if nm in [x.lstrip("-") for x in i]]
        if where(a) == where(b):
            continue
        new = [(f, [("-" + a if x == "-" + b else x) for x in i]) for f, i in idx]
        return new, inv[:n] + inv[n + 1:]
    return None


def deriv(ctx, n):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, eps, Operator
    rng = ctx.rng
    for _ in range(n):
        k = rng.randint(1, 3)
        fs = []
        for _ in range(k):
            f = rng.choice([sm.L, sm.Q, sm.eb, sm.ub, sm.db, sm.H])
            if rng.random() < 0.4:
                f = f.conj
            nd = rng.choice([0, 1, 1, 2])
            for _ in range(nd):
                u, d = int(f.dynkin[0]), int(f.dynkin[1])
                opts = [(u + 1, d + 1)] + ([(u - 1, d + 1)] if u else []) + ([(u + 1, d - 1)] if d else [])
                f = D(f, "%d%d" % rng.choice(opts))
                ctx.event("derivatives")
            if rng.random() < 0.4:
                f = f.conj
                if nd:
                    ctx.event("conjugated_derivatives")
            fs.append(f)
        idx = gen.index_fields(fs, gens=True)
        flat = [x for _, i in idx for x in i]
        inv = []
        for q in "udi":
            xs = [x for x in flat if x[0] == q]
            rng.shuffle(xs)
            inv += [("eps", f"-{a} -{b}") for a, b in zip(xs[::2], xs[1::2])]
        inv.append(("eps", "-i98 -i99"))
        op = gen.build(idx, inv)
        if not capacity(op):
            continue
        txt = gen.describe(idx, inv)
        check_print(ctx, op, txt)
        ig = random_ignore(rng)
        check_print(ctx, op, txt, tuple(k for k in ig if k != "i"))
        for f in fs:
            # a field prints like its indexed form, conjugation always shows
            i = f(" ".join(x for _, xx in gen.index_fields([f], gens=True) for x in xx))
            ctx.check(f.get_latex() == i.get_latex(), "latex:field", lambda: f"{f!r}: field prints {f.get_latex()}, indexed {i.get_latex()}")
            ctx.check(i.conj.get_latex() != i.get_latex() and i.conj.get_latex() == f.conj.get_latex(), "latex:conjugate", lambda: f"{f!r} prints {i.get_latex()}, its conjugate {i.conj.get_latex()} / {f.conj.get_latex()}")


def all_operators():
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    return {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}


def catalogue(ctx):
    for name, e in all_operators().items():
        op = e.operator
        if any(f.derivs for f in op.indexed_fields):
            ctx.event("derivatives")
        if capacity(op):
            check_print(ctx, op, name)
        check_print(ctx, op, name, ("u", "d", "c"))


def completions(ctx, name):
    from nmv import work
    e = work.catalogue(name)
    for c in itertools.islice(work.run(e, name.startswith("D")), 25):
        for t in c.terms:
            if not hasattr(t, "latex") or not capacity(t):
                continue
            check_print(ctx, t, f"{name}: {t}", what="couplings")
            check_print(ctx, t, f"{name}: {t}", ("u", "d"), what="couplings")


# --- the operator table -------------------------------------------------------
@contextlib.contextmanager
def served(models, table, stub):
    """models.p and the filtered table are not shipped: serve given ones"""
    import builtins
    import neutrinomass.database.operators as m
    import neutrinomass.database.utils as u
    real = builtins.open
    data = pickle.dumps(models)

    def opener(f, *a, **k):
        return io.BytesIO(data) if str(f).endswith("models.p") else real(f, *a, **k)
    saved = {"MVDF": getattr(m, "MVDF", None), "m": getattr(m, "table_data", None), "u": u.table_data}
    builtins.open = io.open = opener
    m.MVDF = table
    u.table_data = stub
    if saved["m"] is not None:
        m.table_data = stub
    try:
        yield m
    finally:
        builtins.open = io.open = real
        m.MVDF = saved["MVDF"]
        u.table_data = saved["u"]
        if saved["m"] is not None:
            m.table_data = saved["m"]


def label_of(s):
    return re.sub(r"\^\{((?:\\prime)+)\}$", lambda m: "p" * m.group(1).count("prime"), s.strip().strip("$"))


def table(ctx):
    import neutrinomass.completions.operators as ops_mod
    from neutrinomass.tensormethod.core import Operator
    ops = all_operators()
    rng = ctx.rng
    names = list(ops)
    models = {n: 1000 + 7 * k for k, n in enumerate(names) if rng.random() < 0.9}
    filtered = {n: rng.randint(0, 5) for n in models}
    rows_in = [n for n in models for _ in range(filtered[n])]
    rng.shuffle(rows_in)
    asked = []

    def stub(op):
        asked.append(op.name)
        return f"loops:{op.name}", f"scale:{op.name}"
    out = io.StringIO()
    with ctx.guarded("table:raises", "print_paper_table()", cpu=900) as g:
        with served(models, {"op": rows_in}, stub) as m, contextlib.redirect_stdout(out):
            m.print_paper_table()
    if not g.ok:
        return
    rows = {}
    for line in out.getvalue().splitlines():
        cells = [c.strip() for c in line.strip().removesuffix("\\\\").split("&")]
        if len(cells) != 6:
            ctx.check(not line.strip(), "table:format", line)
            continue
        lab = label_of(cells[0])
        ctx.check(lab not in rows, "table:repeated", line)
        rows[lab] = cells
    parsed = {}

    def full(lab, depth=0):
        if lab not in rows:
            raise tex.Bad(f"refers to operator {lab}, which has no row")
        r = tex.Reader(rows[lab][1])
        for n, x in enumerate(r.refs):
            s = full(x, depth + 1)
            ren = lambda i: f"{i}#{depth}.{n}"
            r.fields += [(b, c, d, tuple(map(ren, i))) for b, c, d, i in s.fields]
            r.tensors += [(k, list(map(ren, i))) for k, i in s.tensors]
        return r
    raw = dict(getattr(ops_mod, "pickle_form_deriv_ops", {}))
    for lab in names:
        if not ctx.check(lab in rows, "table:missing", f"operator {lab} has no row"):
            continue
    for lab, cells in rows.items():
        ctx.event("rows")
        try:
            r = full(lab)
            if r.refs:
                ctx.event("rows_with_reference")
            g = read_graph(r)
        except tex.Bad as e:
            ctx.violate("table:unreadable", f"{lab}: {cells[1]}: {e}")
            continue
        if any(f[2] for f in r.fields):
            ctx.event("rows_derivative")
        ctx.case(sig=cells[1], nontrivial=len(r.fields) > 1, sample=f"{lab}: {cells[1]}")
        ctx.check(not any(d["lab"][0] == "open" for _, d in g.nodes(data=True)), "table:open", lambda: f"{lab}: {cells[1]} leaves isospin indices open")
        if lab in ops:
            want = own_graph(ops[lab].operator, {"i"})
        elif lab in raw:
            want = own_graph(Operator.from_pickle_form(raw[lab]), {"i"})
        else:
            want = None
        if want is not None:
            ctx.check(same(g, want), "table:different", lambda: f"row {lab} shows {cells[1]}, the operator is {ops[lab].operator if lab in ops else raw[lab]}")
        want = [str(models[lab]), str(filtered[lab])] if lab in models else ["", ""]
        ctx.check(cells[2:4] == want, "table:counts", lambda: f"row {lab} shows {cells[2:4]} models, there are {want}")
        if lab in ops:
            if cells[4].startswith("loops:"):
                ctx.event("own_estimate")
                ctx.check(cells[4:6] == [f"loops:{lab}", f"scale:{lab}"], "table:estimate", lambda: f"row {lab} shows the estimate {cells[4:6]}")
        else:
            ctx.event("outside")
            ctx.check(cells[4] in ("", f"loops:{lab}") and cells[5] in ("", f"scale:{lab}"), "table:estimate", lambda: f"row {lab} (not in the catalogue) shows the estimate {cells[4:6]}")
    # the estimate cells are those of the operator when nothing is replaced
    if not any(c[4].startswith("loops:") for c in rows.values()):
        from neutrinomass.database.utils import table_data
        for lab in rng.sample([n for n in names if n in rows], 25):
            ctx.event("own_estimate", 8)
            ctx.check(tuple(rows[lab][4:6]) == tuple(map(str, table_data(ops[lab]))), "table:estimate", lambda: f"row {lab} shows {rows[lab][4:6]}, not {table_data(ops[lab])}")


def RUN(ctx, payload):
    kind, *x = payload
    {"table": table, "catalogue": catalogue, "rand": rand, "deriv": deriv, "completions": completions}[kind](ctx, *x)
