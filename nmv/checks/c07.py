"""C07: diagram, couplings and operator of a completion agree: integrating the exotics
out of the couplings along the diagram gives back the operator."""
from collections import Counter
import networkx as nx
from nmv import comp, tens, work

PID = "C07"
RULE = ("a case is one completion (catalogue or random operator); its couplings are joined along the exotic propagators and the resulting index flow compared with the operator; "
        "non-trivial when at least two propagators are joined; distinct by operator, partition and couplings")
MIN = {"completions": 1000, "glued": 1000, "diagrams": 1000, "vertices": 2500, "derivative_glued": 100, "colour_glued": 300, "names": 3000}
ASSUMPTIONS = ["for derivative operators the gauge-index flow is compared; their Lorentz structure arises from the expanded propagators"]


def TASKS(tier, seed):
    return work.samples(tier, seed, 8, 60) + work.tasks(tier, seed, n_rand=16, per4=6, per5=3, medium=2)


def name_of(label):
    return str(label).replace("†", "").replace("~", "")


def flat(part):
    if isinstance(part, tuple) and len(part) == 2 and isinstance(part[1], int):
        yield part
    else:
        for p in part:
            yield from flat(p)


_TOPO = {}


def topo_graph(e, name):
    from neutrinomass.completions.topologies import get_topology_data
    import os
    tt = e.topology_type
    key = tuple(sorted(tt.items()))
    if key not in _TOPO:
        _TOPO[key] = {os.path.splitext(os.path.basename(d["partition_file"]))[0]: d for d in get_topology_data(**tt)}
    return _TOPO[key].get(name)


def check_diagram(ctx, txt, e, c):
    g = c.graph
    ctx.event("diagrams")
    if not ctx.check(nx.is_tree(g), "diagram:not-a-tree", lambda: f"{txt()}: {list(g.edges)}"):
        return
    deg = dict(g.degree())
    ctx.check(set(deg.values()) <= {1, 3, 4}, "diagram:degrees", lambda: f"{txt()}: {deg}")
    part = nx.get_edge_attributes(g, "particle")
    if not ctx.check(len(part) == g.number_of_edges(), "diagram:unlabelled-edge", lambda: f"{txt()}: {part}"):
        return
    leaves = {n for n, d in deg.items() if d == 1}
    P = lambda a, b: part.get((a, b), part.get((b, a)))
    # leaves <-> fields of the operator
    at = {}
    for f, n in flat(c.partition):
        ctx.check(n in leaves and n not in at, "partition:nodes", lambda: f"{txt()}: {c.partition}")
        at[n] = f
    if not ctx.check(set(at) == leaves, "partition:nodes", lambda: f"{txt()}: {c.partition}"):
        return
    key = lambda f: (comp.base_label(f), bool(f.is_conj))
    ctx.check(Counter(map(key, at.values())) == Counter(map(key, e.fields)), "partition:fields", lambda: f"{txt()}: {c.partition}")
    for n, f in at.items():
        lab = P(n, next(iter(g.neighbors(n))))
        ctx.check(lab.rstrip("0123456789") == str(f.label), "diagram:leaf-label", lambda: f"{txt()}: edge {lab}, field {f}")
    # vertices <-> couplings
    terms = Counter()
    for t in c.terms:
        terms[tuple(sorted((comp.base_label(f) or "x" + name_of(f.label)) for f in t.fields))] += 1
    verts = Counter()
    for v in g.nodes:
        if v in leaves:
            continue
        items = []
        for n in g.neighbors(v):
            items.append(comp.base_label(at[n]) if n in leaves else "x" + name_of(P(v, n)))
        verts[tuple(sorted(items))] += 1
        ctx.event("vertices")
    ctx.check(terms == verts, "diagram:vertices", lambda: f"{txt()}: couplings {dict(terms)} but vertices {dict(verts)}")
    identity(ctx, txt, c)
    td = topo_graph(e, c.topology)
    if ctx.check(td is not None, "topology:unknown", lambda: f"{txt()}: {c.topology}"):
        ctx.check(set(map(frozenset, td["graph"].edges)) == set(map(frozenset, g.edges)), "topology:graph", lambda: f"{txt()}: {c.topology}")


def identity(ctx, txt, c):
    """within a diagram, one name is one field: its propagators carry one set of quantum numbers"""
    seen = {}
    for t in c.terms:
        for f in t.fields:
            if comp.base_label(f) is not None:
                continue
            u, d, p, q, i = f.dynkin
            y = comp.frac(f.charges["y"])
            qn = (u + d in ("10", "01"), i, min((p, q, y), (q, p, -y)))
            ctx.event("names")
            ctx.check(seen.setdefault(name_of(f.label), qn) == qn, "exotics:ambiguous-name", lambda: f"{txt()}: {f.label} is {qn} and {seen[name_of(f.label)]}")


def RUN(ctx, payload):
    for name, e, deriv in work.operators(ctx, payload):
        with ctx.guarded("completions", f"{name}: {e.operator}") as g:
            cs = work.run(e, deriv)
        if not g.ok:
            continue
        for c in cs:
            txt = lambda: f"{name}: {e.operator} -> {c.terms}"
            ctx.event("completions")
            check_diagram(ctx, txt, e, c)
            ctx.check([comp.base_label(f) for f in sorted(c.operator.fields, key=repr)] and
                      Counter((comp.base_label(f), bool(f.is_conj)) for f in c.operator.fields) == Counter((comp.base_label(f), bool(f.is_conj)) for f in e.fields),
                      "operator:fields", lambda: f"{txt()}: {c.operator.operator}")
            ctx.check(c.operator.name == e.name, "operator:name", txt)
            if not deriv:
                # isospin and flavour structure is the one asked for
                a, b = comp.op_graph(c.operator.operator, ("Isospin",)), comp.op_graph(e.operator, ("Isospin",))
                ctx.check(comp.iso_graphs(a, b), "operator:isospin", lambda: f"{txt()}: {c.operator.operator}")
            free = {str(i.tensor_index_type) for i in c.operator.operator.free_indices}
            ctx.check(free <= {"Generation"}, "operator:open-indices", lambda: f"{txt()}: {c.operator.operator}")
            try:
                ok, why = comp.glue(c.terms, c.operator.operator, kinds=comp.GAUGE if deriv else comp.ALL, lorentz=not deriv)
            except tens.Unsupported as ex:
                ctx.violate("glue:malformed", f"{txt()}: {ex}")
                continue
            ctx.event("glued")
            ctx.event("derivative_glued", int(deriv))
            ctx.event("colour_glued", int(any(f.dynkin[2:4] != "00" for f in e.fields)))
            ctx.check(ok, "glue:operator-not-reproduced", lambda: f"{txt()}: {why}; operator {c.operator.operator}")
            ctx.case(sig=(repr(e.operator), comp.comp_sig(c), str(c.partition)), nontrivial=len(c.terms) > 2, sample=f"{name}: {c.terms} -> {c.operator.operator}")
