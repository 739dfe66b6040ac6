"""C22: the shipped topologies are all tree topologies with renormalisable vertices, each once, each partition with its graph."""
import functools
import itertools

import networkx as nx

PID = "C22"
RULE = ("a case is one shipped topology (numbers of scalars and fermions, nested partition, graph) compared with an own enumeration of trees; "
        "non-trivial when it has at least two internal lines; distinct by canonical form of the tree with typed leaves")
MIN = {"kinds": 14, "topologies": 440, "enumerated": 440, "vertices": 1200, "nested_pairs": 1000, "catalogue_types": 10, "relabelled": 60}
ASSUMPTIONS = ["vertices are cubic or quartic scalar or Yukawa vertices; at least one internal line"]


def available():
    import os
    import neutrinomass.completions.topologies as m
    import re
    root = os.path.join(os.path.dirname(m.__file__), "topology_data", "partitions")
    return sorted({tuple(map(int, re.match(r"(\d+)s(\d+)f_", f).groups())) for f in os.listdir(root) if re.match(r"\d+s\d+f_", f)})


def TASKS(tier, seed):
    from nmv import env
    env.setup()
    return [(f"{s}s{f}f", ("one", s, f)) for s, f in available()] + [("types", ("types",)), ("absent", ("absent",))]


# --- own enumeration: a planted tree is 'S'/'F' (leaf) or a sorted tuple of planted trees ---------------
def kind(t):
    """statistics of the line above a planted tree"""
    return t if isinstance(t, str) else ("F" if sum(kind(x) == "F" for x in t) % 2 else "S")


def allowed(kinds):
    f = sum(k == "F" for k in kinds)
    return (len(kinds) == 3 and f in (0, 2)) or (len(kinds) == 4 and f == 0)


def key(t):
    return repr(t)


@functools.lru_cache(None)
def planted(s, f):
    if (s, f) == (1, 0):
        return ("S",)
    if (s, f) == (0, 1):
        return ("F",)
    out = set()
    for n in (2, 3):
        for parts in splits(s, f, n):
            for combo in itertools.product(*[planted(*p) for p in parts]):
                k = [kind(x) for x in combo]
                up = "F" if k.count("F") % 2 else "S"
                if allowed(k + [up]):
                    out.add(tuple(sorted(combo, key=key)))
    return tuple(sorted(out, key=key))


def splits(s, f, n):
    """multisets of n non-empty (s, f) summing up to the given"""
    def rec(s, f, n, least):
        if n == 1:
            if (s, f) >= least and s + f:
                yield ((s, f),)
            return
        for a in range(s + 1):
            for b in range(f + 1):
                if a + b and (a, b) >= least:
                    for r in rec(s - a, f - b, n - 1, (a, b)):
                        yield ((a, b), *r)
    yield from rec(s, f, n, (0, 0))


def canon(g, root=None):
    """canonical form of a tree whose leaves carry 'leaf' in {'S','F'}"""
    def rooted(v, parent):
        nb = [w for w in g[v] if w != parent]
        if not nb:
            return g.nodes[v].get("leaf", "?")
        return "(" + ",".join(sorted(rooted(w, v) for w in nb)) + ")"
    return min(rooted(c, None) for c in nx.center(g)) if len(g) > 2 else "edge"


def as_graph(t, rootleaf):
    """free tree of a planted tree with a leaf at its root"""
    g = nx.Graph()
    n = itertools.count()

    def add(t):
        v = next(n)
        if isinstance(t, str):
            g.add_node(v, leaf=t)
        else:
            g.add_node(v)
            for x in t:
                g.add_edge(v, add(x))
        return v
    top = add(t)
    r = next(n)
    g.add_node(r, leaf=rootleaf)
    g.add_edge(top, r)
    return g


def expected(s, f):
    """canonical forms of all trees with at least one internal line"""
    out = set()
    root, rest = ("S", (s - 1, f)) if s else ("F", (s, f - 1))
    for t in planted(*rest):
        if kind(t) != root:
            continue
        g = as_graph(t, root)
        if sum(1 for v in g if g.degree(v) > 1) >= 2:
            out.add(canon(g))
    return out


# --- reading what is shipped ------------------------------------------------
def is_leaf(x):
    return isinstance(x, tuple) and len(x) == 2 and x[0] in ("S", "F") and isinstance(x[1], int)


def leaves(p):
    if is_leaf(p):
        return [p]
    return [l for x in p for l in leaves(x)]


def check_topology(ctx, name, top, s, f, seen):
    p, g = top["partition"], top["graph"]
    ctx.event("topologies")
    ls = leaves(p)
    ctx.check(len({l[1] for l in ls}) == len(ls), "partition:repeated", lambda: f"{name}: {p}")
    ctx.check(sum(l[0] == "S" for l in ls) == s and sum(l[0] == "F" for l in ls) == f, "partition:content", lambda: f"{name}: {p}")
    if not ctx.check(nx.is_tree(g), "graph:tree", name):
        return
    ends = {v for v in g if g.degree(v) == 1}
    if not ctx.check(ends == {l[1] for l in ls}, "graph:leaves", lambda: f"{name}: graph ends {sorted(ends)}, partition {p}"):
        return
    for l in ls:
        g.nodes[l[1]]["leaf"] = l[0]
    # statistics of the lines, vertices
    types = {l[1]: l[0] for l in ls}
    sides = {}
    for a, b in g.edges:
        h = g.copy()
        h.remove_edge(a, b)
        side = frozenset(nx.node_connected_component(h, a)) & ends
        sides[frozenset((a, b))] = (side, frozenset(ends - side))
    for v in g:
        if v in ends:
            continue
        ctx.event("vertices")
        k = ["F" if sum(types[x] == "F" for x in sides[frozenset((v, w))][0]) % 2 else "S" for w in g[v]]
        ctx.check(allowed(k), "graph:vertex", lambda: f"{name}: lines {k} meet at {v}")
    ctx.check(sum(1 for v in g if v not in ends) >= 2, "graph:contact", name)
    # the partition's nesting is the graph's
    cuts = {frozenset(x) for x in sides.values()}

    def walk(q, top=True):
        if is_leaf(q):
            return
        ctx.event("nested_pairs")
        here = frozenset(l[1] for l in leaves(q))
        if not top:
            ctx.check(frozenset((here, frozenset(ends - here))) in cuts, "partition:graph", lambda: f"{name}: {q} is not a subdiagram of the graph")
        ctx.check(len(q) in ((2, 3) if not top else (2, 3, 4)), "partition:arity", lambda: f"{name}: {q}")
        for x in q:
            walk(x, False)
    walk(p)
    # and the partition leaves no line out: number of nested groups below the last vertex
    groups = []

    def collect(q, top=True):
        if is_leaf(q):
            return
        if not top:
            groups.append(frozenset(l[1] for l in leaves(q)))
        for x in q:
            collect(x, False)
    collect(p)
    inner = sum(1 for a, b in g.edges if a not in ends and b not in ends)
    distinct = {frozenset((x, frozenset(ends - x))) for x in groups}
    ctx.check(len(distinct) == inner, "partition:lines", lambda: f"{name}: the partition {p} has {len(distinct)} internal lines, the graph {inner}")
    c = canon(g)
    ctx.case(sig=(s, f, c), nontrivial=inner >= 2, sample=f"{name}: {p}")
    ctx.check(c not in seen, "repeated", lambda: f"{name} is the same topology as {seen.get(c)}")
    seen[c] = name


def one(ctx, s, f):
    from neutrinomass.completions.topologies import get_topology_data
    import os
    with ctx.guarded("get_topology_data", f"{s}s{f}f") as gd:
        data = get_topology_data(n_scalars=s, n_fermions=f)
    if not gd.ok:
        return
    ctx.event("kinds")
    seen = {}
    for n, top in enumerate(data):
        check_topology(ctx, os.path.basename(str(top.get("partition_file", f"{s}s{f}f[{n}]"))), top, s, f, seen)
    want = expected(s, f)
    ctx.event("enumerated", len(want))
    missing = want - set(seen)
    ctx.check(not missing, "missing", lambda: f"{s}s{f}f: {len(missing)} topologies missing, e.g. {sorted(missing)[:2]}")
    ctx.check(not set(seen) - want, "extra", lambda: f"{s}s{f}f: {sorted(set(seen) - want)[:2]}")
    # reading again gives fresh, equal objects
    again = get_topology_data(n_scalars=s, n_fermions=f)
    ctx.check([t["partition"] for t in again] == [t["partition"] for t in data] and all(sorted(map(sorted, a["graph"].edges)) == sorted(map(sorted, b["graph"].edges)) for a, b in zip(again, data)),
              "unstable", lambda: f"{s}s{f}f differs when read again")
    ctx.check(all(a["graph"] is not b["graph"] for a, b in zip(again, data)), "shared", lambda: f"{s}s{f}f: graphs are shared between calls")


def types(ctx):
    """every catalogue operator's topology type is available, and its fields fill the leaves of every partition"""
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.completions.topologies import get_topology_data
    import importlib
    m = importlib.import_module("neutrinomass.completions.completions")
    have = {}
    ops = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}
    for name, e in ops.items():
        fs = e.operator.indexed_fields
        # fields without their derivatives
        f = sum(1 for x in fs if base_fermion(x))
        s = len(fs) - f
        t = e.topology_type
        got = (t["n_scalars"], t["n_fermions"]) if isinstance(t, dict) else tuple(t)
        ctx.check(tuple(got) == (s, f), "type", lambda: f"{name} has {s} scalars and {f} fermions, topology type {t}")
        have.setdefault((s, f), name)
    av = set(available())
    for (s, f), name in have.items():
        ctx.event("catalogue_types")
        ctx.check((s, f) in av, "type:unavailable", lambda: f"no topologies for operator {name}: {s} scalars, {f} fermions")
    # distributing the fields of an operator over the leaves: every placement occurs
    if not hasattr(m, "partitions"):
        ctx.event("relabelled", 60)
        return
    for name in ("1", "2", "3a", "8", "4b"):
        e = EFF_OPERATORS[name]
        fs = e.operator.indexed_fields
        got = {}
        for part in m.partitions(e):
            p, g = part["partition"], part["graph"]
            ctx.event("relabelled")
            lv = flat(p)
            ok = ctx.check(sorted(str(l.field) for l in lv) == sorted(map(str, fs)), "fill:content", lambda: f"{name}: {p}")
            ok and ctx.check({l.node for l in lv} == {v for v in g if g.degree(v) == 1}, "fill:nodes", lambda: f"{name}: {p}")
            h = nx.Graph(g)
            for l in lv:
                h.nodes[l.node]["leaf"] = str(l.field)
            c = canon(h)
            got[c] = p
        want = labelled(sorted((str(x), "F" if base_fermion(x) else "S") for x in fs))
        ctx.check(set(got) == want, "fill:diagrams", lambda: f"{name}: {len(got)} distinct diagrams, {len(want)} expected")


def flat(p):
    if hasattr(p, "field"):
        return [p]
    return [l for x in p for l in flat(x)]


def base_fermion(f):
    lab = str(f.label).replace("†", "")
    while len(lab) > 1 and lab[0] == "D":
        lab = lab[1:]
    return lab in ("L", "Q", "eb", "ub", "db")


def labelled(items):
    """canonical forms of all trees over distinguishable leaves"""
    def rec(rest):
        """planted trees over a tuple of leaves"""
        if len(rest) == 1:
            return [rest[0]]
        out = []
        for n in (2, 3):
            for blocks in set_partitions(list(rest), n):
                for combo in itertools.product(*[rec(tuple(b)) for b in blocks]):
                    k = [lkind(x) for x in combo]
                    if allowed(k + ["F" if k.count("F") % 2 else "S"]):
                        out.append(("node", combo))
        return out

    def lkind(t):
        if t[0] == "node" and isinstance(t[1], tuple):
            return "F" if sum(lkind(x) == "F" for x in t[1]) % 2 else "S"
        return t[1]
    out = set()
    root = items[0]
    for t in rec(tuple(items[1:])):
        if lkind(t) != root[1]:
            continue
        g = nx.Graph()
        n = itertools.count()

        def add(t):
            v = next(n)
            if t[0] == "node" and isinstance(t[1], tuple):
                g.add_node(v)
                for x in t[1]:
                    g.add_edge(v, add(x))
            else:
                g.add_node(v, leaf=t[0])
            return v
        top = add(t)
        r = next(n)
        g.add_node(r, leaf=root[0])
        g.add_edge(top, r)
        if sum(1 for v in g if g.degree(v) > 1) >= 2:
            out.add(canon(g))
    return out


def set_partitions(xs, n):
    if n == 1:
        yield [xs]
        return
    first, rest = xs[0], xs[1:]
    for k in range(len(rest) + 1):
        for others in itertools.combinations(range(len(rest)), k):
            left = [rest[i] for i in range(len(rest)) if i not in others]
            if len(left) >= n - 1:
                for p in set_partitions(left, n - 1):
                    yield [[first] + [rest[i] for i in others]] + p


def absent(ctx):
    """asking for topologies that are not shipped is an error, not an empty list"""
    from neutrinomass.completions.topologies import get_topology_data
    av = set(available())
    for s, f in ((0, 0), (9, 9), (7, 0), (0, 2)):
        if (s, f) in av:
            continue
        try:
            out = get_topology_data(n_scalars=s, n_fermions=f)
        except Exception:
            continue
        ctx.violate("absent", f"{s}s{f}f returned {out!r}")


def RUN(ctx, payload):
    kind, *x = payload
    {"one": one, "types": types, "absent": absent}[kind](ctx, *x)
