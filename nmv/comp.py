"""Independent semantics of tree-level completions.

* ``CV``: a completion read into plain data (terms as networks, propagators);
* ``glue``: integrates the exotics out (joins the terms along the propagators) and
  compares the result with the operator, as labelled graphs;
* ``reference``: every tree with cubic/quartic vertices over the operator's fields and
  the exotic content that its index lines imply -- written without looking at
  partitions, symbols or the contraction code.
"""
import itertools
from collections import Counter, defaultdict
from fractions import Fraction

import networkx as nx
from networkx.algorithms import isomorphism as iso

from . import tens

SMLABELS = {"L", "Q", "eb", "ub", "db", "H"}


def base_label(f):
    """Standard-Model label of a (possibly differentiated, conjugated) field or None."""
    lab = str(f.label).replace("†", "")
    n = getattr(f, "derivs", 0) or 0
    while n and lab.startswith("D"):
        lab, n = lab[1:], n - 1
    return lab if lab in SMLABELS else None


def frac(x):
    from sympy import Rational
    x = Rational(x)
    return Fraction(int(x.p), int(x.q))


def qn(f):
    """(statistics, colour up, colour down, isospin, y, 3b) of a field."""
    d = f.dynkin
    lor = "F" if (int(d[0]) + int(d[1])) % 2 else "S"
    return (lor, int(d[2]), int(d[3]), int(d[4]), frac(f.charges["y"]), frac(f.charges.get("3b", 0)))


def conj_qn(q):
    return (q[0], q[2], q[1], q[3], -q[4], -q[5])


def term_sig(items):
    """items: ('L', is_conj) for SM fields, qn tuples for exotics; modulo conjugation."""
    a = tuple(sorted(map(repr, items)))
    c = tuple(sorted(repr((i[0], not i[1]) if len(i) == 2 else conj_qn(i)) for i in items))
    return min(a, c)


def field_item(f):
    b = base_label(f)
    return (b, bool(f.is_conj)) if b else qn(f)


def comp_terms(c, b=True):
    return [term_sig([drop_b(field_item(f), b) for f in t.fields]) for t in c.terms]


def drop_b(item, b):
    """without baryon number (not conserved along the diagram of a ΔB operator)"""
    return item if b or len(item) == 2 else item[:5] + (0,)


def conserves_b(op):
    return sum(frac(f.charges.get("3b", 0)) for f in op.fields) == 0


def comp_sig(c, b=True):
    return tuple(sorted(comp_terms(c, b)))


def exotic_sig(c):
    """set of exotic quantum numbers modulo conjugation"""
    return frozenset(min(qn(e), conj_qn(qn(e))) for e in c.exotics)


# ------------------------------------------------------------------ reading terms
class Occ:
    """one exotic in one term"""

    def __init__(self, t, n, f):
        self.t, self.n, self.f = t, n, f
        self.name = str(f.label).replace("†", "").replace("~", "")
        self.qn = qn(f)
        self.tilde = "~" in str(f.label)


def line_graph(nodes, kinds, tag):
    """labelled graph of one network: field nodes, their slots, invariants."""
    g = nx.Graph()
    for n, nd in enumerate(nodes):
        if nd.kind == "F":
            g.add_node((tag, n), k="F")
        else:
            if nd.legs[0][0] in kinds:
                g.add_node((tag, n), k=nd.kind)
    where = defaultdict(list)
    for n, nd in enumerate(nodes):
        cnt = Counter()
        for p, (k, nm, up) in enumerate(nd.legs):
            if k not in kinds:
                continue
            i = cnt[k]
            cnt[k] += 1
            s = (tag, n, p)
            g.add_node(s, k="slot", kind=k, pos=i, up=up, of=nd.kind)
            g.add_edge((tag, n), s)
            where[(k, nm)].append(s)
    for occ in where.values():
        if len(occ) == 2:
            g.add_edge(*occ)
        elif len(occ) != 1:
            raise tens.Unsupported(f"{occ}")
    return g


def reduce_lines(g):
    """Contracts chains of slots and SU(2) epsilons / colour deltas into single edges
    between fields (and colour epsilons); returns a graph with edge label = kind."""
    keep = [n for n, d in g.nodes(data=True) if d["k"] in ("F", "e3")]
    out = nx.Graph()
    for n in keep:
        out.add_node(n, lab=g.nodes[n].get("lab", g.nodes[n]["k"]))
    h = g.copy()
    h.remove_nodes_from(keep)
    ends = defaultdict(list)
    for n in keep:
        for s in g.neighbors(n):
            ends[s].append(n)
    for k, cc in enumerate(nx.connected_components(h)):
        terminal = []
        kinds = set()
        for s in cc:
            d = g.nodes[s]
            if d["k"] == "slot":
                kinds.add(d["kind"])
            if any(g.degree(x) != 2 for x in [s] if d["k"] != "slot" and d["k"] not in ("e2", "d")):
                raise tens.Unsupported("branch")
            terminal += ends.get(s, [])
        if len(kinds) != 1 or len(terminal) != 2:
            raise tens.Unsupported(f"open or mixed line {kinds} {terminal}")
        ln = ("line", k)
        out.add_node(ln, lab="|" + kinds.pop())
        for t in terminal:
            if out.has_edge(ln, t):     # both ends on one field
                out.nodes[ln]["lab"] += "loop"
            out.add_edge(ln, t)
    return out


def iso_graphs(a, b):
    if Counter(nx.get_node_attributes(a, "lab").values()) != Counter(nx.get_node_attributes(b, "lab").values()):
        return False
    return iso.GraphMatcher(a, b, node_match=lambda x, y: x["lab"] == y["lab"]).is_isomorphic()


GAUGE = ("Colour", "Isospin")
ALL = ("Undotted", "Dotted", "Colour", "Isospin")


def ext_label(f, nodelegs, gens=True):
    g = [nm for k, nm, _ in nodelegs if k == "Generation"] if gens else []
    return f"{base_label(f)}{'†' if f.is_conj else ''}{g}"


def op_graph(op, kinds):
    _, nodes = tens.network(op)
    g = line_graph(nodes, kinds, "op")
    F = [n for n, nd in enumerate(nodes) if nd.kind == "F"]
    for n, f in zip(F, op.indexed_fields):
        g.nodes[("op", n)]["lab"] = ext_label(f, nodes[n].legs)
    return reduce_lines(g)


def compatible(a, b, lorentz):
    """can the exotic occurrences a and b be two ends of one propagator?"""
    if a.name != b.name or a.t == b.t:
        return False
    qa, qb = a.qn, b.qn
    if qa[0] != qb[0] or (qa[1], qa[2]) != (qb[2], qb[1]) or qa[3] != qb[3] or qa[4] != -qb[4] or qa[5] != -qb[5]:
        # same orientation is fine only for real representations
        if not (qa == qb and qa[4] == 0 and qa[1] == qa[2]):
            return False
    if lorentz and a.f.dynkin[:2] != b.f.dynkin[:2]:
        return False
    return True


def tree_matchings(occ, nterms, lorentz):
    """perfect matchings of the occurrences that join all terms into a tree"""
    def rec(rest, pairs):
        if not rest:
            g = nx.Graph()
            g.add_nodes_from(range(nterms))
            for a, b in pairs:
                if g.has_edge(a.t, b.t):
                    return
                g.add_edge(a.t, b.t)
            if nx.is_connected(g):
                yield list(pairs)
            return
        a = rest[0]
        for j in range(1, len(rest)):
            if compatible(a, rest[j], lorentz):
                yield from rec(rest[1:j] + rest[j + 1:], pairs + [(a, rest[j])])
    yield from rec(occ, [])


def glue(terms, op, kinds=ALL, lorentz=True, limit=400):
    """True if joining the terms' exotics pairwise into a tree gives op."""
    target = op_graph(op, kinds)
    g = nx.Graph()
    occ = []
    for t, term in enumerate(terms):
        _, nodes = tens.network(term)
        h = line_graph(nodes, kinds, t)
        F = [n for n, nd in enumerate(nodes) if nd.kind == "F"]
        fs = term.indexed_fields
        assert len(F) == len(fs)
        for n, f in zip(F, fs):
            if base_label(f):
                h.nodes[(t, n)]["lab"] = ext_label(f, nodes[n].legs)
            else:
                occ.append(Occ(t, n, f))
        g = nx.union(g, h)
    if len(occ) != 2 * (len(terms) - 1):
        return False, f"{len(occ)} exotic legs for {len(terms)} terms"
    tried = 0
    for pairs in tree_matchings(occ, len(terms), lorentz):
        tried += 1
        if tried > limit:
            raise tens.Unsupported("too many ways to join")
        h = g.copy()
        ok = True
        for a, b in pairs:
            sa = defaultdict(dict)
            sb = defaultdict(dict)
            for o, s in ((a, sa), (b, sb)):
                for x in list(h.neighbors((o.t, o.n))):
                    d = h.nodes[x]
                    # colour slots come in raised/lowered groups, matched up to down
                    s[(d["kind"], d["up"] if d["kind"] == "Colour" else None)][d["pos"]] = x
            for (k, up), xs in sa.items():
                ys = sb.get((k, (not up) if up is not None else None), {})
                if len(ys) != len(xs):
                    ok = False
                    break
                for x, y in zip([xs[i] for i in sorted(xs)], [ys[i] for i in sorted(ys)]):
                    h.add_edge(x, y)
            if not ok:
                break
            h.remove_node((a.t, a.n))
            h.remove_node((b.t, b.n))
        if not ok:
            continue
        if iso_graphs(reduce_lines(h), target):
            return True, tried
    return False, f"no way to join the terms gives the operator ({tried} tried)"


# -------------------------------------------------------------- reference enumerator
def trees(leaves):
    """all trees with the given labelled leaves and internal vertices of degree 3/4, as
    (root children tuple): rooted at the vertex next to leaf 0."""
    def clusters(xs):
        """rooted subtrees over the leaf set xs (tuple)"""
        if len(xs) == 1:
            yield xs[0]
            return
        for parts in blocks(xs, (2, 3)):
            yield from itertools.product(*[list(clusters(p)) for p in parts])

    def blocks(xs, sizes):
        for k in sizes:
            yield from part(xs, k)

    def part(xs, k):
        if k == 1:
            yield (xs,)
            return
        first, rest = xs[0], xs[1:]
        for r in range(0, len(rest) - k + 2):
            for c in itertools.combinations(rest, r):
                rem = tuple(x for x in rest if x not in c)
                for p in part(rem, k - 1):
                    yield ((first,) + c,) + p
    for parts in blocks(tuple(leaves[1:]), (2, 3)):
        for sub in itertools.product(*[list(clusters(p)) for p in parts]):
            yield (leaves[0],) + sub


def leafset(t):
    return frozenset([t]) if isinstance(t, int) else frozenset().union(*[leafset(x) for x in t])


def vertices(tree):
    """list of vertices, each a list of leaf sets: the fields behind each leg."""
    allx = leafset(tree)
    out = [[leafset(c) for c in tree]]

    def rec(t):
        if isinstance(t, int):
            return
        out.append([leafset(c) for c in t] + [allx - leafset(t)])
        for c in t:
            rec(c)
    for c in tree:
        rec(c)
    return out


class Structure:
    """index lines of one operator (gauge indices fully contracted, Lorentz open)"""

    def __init__(self, op):
        _, nodes = tens.network(op)
        F = [n for n, nd in enumerate(nodes) if nd.kind == "F"]
        self.fields = op.indexed_fields
        self.n = len(F)
        idx = {n: i for i, n in enumerate(F)}
        g = line_graph(nodes, GAUGE, "o")
        for n in F:
            g.nodes[("o", n)]["lab"] = "F"
        r = reduce_lines(g)
        self.iso, self.delta, e3 = [], [], defaultdict(list)
        self.e3e3 = False
        for ln, d in r.nodes(data=True):
            if ln[0] != "line":
                continue
            ends = list(r.neighbors(ln))
            if "loop" in d["lab"]:
                ends = ends * 2
            fe = [idx[e[1]] for e in ends if e[1] in idx]
            xe = [e[1] for e in ends if e[1] not in idx]
            if "Isospin" in d["lab"]:
                self.iso.append(tuple(fe))
            elif not xe:
                self.delta.append(tuple(fe))
            elif len(xe) == 1:
                e3[xe[0]].append(fe[0])
            else:
                self.e3e3 = True
                e3[xe[0]], e3[xe[1]]
        self.e3 = list(e3.values())
        self.qns = [qn(f) for f in self.fields]
        self.items = [field_item(f) for f in self.fields]
        self.chir = []
        for f in self.fields:
            d = f.dynkin
            self.chir.append((int(d[0]), int(d[1])))

    def leg(self, s):
        """quantum numbers flowing out of the leaf set s; None if not (pseudo)scalar/fermion;
        second value: is the colour irrep ambiguous"""
        u = sum(self.chir[i][0] for i in s) % 2
        d = sum(self.chir[i][1] for i in s) % 2
        if u and d:
            return None, False
        lor = "F" if u or d else "S"
        i = sum(1 for a, b in self.iso if (a in s) != (b in s))
        up = dn = 0
        amb = False
        for a, b in self.delta:
            if (a in s) == (b in s):
                continue
            x = a if a in s else b
            if self.qns[x][1]:
                up += 1
            else:
                dn += 1
        if self.e3e3:
            cols = [x for e in self.e3 for x in e]
            k = sum(1 for x in cols if x in s)
            full = [sum(1 for x in e if x in s) for e in self.e3]
            if k in (1, 3):
                amb = True
                x = [c for c in cols if (c in s) == (k == 1)][0]
                isup = bool(self.qns[x][1]) == (k == 1)
                up, dn = up + isup, dn + (not isup)
            elif k == 2:
                if 2 in full:
                    e = self.e3[full.index(2)]
                    # two ups in one epsilon leave a lowered index
                    isup = not self.qns[e[0]][1]
                    up, dn = up + isup, dn + (not isup)
                else:
                    for c in cols:
                        if c in s:
                            up, dn = up + bool(self.qns[c][1]), dn + bool(self.qns[c][2])
        else:
            for e in self.e3:
                k = sum(1 for x in e if x in s)
                isup = bool(self.qns[e[0]][1])
                if k == 1:
                    up, dn = up + isup, dn + (not isup)
                elif k == 2:
                    up, dn = up + (not isup), dn + isup
        y = sum((self.qns[x][4] for x in s), Fraction(0))
        b = sum((self.qns[x][5] for x in s), Fraction(0))
        return (lor, up, dn, i, y, b), amb

    def vertex_ok(self, legs):
        """renormalisable: FFS, SSS, SSSS with a scalar Lorentz contraction"""
        lors = [self.leg(s)[0] for s in legs]
        if any(l is None for l in lors):
            return False
        nf = sum(1 for l in lors if l[0] == "F")
        if nf not in (0, 2) or (nf == 2 and len(legs) != 3):
            return False
        if nf == 2:
            ch = [(sum(self.chir[i][0] for i in s) % 2, sum(self.chir[i][1] for i in s) % 2) for s in legs]
            fs = [c for c in ch if c != (0, 0)]
            if fs[0] != fs[1]:
                return False
        return True

    def vanishes(self, legs):
        """does the coupling vanish if legs with equal quantum numbers are one field?
        Returns True/False, or None when not decided."""
        ids = []
        for s in legs:
            if len(s) == 1:
                f = self.fields[next(iter(s))]
                ids.append((str(f.label), self.items[next(iter(s))]))
            else:
                q = self.leg(s)[0]
                ids.append(("X", q))
        if len(set(map(repr, ids))) == len(ids):
            return False
        cnt = Counter(map(repr, ids))
        if any(n > 1 and i[0] == "X" for n, i in ((cnt[repr(i)], i) for i in ids)):
            return None         # same quantum numbers need not mean the same field
        # identical SM fields: with flavour indices nothing vanishes; without, an epsilon
        # between two of them kills the coupling
        ext = [next(iter(s)) for s in legs if len(s) == 1]
        for a, b in self.iso:
            if a in ext and b in ext and self.items[a] == self.items[b] and self.fields[a].nf == self.fields[b].nf == 1:
                return True
        return False


def reference(ops):
    """ops: operators with gauge indices contracted.  Returns (required, allowed): sets of
    completion signatures (sorted tuples of term signatures)."""
    required, allowed = set(), set()
    nt = 0
    for op in ops:
        S = Structure(op)
        useb = conserves_b(op)
        for tree in trees(list(range(S.n))):
            vs = vertices(tree)
            if len(vs) < 2:
                continue        # nothing is exchanged
            if not all(S.vertex_ok(v) for v in vs):
                continue
            nt += 1
            sig = []
            amb = van = dead = False
            for v in vs:
                items = []
                for s in v:
                    if len(s) == 1:
                        items.append(S.items[next(iter(s))])
                    else:
                        q, a = S.leg(s)
                        amb |= a
                        items.append(drop_b(q, useb))
                sig.append(term_sig(items))
                x = S.vanishes(v)
                if x is None:
                    van = True
                elif x:
                    dead = True
            if dead:
                continue
            sig = tuple(sorted(sig))
            allowed.add(sig)
            if not amb and not van:
                required.add(sig)
    return required, allowed, nt


# ---------------------------------------------------------------- derivative operators
def reference_deriv(ops):
    """As ``reference`` for operators with (single) derivatives on some fields: the
    derivatives come from the propagators, so the couplings carry none."""
    required, allowed = set(), set()
    nt = 0
    for op in ops:
        S = Structure(op)
        orig = []
        for f in S.fields:
            b = base_label(f)
            ch = (0, 0) if b == "H" else ((1, 0) if not f.is_conj else (0, 1))
            orig.append(ch)
        der = [int(f.derivs) for f in S.fields]
        for tree in trees(list(range(S.n))):
            vs = vertices(tree)
            if len(vs) < 2:
                continue        # nothing is exchanged
            sig, must, may = [], True, True
            for v in vs:
                items, lors, ch = [], [], []
                nd = 0
                for s in v:
                    u = sum(S.chir[i][0] for i in s) % 2
                    d = sum(S.chir[i][1] for i in s) % 2
                    q = S.qns[next(iter(s))] if len(s) == 1 else None
                    if len(s) == 1:
                        i = next(iter(s))
                        items.append(S.items[i])
                        lors.append("S" if orig[i] == (0, 0) else "F")
                        nd += der[i]
                        ch.append(orig[i] if lors[-1] == "F" else None)
                    else:
                        if u and d:
                            must = may = False
                            break
                        q, a = S.leg(s)
                        if a:
                            must = False
                        items.append(q)
                        lors.append(q[0])
                        ch.append("X" if q[0] == "F" else None)
                if not may:
                    break
                nf = lors.count("F")
                if nf not in (0, 2) or (nf == 2 and len(v) != 3):
                    may = False
                    break
                sm = [c for c in ch if c not in (None, "X")]
                if len(sm) == 2 and sm[0] != sm[1]:
                    may = False
                    break
                if nf == 2 and nd == 2 and len(sm) < 2:
                    must = False        # which of the two derivatives is kept is a choice
                if nf == 2 and nd and not sm:
                    must = False        # derivative coupling of two exotics: not among the listed cases
                van = S.vanishes(v)
                if van:
                    may = False
                    break
                if van is None:
                    must = False
                sig.append(term_sig(items))
            if not may:
                continue
            nt += 1
            sig = tuple(sorted(sig))
            allowed.add(sig)
            if must:
                required.add(sig)
    return required, allowed, nt


# ------------------------------------------------------------------ random operators
SM_POOL = [("L", 0), ("L", 1), ("Q", 0), ("Q", 1), ("eb", 0), ("eb", 1), ("ub", 0), ("ub", 1), ("db", 0), ("db", 1), ("H", 0), ("H", 1)]


def random_operator(rng, n, name="X", tries=4000):
    """An effective operator with n SM fields: hypercharge zero, Lorentz contractible,
    colour contractible, random isospin contraction that does not vanish."""
    from functools import reduce
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import eps
    from neutrinomass.completions.core import EffectiveOperator
    for _ in range(tries):
        pick = [rng.choice(SM_POOL) for _ in range(n)]
        if rng.random() < 0.5 and n > 3:
            pick[1] = pick[0]
        fs = [getattr(sm, b).conj if c else getattr(sm, b) for b, c in pick]
        if sum(frac(f.charges["y"]) for f in fs):
            continue
        t = [sum(int(f.dynkin[j]) for f in fs) for j in range(5)]
        if t[0] % 2 or t[1] % 2 or t[4] % 2:
            continue
        if not (t[2] == t[3] <= 2 or (t[2], t[3]) in ((3, 0), (0, 3))):
            continue
        ns = sum(1 for f in fs if f.is_boson)
        if ns == n and n > 4:
            continue
        ix = [f.fresh_indices() for f in fs]
        isos = [str(i) for f in ix for i in f.indices_by_type["Isospin"]]
        rng.shuffle(isos)
        es = [eps(f"-{isos[k]} -{isos[k + 1]}") for k in range(0, len(isos), 2)]
        if len(ix) + len(es) < 2:
            continue
        op = reduce(lambda a, b: a * b, [*ix, *es])
        if tens.canon(op)[1]:
            continue
        return EffectiveOperator(name, op)
    return None
