"""Independent semantics of indexed operators.

Three oracles, none of which uses sympy's tensor machinery:

* ``network``  reads an Operator / TensMul into plain nodes and index names;
* ``poly``     evaluates the network component by component into a polynomial in
               (anti)commuting component variables -- the exact meaning;
* ``canon``    canonical form under the monoterm symmetries only (exchange of
               identical fields with statistics, symmetric slots of one field,
               antisymmetric epsilons), by brute force over field permutations.
"""
import itertools
from fractions import Fraction

KINDS = ("Undotted", "Dotted", "Colour", "Isospin", "Generation")
DIM = {"Undotted": 2, "Dotted": 2, "Colour": 3, "Isospin": 2}


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ("kind", "label", "label2", "fermi", "legs")

    def __init__(self, kind, label, fermi, legs):
        self.kind = kind      # 'F' field, 'e2', 'e3', 'd'
        self.label = label
        self.fermi = fermi
        self.legs = legs      # [(index kind, name, is_up)]
        self.label2 = None

    def __repr__(self):
        return f"{self.kind}:{self.label}{self.legs}"


def _index(i):
    k = str(i.tensor_index_type)
    nm = str(i.name) if hasattr(i, "name") else str(i.args[0])
    return (k, nm, bool(i.is_up))


def network(expr):
    """(coeff, [Node]) for an Operator or a sympy tensor expression."""
    from sympy import S
    coeff = Fraction(1)
    ts = getattr(expr, "tensors", None)
    if ts is None:
        ts = list(expr.args) if type(expr).__name__ in ("TensMul", "Mul") else [expr]
    nodes = []
    todo = list(ts)
    while todo:
        t = todo.pop(0)
        if hasattr(t, "get_indices") and type(t).__name__ in ("TensMul", "Operator"):
            todo = list(t.args) + todo
            continue
        if not hasattr(t, "get_indices"):
            coeff *= Fraction(int(S(t).p), int(S(t).q))
            continue
        legs = [_index(i) for i in t.indices]
        name = str(t.args[0].args[0])
        fieldlike = not (name.startswith("Eps") or name.startswith("KD") or name.startswith("metric"))
        if fieldlike:
            comm = str(t.args[0].comm) if hasattr(t.args[0], "comm") else str(getattr(t, "comm", 0))
            comm = _comm_of(t)
            nodes.append(Node("F", name, comm, legs))
        elif len(legs) == 3:
            nodes.append(Node("e3", "eps", False, legs))
        elif legs[0][0] == "Colour":
            nodes.append(Node("d", "delta", False, legs))
        else:
            nodes.append(Node("e2", "eps", False, legs))
    return coeff, nodes


def _comm_of(t):
    """statistics the tensor is multiplied with (what sympy uses)."""
    import sympy.tensor.tensor as tensor
    head = t.args[0]
    c = head.comm if hasattr(head, "comm") else head._comm
    g = tensor.TensorManager.get_comm(c, c)
    return g == 1


def free_and_bound(nodes):
    seen = {}
    for n, nd in enumerate(nodes):
        for p, (k, nm, up) in enumerate(nd.legs):
            seen.setdefault((k, nm), []).append((n, p, up))
    free, bound = {}, {}
    for key, occ in seen.items():
        if len(occ) == 1:
            free[key] = occ[0]
        elif len(occ) == 2 and occ[0][2] != occ[1][2]:
            bound[key] = occ
        else:
            raise Unsupported(f"index {key} occurs {occ}")
    return free, bound


# ---------------------------------------------------------------- polynomials
EPS2 = {(0, 1): 1, (1, 0): -1}
EPS3 = {}
for _p in itertools.permutations(range(3)):
    _s = 1
    for _i in range(3):
        for _j in range(_i):
            if _p[_j] > _p[_i]:
                _s = -_s
    EPS3[_p] = _s


def sort_sign(seq):
    """(sign, sorted tuple); sign 0 if two equal entries."""
    seq = list(seq)
    sgn = 1
    for i in range(1, len(seq)):
        j = i
        while j and seq[j - 1] > seq[j]:
            seq[j - 1], seq[j] = seq[j], seq[j - 1]
            sgn = -sgn
            j -= 1
    if any(a == b for a, b in zip(seq, seq[1:])):
        sgn = 0
    return sgn, tuple(seq)


def poly(expr, limit=300000, rename=None):
    """{monomial: coefficient}; a monomial is (free index values, sorted component
    variables).  Generation indices are kept symbolic (part of the variable)."""
    coeff, nodes = network(expr)
    free, bound = free_and_bound(nodes)
    fields = [n for n in nodes if n.kind == "F"]
    # a dummy shared by two field slots of an SU(2) kind: up slot contracted with a lowered
    # slot; X_i = eps_ij X^j
    inv = [n for n in nodes if n.kind != "F"]
    # enumerate assignments of slots; start from invariants
    allkeys = list(bound) + [k for k in free]
    vals = {}
    out = {}
    freekeys = sorted(k for k in free if k[0] != "Generation")

    # order: invariant nodes assign their legs; remaining keys summed
    def allowed(nd):
        if nd.kind == "e2":
            return list(EPS2.items())
        if nd.kind == "e3":
            return list(EPS3.items())
        return [((a, a), 1) for a in range(3)]

    count = [0]

    def finish(c):
        count[0] += 1
        if count[0] > limit:
            raise Unsupported("too many component terms")
        varsf, varsb = [], []
        sgn = c
        for nd in fields:
            comps = {}
            for (k, nm, up) in nd.legs:
                if k == "Generation":
                    g = rename.get(nm, nm) if rename else nm
                    comps.setdefault(k, []).append(g)
                    continue
                v = vals[(k, nm)]
                if not up and k != "Colour":
                    # lowered SU(2) slot: X_v = eps_{v w} X^w
                    w = 1 - v
                    sgn *= EPS2[(v, w)]
                    v = w
                comps.setdefault(k + ("-" if (k == "Colour" and not up) else ""), []).append(v)
            var = (nd.label, tuple((k, tuple(sorted(v))) for k, v in sorted(comps.items())))
            (varsf if nd.fermi else varsb).append(var)
        s, vf = sort_sign(varsf)
        if s == 0:
            return
        fr = tuple((k[0], k[1], vals[k]) for k in freekeys)
        mono = (fr, vf, tuple(sorted(varsb)))
        out[mono] = out.get(mono, 0) + sgn * s

    def rec(i, c):
        if i < len(inv):
            nd = inv[i]
            ks = [(k, nm) for (k, nm, _) in nd.legs]
            for v, s in allowed(nd):
                new = []
                ok = True
                for key, x in zip(ks, v):
                    if key in vals:
                        if vals[key] != x:
                            ok = False
                            break
                    else:
                        vals[key] = x
                        new.append(key)
                if ok:
                    rec(i + 1, c * s)
                for key in new:
                    del vals[key]
            return
        rest = [k for k in allkeys if k[0] != "Generation" and k not in vals]
        if not rest:
            return finish(c)
        for v in itertools.product(*[range(DIM[k[0]]) for k in rest]):
            vals.update(zip(rest, v))
            finish(c)
        for k in rest:
            del vals[k]

    rec(0, coeff)
    return {m: c for m, c in out.items() if c}


def poly_sign_equal(p, q):
    """+1/-1 if p == +-q, 0 if not; zero polys are equal."""
    if not p and not q:
        return 1
    if set(p) != set(q):
        return 0
    if all(p[m] == q[m] for m in p):
        return 1
    if all(p[m] == -q[m] for m in p):
        return -1
    return 0


def proportional(p, q):
    if not p or not q:
        return not p and not q
    if set(p) != set(q):
        return False
    m0 = next(iter(p))
    r = Fraction(q[m0]) / p[m0]
    return all(q[m] == r * p[m] for m in p)


def rank(polys):
    """rank over Q of a list of polynomials (exact, modular pre-hash avoided)."""
    cols = {}
    rows = []
    for p in polys:
        rows.append({cols.setdefault(m, len(cols)): Fraction(c) for m, c in p.items()})
    piv = {}
    r = 0
    for row in rows:
        row = dict(row)
        while row:
            c = min(row)
            if c in piv:
                f = row[c]
                for k, v in piv[c].items():
                    nv = row.get(k, 0) - f * v
                    if nv:
                        row[k] = nv
                    else:
                        row.pop(k, None)
            else:
                f = row[c]
                piv[c] = {k: v / f for k, v in row.items()}
                r += 1
                break
    return r


# ------------------------------------------------------------------ canonical
def canon(expr, free_names=True):
    """(form, vanishes). Up to overall sign. Generation and free indices are
    fixed labels (free_names=False: their names are ignored, only their kind)."""
    _, nodes = network(expr)
    return canon_nodes(nodes, free_names)


def canon_nodes(nodes, free_names=True):
    free, bound = free_and_bound(nodes)
    fid = [i for i, n in enumerate(nodes) if n.kind == "F"]
    # merge colour deltas by union-find on index names
    partner = {}
    for key, occ in bound.items():
        (a, pa, _), (b, pb, _) = occ
        partner[(a, pa)] = (b, pb)
        partner[(b, pb)] = (a, pa)

    def follow(n, p):
        """other end reached from leg (n,p) outward, passing through deltas"""
        while True:
            if (n, p) not in partner:
                return ("free", nodes[n].legs[p])
            m, q = partner[(n, p)]
            if nodes[m].kind == "d":
                n, p = m, 1 - q
                continue
            return (m, q)

    su2, dl, e3, fr = [], [], [], []
    done = set()
    vanish = False
    for n, nd in enumerate(nodes):
        if nd.kind == "e2":
            ends = []
            for p in (0, 1):
                e = follow(n, p)
                if e[0] == "free":
                    ends.append(("free", e[1]))
                elif nodes[e[0]].kind != "F":
                    raise Unsupported("eps-eps contraction")
                else:
                    ends.append(e)
                    done.add(e)
            su2.append((nd.legs[0][0], ends[0], ends[1]))
        elif nd.kind == "e3":
            ends = []
            for p in range(3):
                e = follow(n, p)
                if e[0] != "free" and nodes[e[0]].kind != "F":
                    raise Unsupported("eps3-eps3 contraction")
                ends.append(e)
                if e[0] != "free":
                    done.add(e)
            e3.append((nd.legs[0][2], ends))
    for n in fid:
        for p, (k, nm, up) in enumerate(nodes[n].legs):
            if (n, p) in done:
                continue
            e = follow(n, p)
            if e[0] == "free":
                fr.append((n, k, nm if free_names else "", e[1][1] if free_names else "", up))
            elif k in ("Undotted", "Dotted", "Isospin"):
                su2.append((k, (n, p), e))
                done.add(e)
            else:
                dl.append(((n, p), e) if up else (e, (n, p)))
                done.add(e)
            done.add((n, p))

    groups = {}
    for n in fid:
        nd = nodes[n]
        sig = (nd.label, nd.fermi, tuple(sorted((k, up if k == "Colour" else True) for k, _, up in nd.legs)))
        groups.setdefault(sig, []).append(n)
    sigs = sorted(groups)
    base = {}
    pos = 0
    blocks = []
    for s in sigs:
        blocks.append((s, list(range(pos, pos + len(groups[s]))), groups[s]))
        pos += len(groups[s])

    def end(e, m):
        return ("~", str(e[1])) if e[0] == "free" else ("", m[e[0]])

    best, signs = None, set()
    for perms in itertools.product(*[list(itertools.permutations(b[2])) for b in blocks]):
        m = {}
        sgn = 1
        for (s, slots, orig), pm in zip(blocks, perms):
            for sl, n in zip(slots, pm):
                m[n] = sl
            if s[1]:
                sg, _ = sort_sign([orig.index(n) for n in pm])
                sgn *= sg
        form = []
        zero = False
        for k, a, b in su2:
            ea, eb = end(a, m), end(b, m)
            if ea == eb:
                zero = True
            if ea > eb:
                ea, eb = eb, ea
                sgn = -sgn
            form.append((k, ea, eb))
        for up, ends in e3:
            es = [end(e, m) for e in ends]
            sg, es = sort_sign(es)
            if sg == 0:
                zero = True
            sgn *= sg
            form.append(("e3" + str(up),) + es)
        for a, b in dl:
            form.append(("d", end(a, m), end(b, m)))
        for n, k, nm, nm2, up in fr:
            form.append(("free", k, m[n], str((nm, nm2)), up))
        if zero:
            return (tuple((s, len(o)) for s, _, o in blocks), None), True
        form = tuple(sorted(form, key=repr))
        key = repr(form)
        if best is None or key < best:
            best, signs = key, {sgn}
        elif key == best:
            signs.add(sgn)
    vanish = len(signs) == 2
    return (tuple((s, len(o)) for s, _, o in blocks), best), vanish
