"""Workload generators shared by several checks."""
import itertools

SU2KINDS = "udi"


def make_pool(rng, nf3=False):
    """Fields with assorted representations, statistics following their spin."""
    from neutrinomass.tensormethod.core import Field, FERMI, BOSE
    from neutrinomass.tensormethod import sm
    pool = []
    for f in (sm.L, sm.Q, sm.eb, sm.ub, sm.db, sm.H):
        g = Field(f.label, dynkin=f.dynkin, charges=f.charges, comm=f.comm, nf=3 if (nf3 and f.nf == 3) else 1, latex=f.latex)
        pool.append(g)
        pool.append(g.conj)
    specs = ["00000", "10000", "00001", "00002", "00003", "00100", "00010", "00200", "00101", "00102", "10001", "10002",
             "01001", "10100", "10010", "10101", "20000", "11000", "00110", "00111", "10110", "00020", "01020", "10003",
             "21001", "20002"]
    rng.shuffle(specs)
    labels = ["φ", "ψ", "χ", "η", "A", "S"]
    for n, d in enumerate(specs[:10]):
        spin = int(d[0]) + int(d[1])
        lab = ["X", "Y", "Z", "φ", "ψ", "χ", "η", "ω", "S", "T"][n]
        pool.append(Field(lab, dynkin=d, charges={"y": rng.randint(-6, 6) if False else 0, "3b": 0}, comm=FERMI if spin % 2 else BOSE))
    return pool


def counts(fields):
    u = sum(int(f.dynkin[0]) for f in fields)
    d = sum(int(f.dynkin[1]) for f in fields)
    cu = sum(int(f.dynkin[2]) for f in fields)
    cd = sum(int(f.dynkin[3]) for f in fields)
    i = sum(int(f.dynkin[4]) for f in fields)
    return u, d, cu, cd, i


def random_fields(rng, pool, nmin=2, nmax=5, tries=400, maxcontr=9):
    """multiset of fields whose indices can be contracted completely"""
    for _ in range(tries):
        n = rng.randint(nmin, nmax)
        kinds = rng.sample(pool, min(len(pool), rng.randint(1, 3)))
        fs = [rng.choice(kinds) for _ in range(n)]
        u, d, cu, cd, i = counts(fs)
        if u % 2 or d % 2 or i % 2:
            continue
        if (cu - cd) % 3:
            continue
        if u + d + cu + cd + i == 0 or (u + d + i) // 2 + (cu + cd) // 2 > maxcontr:
            continue
        if len({f.label_with_dagger for f in fs}) != len({repr(f) for f in fs}):
            continue
        return fs
    return None


def index_fields(fields, tags=None, gens=False):
    """[(field, [index strings])] with unique names per field slot"""
    n = {"u": 0, "d": 0, "c": 0, "i": 0, "g": 0}
    out = []

    def nxt(k):
        n[k] += 1
        return f"{k}{n[k]}"
    for f in fields:
        a, b, cu, cd, i = [int(x) for x in f.dynkin]
        idx = [nxt("u") for _ in range(a)] + [nxt("d") for _ in range(b)] + [nxt("c") for _ in range(cu)] + \
              ["-" + nxt("c") for _ in range(cd)] + [nxt("i") for _ in range(i)]
        if gens and f.nf == 3:
            idx.append(nxt("g"))
        out.append((f, idx))
    return out


def random_contraction(rng, indexed):
    """[('eps'|'delta', 'index string')] contracting everything"""
    flat = [x for _, idx in indexed for x in idx]
    inv = []
    for k in SU2KINDS:
        xs = [x for x in flat if x[0] == k]
        rng.shuffle(xs)
        for a, b in zip(xs[::2], xs[1::2]):
            inv.append(("eps", f"-{a} -{b}"))
    ups = [x for x in flat if x[0] == "c"]
    dns = [x[1:] for x in flat if x[0] == "-" and x[1] == "c"]
    rng.shuffle(ups)
    rng.shuffle(dns)
    while len(ups) > len(dns):
        inv.append(("eps", " ".join("-" + ups.pop() for _ in range(3))))
    while len(dns) > len(ups):
        inv.append(("eps", " ".join(dns.pop() for _ in range(3))))
    if len(ups) >= 3 and rng.random() < 0.25:
        inv.append(("eps", " ".join("-" + ups.pop() for _ in range(3))))
        inv.append(("eps", " ".join(dns.pop() for _ in range(3))))
    for a, b in zip(ups, dns):
        inv.append(("delta", f"{b} -{a}"))
    rng.shuffle(inv)
    return inv


def build(indexed, inv, order=None):
    from functools import reduce
    from neutrinomass.tensormethod.core import eps, delta, Operator
    ts = [f(" ".join(idx)) for f, idx in indexed]
    if order:
        ts = [ts[i] for i in order]
    es = [(eps if k == "eps" else delta)(s) for k, s in inv]
    return reduce(lambda x, y: x * y, ts + es)


def describe(indexed, inv):
    return " ".join(f"{f.label_with_dagger}[{f.dynkin},{f.comm}]({','.join(i)})" for f, i in indexed) + " x " + " ".join(f"{k}({s})" for k, s in inv)


def rename(rng, indexed, inv):
    """rename every contracted index and shuffle the symmetric slots, the invariants' slots and order.  Same operator."""
    flat = [x.lstrip("-") for _, idx in indexed for x in idx if x.lstrip("-")[0] != "g"]
    m = {}
    for k in "udci":
        xs = [x for x in flat if x[0] == k]
        new = [f"{k}{j}" for j in rng.sample(range(1, 4 * len(xs) + 2), len(xs))]
        m.update(dict(zip(xs, new)))

    def rn(x):
        neg = x.startswith("-")
        x = x.lstrip("-")
        return ("-" if neg else "") + m.get(x, x)
    ix = []
    for f, idx in indexed:
        groups = {}
        for x in idx:
            groups.setdefault((x.lstrip("-")[0], x[0] == "-"), []).append(rn(x))
        out = []
        for k in [("u", False), ("d", False), ("c", False), ("c", True), ("i", False), ("g", False)]:
            g = groups.get(k, [])
            rng.shuffle(g)
            out += g
        ix.append((f, out))
    iv = []
    for k, s in inv:
        xs = [rn(x) for x in s.split()]
        if k == "eps":
            rng.shuffle(xs)
        iv.append((k, " ".join(xs)))
    rng.shuffle(iv)
    rng.shuffle(ix)
    return ix, iv
