"""C16: filtering a model database keeps exactly the leading models."""
import os
import random
import re
import tempfile
from collections import Counter


PID = "C16"
RULE = ("a case is one database (random models over a small pool of exotics, or exported completions, spread over several files), processed with one philosophy and criterion; non-trivial when at least one model is filtered out "
        "and one kept; distinct by the models")
MIN = {"databases": 60, "models": 2500, "filtered_out": 250, "kept": 500, "duplicates": 100, "mass_databases": 10, "dimension_databases": 30, "queries": 60, "forced": 500, "real_models": 30}
ASSUMPTIONS = ["no model lists a field (or coupling) together with itself or its conjugate twice"]

CHEAP = ["1", "2", "3a", "3b", "4a", "8", "9", "10", "11a", "11b", "12a", "12b", "13", "14a", "14b", "15", "16", "17", "18", "22a", "26a", "33", "34", "35", "36", "38", "41a", "42b", "45", "46", "48", "49", "51",
         "56", "57", "58", "75", "D3", "D4a", "D4b", "D5a", "D6a", "D7b", "D9a", "D12a", "D13b", "D14a", "D16a", "D21", "D22"]
SM = ("L", "H", "Q", "ub", "db", "eb")
SEESAW = {"F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0"}


def TASKS(tier, seed):
    n = 8 if tier == "quick" else 32
    return [(f"rand{i}", ("rand", 9 if tier == "quick" else 30)) for i in range(n)] + [(f"real{i}", ("real", names)) for i, names in enumerate([("1", "2", "3b", "4a"), ("2", "3a", "8", "D3")])]


# -- the harness's own idea of fields and couplings -------------------------
def cj(f):
    if f.split(".")[0] in SM:
        return f[:-5] if f.endswith(".conj") else f + ".conj"
    l, col, i, y, b = f.split(",")
    neg = lambda x: x if x == "0" else x[1:] if x[0] == "-" else "-" + x
    return ",".join([l, col[::-1], i, neg(y), neg(b)])


def fclass(f):
    return min(f, cj(f))


def tclass(t):
    return min(tuple(sorted(t)), tuple(sorted(map(cj, t))))


def content(m, phil):
    return Counter(fclass(f) for f in set(m.head["quantum_numbers"])) if phil == "democratic" else Counter(tclass(t) for t in m.head["terms"])


def subset(a, b):
    return all(b[k] >= v for k, v in a.items())


def pool(rng):
    out = set(rng.sample(sorted(SEESAW), 2))
    while len(out) < rng.randint(6, 10):
        f = ",".join([rng.choice("SF"), rng.choice(["00", "10", "01", "11", "20", "02"]), str(rng.randint(0, 3)), rng.choice(["0", "1", "-1", "1/3", "-4/3", "1/2", "-3/2", "2"]), rng.choice(["0", "0", "1", "-1", "2"])])
        if cj(f) not in out:
            out.add(f)
    return sorted(out)


def random_db(rng, ops):
    fields = pool(rng)
    terms = []
    while len(terms) < 12:
        t = [rng.choice(fields)] + [rng.choice(fields + [x + s for x in SM for s in ("", ".conj")]) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            t = list(map(lambda f: cj(f) if rng.random() < 0.3 else f, t))
        if tclass(t) not in map(tclass, terms):
            terms.append(t)
    lines, n = [], 0
    for op in ops:
        for _ in range(rng.randint(3, 14)):
            qn = [cj(f) if rng.random() < 0.3 else f for f in rng.sample(fields, rng.choice([1, 2, 2, 3, 3, 4]))]
            tt = []
            for t in rng.sample(terms, rng.choice([1, 2, 2, 3, 4])):
                t = list(map(cj, t)) if rng.random() < 0.4 else list(t)
                rng.shuffle(t)
                tt.append(tuple(t))
            rng.shuffle(qn)
            head = {"operator_name": op, "quantum_numbers": sorted(qn), "terms": tt, "topology": f"t{n}"}
            lines.append((op, f"LazyCompletion(head={head!r}, tail=\"('model', {n})\")"))
            n += 1
    return lines


def write(rng, lines, d):
    """spread over files, operators mixed"""
    nf = rng.randint(1, 4)
    files = [[] for _ in range(nf)]
    for l in lines:
        files[rng.randrange(nf)].append(l[1])
    for i, f in enumerate(files):
        rng.shuffle(f)
        with open(os.path.join(d, f"{i}.dat"), "w") as h:
            h.write("".join(x + "\n" for x in f))


def mid(m):
    return m.head["topology"] if m.tail.startswith("('model'") else m.tail


def primes_ok(ctx, db, name):
    from sympy import isprime
    for key, dic, conj in (("exotic", db.exotic_prime_dict, cj), ("term", db.term_prime_dict, lambda t: tuple(sorted(map(cj, t))))):
        by = {}
        for k, p in dic.items():
            cls = min(k, conj(k))
            ctx.check(isprime(int(p)), f"{key}:not-prime", lambda: f"{name}: {k} {p}")
            ctx.check(by.setdefault(int(p), cls) == cls, f"{key}:shared-prime", lambda: f"{name}: {k} and {by[int(p)]} have {p}")
            ctx.check(dic.get(conj(k)) == p, f"{key}:conjugate-prime", lambda: f"{name}: {k} has {p}, its conjugate {dic.get(conj(k))}")


def run_db(ctx, rng, lines, phil, crit, name, seesaws, real=False):
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.database.database import ModelDatabase
    from neutrinomass.database import neutrino_mass_estimate, numerical_np_scale_estimate
    OPS = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}
    with tempfile.TemporaryDirectory(prefix="nmv16") as d:
        write(rng, lines, d)
        g = ctx.guarded("database:raises", lambda: name, cpu=600)
        with g:
            db = ModelDatabase(d, philosophy=phil, criterion=crit)
        if not g.ok:
            return
    ctx.event("databases")
    ctx.event(f"{crit}_databases")
    want = Counter(op for op, _ in lines)
    ctx.check({k: len(v) for k, v in db.data.items()} == dict(want), "read:models", lambda: f"{name}: {({k: len(v) for k, v in db.data.items()})} for {dict(want)}")
    if not real:
        ctx.check(sorted(mid(m) for v in db.data.values() for m in v) == sorted(f"t{i}" for i in range(len(lines))), "read:lost", name)
    ctx.check(all(m.operator_name == k for k, v in db.data.items() for m in v), "read:wrong-operator", name)
    ctx.event("models", len(lines))
    if real:
        ctx.event("real_models", len(lines))
    primes_ok(ctx, db, name)
    models = [(k, m) for k, v in db.data.items() for m in v]
    # model numbers: divisibility is inclusion
    mm = rng.sample(models, min(len(models), 25))
    for k, a in mm:
        for p, num in (("democratic", db.democratic_model_number), ("stringent", db.stringent_model_number)):
            for _, b in rng.sample(mm, min(8, len(mm))):
                ca, cb = content(a, p), content(b, p)
                na, nb = int(num(a)), int(num(b))
                ctx.check((nb % na == 0) == subset(ca, cb), "number:divisibility", lambda: f"{name}: {p} {dict(ca)} {na}, {dict(cb)} {nb}")
                ctx.check((nb == na) == (ca == cb), "number:equality", lambda: f"{name}: {p} {dict(ca)} {na}, {dict(cb)} {nb}")
        ctx.check(db.model_number(a) == (db.democratic_model_number(a) if phil == "democratic" else db.stringent_model_number(a)), "number:dispatch", name)
    # queries
    pats = ["S", "F,00", "F", "S,00,2,1,0", rng.choice(models)[1].head["quantum_numbers"][0]]
    if rng.random() < 0.3:
        pats.append(r"S,\d\d,1")
    t0 = rng.choice(rng.choice(models)[1].head["terms"])
    for pat in pats:
        before = {k: [id(m) for m in v] for k, v in db.data.items()}
        got = db.query(lambda m: m.contains_field(pat))
        ctx.event("queries")
        for k, v in db.data.items():
            w = [mid(m) for m in v if any(re.match(pat, q) for q in m.head["quantum_numbers"])]
            ctx.check([mid(m) for m in got.get(k, [])] == w, "query:field", lambda: f"{name}: {pat} {k} {len(got.get(k, []))} models, expected {len(w)}")
        ctx.check(before == {k: [id(m) for m in v] for k, v in db.data.items()}, "query:changes", name)
    for pt in ([re.escape(x) for x in set(t0)], ["L", "S"], ["H", "F,00"], ["Q", "F", "S"]):
        got = db.query(lambda m: m.contains_interaction(pt))
        for k, v in db.data.items():
            w = [mid(m) for m in v if any(all(any(re.match(p, f) for f in t) for p in pt) for t in m.head["terms"])]
            ctx.check([mid(m) for m in got.get(k, [])] == w, "query:interaction", lambda: f"{name}: {pt} {k} {len(got.get(k, []))} models, expected {len(w)}")
    # expectations for the whole pipeline
    cur = {k: list(v) for k, v in db.data.items()}
    if seesaws:
        cur = {k: [m for m in v if not SEESAW & set(m.head["quantum_numbers"])] for k, v in cur.items()}
    classes = {k: {frozenset(content(m, phil).items()) for m in v} for k, v in cur.items()}
    dups = sum(len(v) - len(classes[k]) for k, v in cur.items())
    ctx.event("duplicates", dups)
    steps = rng.random() < 0.5
    g = ctx.guarded("process:raises", lambda: f"{name} {phil} {crit}", cpu=600)
    with g:
        if steps:
            if seesaws:
                db.filter_by_query(ModelDatabase.no_seesaws)
            ctx.check({k: [id(m) for m in v] for k, v in db.data.items()} == {k: [id(m) for m in v] for k, v in cur.items()}, "query:filter", lambda: f"{name} seesaws={seesaws}")
            db.remove_equivalent_models()
            for k, v in db.data.items():
                cs = [frozenset(content(m, phil).items()) for m in v]
                ctx.check(set(cs) == classes[k], "equivalent:lost", lambda: f"{name} {phil} {k}: {len(cs)} left of {len(classes[k])} classes")
                ctx.check(len(cs) == len(set(cs)), "equivalent:kept", lambda: f"{name} {phil} {k}: {len(cs)} left, {len(set(cs))} classes")
            db.filter()
        else:
            db.process(filter_seesaws=seesaws)
    if not g.ok:
        return
    ctx.check(set(db.data) == set(cur), "filter:operators", lambda: f"{name}: {list(db.data)}")
    if crit == "mass":
        scale = {k: max(float(numerical_np_scale_estimate(e)) for e in neutrino_mass_estimate(OPS[k])) for k in db.data}
        ctx.check(set(db.scale_dict) == set(scale) and all(abs(float(db.scale_dict[k]) / scale[k] - 1) < 1e-9 for k in scale), "order:scales", lambda: f"{name}: {db.scale_dict} for {scale}")
        rank = {k: -float(db.scale_dict[k]) for k in scale}
    else:
        rank = {k: sum((1.5 if str(f.comm) in ("1", "fermi") else 1) + f.derivs for f in OPS[k].fields) for k in db.data}
    order = [rank[k] for k in db.data]
    ctx.check(order == sorted(order), "order:sequence", lambda: f"{name} {crit}: {list(zip(db.data, order))}")
    out = kept = 0
    sieves = [(rank[k], content(m, phil)) for k, v in cur.items() for m in v]
    for k, v in cur.items():
        w = {c for c in classes[k] if not any(r < rank[k] and subset(s, dict_counter(c)) for r, s in sieves)}
        got = [frozenset(content(m, phil).items()) for m in db.data[k]]
        ctx.check(all(any(m is x for x in v) for m in db.data[k]), "filter:invented", f"{name} {k}")
        ctx.check(w <= set(got), "filter:removed-leading", lambda: f"{name} {phil} {crit} {k}: {[dict(x) for x in w - set(got)][:2]} is not implied by any upstream model")
        ctx.check(set(got) <= w, "filter:kept-subleading", lambda: f"{name} {phil} {crit} {k}: {[dict(x) for x in set(got) - w][:2]} contains an upstream model")
        ctx.check(len(got) == len(set(got)), "filter:repeated", lambda: f"{name} {phil} {k}: {len(got)} models, {len(set(got))} classes")
        out += len(classes[k]) - len(w)
        kept += len(w)
    ctx.event("filtered_out", out)
    ctx.event("kept", kept)
    ctx.case(sig=tuple(sorted((k, tuple(sorted(map(mid, v)))) for k, v in db.data.items())) if not real else name, nontrivial=bool(out and kept), sample=f"{name} {phil} {crit}: {len(lines)} models, {dups} repeated, {out} filtered out, {kept} kept")
    if crit == "mass" and rng.random() < 0.7:
        # one-loop sieve given as explicit numbers
        cut = 605520000000.0 / (16 * 3.141592653589793 ** 2)
        nums = [(int(db.democratic_model_number(m)), content(m, "democratic")) for _, m in rng.sample(models, 3)]
        before = {k: list(v) for k, v in db.data.items()}
        db.filter_one_loop_weinberg([n for n, _ in nums])
        for k, v in before.items():
            w = [id(m) for m in v if scale[k] >= cut or not any(subset(s, content(m, "democratic")) for _, s in nums)]
            ctx.check([id(m) for m in db.data[k]] == w, "one-loop:filter", lambda: f"{name} {k}: {len(db.data[k])} left, expected {len(w)}")
    left = {k: [m.tail for m in v] for k, v in db.data.items()}
    g = ctx.guarded("force:raises", lambda: name, cpu=600)
    with g:
        db.force()
        db.force()
    if g.ok:
        ctx.event("forced", sum(map(len, left.values())))
        ctx.check({k: len(v) for k, v in db.data.items()} == {k: len(v) for k, v in left.items()} and db.is_forced, "force:lost", lambda: f"{name}: {({k: len(v) for k, v in db.data.items()})}")
        if not real:
            ctx.check({k: [str(m) for m in v] for k, v in db.data.items()} == left, "force:wrong", name)
        else:
            ctx.check(all(m.operator.name == k for k, v in db.data.items() for m in v), "force:wrong", name)


def dict_counter(c):
    return Counter(dict(c))


def RUN(ctx, payload):
    kind, arg = payload
    rng = ctx.rng
    if kind == "rand":
        for i in range(arg):
            crit = "mass" if i % 4 == 0 else "dimension"
            ops = rng.sample(CHEAP, rng.randint(4, 8))
            if rng.random() < 0.5 and "1" not in ops:
                ops[0] = "1"
            run_db(ctx, rng, random_db(rng, ops), rng.choice(["democratic", "stringent"]), crit, f"{ctx.task_id}.{i}", rng.random() < 0.5)
        # given data instead of a path
        from neutrinomass.database.database import ModelDatabase, LazyCompletion
        lines = random_db(rng, rng.sample(CHEAP, 3))
        data = {}
        for op, l in lines:
            data.setdefault(op, []).append(eval(l))
        db = ModelDatabase(None, data=data)
        ctx.check({k: len(v) for k, v in db.data.items()} == dict(Counter(o for o, _ in lines)), "data:models", ctx.task_id)
        primes_ok(ctx, db, ctx.task_id + " (data)")
    else:
        from neutrinomass.database.export import export_completion
        lines = []
        for nm in arg:
            e, cs = real(nm)
            for c in cs:
                lines.append((nm, export_completion(c, lazy=True)))
        for phil in ("democratic", "stringent"):
            for crit in ("dimension", "mass"):
                if phil == "stringent":
                    # couplings listed twice in one model are left out (see ASSUMPTIONS)
                    ll = [l for l in lines if not twice(l[1])]
                else:
                    ll = lines
                run_db(ctx, rng, ll, phil, crit, f"{'+'.join(arg)}", crit == "dimension", real=True)


def twice(line):
    from neutrinomass.database.database import LazyCompletion
    m = eval(line)
    c = Counter(map(tclass, m.head["terms"]))
    return max(c.values()) > 1


def real(nm):
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.completions.completions import operator_completions, deriv_operator_completions
    op = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}[nm]
    cs = list(deriv_operator_completions(op)) if nm.startswith("D") else list(operator_completions(op))
    return op, cs
