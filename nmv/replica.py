"""One replica of the C10 workload: run as ``python -m nmv.replica CONFIG.json``.

Executes the items of the workload in the order given, records what each public call
returned (as canonical, naming-independent digests), and prints one JSON document.
"""
import hashlib
import json
import random
import sys


def _h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class World:
    def __init__(self, seed):
        from . import env
        env.setup()
        self.seed = seed
        self.ops = {}

    # inputs are shared by all items of one replica, as in a user's session
    def operator(self, ref):
        from . import comp, work
        if ref not in self.ops:
            if ref.startswith("rand"):
                rng = random.Random(f"{self.seed}:{ref}")
                self.ops[ref] = comp.random_operator(rng, 4 if int(ref[4:]) % 2 else 5, name=ref.replace("rand", "X"))
            elif ref.startswith("twin"):
                # operators that print alike but whose fields have other charges
                from sympy import Rational
                from neutrinomass.tensormethod.core import Field, eps
                from neutrinomass.completions.core import EffectiveOperator
                y = Rational(2 * int(ref[4:]) + 1, 2)
                L = Field("L", "10001", charges={"y": -y, "3b": 0}, comm=1, nf=3)
                H = Field("H", "00001", charges={"y": y, "3b": 0})
                self.ops[ref] = EffectiveOperator("1", L("u0 i0 g0") * L("u1 i1 g1") * H("i2") * H("i3") * eps("-i0 -i2") * eps("-i1 -i3"))
            else:
                self.ops[ref] = work.catalogue(ref)
        return self.ops[ref]

    def fields(self, k):
        from neutrinomass.tensormethod import sm
        from neutrinomass.tensormethod.core import Field
        rng = random.Random(f"{self.seed}:fields:{k}")
        pool = [sm.L, sm.Q, sm.eb, sm.ub, sm.db, sm.H, Field("S", "00002", charges={"y": 1}), Field("F", "10001", charges={"y": "1/2"}, comm=1), Field("V", "00000", charges={"y": 0})]
        for _ in range(10000):
            fs = [rng.choice(pool) for _ in range(rng.randint(3, 4))]
            if rng.random() < 0.4:
                fs[0] = fs[1]
            fs = [f.conj if rng.random() < 0.4 else f for f in fs]
            t = [sum(int(f.dynkin[j]) for f in fs) for j in range(5)]
            if t[0] % 2 == 0 and t[1] % 2 == 0 and t[4] % 2 == 0 and t[2] == t[3] <= 2:
                return fs
        raise RuntimeError

    # ---------------------------------------------------------------- items
    def do(self, item):
        from collections import Counter
        from . import comp, tens, work
        kind, ref = item.split(":")
        if kind == "decompose":
            from neutrinomass.tensormethod.core import decompose_product
            out = decompose_product(*self.fields(int(ref)))
            res = sorted((f.dynkin, int(f.multiplicity), sorted((k, str(v)) for k, v in f.charges.items()), f.comm) for f in out)
            out.clear()
            return res
        if kind == "invariants":
            from neutrinomass.tensormethod.contract import invariants, unsimplified_invariants
            fs = self.fields(int(ref))
            a = invariants(*fs)
            b = unsimplified_invariants(*fs)
            res = [sorted(tens.canon(o, free_names=False)[0][1] or "0" for o in a), len(b)]
            a.clear(), b.clear()
            return res
        if kind == "seesaw":
            return self.seesaw(ref)
        if kind == "topologies":
            from neutrinomass.completions.topologies import get_topology_data
            s, f = (int(x) for x in ref.split(","))
            d = get_topology_data(s, f)
            res = sorted((x["partition_file"].split("/")[-1], sorted(map(sorted, x["graph"].edges)), str(x["partition"])) for x in d)
            for x in d:
                x["graph"].clear()
                x.clear()
            d.clear()
            return _h(res)
        if kind == "partitions":
            from neutrinomass.completions.completions import partitions
            ps = partitions(self.operator(ref))
            res = sorted(p["topology"] for p in ps)
            for p in ps:
                p["graph"].clear()
                p.clear()
            ps.clear()
            return [len(res), _h(res)]
        e = self.operator(ref)
        deriv = ref.startswith("D")
        b = comp.conserves_b(e)
        sig = lambda c: (comp.comp_sig(c, b), c.topology)
        if kind == "estimate":
            from neutrinomass.database.closures import neutrino_mass_estimate
            out = neutrino_mass_estimate(e)
            res = sorted(str(x) for x in out)
            if hasattr(out, "clear"):
                out.clear()
            return res
        if kind == "derivs":
            from neutrinomass.completions.completions import derivative_combinations
            return sorted(str(tens.canon(o.operator, free_names=False)[0]) for o in derivative_combinations(e))
        cs = work.run(e, deriv)
        if kind == "completions":
            cnt = Counter(map(sig, cs))
            # (the charges of the symmetries are worked out for the Standard-Model fields only)
            u1 = sorted(c.lagrangian.num_u1_symmetries() for c in cs[:6]) if not ref.startswith("twin") else []
            return [len(cs), len(cnt), _h(sorted(map(repr, cnt.items()))), u1]
        if kind == "clean":
            from neutrinomass.completions.completions import clean_completions, collect_completions
            n = len(cs)
            cl = clean_completions(cs)
            assert len(cs) == n
            co = collect_completions(cs)
            keys = sorted(map(str, co))
            res = [_h(sorted(repr((s, t)) for s, t in map(sig, cl))), _h(keys), sorted(len(v) for v in co.values())]
            cl.clear(), co.clear(), cs.clear()
            return res
        if kind == "filter":
            from neutrinomass.completions.completions import filter_completions, collect_completions
            sieve = collect_completions(work.run(work.catalogue("1"), False))
            mine = collect_completions(cs)
            out = filter_completions(mine, sieve)
            return _h(sorted(map(str, out)))
        if kind == "export":
            from neutrinomass.database.export import export_completion
            from neutrinomass.database import LazyCompletion
            heads = {}
            for c in cs:
                x = eval(export_completion(c), {"LazyCompletion": LazyCompletion})
                heads[repr(sig(c))] = [sorted(x.head["quantum_numbers"]), x.head["topology"], x.operator_name]
            return _h(sorted((k, v[1:], len(v[0])) for k, v in heads.items()))
        raise KeyError(kind)

    def seesaw(self, which):
        """the full Lagrangian of a seesaw model: field contents of its terms"""
        from collections import Counter
        from . import work, comp
        cs = work.run(work.catalogue("1"), False)
        c = next(c for c in cs if len(c.exotics) == 1 and all(x.dynkin == which for x in c.exotics))
        full = c.lagrangian.generate_full()
        return sorted(map(str, Counter(comp.term_sig([comp.field_item(f) for f in t.fields]) for t in full.terms).items()))

    # ---------------------------------------------------------------- history and state
    def prelude(self, name):
        from neutrinomass.tensormethod import sm
        if name == "fieldstrings":
            from neutrinomass.tensormethod.lagrangian import npoint_fieldstrings, generate_fieldstrings
            npoint_fieldstrings(2)
            npoint_fieldstrings(2, derivs=True, func=lambda c: sum(f.charges["l"] for f in c) == 0)
        elif name == "tensors":
            from neutrinomass.tensormethod.core import D, eps, Field
            x = sm.L("u0 i0") * sm.H("i1") * eps("-i0 -i1")
            x.simplify()
            D(sm.L, "01")("d0 i0").conj.field
            sm.Q.conj.conj * sm.L
            Field("L", "10001", charges={"y": "-1/2"}, comm=1).fresh_indices()
        elif name == "lagrangian":
            from neutrinomass.tensormethod.lagrangian import npoint_terms
            npoint_terms(3, [sm.H, sm.L, sm.eb])
        elif name == "latex":
            from . import work
            for c in work.run(work.catalogue("2"), False)[:2]:
                str(c.lagrangian.terms)
                [x.latex for x in c.exotics]
                c.exotic_info()
        else:
            raise KeyError(name)

    def state(self):
        """digest of every shared object a caller can observe"""
        from neutrinomass.tensormethod import sm
        from neutrinomass.completions import operators as m
        out = {}
        for nm in ("L", "Q", "eb", "ub", "db", "H"):
            f = getattr(sm, nm)
            out["sm." + nm] = repr(sorted((k, str(v)) for k, v in f._dict.items()))
        for nm, t in (("EFF", m.EFF_OPERATORS), ("DERIV", m.DERIV_EFF_OPERATORS)):
            out[nm] = _h([(k, repr(v.operator), v.name, [sorted((a, str(b)) for a, b in f.charges.items()) for f in v.operator.fields]) for k, v in t.items()])
        for k, e in self.ops.items():
            out["op." + k] = repr(e.operator) + repr([sorted((a, str(b)) for a, b in f.charges.items()) for f in e.operator.fields])
        return out


def main():
    cfg = json.load(open(sys.argv[1]))
    w = World(cfg["seed"])
    res = {"results": {}, "repeat_mismatch": [], "errors": {}}
    for nm in cfg["ops"]:
        w.operator(nm)
    s0 = w.state()
    for p in cfg["prelude"]:
        try:
            w.prelude(p)
        except Exception as e:
            res["errors"]["prelude:" + p] = f"{type(e).__name__}: {e}"
    for it in cfg["items"]:
        try:
            r = w.do(it)
            res["results"][it] = r
            if it in cfg["repeat"]:
                r2 = w.do(it)
                if r2 != r:
                    res["repeat_mismatch"].append([it, str(r)[:300], str(r2)[:300]])
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            res["errors"][it] = f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"
    s1 = w.state()
    res["mutated"] = [[k, s0[k][:400], s1[k][:400]] for k in s0 if s0[k] != s1[k]]
    res["n_state"] = len(s0)
    with open(cfg["out"], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
