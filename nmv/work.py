"""Workload shared by the completion checks: catalogue operators and random ones."""
from . import comp

FAST = ["1", "2", "3a", "3b", "4a", "4b", "8", "D2a", "D2b", "D2c", "D3"]
MEDIUM = ["D4a", "D4b", "D7a", "D7b", "D7c", "D13a", "D13b", "D13c", "D15", "D21"]          # 10-18 s each
SLOW = ["1p", "D9a", "D9b", "D10a", "D10b", "D10c", "D22"]                                  # 25-80 s each
HUGE = ["5a", "5b", "6a", "7", "61a", "71", "8p", "9", "11b", "12a", "14b", "D5a", "D6a", "D8a", "D18a", "D20"]  # minutes each


# dimension-nine operators (and 1p, 61a, ...) of which only a sample of the diagrams is completed
SAMPLED = ["1p", "61a", "5a", "5b", "61b", "5c", "5d", "6a", "6b", "7", "8p", "71", "9", "10", "11a", "11b", "12a", "12b", "13", "14a", "14b", "15", "16", "17", "18", "19", "20", "76"]


def samples(tier, seed, n, size):
    """[(task id, payload)] of sampled operators; 1p, 61a and 12a always"""
    if tier == "thorough":
        return [(f"sample-{x}", ("sample", (x, 12 * size))) for x in SAMPLED]
    import random
    rest = [x for x in SAMPLED if x not in ("1p", "61a", "12a")]
    random.Random(f"sample:{seed}").shuffle(rest)
    return [(f"sample-{x}", ("sample", (x, size))) for x in ["61a", "1p", "12a"] + rest[: n - 3]]


def tasks(tier, seed, n_rand=16, per4=5, per5=2, fast=True, medium=2):
    """[(task id, payload)]; slow ones first."""
    out = []
    if tier == "thorough":
        names = HUGE + SLOW + MEDIUM + FAST
        out += [(f"op-{n}", ("op", n)) for n in names]
        out += [(f"rand{i}", ("rand", (i, 4 * per4, 5 * per5))) for i in range(4 * n_rand)]
        return out
    med = [MEDIUM[(seed * 3 + 4 * k) % len(MEDIUM)] for k in range(medium)]
    out += [(f"op-{n}", ("op", n)) for n in dict.fromkeys(med)]
    if fast:
        out += [(f"op-{n}", ("op", n)) for n in FAST]
    out += [(f"rand{i}", ("rand", (i, per4, per5))) for i in range(n_rand)]
    return out


def catalogue(name):
    from neutrinomass.completions import operators as m
    return m.DERIV_EFF_OPERATORS[name] if name.startswith("D") else m.EFF_OPERATORS[name]


def operators(ctx, payload):
    """yields (name, effective operator, has derivatives)"""
    kind, x = payload
    if kind == "op":
        yield x, catalogue(x), x.startswith("D")
        return
    if kind == "sample":
        yield x[0], Sample(catalogue(x[0]), x[1], ctx.rng), False
        return
    _, n4, n5 = x
    for k in range(n4 + n5):
        e = comp.random_operator(ctx.rng, 4 if k < n4 else 5, name=f"X{k}")
        if e is not None:
            yield f"X{k}", e, False


class Sample:
    """an effective operator of which only some partitions are completed"""

    def __init__(self, eff, size, rng):
        self.eff, self.size, self.rng = eff, size, rng

    def __getattr__(self, k):
        return getattr(self.eff, k)


def sampled_completions(s):
    """completions of a random sample of the diagrams of an operator"""
    import importlib
    import itertools
    m = importlib.import_module("neutrinomass.completions.completions")
    from neutrinomass.completions.core import Completion
    if hasattr(m, "partitions") and hasattr(m, "partition_completion"):
        parts = list(m.partitions(s.eff))
        s.rng.shuffle(parts)
        found = (m.partition_completion(p) for p in parts[: s.size])
    else:
        found = itertools.islice(m.operator_completions(s.eff), s.size)
    return [c for c in found if isinstance(c, Completion)]


def run(e, deriv):
    if isinstance(e, Sample):
        return sampled_completions(e)
    from neutrinomass.completions.completions import operator_completions, deriv_operator_completions
    return list(deriv_operator_completions(e) if deriv else operator_completions(e))
