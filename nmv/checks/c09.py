"""C09: every tree-level completion is found, and nothing else."""
from collections import Counter
from nmv import comp, work

PID = "C09"
RULE = ("a case is one effective operator (catalogue operators of dimension 5-9, and random ones of 4-5 SM fields with random isospin contraction); non-trivial when it has at "
        "least two inequivalent completions; distinct by its tensors.  Expected completions come from an independent enumeration of all trees and index flows")
MIN = {"operators": 60, "completions": 1000, "required": 250, "distinct_models": 250}
ASSUMPTIONS = ["two exotics with equal quantum numbers meeting at one vertex may or may not be the same field; such diagrams are allowed but not required",
               "derivative couplings of two exotic fermions are allowed but not required (DESIGN.md)"]


def TASKS(tier, seed):
    return work.tasks(tier, seed, n_rand=16, per4=4, per5=2, medium=4) + ([("op-1p", ("op", "1p"))] if tier == "quick" else [])


def short(s):
    return str(s).replace("Fraction", "").replace('"', "")[:900]


def RUN(ctx, payload):
    from neutrinomass.completions.completions import derivative_combinations
    from neutrinomass.tensormethod.contract import colour_singlets
    for name, e, deriv in work.operators(ctx, payload):
        txt = f"{name}: {e.operator}"
        with ctx.guarded("completions", txt) as g:
            cs = work.run(e, deriv)
        if not g.ok:
            continue
        b = comp.conserves_b(e)
        got = {}
        for c in cs:
            got.setdefault(comp.comp_sig(c, b), c)
        if deriv:
            ops = [o.operator for o in derivative_combinations(e) if o.operator.simplify() != 0]
            req, al, nt = comp.reference_deriv(colour_singlets(ops, overcomplete=True))
        else:
            req, al, nt = comp.reference(colour_singlets([e.operator], overcomplete=True))
        ctx.event("operators")
        ctx.event("derivative_operators", int(deriv))
        ctx.event("completions", len(cs))
        ctx.event("distinct_models", len(got))
        ctx.event("required", len(req))
        ctx.event("reference_trees", nt)
        ctx.case(sig=repr(e.operator), nontrivial=len(got) > 1, sample=f"{txt}: {len(cs)} completions, {len(got)} distinct, {len(req)} required, {len(al)} allowed")
        miss, extra = req - set(got), set(got) - al
        ctx.check(not miss, "completions:missing", lambda: f"{txt}: {len(miss)} of {len(req)} completions not found, e.g. {short(min(miss))}")
        ctx.check(not extra, "completions:spurious", lambda: f"{txt}: {len(extra)} completions that no diagram gives, e.g. {short(min(extra))}")
