"""C19: new-physics scales solve the neutrino-mass equation."""
import math

from nmv.checks import c18

PID = "C19"
RULE = ("a case is one symbolic estimate (of a catalogue operator, or a random product of couplings and loops); non-trivial when it has a loop factor; distinct by its exponents")
MIN = {"scales": 130, "scales_loopv2": 25, "masses": 300, "leading": 100, "loops": 300, "tables": 25}
ASSUMPTIONS = ["expressions with more than one (loop + v²/Λ²) factor take many seconds each and are only sampled in the quick tier"]

V, LOOP, MV = 174.0, 1 / (16 * math.pi ** 2), 5e-11
NUM = {"v": V, "loop": LOOP, "g2": 0.6295 ** 2, "yu": 172.76 / V, "yd": 4.18 / V, "ye": 1.78 / V}


def TASKS(tier, seed):
    return [(f"cat{i}", ("cat", i)) for i in range(16)] + [(f"rand{i}", ("rand", 8 if tier == "quick" else 40)) for i in range(8)]


def mass(pw, lam):
    x = 1.0
    for k, e in pw:
        x *= (LOOP + V * V / lam ** 2 if k == "loopv2" else lam if k == "Λ" else NUM[k]) ** e
    return x


def deg(pw):
    return dict(pw).get("loopv2", 0)


def scale(ctx, m, expr, txt):
    pw = c18.powers(expr)
    g = ctx.guarded("scale:raises", txt, cpu=300)
    with g:
        s = m.numerical_np_scale_estimate(expr)
    if not g.ok:
        return None
    ctx.event("scales")
    if deg(pw):
        ctx.event("scales_loopv2")
    try:
        x = float(s)
    except TypeError:
        ctx.violate("scale:not-a-number", f"{txt()}: {s}")
        return None
    # the mass falls monotonically with Λ, so the solution is unique
    ctx.check(x > 0 and abs(mass(pw, x * 1e3) / MV - 1) < 1e-6, "scale:wrong", lambda: f"{txt()}: Λ={x} TeV gives {mass(pw, x * 1e3) if x > 0 else None} GeV instead of {MV}")
    return x


def one(ctx, m, u, expr, txt):
    pw = c18.powers(expr)
    d = dict(pw)
    ctx.case(sig=pw, nontrivial="loop" in d, sample=txt)
    g = ctx.guarded("mass:raises", txt, cpu=60)
    with g:
        x = float(m.numerical_mv(expr))
        ctx.event("masses")
        ctx.check(abs(x / mass(pw, 1000.0) - 1) < 1e-9, "mass:wrong", lambda: f"{txt()}: {x}, expected {mass(pw, 1000.0)}")
    g = ctx.guarded("loops:raises", txt, cpu=60)
    with g:
        a, b = u.loop_data(expr)
        ctx.event("loops")
        n2 = d.get("loopv2", 0)
        ctx.check(a == d.get("loop", 0) and list(b) == (list(range(n2 + 1)) if n2 else []), "loops:wrong", lambda: f"{txt()}: {a} {b}")


def RUN(ctx, payload):
    import sympy
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.database import closures as m, utils as u
    kind, arg = payload
    rng = ctx.rng
    quick = ctx.tier == "quick"
    if kind == "rand":
        for _ in range(arg):
            e = sympy.Symbol("v") ** 2 / sympy.Symbol("Λ")
            for s, mx in (("loop", 5), ("g2", 2), ("yd", 2), ("ye", 2), ("yu", 3), ("loopv2", 1 if quick else 2)):
                e *= sympy.Symbol(s) ** rng.randint(0, mx)
            one(ctx, m, u, e, lambda: str(e))
            scale(ctx, m, e, lambda: str(e))
        return
    ops = {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}
    memo, slow = {}, 0
    for nm in list(ops)[arg::16]:
        eff = ops[nm]
        g = ctx.guarded("estimate:raises", nm, cpu=120)
        with g:
            est = m.neutrino_mass_estimate(eff)
        if not g.ok or not est:
            continue
        for e in {x: None for x in est}:
            if e not in memo:
                one(ctx, m, u, e, lambda: f"{nm}: {e}")
        g = ctx.guarded("leading:raises", nm, cpu=120)
        with g:
            lead = u.get_leading_mv(eff)
            ctx.event("leading")
            best = max(mass(c18.powers(e), 1000.0) for e in est)
            ctx.check(lead in est and abs(mass(c18.powers(lead), 1000.0) / best - 1) < 1e-9, "leading:wrong", lambda: f"{nm}: {lead} of {est}")
        todo = sorted((e for e in set(est) if e not in memo), key=str)
        top = max(map(lambda e: deg(c18.powers(e)), est))
        for e in todo:
            if deg(c18.powers(e)) >= 2 and quick:
                slow += 1
                if slow > 1:
                    memo.setdefault(e, None)
                    continue
            memo[e] = scale(ctx, m, e, lambda: f"{nm}: {e}")
        if top < (1 if quick else 2) and all(memo.get(e) for e in est):
            g = ctx.guarded("table:raises", nm, cpu=300)
            with g:
                xs = [float(x) for x in u.estimate_np_scale(eff)]
                ctx.check(len(xs) == len(est) and all(abs(x / memo[e] - 1) < 1e-9 for x, e in zip(xs, est)), "table:estimates", lambda: f"{nm}: {xs} for {est}")
                loops, num = u.table_data(eff)
                ctx.event("tables")
                x = float(str(num).split("{")[1].rstrip("}"))
                good = [e for e in est if abs(memo[e] - x) < 1e-6 * x]
                ctx.check(x > 0 and max(xs) - x < 0.011, "table:scale", lambda: f"{nm}: {num}, scales {xs}")

                def lstr(e):
                    d = dict(c18.powers(e))
                    a, b = d.get("loop", 0), d.get("loopv2", 0)
                    return ",".join(str(a + i) for i in range(b + 1))
                ctx.check(loops in {lstr(e) for e in good}, "table:loops", lambda: f"{nm}: {loops} for {good}")
