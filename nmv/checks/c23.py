"""C23: mixing matrices are unitary, follow the standard parametrisation and reproduce the measured mixing."""
import cmath
import math

PID = "C23"
RULE = "a case is one set of mixing angles and phases given to UnitaryMatrix (numerical and symbolic), or one entry of the shipped PMNS / CKM matrices; non-trivial when all angles and phases are non-zero; distinct by the parameters"
MIN = {"numeric": 300, "symbolic": 15, "entries": 3000, "measured": 20}
ASSUMPTIONS = ["measured mixing: PDG ranges of |V| widened to 5 %, Jarlskog invariant (2.6-3.5)e-5; NuFIT 3 sigma ranges"]


def TASKS(tier, seed):
    n = 8 if tier == "quick" else 60
    return [(f"num{i}", ("numeric", 50)) for i in range(n)] + [(f"sym{i}", ("symbolic", 3)) for i in range(n)] + [("shipped", ("shipped",))]


def standard(t12, t13, t23, d, a1, a2):
    """PDG parametrisation times diag(exp(i a1), exp(i a2), 1)"""
    s12, s13, s23, c12, c13, c23 = math.sin(t12), math.sin(t13), math.sin(t23), math.cos(t12), math.cos(t13), math.cos(t23)
    e = cmath.exp(1j * d)
    u = [[c12 * c13, s12 * c13, s13 / e],
         [-s12 * c23 - c12 * s23 * s13 * e, c12 * c23 - s12 * s23 * s13 * e, s23 * c13],
         [s12 * s23 - c12 * c23 * s13 * e, -c12 * s23 - s12 * c23 * s13 * e, c23 * c13]]
    ph = [cmath.exp(1j * a1), cmath.exp(1j * a2), 1]
    return [[u[i][j] * ph[j] for j in range(3)] for i in range(3)]


def params(rng):
    ang = [rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(0, math.pi / 2), 0.0, math.pi / 2]) if rng.random() < 0.2 else rng.uniform(-math.pi, math.pi) for _ in range(3)]
    ph = [rng.choice([0.0, math.pi, rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(-7, 7)]) for _ in range(3)]
    return (*ang, *ph)


def kwargs(t12, t13, t23, d, a1, a2, cos=math.cos, sin=math.sin):
    return {"c12": cos(t12), "c13": cos(t13), "c23": cos(t23), "s12": sin(t12), "s13": sin(t13), "s23": sin(t23), "δ_CP": d, "α_1": a1, "α_2": a2}


def entries(m):
    return [[complex(m[i, j]) for j in range(3)] for i in range(3)]


def close(a, b, tol=1e-9):
    return all(abs(a[i][j] - b[i][j]) < tol for i in range(3) for j in range(3))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def dag(a):
    return [[a[j][i].conjugate() for j in range(3)] for i in range(3)]


ID = [[1 if i == j else 0 for j in range(3)] for i in range(3)]


def check_matrix(ctx, u, want, txt):
    """u: UnitaryMatrix or its value"""
    v = entries(u)
    ctx.event("entries", 9)
    ctx.check(close(v, want), "parametrisation", lambda: f"{txt}: {v}, standard parametrisation {want}")
    ctx.check(close(mul(v, dag(v)), ID) and close(mul(dag(v), v), ID), "unitarity", lambda: f"{txt}: {v}")
    return v


def numeric(ctx, n):
    from neutrinomass.analysis.utils import UnitaryMatrix
    for _ in range(n):
        p = params(ctx.rng)
        txt = f"angles {p[:3]} phases {p[3:]}"
        kw = kwargs(*p)
        before = dict(kw)
        with ctx.guarded("UnitaryMatrix", txt) as g:
            u = UnitaryMatrix(**kw)
            d, c = u.get_dagger(), u.cols()
        if not g.ok:
            continue
        ctx.event("numeric")
        ctx.case(sig=p, nontrivial=all(p), sample=txt)
        v = check_matrix(ctx, u.val, standard(*p), txt)
        ctx.check(close(entries(d), dag(v), 1e-12), "dagger", lambda: f"{txt}: {entries(d)}")
        ctx.check(close(entries(c), [[v[j][i] for j in range(3)] for i in range(3)], 1e-12), "columns", lambda: f"{txt}: {entries(c)}")
        ctx.check(close(entries(u.val), v, 1e-15) and kw == before, "changed", txt)


def symbolic(ctx, n):
    """symbolic matrix with numbers put in = numerical matrix"""
    import sympy
    from neutrinomass.analysis.utils import UnitaryMatrix
    names = "c12 c13 c23 s12 s13 s23".split()
    for _ in range(n):
        p = params(ctx.rng)
        sy = {k: sympy.Symbol(k, real=True) for k in names}
        d, a1, a2 = sympy.symbols("delta a1 a2", real=True)
        with ctx.guarded("UnitaryMatrix:symbolic", str(p)) as g:
            u = UnitaryMatrix(**sy, **{"δ_CP": d, "α_1": a1, "α_2": a2}, symb=True)
            dg, c = u.get_dagger(), u.cols()
        if not g.ok:
            continue
        ctx.event("symbolic")
        ctx.case(sig=("sym", p), nontrivial=all(p), sample=str(u.val[0, 2]))
        kw = kwargs(*p)
        sub = {**{sy[k]: kw[k] for k in names}, d: p[3], a1: p[4], a2: p[5]}
        num = lambda m: m.subs(sub).evalf()
        v = check_matrix(ctx, num(u.val), standard(*p), f"symbolic at {p}")
        ctx.check(close(entries(num(dg)), dag(v)), "dagger:symbolic", lambda: f"{p}: {entries(num(dg))}")
        ctx.check(close(entries(num(c)), [[v[j][i] for j in range(3)] for i in range(3)]), "columns:symbolic", str(p))


CKM_PDG = [[0.9743, 0.2250, 0.0036], [0.2249, 0.9735, 0.0414], [0.0086, 0.0405, 0.9991]]
CKM_TOL = [[0.01, 0.02, 0.08], [0.02, 0.01, 0.05], [0.08, 0.06, 0.01]]
PMNS_3SIGMA = [[(0.79, 0.85), (0.50, 0.60), (0.13, 0.17)], [(0.22, 0.53), (0.44, 0.71), (0.61, 0.80)], [(0.22, 0.54), (0.44, 0.71), (0.58, 0.79)]]


def jarlskog(v):
    return (v[0][1] * v[1][2] * v[0][2].conjugate() * v[1][1].conjugate()).imag


def shipped(ctx):
    import neutrinomass.analysis.utils as m
    v = entries(m.CKM)
    ctx.check(close(mul(v, dag(v)), ID), "ckm:unitarity", str(v))
    for i in range(3):
        for j in range(3):
            ctx.event("measured")
            ctx.check(abs(abs(v[i][j]) / CKM_PDG[i][j] - 1) < CKM_TOL[i][j], "ckm:measured", lambda: f"|V_{'uct'[i]}{'dsb'[j]}| = {abs(v[i][j]):.4f}, measured {CKM_PDG[i][j]}")
    ctx.check(2.6e-5 < jarlskog(v) < 3.5e-5, "ckm:jarlskog", lambda: f"J = {jarlskog(v):.2e}, measured 3.1e-5")
    want = standard(m.THETA12_CKM, m.THETA13_CKM, m.THETA23_CKM, m.DELTA_CP_CKM, 0, 0)
    ctx.check(close(v, want), "ckm:angles", lambda: f"CKM is not the matrix of the angles given: {v}")
    u = entries(m.PMNS.val)
    ctx.check(close(mul(u, dag(u)), ID), "pmns:unitarity", str(u))
    for i in range(3):
        for j in range(3):
            ctx.event("measured")
            lo, hi = PMNS_3SIGMA[i][j]
            ctx.check(lo < abs(u[i][j]) < hi, "pmns:measured", lambda: f"|U_{'eμτ'[i]}{j + 1}| = {abs(u[i][j]):.4f}, measured {lo}-{hi}")
    ctx.check(close(u, standard(m.THETA12, m.THETA13, m.THETA23, m.DELTA_CP, 0, 0)), "pmns:angles", str(u))
    # the leptonic phase lies in the measured range (NuFIT: 125-392 degrees)
    d = -cmath.phase(u[0][2]) % (2 * math.pi)
    ctx.check(math.radians(125) < d < math.radians(360) or d < math.radians(32), "pmns:phase", lambda: f"δ = {math.degrees(d)}")
    # masses in GeV, normal ordering with massless lightest neutrino
    m1, m2, m3 = [float(x) for x in m.NEUTRINO_MASSES]
    ctx.event("measured", 4)
    ctx.check(m1 == 0 and abs(m2 ** 2 / 7.4e-23 - 1) < 0.03 and abs(m3 ** 2 / 2.5e-21 - 1) < 0.03, "masses", lambda: f"{m.NEUTRINO_MASSES}")
    ctx.check(abs(float(m.measured_mv_diffs["sol"]) - m2) < 1e-20 and abs(float(m.measured_mv_diffs["atm"]) - m3) < 1e-20, "masses:differences", str(m.measured_mv_diffs))
    ctx.check(abs(m.VEV - 173.95) < 0.3 and abs(1 / (2 * math.sqrt(2) * m.VEV ** 2) / m.GF - 1) < 0.01, "vev", lambda: f"v = {m.VEV} GeV, G_F = {m.GF}")
    ctx.check(abs(1 / m.ALPHA_EM - 128) < 2 and abs(m.pert_bound ** 2 - 4 * math.pi) < 1e-9 and 4.1 < m.mb < 4.9, "constants", f"{m.ALPHA_EM} {m.pert_bound} {m.mb}")
    # PMNS default arguments do not depend on earlier calls
    w = entries(m.UnitaryMatrix().val)
    ctx.check(close(u, w, 1e-15), "pmns:default", str(w))


def RUN(ctx, payload):
    kind, *x = payload
    {"numeric": numeric, "symbolic": symbolic, "shipped": shipped}[kind](ctx, *x)
