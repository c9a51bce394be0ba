"""A02: coefficients of the equivalent equations"""
import itertools

import numpy as np

from .. import schemes as L
from ..ref import Ref, to_dico
from .a01 import values_of

RULE = "one case = one scheme with all values of its parameters and states of an alphabet; the matrices of first and second order are compared entry by entry"
ASSUMPTIONS = [
    "no source terms (the analysis ignores them), non-zero relaxation rates of the moments which are not conserved",
    "tolerance 1e-7, relative",
]
CASE_TIMEOUT = 600


def bounds(tier):
    return "1D-3D schemes of 2 to 9 velocities, 1-3 conserved moments at all positions, 1-3 schemes, nonlinear equilibria, moment-dependent rates, relative velocities"


def variants(tier):
    th = tier == "thorough"
    few = [0.6, 1.2, 2.0] + ([1.0, 1.9] if th else [])
    out = []

    def add(dim, schs, free=None, states=((0.7,),), **kw):
        free = free or {}
        names = list(free)
        combos = [dict(zip(names, v)) for v in itertools.product(*free.values())]
        params = kw.pop("params", {})
        d = L.desc(dim, kw.pop("n", [2] * dim), schs, params=params, extra={k: 0 for k in names}, **kw)
        out.append(dict(desc=d, combos=combos, states=[list(s) for s in states]))

    one = [(0.0,), (0.7,), (-1.3,)]
    two = [(1.0, 0.0), (1.5, 0.4), (0.7, -0.3)]
    for la, sym in ((1.0, True), (2.0, True), (3.0, False)):
        add(1, [L.d1q2("w", "c*rho")], {"w": few, "c": [0.0, 0.3, -1.0]}, one, la=la, la_symbol=sym)
        add(1, [L.d1q3s(("w", "z"), ("c*rho", "k*rho"))], {"w": few, "z": few, "c": [0.3], "k": [0.2, 1.0]}, la=la, la_symbol=sym)
    add(1, [L.d1q2("w", "rho**2/2")], {"w": few}, one)
    add(1, [L.d1q2("w", "rho**3/6 - c*rho")], {"w": few, "c": [0.2]}, one)
    add(1, [L.d1q2("w", "sin(rho)")], {"w": few}, one)
    add(1, [L.d1q2("1 + rho/4", "c*rho + rho**2/4")], {"c": [0.2, 0.5]}, one)
    add(1, [L.d1q2("1/(1/2 + c)", "0.3*rho")], {"c": [0.2, 0.5]}, one, la=2.0)
    for s in ("1.5", "0.7", "4/3", "1", "2", "1.9"):
        add(1, [L.d1q2(s, "0.35*rho")], {}, one, la=2.0)
        add(1, [L.d1q2(s, "0.35*rho**2")], {}, one, la=0.5, la_symbol=False)
        add(1, [L.d1q3((s,), "q**2/rho + 0.3*rho")], {}, two)
    add(1, [L.d1q3(("w",), "rho*q/2 + q**2 + k*rho")], {"w": few, "k": [0.1, 0.4]}, two)
    add(1, [L.d1q3(("w",), "q**2/rho + k*rho", vel=(2, 0, 1))], {"w": few, "k": [0.3]}, two, la=2.0)
    add(1, [L.d1q3(("w",), "q**2/rho + k*rho**2")], {"w": few, "k": [0.3]}, two)
    add(1, [L.d1q3(("1 + q/3",), "q**2/(1 + rho) + k*rho")], {"k": [0.3]}, two)
    add(1, [L.d1q5(("w", "z", "1.1"))], {"w": few, "z": few}, two)
    add(1, [L.d1q5(("w", "z", "1.1"), eq=("q**2/rho + rho/3", "q*rho", "0.2*rho"))], {"w": few, "z": few}, two)
    add(1, [L.d1q3s(("w", "z"), ("c*rho", "0.8*rho"), vel=(0, 3, 4))], {"w": few, "z": few, "c": [0.2, 0.9]})
    # order of the moments
    base = [("1", "0", "rho"), ("X", "0", "q"), ("X**2", "w", "k*rho + q/5 + q**2/3")]
    for p in itertools.permutations(base):
        s = L.sch((0, 1, 2), [b[0] for b in p], [b[1] for b in p], [b[2] for b in p], ["rho", "q"])
        add(1, [s], {"w": few, "k": [0.2]}, two)
        add(1, [dict(s, consm=["q", "rho"])], {"w": few, "k": [0.2]}, two)
    base = [("1", "0", "rho"), ("X", "z", "c*rho + rho**2/3"), ("X**2/2", "w", "k*rho")]
    for p in itertools.permutations(base):
        s = L.sch((0, 1, 2), [b[0] for b in p], [b[1] for b in p], [b[2] for b in p], ["rho"])
        add(1, [s], {"w": few, "z": [0.9], "k": [0.2], "c": [0.1]}, one)
    # several schemes
    a = L.d1q2("w", "q")
    b = L.d1q2("z", "k*rho + q/10 + q**2/4", u="q")
    for s in ([a, b], [b, a]):
        add(1, s, {"w": few, "z": few, "k": [0.3, 0.9]}, two, la=2.0)
    b3 = L.d1q3s(("z", "1.3"), ("0", "0"), u="T")
    b3["eq"][1:] = ["k*T + rho/8", "0.5*T + rho*T/10"]
    a = L.d1q2("w", "c*rho - T/9")
    for s in ([a, b3], [b3, a]):
        add(1, s, {"w": few, "z": few, "k": [0.2], "c": [0.3]}, two)
    three = [L.d1q2("w", "q"), L.d1q2("z", "rho/2 + E/5", u="q"), L.d1q2("1.4", "E*q/3 + q/7", u="E")]
    for s in itertools.permutations(three):
        add(1, list(s), {"w": few, "z": [0.8]}, [(1.0, 0.2, 0.5), (0.6, -0.4, 1.5)])
    # 2D
    add(2, [L.d2q4(("w", "z", "y"), ("c*rho", "0.2*rho", "0"))], {"w": few, "z": few, "y": [0.7, 1.5], "c": [0.1]})
    add(2, [L.d2q4(("w", "w", "z"), ("c*rho", "b*rho**2", "(c + b)*rho**2"), vel=(3, 1, 4, 2))], {"w": few, "z": few, "c": [0.1], "b": [0.0, -0.2]}, one, la=2.0)
    add(2, [L.d2q5(("w", "y", "z", "1.2"), ("c*rho", "rho**2/2", "0.3*rho", "0.1*rho"))], {"w": few, "z": few, "y": [0.7], "c": [0.1]}, one)
    xy = L.sch((0, 1, 2, 3, 4, 5), ["1", "X", "Y", "X**2", "Y**2", "X*Y"], ["0", "w", "z", "y", "1.2", "0.9"], ["rho", "c*rho", "rho**2/5", "rho/3 + rho**2/7", "rho/4", "b*rho"], ["rho"])
    add(2, [xy], {"w": few, "z": few, "y": [0.7], "c": [0.1], "b": [0.15]}, one, la=2.0)
    xy2 = L.sch((0, 1, 2, 3, 4, 5), ["1", "X", "Y", "X**2", "Y**2", "X*Y"], ["0", "0", "0", "w", "z", "y"], ["rho", "qx", "qy", "qx**2/rho + rho/3", "qy**2 + rho/4 - qx*qy/3", "qx*qy/rho"], ["rho", "qx", "qy"])
    three_ = [(1.0, 0.1, -0.05), (1.4, -0.3, 0.2)]
    add(2, [xy2], {"w": few, "z": [0.7], "y": [1.3]}, three_)
    add(2, [L.d2q9(("w", "z", "y", "1.4", "1.5", "1.6"))], {"w": [1.2], "z": [0.7], "y": [1.9]}, three_)
    add(2, [L.d2q9(("w", "z", "y", "1.4", "1.5", "1.6"), nonlinear=False)], {"w": [1.2], "z": [0.7], "y": [1.9]}, three_, la=2.0)
    add(2, [L.d2q4(vel=(17, 19, 21, 23), eq=("c*rho", "0.2*rho", "0.1*rho"))], {"c": [0.1, 0.5]})
    t2 = L.d2q5(("w", "z", "1.1", "0.4"), ("0.3*T", "-0.1*T", "0.5*T", "0"), u="T")
    t2["eq"][1] = "0.3*T + rho*T/9"
    r2 = L.d2q4(("1.5", "z", "w"))
    r2["eq"][1] = "0.1*rho + T/10"
    for s in ([r2, t2], [t2, r2]):
        add(2, s, {"w": few, "z": [0.8]}, two)
    # 3D
    add(3, [L.d3q6(("w", "z", "y", "1.9", "0.6"))], {"w": few, "z": [1.3], "y": [0.9], "c": [0.2]})
    add(3, [L.d3q7(("w", "w", "w", "z", "0.6", "1.3"))], {"w": few, "z": [1.3], "c": [0.2]}, la=2.0)
    # relative velocities
    for r in (["0.2"], ["v"], ["q/rho"], ["v + q/2"]):
        add(1, [L.d1q3(("w",), "q**2/rho + k*rho")], {"w": few, "k": [0.3], "v": [0.1, -0.3]}, two, relvel=r, la=2.0)
        add(1, [L.d1q5(("w", "1.1", "z"), ("q**2/rho + rho/3", "0.7*q", "0.2*rho"))], {"w": few, "z": few, "v": [0.1]}, two, relvel=r)
    for r in (["0.2"], ["v"], ["rho/3"]):
        add(1, [L.d1q3s(("w", "z"), ("c*rho", "k*rho"))], {"w": few, "z": few, "c": [0.3], "k": [0.5], "v": [0.4]}, one, relvel=r)
        # moments of mixed degrees: the relative velocity acts on the second order
        mix = L.sch((0, 1, 2), ["1", "X + X**2", "X**2 - X/2"], ["0", "w", "z"], ["rho", "c*rho", "k*rho"], ["rho"])
        add(1, [mix], {"w": few, "z": few, "c": [0.3], "k": [0.5], "v": [0.4]}, one, relvel=r, la=2.0)
        mix = L.sch((0, 1, 2), ["X**2 - X/2", "1", "X + X**2"], ["z", "0", "w"], ["rho**2/7", "rho", "c*rho"], ["rho"])
        add(1, [mix], {"w": few, "z": few, "c": [0.3], "v": [0.4]}, one, relvel=r)
    add(1, [mix], {"w": few, "z": few, "c": [0.3]}, one)
    for r in (["0.1", "-0.2"], ["v", "rho/3"]):
        mix = L.sch((0, 1, 2, 3), ["1", "X + Y**2", "Y + X**2", "X**2 - Y"], ["0", "w", "z", "y"], ["rho", "c*rho", "rho**2/2", "0.3*rho"], ["rho"])
        add(2, [mix], {"w": few, "z": [0.8], "y": [0.7], "c": [0.1], "v": [0.3]}, one, relvel=r)
        add(2, [L.d2q5(("w", "y", "z", "1.2"), ("c*rho", "rho**2/2", "0.3*rho", "0.1*rho"))], {"w": few, "z": [0.8], "y": [0.7], "c": [0.1], "v": [0.3]}, one, relvel=r)
    for r in (["0.1", "-0.2"], ["qx/rho", "qy/rho"]):
        add(2, [xy2], {"w": few, "z": [0.7], "y": [1.3]}, three_, relvel=r)
    return out


def cases(tier):
    def cost(v):
        d = v["desc"]
        return -(sum(len(s["vel"]) for s in d["schemes"]) ** 2 * d["dim"] * (4 if d.get("relvel") else 1))

    yield from sorted(variants(tier), key=cost)


# ---------------------------------------------------------------------------
def collision(ref, m0):
    """derivative of the collision and of the equilibrium at the state m0, in the
    moments of the description, by fourth order differences"""
    nv, h = ref.nv, 1e-3
    C, J = np.zeros((nv, nv)), np.zeros((nv, nv))
    f0 = ref.m2f(m0)
    for j in range(nv):
        e = np.zeros((nv, 1))
        e[j] = h
        col = lambda k: ref.f2m(ref.collide(ref.m2f(m0 + k * e)))[:, 0]
        eq = lambda k: ref.equilibrium(m0 + k * e)[:, 0]
        # sixth order differences
        for A, fn in ((C, col), (J, eq)):
            A[:, j] = (45 * (fn(1) - fn(-1)) - 9 * (fn(2) - fn(-2)) + (fn(3) - fn(-3))) / (60 * h)
    return C, J


def expansion(ref, C, cons, k):
    """expansion of the slow modes: exact in the wave number up to the second order.
    C: linear collision on the moments, cons: positions of the conserved moments"""
    nv, N = ref.nv, len(cons)
    rest = [i for i in range(nv) if i not in cons]
    v = np.array(ref.vel, float) @ np.asarray(k, float)
    T = [ref.M @ np.diag((-1j * v) ** p / [1, 1, 2][p]) @ ref.invM @ C for p in range(3)]
    blk = lambda p, a, b: T[p][np.ix_(a, b)]
    P, Q, U, W = ([blk(p, a, b) for p in range(3)] for a, b in ((cons, cons), (cons, rest), (rest, cons), (rest, rest)))
    I = np.eye(len(rest))
    Y0 = np.linalg.solve(I - W[0], U[0])
    L1 = P[1] + Q[1] @ Y0
    Y1 = np.linalg.solve(I - W[0], U[1] + W[1] @ Y0 - Y0 @ L1)
    L2 = P[2] + Q[2] @ Y0 + Q[1] @ Y1
    return Y0, L1, L2 - L1 @ L1 / 2


def run_case(case, ctx):
    import pylbm
    import sympy as sp

    d0 = case["desc"]
    dim = d0["dim"]
    scheme = pylbm.Scheme(to_dico(d0))
    eqn = pylbm.EquivalentEquation(scheme)
    order = [str(c) for c in scheme.consm]
    N = len(order)
    ctx.check(isinstance(str(eqn), str) and "Equivalent Equations" in str(eqn), "no printed form")
    ok = len(eqn.coeff_order1) == dim and len(eqn.coeff_order2) == dim and all(len(c) == dim for c in eqn.coeff_order2)
    ok = ok and all(c.shape == (N, 1) for c in eqn.coeff_order1) and all(c.shape == (N, N) for r in eqn.coeff_order2 for c in r)
    if not ctx.check(ok, "shapes of the coefficients"):
        return
    names = order + sorted({k for c in case["combos"] for k in c} | set(d0["params"])) + ["LA"]
    syms = [sp.Symbol(n) for n in names]
    flat = [list(c) for c in eqn.coeff_order1] + [list(c) for r in eqn.coeff_order2 for c in r]
    entries = [e for l in flat for e in l]
    free = set().union(*[e.free_symbols for e in entries])
    if not ctx.check(free <= set(syms), "unknown symbols %s in the coefficients" % (free - set(syms))):
        return
    if not ctx.check(not any(e.has(sp.Derivative, sp.zoo, sp.nan) or e.atoms(sp.core.function.AppliedUndef) for e in entries), "derivatives or infinite values left in the coefficients"):
        return
    fn = sp.lambdify(syms, entries, "math")
    # symbolic derivative of the first order flux, for the linearised oracle
    for combo in case["combos"]:
        ref = Ref(dict(d0, params=values_of(d0, combo)))
        for state in case["states"]:
            byname = dict(zip(ref.consm, state))
            val = {**byname, **ref.params}
            got = np.array(fn(*[val[n] for n in names]), float)
            F = got[: dim * N].reshape(dim, N)
            B = got[dim * N :].reshape(dim, dim, N, N)
            who = "parameters %s state %s" % (combo, byname)
            m = np.zeros((ref.nv, 1))
            for c, x in byname.items():
                m[ref.consm[c], 0] = x
            m = ref.equilibrium(m)
            cons = [ref.consm[c] for c in order]
            rest = [i for i in range(ref.nv) if i not in cons]
            # first order: the flux of the equilibrium
            f = ref.m2f(m)[:, 0]
            scale = 1 + np.max(np.abs(got))
            for a in range(dim):
                flux = np.array([sum(ref.M[c, j] * ref.la * ref.vel[j][a] * f[j] for j in range(ref.nv)) for c in cons])
                ctx.check(np.max(np.abs(flux - F[a])) <= 1e-8 * scale, lambda: "%s: flux %s in direction %d, expected %s" % (who, F[a], a, flux))
            # second order, from the expansion of the slow modes along enough directions
            C, J = collision(ref, m)
            S2 = {}
            dirs = [np.eye(dim)[a] for a in range(dim)] + [np.eye(dim)[a] + np.eye(dim)[b] for a in range(dim) for b in range(a)]
            for k in dirs:
                Y0, L1, L2 = expansion(ref, C, cons, k)
                # in physical units: wave number k/dx, time step dt
                exp2 = L2.real * ref.dx**2 / ref.dt / ref.dt
                got2 = np.einsum("i,j,ijab->ab", k, k, B)
                ctx.state(np.round(L2, 8).real, np.round(L1, 8).imag)
                ctx.step()
                ctx.check(
                    np.max(np.abs(exp2 - got2)) <= 1e-7 * (1 + np.max(np.abs(exp2))),
                    lambda: "%s: second order along %s: %s, the slow modes have %s" % (who, list(k), got2.tolist(), exp2.tolist()),
                )
            # each matrix: flux of the first order deviation from equilibrium
            V = [ref.M @ np.diag([ref.la * v[a] for v in ref.vel]) @ ref.invM for a in range(dim)]
            Jr = J[np.ix_(rest, cons)]
            Wc = C[np.ix_(rest, rest)]
            sig = np.linalg.inv(np.eye(len(rest)) - Wc) - np.eye(len(rest)) / 2
            for i in range(dim):
                for j in range(dim):
                    Vj = V[j]
                    dev = Jr @ (Vj[np.ix_(cons, cons)] + Vj[np.ix_(cons, rest)] @ Jr) - Vj[np.ix_(rest, cons)] - Vj[np.ix_(rest, rest)] @ Jr
                    e = V[i][np.ix_(cons, rest)] @ sig @ dev
                    ctx.check(
                        np.max(np.abs(e - B[i, j])) <= 1e-7 * (1 + np.max(np.abs(e))),
                        lambda: "%s: coefficient (%d, %d) of second order %s, expected %s" % (who, i, j, B[i, j].tolist(), e.tolist()),
                    )
            ctx.outcome(np.round(got, 8))
    ctx.trace()
    ctx.sample(d0)
