"""A01: amplification eigenvalues and verdicts of the stability analysis"""
import contextlib
import io
import itertools

import numpy as np

from .. import schemes as L
from ..ref import Ref, ev, set_F, get_F, to_dico

RULE = "one case = one scheme with all values of its parameters, all linearisation states and all wave vectors of a periodic grid; or one degree and first root: all multisets of roots"
ASSUMPTIONS = [
    "no source terms (the analysis ignores them)",
    "the sign of the wave vector convention is free, the same for all wave vectors",
    "roots of the enumerated polynomials are on the unit circle or at least 0.05 away from it; equal or at least 0.05 apart; 0.9 is a double root at most, of cubic polynomials",
    "a spectral radius within 1e-9 of one counts as one",
]
CASE_TIMEOUT = 300


def bounds(tier):
    return "1D-3D schemes of 2 to 9 velocities, 1-3 conserved moments, relative velocities, grids of 8, 5x5, 3x3x3 wave vectors; polynomials of degree <= %d over 12 roots" % (5 if tier == "quick" else 7)


ROOTS = [0, 0.5, -0.5, 0.3 + 0.4j, 0.9, 1, -1, 1j, np.exp(0.7j), np.exp(-2.1j), 1.1, 2, -1.5j]


# ---------------------------------------------------------------------------
def variants(tier):
    """(desc with values of the free parameters left out, list of values, states)"""
    th = tier == "thorough"
    full = ["0", "0.3", "1", "1.5", "2"] + (["0.7", "1.9", "2.05"] if th else [])
    rates = [float(x) for x in full]
    few = [0.0, 1.2, 2.0] + ([0.6, 1.9] if th else [])
    cs = [0.0, 0.3, -0.5, 1.0, 1.2]
    out = []

    def add(dim, schs, free, states=((0.0,),), n=None, **kw):
        names = list(free)
        combos = [dict(zip(names, v)) for v in itertools.product(*free.values())]
        params = kw.pop("params", {})
        d = L.desc(dim, n or {1: [8], 2: [5, 5], 3: [3, 3, 3]}[dim], schs, params=params, extra={k: 0 for k in names}, **kw)
        out.append(dict(kind="scheme", desc=d, combos=combos, states=[list(s) for s in states]))

    for la in (1.0, 2.0):
        add(1, [L.d1q2("w", "c*rho")], {"w": rates, "c": [la * c for c in cs]}, la=la)
    add(1, [L.d1q2("w", "rho**2/2")], {"w": rates}, [(0.0,), (0.4,), (-1.3,), (1.0,)])
    add(1, [L.d1q2("w", "g*rho")], {"w": few, "c": cs}, params={"g": 0})  # parameter given as an expression of another one
    out[-1]["desc"]["params_expr"] = {"g": "2*c/3"}
    add(1, [L.d1q2("1 + rho/2", "c*rho + rho**2/4")], {"c": cs}, [(0.0,), (0.8,), (-0.4,), (1.0,)])
    add(1, [L.d1q3s(("w", "z"), ("c*rho", "k*rho"))], {"w": rates, "z": rates, "c": [0.3], "k": [0.2, 0.5, 1.0]})
    add(1, [L.d1q3(("w",), "rho*q/2 + q**2 + k*rho")], {"w": rates, "k": [0.1, 0.4]}, [(1.0, 0.0), (1.0, 0.3), (0.5, -0.2)])
    add(1, [L.d1q3(("w",), "q**2/rho + k*rho", vel=(2, 0, 1))], {"w": few, "k": [0.3]}, [(1.0, 0.2), (2.0, 0.1), (0.7, -0.1)])
    add(1, [L.d1q5(("w", "z", "1.1"))], {"w": few, "z": few}, [(1.0, 0.0)])
    add(1, [L.d1q3s(("w", "z"), ("c*rho", "0.8*rho"), vel=(0, 3, 4))], {"w": few, "z": few, "c": [0.2, 0.9]})
    # conserved moments which do not come first
    q3 = L.sch((0, 1, 2), ["X**2", "X", "1"], ["w", "0", "0"], ["k*rho + q/5 + q**2/3", "q", "rho"], ["rho", "q"])
    add(1, [q3], {"w": rates, "k": [0.2, 0.6]}, [(1.0, 0.0), (1.0, 0.5)])
    q3 = L.sch((0, 1, 2), ["X**2", "X", "1"], ["w", "z", "0"], ["k*rho", "c*rho + rho**2/3", "rho"], ["rho"])
    add(1, [q3], {"w": rates, "z": few, "k": [0.4], "c": [0.2]}, [(0.5,), (-0.2,)])
    # several schemes
    a = L.d1q2("w", "q", u="rho")
    b = L.d1q2("z", "k*rho + q/10 + q**2/4", u="q")
    add(1, [a, b], {"w": few, "z": few, "k": [0.3, 0.9]}, [(1.0, 0.0), (1.0, 0.6)])
    b3 = L.d1q3s(("z", "1.3"), ("k*T + rho/8", "0.5*T + rho*T/10"), u="T")
    b3["eq"][1:] = ["k*T + rho/8", "0.5*T + rho*T/10"]
    a = L.d1q2("w", "c*rho - T/9")
    for s in ([a, b3], [b3, a]):
        add(1, s, {"w": few, "z": few, "k": [0.2], "c": [0.3]}, [(0.4, 0.7), (0.0, 0.0)])
    three = [L.d1q2("w", "q"), L.d1q2("z", "rho/2 + E/5", u="q"), L.d1q2("1.4", "E*q/3 + q/7", u="E")]
    add(1, three, {"w": few, "z": few}, [(1.0, 0.2, 0.5)])
    # relative velocities
    rv = [["0.2"], ["v"], ["q/rho"], ["v + q/2"]]
    for r in rv:
        add(1, [L.d1q3(("w",), "q**2/rho + k*rho")], {"w": few, "k": [0.3], "v": [0.1, -0.3]}, [(1.0, 0.2), (0.8, -0.1)], relvel=r, la=2.0)
        add(1, [L.d1q5(("w", "1.1", "z"), ("q**2/rho + rho/3", "0.7*q", "0.2*rho"))], {"w": few, "z": few, "v": [0.1]}, [(1.0, 0.2)], relvel=r)
    for r in (["0.2"], ["v"], ["rho/3"]):
        add(1, [L.d1q3s(("w", "z"), ("c*rho", "k*rho"))], {"w": few, "z": few, "c": [0.3], "k": [0.5], "v": [0.4]}, [(1.0,), (0.5,)], relvel=r)
    # 2D
    add(2, [L.d2q4(("w", "z", "y"), ("c*rho", "0.2*rho", "0"))], {"w": few, "z": few, "y": few, "c": [0.1]})
    add(2, [L.d2q4(("w", "w", "z"), ("c*rho", "b*rho", "(c + b)*rho**2"), vel=(3, 1, 4, 2))], {"w": few, "z": few, "c": [0.1], "b": [0.0, -0.2]}, [(0.0,), (0.2,)], la=2.0)
    add(2, [L.d2q5(("w", "w", "z", "z"))], {"w": few, "z": few, "c": [0.1]}, n=[6, 6])
    add(2, [L.d2q9(("w", "w", "1.3", "1.4", "z", "z"))], {"w": [1.2, 2.0], "z": [0.0, 1.5]}, [(1.0, 0.1, -0.05)])
    t2 = L.d2q5(("w", "z", "1.1", "0.4"), ("0.3*T + rho/9", "-0.1*T", "0.5*T", "0"), u="T")
    t2["eq"][1] = "0.3*T + rho/9"
    r2 = L.d2q4(("1.5", "z", "w"))
    r2["eq"][1] = "0.1*rho + T/10"
    add(2, [r2, t2], {"w": few, "z": [0.8]}, [(0.0, 0.0)])
    add(2, [L.d2q4(vel=(17, 19, 21, 23), eq=("c*rho", "0.2*rho", "0.1*rho"))], {"c": [0.1, 0.5]})
    for r in (["0.1", "-0.2"], ["qx/rho", "qy/rho"]):
        add(2, [L.d2q9(("w", "w", "z", "1.4", "1.5", "1.6"), nonlinear=False)], {"w": [1.2, 1.9], "z": [0.7]}, [(1.0, 0.1, -0.05)], relvel=r, n=[4, 4])
    # 3D
    add(3, [L.d3q6(("w", "z", "1.1", "1.9", "0.6"))], {"w": few, "z": [1.3], "c": [0.2]})
    add(3, [L.d3q7(("w", "w", "w", "z", "0.6", "1.3"))], {"w": few, "z": [1.3], "c": [0.2]}, n=[2, 2, 2])
    return out


def cases(tier):
    for v in sorted(variants(tier), key=lambda v: -v["desc"]["dim"] * len(v["combos"]) * len(v["states"]) - 100 * bool(v["desc"].get("relvel"))):
        yield v
    for deg in range(1, 6 if tier == "quick" else 8):
        for i in range(len(ROOTS)):
            yield dict(kind="poly", deg=deg, first=i)


# ---------------------------------------------------------------------------
def polynomials(case, ctx):
    from pylbm.analysis import stability as S

    i0 = case["first"]
    for rest in itertools.combinations_with_replacement(range(i0, len(ROOTS)), case["deg"] - 1):
        idx = (i0,) + rest
        if idx.count(4) > (2 if len(idx) < 4 else 1) or (len(idx) > 5 and max(idx.count(i) for i in range(1, 13)) > 2):
            continue  # too ill conditioned for a verdict in double precision
        r = np.array([ROOTS[i] for i in idx], complex)
        mod = np.abs(r)
        on = [i for i, m in zip(idx, mod) if abs(m - 1) < 1e-9]
        out = bool(np.any(mod > 1 + 1e-9))
        exp = (not out and not on, not out and len(set(on)) == len(on), not out)
        p = np.poly(r)[::-1].astype(complex)
        ctx.state("poly", idx)
        for scale in (1.0, -2.5j):
            q = [scale * c for c in p]
            got = tuple(bool(f(list(q))) for f in (S.is_S, S.is_svN, S.is_vN))
            ctx.step(3)
            for name, g, e in zip(("is_S", "is_svN", "is_vN"), got, exp):
                ctx.check(g == e, "%s answers %s for the polynomial with roots %s times %s" % (name, g, [complex(x) for x in r], scale))
        # the same question through a matrix with these eigenvalues
        n = len(r)
        G = np.diag(r) + np.triu(np.fromfunction(lambda a, b: 0.3 * np.cos(a + 2 * b), (n, n)), 1)
        got = tuple(bool(x) for x in S.algo_cohn_schur(G))
        ctx.step()
        ctx.check(got == exp[1:], "algo_cohn_schur answers %s for a matrix with eigenvalues %s" % (got, [complex(x) for x in r]))
        ctx.outcome(exp)
    ctx.trace()
    ctx.sample(case)


def values_of(d, combo):
    p = dict(d["params"])
    p.update(combo)
    for k, e in d.get("params_expr", {}).items():
        p[k] = ev(e, p)
    return p


def jacobian(ref, state):
    """derivative of the collision at the equilibrium of the uniform state"""
    m = np.zeros((ref.nv, 1))
    for c, v in zip(ref.consm, state):
        m[ref.consm[c], 0] = v
    f0 = ref.m2f(ref.equilibrium(m))
    J = np.zeros((ref.nv, ref.nv))
    h = 1e-4
    for j in range(ref.nv):
        e = np.zeros_like(f0)
        e[j] = 1
        # fourth order differences: exact up to the rounding for what is enumerated
        c = lambda k: ref.collide(f0 + k * h * e)[:, 0]
        J[:, j] = (8 * (c(1) - c(-1)) - (c(2) - c(-2))) / (12 * h)
    return f0[:, 0], J


def real_map(d, f0, nv):
    """amplification matrices of the real code, from the responses to impulses"""
    import pylbm

    sim = pylbm.Simulation(to_dico(d))
    shape = tuple(d["n"])
    K = np.zeros((nv, nv) + shape)
    h = 1e-4
    base = np.broadcast_to(f0.reshape((nv,) + (1,) * len(shape)), (nv,) + shape).copy()
    for j in range(nv):
        for w in ((1, 8), (-1, -8), (2, -1), (-2, 1)):
            f = base.copy()
            f[(j,) + (0,) * len(shape)] += w[0] * h
            set_F(sim, f)
            sim.one_time_step()
            K[:, j] += w[1] * get_F(sim, nv) / (12 * h)
    return np.fft.fftn(K, axes=tuple(range(2, 2 + len(shape))))


def same_spectrum(a, b, tol=2e-6):
    """same eigenvalues with their multiplicities, through the characteristic polynomial"""
    p, q = np.poly(a), np.poly(b)
    return np.max(np.abs(p - q)) <= tol * max(1.0, np.max(np.abs(q)))


def classify(mats):
    """what the verdict on stability may be for these amplification matrices"""
    worst = set()
    for G in mats:
        lam = np.linalg.eigvals(G)
        mod = np.abs(lam)
        if np.max(mod) > 1 + 1e-5:
            return {2}
        if np.max(mod) > 1 + 1e-8:
            # a multiple eigenvalue on the circle splits in the computation
            worst.add("?")
        unit = lam[mod > 1 - 1e-5]
        for i in range(len(unit)):
            for j in range(i):
                if abs(unit[i] - unit[j]) < 1e-2:
                    worst.add("multiple")
        if np.any((mod > 1 - 1e-3) & (mod < 1 - 1e-8)) and "multiple" not in worst:
            worst.add("?")
    if "multiple" in worst:
        # the powers tell whether the multiplicity does harm
        bounded = True
        for G in mats:
            P = np.linalg.matrix_power(G, 4096)
            if np.max(np.abs(P)) > 200:
                bounded = False
        if bounded:
            return {0, 1}
        return {1, 2} if "?" in worst else {1}
    if "?" in worst:
        return {0, 1, 2}
    return {0}


def check_report(txt, verdict, mats, v_xi, ctx, who):
    """what is printed: the verdict and the wave vectors concerned"""
    import re

    words = {0: "scheme is stable", 1: "may be stable", 2: "not stable"}
    said = [k for k, w in words.items() if w in txt]
    if not ctx.check(said == [verdict], lambda: "%s: the verdict is %d, the report says %s" % (who, verdict, [words[k] for k in said])):
        return
    if verdict:
        tail = txt[txt.index(words[verdict]) :].split("*" * 20)[0]
        listed = [[float(x) for x in re.findall(r"[-+\d.e]+", row)] for row in re.findall(r"\[([^\[\]]+)\]", tail)]
        idx = []
        for row in listed:
            d = np.abs(np.asarray(v_xi).T - np.asarray(row)[None, :]).max(axis=1) if len(row) == len(v_xi) else np.array([1.0])
            if not ctx.check(d.min() < 1e-6, lambda: "%s: wave vector %s printed, not one of those of the analysis" % (who, row)):
                return
            idx.append(int(d.argmin()))
        rad = [np.max(np.abs(np.linalg.eigvals(G))) for G in mats]
        for k, r in enumerate(rad):
            if r > 1 + 1e-5:
                ctx.check(k in idx, lambda: "%s: wave vector %s, spectral radius %g, is not among those printed" % (who, v_xi[:, k], r))
            elif r < 1 - 1e-3:
                ctx.check(k not in idx, lambda: "%s: wave vector %s, spectral radius %g, is printed as a problem" % (who, v_xi[:, k], r))


def schemes_(case, ctx):
    import pylbm
    import sympy as sp
    from pylbm.analysis import stability as S

    d0 = case["desc"]
    dim, n = d0["dim"], d0["n"]
    nw = int(np.prod(n))
    dico = to_dico(d0)
    for k, e in d0.get("params_expr", {}).items():
        dico["parameters"][sp.Symbol(k)] = sp.sympify(e)
    scheme = pylbm.Scheme(dico)
    stab = S.Stability(scheme)
    order = [str(c) for c in scheme.consm]
    sign = None
    for ic, combo in enumerate(case["combos"]):
        vals = values_of(d0, combo)
        ref = Ref(dict(d0, params=vals))
        extra = {sp.Symbol(k): v for k, v in combo.items()}
        for ist, state in enumerate(case["states"]):
            f0, J = jacobian(ref, state)
            cons = [dict(zip(ref.consm, state))[c] for c in order]
            v_xi, eigs = stab.eigenvalues(cons, nw, extra)
            verdict = stab.is_stable_l2
            ctx.step()
            who = "parameters %s state %s" % (combo, state)
            if ic == 0 and ist == 0:
                full = dict(d0, params=vals)
                # the same values given in the description
                s2 = S.Stability(pylbm.Scheme(to_dico(full)))
                x2, e2 = s2.eigenvalues(cons, nw)
                verb = S.Stability(scheme, verbose=True)
                ctx.check(np.allclose(x2, v_xi) and s2.is_stable_l2 == verdict and all(same_spectrum(a, b) for a, b in zip(e2, eigs)), "parameters in the description or given later: different results, " + who)
                # model against code: the matrices of the reference are those of a run
                real = real_map(full, f0, ref.nv)
                for k in np.ndindex(*n):
                    xi = 2 * np.pi * np.array(k) / np.array(n)
                    G = np.exp(-1j * (np.array(ref.vel) @ xi))[:, None] * J
                    R = real[(slice(None), slice(None)) + k]
                    # stream then collide: the matrix of the run is similar to G
                    ctx.check(np.max(np.abs(R - J * np.exp(-1j * (np.array(ref.vel) @ xi))[None, :])) < 1e-6, "the run differs from the reference at wave vector %s, %s" % (k, who))
                ctx.trace()
            # the wave vectors are those of the periodic grid
            got = sorted(tuple(int(v) for v in np.round(x * n[0] / (2 * np.pi))) for x in np.asarray(v_xi).T)
            if not ctx.check(
                np.shape(v_xi) == (dim, nw) and np.allclose(v_xi * n[0] / (2 * np.pi), np.round(v_xi * n[0] / (2 * np.pi))) and got == sorted(np.ndindex(*n)),
                "wave vectors %s instead of all those of the grid %s" % (got, n),
            ):
                return
            mats, oks = [], {1: True, -1: True}
            first = None
            for k in range(nw):
                G = np.exp(-1j * (np.array(ref.vel) @ v_xi[:, k]))[:, None] * J
                mats.append(G)
                lam = np.linalg.eigvals(G)
                ctx.state(np.round(np.poly(lam), 6).real, np.round(np.poly(lam), 6).imag)
                for sg, l in ((1, lam), (-1, np.conj(lam))):
                    if not same_spectrum(eigs[k], l):
                        oks[sg] = False
                        first = first or (k, sorted(np.abs(eigs[k])), sorted(np.abs(lam)))
            ok = {s for s in (1, -1) if oks[s]}
            ctx.check(ok, lambda: "%s: eigenvalues of wave vector %s have moduli %s, those of the one-step map %s" % ((who,) + ((v_xi[:, first[0]],) + first[1:] if first else ("?",) * 3)))
            if ok and len(ok) == 1:
                s = ok.pop()
                ctx.check(sign in (None, s), "the sign of the wave vector changes")
                sign = s
            if ist == 0 and ic < 12:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    x3, e3 = verb.eigenvalues(cons, nw, extra)
                ctx.check(np.array_equal(x3, v_xi) and np.allclose(e3, eigs) and verb.is_stable_l2 == verdict, "%s: with a report, different results" % who)
                check_report(buf.getvalue(), verdict, mats, v_xi, ctx, who)
            exp = classify(mats)
            ctx.outcome(sorted(exp), verdict)
            ctx.check(verdict in exp, lambda: "%s: verdict %s, expected %s; largest modulus %.12g" % (who, verdict, sorted(exp), max(np.max(np.abs(np.linalg.eigvals(G))) for G in mats)))
    ctx.sample({k: case[k] for k in ("kind", "desc")})


def run_case(case, ctx):
    (polynomials if case["kind"] == "poly" else schemes_)(case, ctx)
