"""S01: the order in which moments are listed is irrelevant"""
import itertools

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico

RULE = "one case = one ordering (polynomials with their equilibria and rates, conserved list) of one scheme; 3 steps from the init and from a dense and a unit state, all moments read by name"
ASSUMPTIONS = ["moment matrices are invertible", "double precision, tolerance 1e-9"]
CASE_TIMEOUT = 300


def bounds(tier):
    return "all row permutations x all conserved lists orders for 3 to 5 moments; D2Q9: all transpositions and rotations x all conserved orders; two schemes: all orders of each, equilibria by moments or by distributions (functions of the velocities) in any of them, 1D and 2D; moments given by their matrix"


def permuted(s, perm, cons):
    out = dict(s)
    out["poly"] = [s["poly"][i] for i in perm]
    out["eq"] = [s["eq"][i] for i in perm]
    out["s"] = [s["s"][i] for i in perm]
    out["consm"] = list(cons)
    return out


def base_schemes():
    q3 = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, 0, "1.4"], ["rho", "q", "0.4*rho + 0.2*q"], ["rho", "q"])
    q3c = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, "0.8", 0], ["rho", "0.3*rho - 0.2*E", "E"], ["rho", "E"])
    q33 = L.sch([0, 1, 2], ["1", "LA*X", "X**2/2"], [0, 0, 0], ["rho", "q", "E"], ["rho", "q", "E"])
    q31 = L.sch([1, 0, 2], ["1 + X", "X", "X**2"], ["0.7", "1.3", 0], ["0.2*E", "-0.1*E", "E"], ["E"])
    q5 = L.sch([0, 1, 2, 3, 4], ["1", "X", "X**2", "X**3", "X**4"], [0, "1.2", 0, "1.7", "0.6"],
               ["rho", "0.2*rho + 0.1*E", "E", "0.3*E", "0.7*E"], ["rho", "E"])
    d2 = L.sch([0, 1, 2, 3, 4], ["1", "X", "Y", "X**2 + Y**2", "X**2 - Y**2"], [0, 0, 0, "1.2", "0.7"],
               ["rho", "qx", "qy", "0.6*rho + 0.1*qx", "0.1*qy + 0.05*qx"], ["rho", "qx", "qy"])
    d24 = L.sch([1, 2, 3, 4], ["1", "X", "Y", "X**2 - Y**2"], ["0", 0, "1.3", "0.4"],
                ["rho", "qx", "0.2*rho", "0.1*qx"], ["rho", "qx"])
    return {"q3": (1, q3), "q3c": (1, q3c), "q33": (1, q33), "q31": (1, q31), "q5": (1, q5), "d2": (2, d2), "d24": (2, d24)}


def cases(tier):
    th = tier == "thorough"
    for name, (dim, s) in base_schemes().items():
        n = len(s["poly"])
        perms = list(itertools.permutations(range(n)))
        if name == "d2" and not th:
            # every placement of the three conserved rows, the other rows in both orders
            perms = [p for p in perms if True]
        for perm in perms:
            for cons in itertools.permutations(s["consm"]):
                yield {"kind": "one", "base": name, "perm": list(perm), "cons": list(cons)}
    # two schemes: all orders of each
    for p1 in itertools.permutations(range(3)):
        for p2 in itertools.permutations(range(2)):
            for first in (0, 1):
                for cons in ([0, 1], [1, 0]):
                    yield {"kind": "two", "p1": list(p1), "p2": list(p2), "first": first, "cons": cons}
    # source terms follow the moment, not its position
    for p1 in itertools.permutations(range(3)):
        for cons in itertools.permutations(("rho", "q")):
            for tgt in ("rho", "q"):
                yield {"kind": "src", "perm": list(p1), "cons": list(cons), "tgt": tgt}
    # D2Q9
    n = 9
    perms = [list(range(n))]
    for i in range(n):
        for j in range(i):
            p = list(range(n))
            p[i], p[j] = p[j], p[i]
            perms.append(p)
    for r in range(1, n):
        perms.append(list(range(r, n)) + list(range(r)))
    perms.append(list(range(n))[::-1])
    for k, p in enumerate(perms):
        for c, cons in enumerate(itertools.permutations(("rho", "qx", "qy"))):
            if th or k % 6 == c or k == 0:
                yield {"kind": "d2q9", "perm": p, "cons": list(cons)}
    # moments given by their matrix
    for name in ("q3", "q3c", "q33", "q31", "d24") + (("q5", "d2") if th else ()):
        dim, s = base_schemes()[name]
        for n, perm in enumerate(itertools.permutations(range(len(s["poly"])))):
            for cons in itertools.permutations(s["consm"]):
                for how in ("symbol", "number"):
                    if th or len(perm) < 4 or (n + (how == "symbol")) % 2:
                        yield {"kind": "one", "base": name, "perm": list(perm), "cons": list(cons), "M": how}
    # equilibrium given by distributions
    for p1 in itertools.permutations(range(3)):
        for cons in itertools.permutations(("rho", "q")):
            yield {"kind": "feq", "perm": list(p1), "cons": list(cons)}
    # two schemes, equilibria given by distributions in one of them or in both
    for by in ([0], [1], [0, 1]):
        for p1 in itertools.permutations(range(3)):
            for p2 in itertools.permutations(range(2)):
                for first in (0, 1):
                    for cons in ([0, 1], [1, 0]):
                        if th or cons == [0, 1] or first == 0:
                            yield {"kind": "two", "p1": list(p1), "p2": list(p2), "first": first, "cons": cons, "feq": by}
    for by in ([0], [1], [0, 1]):
        for p2 in itertools.permutations(range(4)):
            for first in (0, 1):
                if th or list(p2)[0] in (0, 3):
                    yield {"kind": "two2d", "p2": list(p2), "first": first, "feq": by}


def make(case):
    k = case["kind"]
    if k == "one":
        dim, s = base_schemes()[case["base"]]
        return L.desc(dim, [4] if dim == 1 else [3, 2], [permuted(s, case["perm"], case["cons"])], la=2.0 if case["base"] == "q33" else 1.0)
    if k == "two":
        a = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, 0, "1.4"], ["rho", "q", "0.4*rho + 0.2*q + 0.1*T"], ["rho", "q"])
        b = L.sch([1, 2], ["1", "X"], [0, "0.9"], ["T", "0.3*T - 0.2*q"], ["T"])
        a = permuted(a, case["p1"], [["rho", "q"][i] for i in case["cons"]])
        b = permuted(b, case["p2"], ["T"])
        return L.desc(1, [4], [a, b] if case["first"] == 0 else [b, a])
    if k == "two2d":
        a = base_schemes()["d2"][1]
        b = L.d2q4(eq=("0.3*T", "0.2*rho", "0.1*T"))
        b["eq"][0], b["consm"] = "T", ["T"]
        b = permuted(b, case["p2"], ["T"])
        return L.desc(2, [3, 2], [a, b] if case["first"] == 0 else [b, a], la=2.0)
    if k == "src":
        a = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, 0, "1.4"], ["rho", "q", "0.4*rho + 0.2*q"], ["rho", "q"])
        a = permuted(a, case["perm"], case["cons"])
        a["source"] = {case["tgt"]: "c*rho + 0.5*q" if case["tgt"] == "rho" else "0.3 - c*rho"}
        return L.desc(1, [4], [a])
    if k == "d2q9":
        return L.desc(2, [3, 2], [permuted(L.d2q9(nonlinear=False), case["perm"], case["cons"])])
    if k == "feq":
        a = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, 0, "1.4"], ["rho", "q", "0.4*rho + 0.2*q"], ["rho", "q"])
        return L.desc(1, [4], [permuted(a, case["perm"], case["cons"])], la=2.0)


def _feq(v, rho, q, la):
    """distributions whose moments are (rho, q, 0.4 rho + 0.2 q), velocities 0, 1, -1"""
    import sympy as sp

    e = (sp.Rational(2, 5) * rho + sp.Rational(1, 5) * q) / la**2
    return sp.Matrix([rho - e, (e + q / la) / 2, (e - q / la) / 2])


def _by_distributions(s, la):
    """the function of the velocities equivalent to the equilibrium of s, and its arguments (la: symbol of the scheme velocity)"""
    import sympy as sp

    names = sorted(set().union(*(sp.sympify(e).free_symbols for e in s["eq"])), key=str)
    xyz = sp.symbols("X Y Z")

    def feq(v, *args):
        vel = [[sp.Integer(int(c)) * la for c in np.atleast_1d(vi)] for vi in v]
        M = sp.Matrix([[sp.sympify(p).subs(sp.Symbol("LA"), la).subs(dict(zip(xyz, vi))) for vi in vel] for p in s["poly"]])
        meq = sp.Matrix([sp.nsimplify(sp.sympify(e)).subs(dict(zip(names, args)), simultaneous=True) for e in s["eq"]])
        return M.inv() * meq

    return [feq, tuple(names)]


def run_case(case, ctx):
    import pylbm
    import sympy as sp

    d = make(case)
    ref = Ref(d)
    nv, shape = ref.nv, ref.n
    init = {c: (0.5 + 0.25 * i, 0.125 * (i + 1)) for i, c in enumerate(sorted(ref.consm))}

    def fun(ab):
        return lambda *x: ab[0] + ab[1] * np.cos(sum((1 + j) * xx for j, xx in enumerate(x)))

    dd = dict(d, init={c: fun(ab) for c, ab in init.items()})
    dico = to_dico(dd)
    if case["kind"] == "feq":
        sc = dico["schemes"][0]
        del sc["equilibrium"]
        sc["feq"] = (_feq, (sp.Symbol("rho"), sp.Symbol("q"), sp.Symbol("LA")))
    for i in case.get("feq", ()):
        del dico["schemes"][i]["equilibrium"]
        dico["schemes"][i]["feq"] = _by_distributions(d["schemes"][i], sp.Symbol("LA"))
    if case.get("M"):
        sc = dico["schemes"][0]
        polys = sc.pop("polynomials")
        LA = sp.Symbol("LA")
        vel = [[int(c) * LA for c in v] for v in ref.vel]
        M = sp.Matrix([[sp.sympify(p).subs(dict(zip(sp.symbols("X Y Z"), v))) for v in vel] for p in polys])
        sc["M"] = M if case["M"] == "symbol" else M.subs(LA, sp.nsimplify(d["la"]))
    sim = pylbm.Simulation(dico)
    ctx.sample(case)
    sch = sim.scheme
    prod = np.array((sch.M * sch.invM).subs(sch.param.items()).tolist(), dtype=float)
    ctx.check(close(prod, np.eye(nv), 1e-10), lambda: "M invM is not the identity: %s" % maxdiff(prod, np.eye(nv)))
    ctx.check(sorted(str(c) for c in sch.consm) == sorted(ref.consm), "conserved moments %s" % list(sch.consm))

    def read(f, what):
        got = get_F(sim, nv)
        ctx.state(got)
        ok = ctx.check(close(got, f), lambda: "%s: distributions %s" % (what, maxdiff(got, f)))
        mm = ref.f2m(f)
        for c, i in ref.consm.items():
            g = np.array(sim.m[sp.Symbol(c)])
            ctx.outcome(c, g)
            ok = ctx.check(close(g, mm[i]), lambda: "%s: moment %s %s" % (what, c, maxdiff(g, mm[i]))) and ok
        return ok

    grid = np.meshgrid(*ref.coords, indexing="ij")
    m = np.zeros((nv,) + tuple(shape))
    for c, ab in init.items():
        m[ref.consm[c]] = fun(ab)(*grid)
    f = ref.m2f(ref.equilibrium(m))
    if not read(f, "initial state"):
        return
    starts = [None]
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    starts.append((np.cos(3.7 * g + 0.3) * 0.3 + 0.5).reshape((nv,) + tuple(shape)))
    unit = np.zeros((nv,) + tuple(shape))
    unit[(1,) + (0,) * len(shape)] = 1.0
    starts.append(unit)
    for k, f0 in enumerate(starts):
        if f0 is not None:
            set_F(sim, f0)
            f = f0
        for it in range(3):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            if not read(f, "start %d step %d" % (k, it + 1)):
                return
    ctx.trace()
