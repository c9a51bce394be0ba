"""S02: one time step = stream, moments, relax each, back; counters; composition"""
import itertools

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico

RULE = "one case = one description; initial states = full basis of interior distributions (linear) or all states of a value alphabet (nonlinear)"
ASSUMPTIONS = ["box at least as wide as the longest velocity in each direction", "double precision, tolerance 1e-9"]
CASE_TIMEOUT = 400


def bounds(tier):
    return "1D-3D schemes up to 19 velocities, velocities up to 4 cells, grids up to 60 cells, 2 steps from every basis state, 8 from the init; both algorithms, fused and split loops, several scheme velocities and storage orders"


def linear(d):
    return not any("q**2" in e or "rho*q" in e or "qx*" in e or "q*rho" in e or "qx**" in e for s in d["schemes"] for e in s["eq"])


def relaxed(sch, rate):
    """the conserved moments have a relaxation parameter too (they are at their equilibrium: no effect)"""
    return dict(sch, s=[rate if s == "0" and e in sch["consm"] else s for s, e in zip(sch["s"], sch["eq"])])


def descs(tier):
    th = tier == "thorough"
    rates = ["0", "1", "2", "0.7", "4/3"]
    # -- 1D: all relaxation rates ------------------------------------------------
    for s in rates + ["w"]:
        yield L.desc(1, [5], [L.d1q2(s)], params={"c": 0.35, "w": 1.25})
    for a, b in itertools.product(rates, repeat=2):
        yield L.desc(1, [4], [L.d1q3s((a, b))], la=2.0)
    for s in rates:
        yield L.desc(1, [4], [L.d1q3((s,))], la=1.0)
    for t in itertools.product(["0", "1", "1.7"], repeat=3):
        yield L.desc(1, [4], [L.d1q5(t)], la=1.0)
    # -- 1D: box sizes, space steps and velocities -------------------------------
    for n in (1, 2, 3, 7):
        for dx in (0.5, 0.1, 1.0):
            for la in (1.0, 3.0, 0.5):
                yield L.desc(1, [n], [L.d1q3s()], dx=dx, la=la, la_symbol=(n != 2))
    # -- 1D: velocity sets, order of velocities ----------------------------------
    for vel in itertools.permutations((0, 1, 2)):
        yield L.desc(1, [4], [L.d1q3(vel=vel)])
    for vel in [(0, 3, 4), (3, 4, 0), (0, 1, 4), (0, 3, 2), (1, 2, 3), (2, 4, 0), (0, 5, 6), (0, 1, 3), (0, 2, 4), (7, 8, 0), (1, 4, 5)]:
        yield L.desc(1, [6], [L.d1q3s(vel=vel)])
    for vel in [(1, 2), (2, 1), (0, 1), (0, 2), (1, 0), (2, 0), (1, 3), (2, 4), (3, 4), (4, 3), (1, 4), (5, 6)]:
        yield L.desc(1, [5], [L.d1q2(vel=vel)])
    for vel in [(0, 2, 1, 4, 3), (4, 3, 2, 1, 0), (0, 1, 2, 5, 6), (0, 5, 6, 7, 8)]:
        yield L.desc(1, [6], [L.d1q5(vel=vel)], la=0.5)
    # -- 1D: several schemes ------------------------------------------------------
    a = L.d1q2("1.3", "0.2*rho + 0.1*T")
    b = L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")
    b["eq"][1] = "0.3*T - 0.05*rho"
    yield L.desc(1, [5], [a, b])
    yield L.desc(1, [5], [b, a])
    c = L.d1q2("1.6", "0.25*S + 0.1*T - 0.2*rho", u="S")
    yield L.desc(1, [4], [a, b, c])
    yield L.desc(1, [4], [c, b, a])
    b2 = L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T", vel=(0, 3, 4))
    yield L.desc(1, [5], [a, b2])
    # -- 2D ------------------------------------------------------------------------
    for vel in itertools.permutations((1, 2, 3, 4)):
        yield L.desc(2, [3, 2], [L.d2q4(vel=vel)])
    for n in ([1, 1], [1, 3], [3, 1], [2, 4], [4, 3]):
        yield L.desc(2, n, [L.d2q5()], la=2.0)
    for s in itertools.product(["0", "1.4"], repeat=4):
        yield L.desc(2, [2, 3], [L.d2q5(s)])
    yield L.desc(2, [3, 4], [L.d2q9()])
    yield L.desc(2, [4, 3], [L.d2q9(nonlinear=False)])
    yield L.desc(2, [3, 3], [L.d2q9(nonlinear=False, vel=(8, 3, 0, 5, 1, 7, 2, 6, 4))])
    yield L.desc(2, [3, 4], [L.d2q9(("0", "1", "2", "0.5", "w", "w"), nonlinear=False)], params={"w": 1.21}, la=2.0)
    yield L.desc(2, [4, 3], [L.d2q5(vel=(0, 9, 10, 11, 12))])
    yield L.desc(2, [4, 4], [L.d2q4(vel=(17, 19, 21, 23), eq=("c*rho", "0.2*rho", "0.1*rho"))])
    yield L.desc(2, [4, 3], [L.d2q4(vel=(0, 1, 2, 4), eq=("c*rho", "0.2*rho", "0.1*rho"))])
    yield L.desc(2, [4, 3], [L.d2q4(vel=(0, 3, 4, 2), eq=("c*rho", "0.2*rho", "0.1*rho"))])
    # no velocity in one direction: no halo there
    for vel, x in (((0, 1, 3), "X"), ((0, 2, 4), "Y"), ((3, 0, 1), "X"), ((4, 2, 0), "Y")):
        yield L.desc(2, [4, 3], [L.sch(vel, ["1", x, x + "**2"], ["0", "1.2", "1.7"], ["rho", "c*rho", "0.4*rho"], ["rho"])])
    yield L.desc(3, [2, 3, 2], [L.sch((0, 1, 2, 4, 5), ["1", "X", "Y", "X**2", "Y**2"], ["0", "1.2", "1.7", "0.3", "1.1"], ["rho", "c*rho", "0.2*rho", "0.4*rho", "0.3*rho"], ["rho"])])
    t2 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    r2 = L.d2q4()
    r2["eq"][1] = "c*rho + 0.1*T"
    yield L.desc(2, [3, 3], [r2, t2])
    yield L.desc(2, [3, 3], [t2, r2])
    yield L.desc(2, [3, 3], [L.d2q9(nonlinear=False), t2])
    for rate in ("1", "1.3", "2", "w"):
        w = {"params": {"w": 1.21, "c": 0.35}}
        yield L.desc(1, [5], [relaxed(a, rate), b], **w)
        yield L.desc(1, [5], [b, relaxed(c, rate), relaxed(a, "0.7")], **w)
        yield L.desc(1, [4], [relaxed(L.d1q3(), rate)], **w)
        yield L.desc(2, [3, 3], [relaxed(r2, "0.6"), relaxed(t2, rate)], **w)
        yield L.desc(2, [3, 3], [relaxed(L.d2q9(nonlinear=False), rate)], **w)
        yield L.desc(3, [2, 2, 2], [relaxed(L.d3q7(), rate)], **w)
    # -- 3D ------------------------------------------------------------------------
    for n in ([1, 1, 1], [2, 3, 1], [3, 2, 2], [1, 2, 3]):
        yield L.desc(3, n, [L.d3q6()])
    yield L.desc(3, [2, 3, 4], [L.d3q7()], la=2.0)
    yield L.desc(3, [2, 3, 2], [L.d3q7(vel=(6, 2, 4, 0, 1, 5, 3))])
    yield L.desc(3, [2, 2, 3], [L.d3q19()])
    # velocities which do not reach as far in every direction
    for r in ((2, 1), (1, 2), (1, 3), (3, 1), (0, 2), (2, 0)):
        yield L.desc(2, [4, 3], [L.wide(r)])
    for r in itertools.product((0, 1, 2), repeat=3):
        if max(r) == 2 and len(set(r)) > 1:
            yield L.desc(3, [2, 3, 2] if r[0] % 2 else [3, 2, 2], [L.wide(r)])
    for r in ((3, 1, 2), (1, 2, 3), (1, 3, 1)):
        yield L.desc(3, [3, 3, 3], [L.wide(r)])
    yield L.desc(3, [2, 3, 3], [L.wide((1, 2, 1)), L.wide((0, 1, 2), "T")])
    if th:
        yield L.desc(3, [3, 3, 3], [L.d3q19(True)])
        for vel in itertools.permutations((0, 1, 2, 3, 4)):
            yield L.desc(2, [3, 4], [L.d2q5(vel=vel)])
        for vel in itertools.permutations((0, 1, 2, 3, 4)):
            yield L.desc(1, [5], [L.d1q5(vel=vel)])
        for t in itertools.product(rates, repeat=3):
            yield L.desc(1, [7], [L.d1q5(t)], la=3.0)
        for s in itertools.product(rates, repeat=4):
            yield L.desc(2, [2, 3], [L.d2q5(s)])
        for n in itertools.product((1, 2, 3, 4), repeat=3):
            yield L.desc(3, n, [L.d3q6()])
        for n in itertools.product((1, 2, 3, 5), repeat=2):
            yield L.desc(2, n, [L.d2q9()])
        for a in range(1, 25):
            for b in range(a + 1, 25):
                yield L.desc(2, [4, 4], [L.sch((a, b), ["1", "2*X + 5*Y + X*Y + X**2 + 7*Y**2"], ["0", "1.3"], ["rho", "0.3*rho"], ["rho"])]) 


def degenerate(d):
    try:
        r = Ref(d)
        return np.linalg.cond(r.M) > 1e6
    except np.linalg.LinAlgError:
        return True


def described(tier):
    ds = list(descs(tier))
    # costly descriptions first
    ds.sort(key=lambda d: -np.prod(d["n"]) * sum(len(s["vel"]) for s in d["schemes"]) ** 2)
    for d in ds:
        if degenerate(d):
            continue
        yield d


def initial_states(ref, d, nv, shape):
    if linear(d):
        for k in range(nv):
            for idx in np.ndindex(*shape):
                f = np.zeros((nv,) + tuple(shape))
                f[(k,) + idx] = 1.0
                yield f
    else:
        cons = list(ref.consm.values())
        vals = [0.5, 1.25]
        ncell = int(np.prod(shape))
        free = min(10, ncell * len(cons))
        for bits in itertools.product(vals, repeat=free):
            m = np.full((nv, ncell), 0.75)
            for j, b in enumerate(bits):
                m[cons[j % len(cons)], j // len(cons)] = b
            m = m.reshape((nv,) + tuple(shape))
            yield ref.m2f(m)
    # one dense state: no symmetric cancellation
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    yield (np.cos(3.7 * g + 0.3) * 0.3 + 0.5).reshape((nv,) + tuple(shape))


def cases(tier):
    yield from L.algorithms(described(tier), 1 if tier == "thorough" else 2)


def run_case(d, ctx):
    import pylbm

    ref = Ref(d)
    nv, shape = ref.nv, ref.n
    coef = {c: (0.3 + 0.2 * i, 0.17 * (i + 1)) for i, c in enumerate(ref.consm)}

    def initfun(a, b):
        def fn(*x):
            return a + b * np.cos(sum((1 + j) * xx for j, xx in enumerate(x)))

        return fn

    d0 = dict(d)
    d0["init"] = {c: initfun(*ab) for c, ab in coef.items()}
    sim = pylbm.Simulation(to_dico(d0), sorder=d.get("sorder"))
    ctx.sample(d)
    # run from the initialisation: counters and n-fold composition
    grid = np.meshgrid(*ref.coords, indexing="ij")
    m = np.zeros((nv,) + tuple(shape))
    for c, ab in coef.items():
        m[ref.consm[c]] = initfun(*ab)(*grid)
    f = ref.m2f(ref.equilibrium(m))
    ctx.check(abs(sim.dt - ref.dt) < 1e-14 and sim.t == 0 and sim.nt == 0, "initial counters dt=%s t=%s nt=%s" % (sim.dt, sim.t, sim.nt))
    for it in range(9):
        got = get_F(sim, nv)
        ctx.state(got)
        if not ctx.check(close(got, f), lambda: "distributions after %d steps from the initial data: %s" % (it, maxdiff(got, f))):
            return
        mm = ref.f2m(f)
        for c, i in ref.consm.items():
            import sympy as sp

            g = np.array(sim.m[sp.Symbol(c)])
            ctx.check(close(g, mm[i]), lambda: "moment %s after %d steps: %s" % (c, it, maxdiff(g, mm[i])))
        if it == 8 or np.max(np.abs(f)) > 30:  # a numerically unstable run proves nothing further
            break
        sim.one_time_step()
        f = ref.step(f)
        ctx.step()
        ctx.check(sim.nt == ref.nt and abs(sim.t - ref.t) < 1e-12, "after %d steps nt=%s t=%s, expected %s %s" % (it + 1, sim.nt, sim.t, ref.nt, ref.t))
    ctx.trace()
    # every basis state
    for f0 in initial_states(ref, d, nv, shape):
        set_F(sim, f0)
        f = f0
        for it in range(2):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            got = get_F(sim, nv)
            ctx.state(got)
            ctx.outcome(got)
            if not ctx.check(close(got, f), lambda: "from basis state at step %d: %s, start=%s" % (it + 1, maxdiff(got, f), np.argwhere(f0).tolist()[:1])):
                return
        ctx.trace()
