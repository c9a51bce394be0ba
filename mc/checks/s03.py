"""S03: conservation of the conserved moments, of the mass in closed boxes; translation invariance"""
import itertools

import numpy as np

from .. import schemes as L
from ..bref import normalise, to_bdico
from ..ref import Ref, close, get_F, maxdiff, set_F
from .b01 import OBST2, OBST3, el
from .s02 import descs as s02_descs, degenerate

RULE = "one case = one description; complete basis of interior states (3 steps each) and dense states; all translations of the box"
ASSUMPTIONS = ["conserved moments have a zero relaxation rate", "obstacles do not touch periodic edges", "tolerance 1e-9"]
CASE_TIMEOUT = 300


def bounds(tier):
    return "family of S02 plus relative velocities; closed boxes 1D-3D with 0, 1 or 2 obstacles of 10 shapes, bounce back on every label; all shifts of the periodic directions; both algorithms, fused and split loops, several scheme velocities and storage orders"


def described(tier):
    th = tier == "thorough"
    seen = 0
    for d in s02_descs(tier):
        if degenerate(d):
            continue
        # the whole 1D family shares its shapes: one in three suffices there in quick
        seen += 1
        if not th and d["dim"] == 1 and seen % 3:
            continue
        yield dict(d, kind="periodic")
    for rv in (["0.1"], ["q/rho"], ["0.3*q"]):
        yield dict(L.desc(1, [4], [L.d1q3(("1.3",), "0.4*rho + 0.1*q")]), kind="periodic", relvel=rv)
    for rv in (["0.1", "-0.05"], ["qx/rho", "qy/rho"]):
        yield dict(L.desc(2, [3, 3], [L.d2q9(nonlinear=False)]), kind="periodic", relvel=rv)
    # closed boxes
    bb = lambda n, *labs: {l: {"method": ["bb"] * n} for l in labs}
    for s in (L.d1q2("1.3", "0.2*rho"), L.d1q3(("1.4",), "0.5*rho + 0.2*q"), L.d1q5(), L.d1q3(), L.d1q2("1.3", "0.2*rho", vel=(3, 4)), L.d1q5(vel=(0, 5, 6, 1, 2))):
        for n in (3, 4, 6):
            for lb in ([0, 0], [0, 1]):
                yield dict(L.desc(1, [n], [s], label=lb, bc=bb(1, *set(lb))), kind="closed")
    q9, q9n, q5, q4 = L.d2q9(nonlinear=False), L.d2q9(), L.d2q5(), L.d2q4()
    long = L.sch((0, 9, 10, 11, 12, 1, 2, 3, 4), ["1", "X", "Y", "X**2", "Y**2", "X**3", "Y**3", "X**4", "Y**4"], q9["s"], q9["eq"], q9["consm"])
    for s in (q9, q9n, q5, q4, long):
        for n in ([3, 2], [4, 3], [2, 5]):
            for lb in ([0] * 4, [0, 1, 2, 3], [-1, -1, 0, 1], [0, 1, -1, -1]):
                yield dict(L.desc(2, n, [s], label=lb, bc=bb(1, *(set(lb) - {-1}))), kind="closed")
        for e in OBST2:
            for lb in ([0, 1, 0, 1], [-1, -1, 0, 0], [0, 1, -1, -1]):
                if s is long and -1 in lb:  # two cells from a periodic edge
                    continue
                yield dict(L.desc(2, [6, 5], [s], label=lb, elems=[e], bc=bb(1, 0, 1, 5, 6)), kind="closed")
        e2 = [el("circle", [[0.55, -0.05], 0.2], 5), el("circle", [[1.6, 0.4], 0.27], 6)]
        yield dict(L.desc(2, [8, 6], [s], label=[0] * 4, elems=e2, bc=bb(1, 0, 5, 6)), kind="closed")
        e3 = [el("circle", [[0.75, 0.0], 0.3], 5), el("parallelogram", [[0.6, -0.2], [0.45, 0.13], [-0.1, 0.47]], 6)]
        yield dict(L.desc(2, [7, 6], [s], label=[0] * 4, elems=e3, bc=bb(1, 0, 5, 6)), kind="closed")
    t2 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    yield dict(L.desc(2, [4, 3], [q4, t2], label=[0, 0, 1, 1], bc=bb(2, 0, 1)), kind="closed")
    yield dict(L.desc(2, [6, 5], [t2, q9], label=[0, 0, 1, 1], elems=[OBST2[3]], bc=bb(2, 0, 1, 5, 6)), kind="closed")
    for s in (L.d3q6(), L.d3q7()):
        for lb in ([0] * 6, [0, 1, 2, 3, 4, 5], [-1, -1, 0, 0, 1, 1], [0, 0, -1, -1, 1, 1]):
            yield dict(L.desc(3, [3, 2, 3], [s], label=lb, bc=bb(1, *(set(lb) - {-1}))), kind="closed")
        for e in OBST3:
            yield dict(L.desc(3, [5, 4, 4], [s], label=[0] * 6, elems=[e], bc=bb(1, 0, 5, 6)), kind="closed", basis="few")
    for lb in ([0] * 6, [-1, -1, 0, 1, 2, 3]):
        yield dict(L.desc(3, [3, 2, 2], [L.d3q19()], label=lb, bc=bb(1, *(set(lb) - {-1}))), kind="closed", basis="few")
    for r in itertools.permutations((2, 1, 1)):
        yield dict(L.desc(3, [3, 2, 3], [L.wide(r)], label=[0, 1, 0, 1, 2, 2], bc=bb(1, 0, 1, 2)), kind="closed", basis="few")
        yield dict(L.desc(3, [3, 2, 3], [L.wide(r)], label=[0, 1, -1, -1, 2, 2], bc=bb(1, 0, 1, 2)), kind="closed", basis="few")
    # translation invariance with walls
    for s in (q9, q5):
        for m in ("bb", "abb", "bouzidi", "neumann"):
            yield dict(L.desc(2, [4, 3], [s], label=[-1, -1, 0, 1], bc={0: {"method": [m]}, 1: {"method": ["bb"]}}), kind="shift")
            yield dict(L.desc(2, [3, 4], [s], label=[0, 1, -1, -1], bc={0: {"method": [m]}, 1: {"method": ["bb"]}}), kind="shift")
    for m in ("bb", "abb", "bouzidi", "neumann"):
        yield dict(L.desc(3, [3, 2, 3], [L.d3q7()], label=[-1, -1, 0, 1, -1, -1], bc={0: {"method": [m]}, 1: {"method": ["bb"]}}), kind="shift")
        yield dict(L.desc(3, [2, 3, 2], [L.d3q19()], label=[0, 1, -1, -1, -1, -1], bc={0: {"method": [m]}, 1: {"method": ["bb"]}}), kind="shift", basis="few")


def cases(tier):
    yield from L.algorithms(described(tier), 1 if tier == "thorough" else 6)


def run_case(d, ctx):
    import sympy as sp

    import pylbm

    d = normalise(d)
    used = set(d["label"] if isinstance(d.get("label"), list) else []) | {l for e in d.get("elems", []) for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
    d["bc"] = {k: v for k, v in d["bc"].items() if k in used}
    sim = pylbm.Simulation(to_bdico(d), sorder=d.get("sorder"))
    ref = Ref(d)  # only for the moment matrix and sizes
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample({k: d[k] for k in ("dim", "n", "kind")})
    vm = ref.vmax()
    fluid = np.array(sim.domain.in_or_out[tuple(slice(v, v + m) for v, m in zip(vm, shape))]) == sim.domain.valin
    names = list(ref.consm) if d["kind"] == "periodic" else [c for c, i in ref.consm.items() if ref.poly[i] == "1"]

    def totals(f):
        return np.array([np.tensordot(ref.M[ref.consm[c]], f, 1)[fluid].sum() for c in names])

    def named(c):
        return np.array(sim.m[sp.Symbol(c)])[fluid].sum()

    cells = [i for i in np.ndindex(*shape) if fluid[i]]
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    dense = (np.cos(3.7 * g + 0.3) * 0.1 + 0.5).reshape((nv,) + shape)
    states = [dense, np.where(g.reshape(dense.shape) % 3 == 0, 0.75, 0.25)]
    if d.get("basis") == "few":
        for k in range(nv):
            f = np.zeros_like(dense)
            f[k] = dense[k]
            states.append(f)
    else:
        for k in range(nv):
            for i in cells:
                f = np.full_like(dense, 0.0 if "rho" not in str(d.get("relvel")) else 0.2)
                f[(k,) + i] += 1.0
                states.append(f)
    for n, f0 in enumerate(states):
        f0 = np.where(fluid[None], f0, 7.25)
        set_F(sim, f0)
        t0 = totals(f0)
        for it in range(20 if n < 2 else 3):
            sim.one_time_step()
            ctx.step()
            got = get_F(sim, nv)
            big = float(np.max(np.abs(np.where(fluid, got, 0))))
            if not big < 1e4:  # unstable run
                ctx.check(it > 0, "not finite after one step from state %d" % n)
                break
            if d["kind"] != "shift":
                t1 = totals(got)
                scale = max(1.0, big) * len(cells) ** 0.5
                if not ctx.check(np.all(np.abs(t1 - t0) <= 1e-9 * scale), lambda: "state %d step %d: totals of %s went from %s to %s" % (n, it + 1, names, t0.tolist(), t1.tolist())):
                    return
                t2 = np.array([named(c) for c in names])
                if not ctx.check(np.all(np.abs(t2 - t0) <= 1e-9 * scale), lambda: "state %d step %d: totals of sim.m[%s] are %s, expected %s" % (n, it + 1, names, t2.tolist(), t0.tolist())):
                    return
                ctx.outcome(np.round(t1, 6))
            ctx.state(np.where(fluid, got, 0))
        ctx.trace()
    # shifts
    if d["kind"] == "closed" and not d.get("elems") and -1 not in d["label"] or d.get("elems"):
        return
    lab = d.get("label", -1)
    per = [k for k in range(d["dim"]) if not isinstance(lab, list) or lab[2 * k] == -1]
    nsteps = 3

    def run(f0):
        set_F(sim, f0)
        for _ in range(nsteps):
            sim.one_time_step()
            ctx.step()
        return get_F(sim, nv)

    for f0 in (states[0], states[-1]):
        base = run(f0)
        if not np.max(np.abs(base)) < 1e4:
            continue
        for s in itertools.product(*[range(shape[k]) for k in per]):
            ax = tuple(k + 1 for k in per)
            got, exp = run(np.roll(f0, s, axis=ax)), np.roll(base, s, axis=ax)
            ctx.state(got)
            if not ctx.check(close(got, exp), lambda: "initial data shifted by %s in directions %s: solution is not: %s" % (s, per, maxdiff(got, exp))):
                return
            ctx.trace()
