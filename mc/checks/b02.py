"""B02: prescribed boundary values: where, when and on which label they are imposed"""
import itertools

import numpy as np

from .. import schemes as L
from ..bref import BRef, match, normalise, to_bdico
from ..ref import get_F, set_F
from .b01 import OBST2, OBST3, el

RULE = "one case = one description with prescribed values; 4 steps from the initial data, then 2 steps from the zero state, a dense state and a few basis states"
ASSUMPTIONS = ["value functions set every conserved moment", "values that the formula would take from a cell which is not fluid are not compared", "tolerance 1e-9"]
CASE_TIMEOUT = 300
WALL = ["bb", "abb", "bouzidi", "bouzidi_anti"]
KINDS = [("const", False, None), ("space", False, None), ("args", False, [0.7, 0.3]), ("time", True, None), ("spacetime", True, None), ("argstime", True, [0.7, 0.3])]


def bounds(tier):
    return "4 wall methods x 6 kinds of value functions (space, time, extra arguments) per label, pairs of labels, 1D/2D/3D edges and obstacles, 1-2 schemes, 4 steps; numpy and cython; both algorithms, fused and split loops, several scheme velocities and storage orders"


def lab(meth, kind, n=1):
    v, t, a = kind
    e = {"method": list(meth) if isinstance(meth, (list, tuple)) else [meth] * n}
    if v:
        e["value"] = v
    if t:
        e["time"] = True
    if a:
        e["args"] = a
    return e


NO = (None, False, None)


def described(tier):
    th = tier == "thorough"
    out = []
    q3 = L.d1q3(("1.4",), "0.5*rho + q**2")
    q5 = L.d1q5()
    for m, k, k2 in itertools.product(WALL, KINDS, KINDS + [NO]):
        for s, n, dx in ((q3, 5, 0.25), (q5, 6, 0.1)):
            m2 = WALL[(WALL.index(m) + 1 + KINDS.index(k)) % 4]
            out.append(L.desc(1, [n], [s], dx=dx, lo=[-0.5], la=2.0 if s is q5 else 1.0, label=[0, 1], bc={0: lab(m, k), 1: lab(m2, k2)}))
    for m, m2, k in itertools.product(WALL, WALL, KINDS):
        out.append(L.desc(1, [5], [q3], label=[4, 4], bc={4: lab(m, k)}))
        two = [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")]
        out.append(L.desc(1, [5], two, label=[0, 1], bc={0: lab([m, m2], k), 1: lab([m2, "neumann"], KINDS[-1])}))
    q9 = L.d2q9()
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    for m, k in itertools.product(WALL, KINDS):
        k2 = KINDS[(KINDS.index(k) + 2) % 6]
        for lb in ([0, 1, 2, 2], [-1, -1, 0, 1], [0, 1, -1, -1], [2, 2, 0, 1]):
            out.append(L.desc(2, [4, 3], [q9], label=lb, bc={0: lab(m, k), 1: lab("abb", k2), 2: lab("bb", NO)}))
            out.append(L.desc(2, [3, 4], [t5], label=lb, params={}, bc={0: lab(m, k), 1: lab("bouzidi", NO), 2: lab("neumann", k2)}))
        for e in OBST2:
            out.append(L.desc(2, [6, 5], [q9], label=[0] * 4, elems=[e], bc={0: lab("bb", NO), 5: lab(m, k), 6: lab("bb", k2)}))
        out.append(L.desc(2, [6, 5], [q9, t5], label=[0, 1, 0, 1], elems=[OBST2[3]], bc={0: lab([m, "abb"], k), 1: lab(["bb", m], k2), 5: lab([m, m], k2), 6: lab(["abb", m], NO)}))
        for e in OBST3:
            out.append(L.desc(3, [5, 4, 4], [L.d3q7()], label=[0, 1, 2, 3, 0, 0], elems=[e],
                              bc={0: lab("abb", k2), 1: lab(m, k), 2: lab("bouzidi_anti", NO), 3: lab("abb", k), 5: lab(m, k), 6: lab("abb", k2)}))
        out.append(L.desc(3, [3, 2, 3], [L.d3q6()], label=[0, 1, -1, -1, 0, 1], bc={0: lab(m, k), 1: lab("abb", k2)}))
    if th:
        for m, m2, k, k2 in itertools.product(WALL, WALL, KINDS, KINDS):
            out.append(L.desc(2, [4, 3], [q9], label=[0, 1, 1, 0], bc={0: lab(m, k), 1: lab(m2, k2)}))
            out.append(L.desc(2, [6, 5], [q9], label=[0, 0, -1, -1], elems=[OBST2[1]], bc={0: lab(m, k), 5: lab(m2, k2)}))
    cy = [
        L.desc(1, [5], [q3], label=[0, 1], bc={0: lab("bb", KINDS[4]), 1: lab("bouzidi_anti", KINDS[5])}),
        L.desc(2, [6, 5], [q9], label=[0, 1, 0, 1], elems=[OBST2[3]], bc={0: lab("abb", KINDS[4]), 1: lab("bb", KINDS[2]), 5: lab("bouzidi", KINDS[5]), 6: lab("bouzidi_anti", KINDS[1])}),
        L.desc(3, [3, 3, 2], [L.d3q7()], label=[0, 1, 2, 3, 0, 1], bc={0: lab("abb", KINDS[4]), 1: lab("bouzidi", KINDS[2]), 2: lab("bb", NO), 3: lab("bouzidi_anti", KINDS[5])}),
    ]
    for d in [dict(d, gen="cython") for d in cy] + out:
        used = set(d["label"]) | {l for e in d.get("elems", []) for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
        d["bc"] = {k: v for k, v in d["bc"].items() if k in used}
        # an unstable run proves nothing: small values
        yield d


def cases(tier):
    yield from L.algorithms(described(tier), 1 if tier == "thorough" else 12)


def run_case(d, ctx):
    import pylbm

    d = normalise(d)
    d["init"] = {c: 0.3 + 0.1 * i for s in d["schemes"] for i, c in enumerate(s["consm"])}
    sim = pylbm.Simulation(to_bdico(d, d.get("gen", "numpy")), sorder=d.get("sorder"))
    ref = BRef(d, sim.domain)
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample({k: d[k] for k in ("dim", "n", "label", "bc")})
    m = np.zeros((nv,) + shape)
    for c, v in d["init"].items():
        m[ref.consm[c]] = v
    f = ref.m2f(ref.equilibrium(m))
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    starts = [None, np.zeros((nv,) + shape), (np.cos(3.7 * g + 0.3) * 0.1 + 0.2).reshape((nv,) + shape)]
    for k in range(nv):
        b = np.zeros((nv,) + shape)
        b[k] = 0.25
        starts.append(b)
    for n, f0 in enumerate(starts):
        if f0 is not None:
            f0 = np.where(ref.fluid[None], f0, 7.25)
            set_F(sim, f0)
            f = f0
        for it in range(4 if n == 0 else 2):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            got = get_F(sim, nv)
            ok, cmp_, where, err = match(got, f, ref.fluid)
            if not ctx.check(ok, lambda: "start %d step %d (t=%g): distributions differ at (velocity, cell) %s by %g; links there: %s" % (
                    n, it + 1, ref.t, where, err, [l for l in ref.links if list(l[1]) == where[0][1:]][:4])):
                return
            with np.errstate(all="ignore"):
                if not np.nanmax(np.abs(np.where(ref.fluid, f, 0))) < 1e3:
                    break
            ctx.state(np.where(ref.fluid[None], got, 0))
            ctx.outcome(np.where(ref.fluid[None], got, 0))
    ctx.trace(len(ref.links))
