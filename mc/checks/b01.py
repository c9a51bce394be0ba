"""B01: every distribution entering through a labelled surface takes the value of its method"""
import itertools

import numpy as np

from .. import schemes as L
from ..bref import BRef, match, normalise, to_bdico
from ..ref import get_F, maxdiff, set_F

RULE = "one case = one description with boundaries; complete basis of interior distributions plus the zero and a dense state, then 3 steps from the dense state"
ASSUMPTIONS = [
    "values that the formula would take from a cell which is not fluid (gaps of one cell, copies along a wall at a corner) are not compared with the formula; in gaps of one cell between walls of the same method they are compared between generators, orders of labels and orders of elements",
    "obstacles do not touch periodic edges",
    "tolerance 1e-9",
]
CASE_TIMEOUT = 300
ALL = ["bb", "abb", "bouzidi", "bouzidi_anti", "neumann"]


def bounds(tier):
    return "6 methods in 1D, 7 in 2D, 8 in 3D; all pairs of methods on pairs of labels; edges and 8 obstacles in 2D, 5 in 3D; 1D velocities up to 2; vectorial schemes; channels of one and two cells; numpy and cython; both algorithms, fused and split loops, several scheme velocities and storage orders"


def el(kind, args, label):
    return {"kind": kind, "args": args, "label": label, "fluid": False}


OBST2 = [
    el("circle", [[0.7, 0.1], 0.31], 5),
    el("circle", [[0.63, 0.03], 0.2], 5),
    el("parallelogram", [[0.5, -0.25], [0.5, 0.0], [0.0, 0.5]], [5, 6, 5, 6]),
    el("parallelogram", [[0.45, -0.2], [0.45, 0.13], [-0.1, 0.47]], [5, 6, 6, 5]),
    el("triangle", [[0.4, -0.3], [0.7, 0.12], [0.05, 0.75]], [5, 6, 6]),
    el("ellipse", [[0.8, 0.05], [0.4, 0.2], [-0.1, 0.2]], 5),
]
OBST3 = [
    el("sphere", [[0.6, 0.1, 1.4], 0.33], 5),
    el("box3", [[0.3, -0.2, 1.2], [0.5, 0.1, 0.05], [-0.1, 0.45, 0.0], [0.02, -0.07, 0.5]], [5, 6, 5, 6, 5, 6]),
    el("cylcircle", [[0.6, 0.02, 1.5], [0.3, 0, 0], [0, 0.3, 0], [0, 0, 0.27]], [5, 6, 6]),
]


def bc(**kw):
    return {int(k[1:]): {"method": v if isinstance(v, list) else [v]} for k, v in kw.items()}


def described(tier):
    th = tier == "thorough"
    m1 = ALL + ["neumannx"]
    m2 = m1 + ["neumanny"]
    m3 = m2 + ["neumannz"]
    out = []
    # 1D -------------------------------------------------------------------------------
    vels = {"q2": L.d1q2("1.3", "0.2*rho"), "q3": L.d1q3(("1.4",), "0.5*rho + 0.2*q"), "q5": L.d1q5(),
            "q3p": L.d1q3s(("0.8", "1.9"), vel=(2, 0, 1)), "q22": L.d1q2("1.3", "0.2*rho", vel=(3, 4))}
    for (name, s), (a, b) in itertools.product(vels.items(), itertools.product(m1, repeat=2)):
        out.append(L.desc(1, [6], [s], label=[0, 1], bc=bc(_0=a, _1=b)))
    for name, s in vels.items():
        for a in m1:
            out.append(L.desc(1, [4], [s], label=[2, 2], bc=bc(_2=a)))
    two = [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")]
    for a, b, c, d in itertools.product(["bb", "abb", "bouzidi_anti", "neumann"], repeat=4):
        if th or (a, b) != (c, d):
            out.append(L.desc(1, [5], two, label=[0, 1], bc=bc(_0=[a, b], _1=[c, d])))
    # 2D -------------------------------------------------------------------------------
    q9 = L.d2q9(nonlinear=False)
    q5 = L.d2q5()
    q4 = L.d2q4()
    q5p = L.d2q5(vel=(3, 0, 2, 4, 1))
    for a, b in itertools.product(m2, repeat=2):
        out.append(L.desc(2, [4, 3], [q9], label=[0, 0, 1, 1], bc=bc(_0=a, _1=b)))
        if th or a != b:
            out.append(L.desc(2, [3, 4], [q5], label=[0, 1, 1, 0], bc=bc(_0=a, _1=b)))
            out.append(L.desc(2, [3, 4], [q4], label=[1, 0, 0, 1], bc=bc(_0=a, _1=b)))
    for a in m2:
        out.append(L.desc(2, [4, 3], [q9], label=[-1, -1, 0, 1], bc=bc(_0=a, _1="bb")))
        out.append(L.desc(2, [4, 3], [q9], label=[0, 1, -1, -1], bc=bc(_0=a, _1="abb")))
        out.append(L.desc(2, [4, 3], [q5p], label=[0, 1, 2, 3], bc=bc(_0=a, _1="abb", _2="neumann", _3="bb")))
        out.append(L.desc(2, [4, 3], [q5p], label=[3, 2, 1, 0], bc=bc(_0=a, _1="abb", _2="neumann", _3="bb")))
        long = L.sch((0, 9, 10, 11, 12, 1, 2, 3, 4), ["1", "X", "Y", "X**2", "Y**2", "X**3", "Y**3", "X**4", "Y**4"], q9["s"], q9["eq"], q9["consm"])
        out.append(L.desc(2, [5, 5], [long], label=[0, 0, 1, 1], bc=bc(_0=a, _1="bouzidi")))
    for e in OBST2:
        for a, b in itertools.product(ALL, repeat=2):
            if not th and isinstance(e["label"], int) and a != b:
                continue
            out.append(L.desc(2, [6, 5], [q9], label=[0, 0, 0, 0], elems=[e], bc=bc(_0="bb", _5=a, _6=b)))
            if th or a == b:
                out.append(L.desc(2, [6, 5], [q5], label=[0, 1, -1, -1], elems=[e], bc=bc(_0=b, _1="neumann", _5=a, _6=b)))
    small = [el("circle", [[0.55, -0.05], 0.2], 5), el("circle", [[1.6, 0.4], 0.27], 6)]
    for a, b in itertools.product(ALL, repeat=2):
        out.append(L.desc(2, [8, 6], [q5], label=[0, 0, 0, 0], elems=small, bc=bc(_0="abb", _5=a, _6=b)))
    t2 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    for a, b in itertools.product(["bb", "abb", "bouzidi", "bouzidi_anti", "neumann"], repeat=2):
        out.append(L.desc(2, [4, 3], [L.d2q4(), t2], label=[0, 0, 1, 1], bc=bc(_0=[a, b], _1=[b, a])))
    for a, b in itertools.product(["bb", "bouzidi_anti", "neumann"], ["abb", "bouzidi"]):
        out.append(L.desc(2, [6, 5], [q9, t2], label=[0, 1, 0, 1], elems=[OBST2[3]], bc=bc(_0=[a, b], _1=[b, a], _5=[a, b], _6=[b, b])))
    # 3D -------------------------------------------------------------------------------
    for a, b in itertools.product(m3, repeat=2):
        if th or ALL.index(a if a in ALL else "bb") <= ALL.index(b if b in ALL else "bb"):
            out.append(L.desc(3, [3, 2, 3], [L.d3q6()], label=[0, 1, 0, 1, 1, 0], bc=bc(_0=a, _1=b)))
    for a in m3:
        out.append(L.desc(3, [3, 3, 3], [L.d3q7()], label=[0, 1, -1, -1, 2, 3], bc=bc(_0=a, _1="bb", _2="bouzidi_anti", _3="neumann")))
    # velocities which do not reach as far in every direction
    for a, r in zip(m3 + m3, itertools.cycle([(1, 2, 1), (2, 1, 1), (1, 1, 2), (0, 1, 2), (1, 3, 2)])):
        out.append(L.desc(3, [3, 3, 3], [L.wide(r)], label=[0, 1, 0, 1, 1, 0], bc=bc(_0=a, _1="abb"), basis="cells"))
    for a, r in zip(m2, itertools.cycle([(1, 2), (2, 1), (3, 1)])):
        out.append(L.desc(2, [4, 3], [L.wide(r)], label=[0, 1, -1, -1] if r[0] > r[1] else [-1, -1, 0, 1], bc=bc(_0=a, _1="bouzidi")))
    for e in OBST3:
        for a, b in zip(ALL, ALL[1:] + ALL[:1]):
            out.append(L.desc(3, [5, 4, 4], [L.d3q7()], label=[0] * 6, elems=[e], bc=bc(_0="bb", _5=a, _6=b)))
    q19 = L.d3q19()
    for a, b in ([("bouzidi", "bb"), ("bouzidi_anti", "neumann")] if not th else list(zip(ALL, ALL[1:] + ALL[:1]))):
        out.append(L.desc(3, [4, 3, 3], [q19], label=[0, 0, 1, 1, -1, -1], bc=bc(_0=a, _1=b), basis="cells"))
    # channels of one and two cells: the walls of the two sides read and write the same solid cells
    for axis, width in itertools.product((0, 1), (1, 2)):
        for s1, s2 in ((0.2, 0.3), (0.3, 0.8), (0.7, 0.4), (0.9, 0.6))[:4 if th or width == 1 else 1]:
            n, lo = ([6, 3], [0.0, -0.5]) if axis == 0 else ([3, 6], [0.0, -0.5])
            a = lo[axis] + 0.25 * 2.5 - 0.25 * s1
            b = lo[axis] + 0.25 * (2.5 + width - 1) + 0.25 * s2
            walls = []
            for low, high in ((lo[axis] - 1.0, a), (b, lo[axis] + 3.0)):
                o, u, v = [-2.0, -2.0], [6.0, 0.0], [0.0, 6.0]
                o[axis] = low
                (u, v)[axis][axis] = high - low
                walls.append([o, u, v])
            for m, s in itertools.product(ALL, (q5, q9)):
                if not th and "bouzidi" not in m and (s is q9 or width == 2):
                    continue
                gens = ["numpy"] + (["cython"] if s is q5 and "bouzidi" in m and width == 1 and (s1 < 0.5 or th) else [])
                out.append(L.desc(2, n, [s], label=[0] * 4, elems=[el("parallelogram", walls[0], 1), el("parallelogram", walls[1], 2)],
                                  bc=bc(_0=m, _1=m, _2=m), gap=gens))
    # the compiled kernels
    for d in [
        L.desc(1, [6], [L.d1q5()], label=[0, 1], bc=bc(_0="bouzidi", _1="bouzidi_anti")),
        L.desc(1, [6], [L.d1q5()], label=[0, 1], bc=bc(_0="neumann", _1="abb")),
        L.desc(2, [6, 5], [q9], label=[0, 1, 0, 1], elems=[OBST2[3]], bc=bc(_0="bb", _1="neumann", _5="bouzidi", _6="bouzidi_anti")),
        L.desc(2, [6, 5], [q5], label=[0, 1, 2, 3], elems=[OBST2[0]], bc=bc(_0="neumannx", _1="neumann", _2="neumanny", _3="abb", _5="bb")),
        L.desc(3, [4, 3, 3], [L.d3q7()], label=[0, 1, 2, 3, 0, 1], bc=bc(_0="bouzidi", _1="bb", _2="abb", _3="neumannz")),
    ]:
        out.insert(0, dict(d, gen="cython"))
    for d in out:
        d = dict(d)
        used = set(d["label"]) | {l for e in d.get("elems", []) for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
        d["bc"] = {k: v for k, v in d["bc"].items() if k in used}
        yield d


def cases(tier):
    yield from L.algorithms(described(tier), 1 if tier == "thorough" else 12)


def run_gap(d, ctx):
    """the values come from the distributions before the update, whatever the order of the labels, of the elements and of the loops"""
    import pylbm

    swap = {1: 2, 2: 1}
    renamed = [dict(e, label=swap[e["label"]]) for e in d["elems"]]
    base = None
    for gen in d["gap"]:
        for elems in (d["elems"], renamed, renamed[::-1])[:3 if gen == "numpy" else 1]:
            sim = pylbm.Simulation(to_bdico(dict(d, elems=elems), gen))
            vm = [(h - i) // 2 for h, i in zip(sim.domain.shape_halo, sim.domain.shape_in)]
            fluid = np.array(sim.domain.in_or_out)[tuple(slice(v, -v) for v in vm)] == sim.domain.valin
            nv = len(d["schemes"][0]["vel"])
            shape = (nv,) + fluid.shape
            g = np.arange(int(np.prod(shape)), dtype=float)
            set_F(sim, (np.cos(3.7 * g + 0.3) * 0.3 + 0.5).reshape(shape))
            got = []
            for _ in range(3):
                sim.one_time_step()
                got.append(np.where(fluid[None], get_F(sim, nv), 0))
                ctx.step()
                ctx.state(got[-1])
            ctx.check(fluid.any(), "no fluid cell in the channel")
            base = got if base is None else base
            if not ctx.check(np.allclose(got, base, rtol=1e-9, atol=1e-9), lambda: "channel: %s, labels %s: the distributions differ by %g from those of %s, labels %s" % (
                    gen, [e["label"] for e in elems], np.abs(np.array(got) - base).max(), d["gap"][0], [1, 2])):
                return
            ctx.outcome(got[-1])
    ctx.trace(2 + len(d["gap"]))


def arrays_of_methods(sim, ref, ctx):
    """what a method (of pylbm or of the user) is given: each of its links once, with its own label, distance and normal"""
    dom = sim.domain
    uniq = {tuple(int(c) for c in uv.v[:ref.dim]): k for k, uv in enumerate(dom.stencil.unique_velocities)}
    seen = set()
    for meth in sim.bc.methods:
        istore, ilabel = np.asarray(meth.istore), np.asarray(meth.ilabel)
        distance, normal = np.asarray(meth.distance), np.asarray(meth.normal)
        sizes = {istore.shape[0], ilabel.shape[0], distance.shape[0], normal.shape[0]}
        if not ctx.check(len(sizes) == 1, "%s: arrays of different sizes %s" % (type(meth).__name__, sorted(sizes))):
            return False
        for row, lab, dist, nor in zip(istore.tolist(), ilabel.tolist(), distance.tolist(), normal.tolist()):
            k, out = row[0], row[1:]
            cell = tuple(o + int(c) for o, c in zip(out, ref.vel[k]))
            at = (uniq[tuple(-int(c) for c in ref.vel[k])],) + cell
            ok = int(dom.flag[at]) == lab and abs(float(dom.distance[at]) - dist) < 1e-12 and np.allclose(np.asarray(dom.normal[at])[:len(nor)], nor)
            if not ctx.check(ok and (k, cell) not in seen, lambda: "%s: link of velocity %d at cell %s: label %s, distance %g, normal %s" % (
                    type(meth).__name__, k, cell, lab, dist, nor)):
                return False
            seen.add((k, cell))
    return True


def run_case(d, ctx):
    import pylbm

    d = normalise(d)
    if d.get("gap"):
        return run_gap(d, ctx)
    sim = pylbm.Simulation(to_bdico(d, d.get("gen", "numpy")), sorder=d.get("sorder"))
    ref = BRef(d, sim.domain)
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample({k: d[k] for k in ("dim", "n", "label", "bc")})
    got_fluid = np.array(sim.domain.in_or_out[tuple(slice(v, v + m) for v, m in zip(ref.vm, shape))]) == sim.domain.valin
    if not ctx.check((got_fluid == ref.fluid).all(), "fluid cells differ from the description"):
        return
    if not arrays_of_methods(sim, ref, ctx):
        return
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    dense = (np.cos(3.7 * g + 0.3) * 0.3 + 0.5).reshape((nv,) + shape)
    states = [np.zeros((nv,) + shape)]
    cells = [i for i in np.ndindex(*shape) if ref.fluid[i]]
    if d.get("basis") == "cells":
        # velocities separated in space: one state per velocity and per class of cells
        for k in range(nv):
            for c in range(3):
                f = np.zeros((nv,) + shape)
                for j, i in enumerate(cells):
                    if j % 3 == c:
                        f[(k,) + i] = 1.0 + 0.37 * j
                states.append(f)
    else:
        for k in range(nv):
            for i in cells:
                f = np.zeros((nv,) + shape)
                f[(k,) + i] = 1.0
                states.append(f)
    total = 0
    for n, f0 in enumerate(states + [dense]):
        f0 = np.where(ref.fluid[None], f0, 7.25)
        set_F(sim, f0)
        ref.t = sim.t
        f = f0
        for it in range(4 if n == len(states) else 1):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            got = get_F(sim, nv)
            ok, cmp_, where, err = match(got, f, ref.fluid)
            total += cmp_
            if not ctx.check(ok, lambda: "state %d step %d: distributions differ at (velocity, cell) %s by %g; links there: %s" % (
                    n, it + 1, where, err, [l for l in ref.links if list(l[1]) == where[0][1:]][:4])):
                return
            ctx.state(np.where(ref.fluid[None], got, 0))
            ctx.outcome(np.where(ref.fluid[None], got, 0))
    ctx.trace(len(ref.links))
