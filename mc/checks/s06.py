"""S06: generators, storage orders and algorithm settings do not change results"""
import itertools
import json

import numpy as np

from .. import schemes as L
from ..bref import BRef, match, normalise, to_bdico
from ..ref import Ref, get_F, set_F, to_dico
from .b01 import OBST2, OBST3
from .b02 import NO, lab

RULE = "one case = one description with one generator, storage order and algorithm setting; 3 steps from the initial data, 2 steps from dense and basis states, all distributions and moments compared with the reference interpreter"
ASSUMPTIONS = [
    "stored moments only with the NumPy generator (local moments are a setting of compiled code)",
    "the setting check_isfluid only exists for the loopy generator, which is not installed",
    "values that a boundary formula would take from a cell which is not fluid are not compared",
    "tolerance 1e-9; compiled with -O0",
]
CASE_TIMEOUT = 300


def bounds(tier):
    return "19 descriptions in 1D/2D/3D (walls, obstacles, values, sources, relative velocity, several schemes); numpy: every storage order, split or not, pull and base algorithms; cython: every storage order in 1D and 2D, selected in 3D, every combination of settings on 1D and selected elsewhere"


def descs():
    P = {"c": 0.35, "g": 0.2}
    q3 = L.d1q3(("1.7",), "0.4*rho + 0.1*q**2")
    q9 = L.d2q9()
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    src = lambda s, **kw: dict(s, source=kw)
    return {
        "p1": L.desc(1, [5], [q3], params=P),
        "p1s": L.desc(1, [4], [src(q3, q="c*rho*q + t", rho="g - q")], params=P),
        "p1r": L.desc(1, [4], [L.d1q3(("1.7",), "0.4*rho + 0.1*q")], params=P, relvel=["q/rho"]),
        "b1": L.desc(1, [5], [L.d1q5()], params=P, label=[0, 1], bc={0: lab("bouzidi", ("spacetime", True, None)), 1: lab("abb", ("args", False, [0.7, 0.3]))}),
        "b1s": L.desc(1, [5], [src(q3, q="c*rho*q + t", rho="g - q")], params=P, label=[0, 1], bc={0: lab("bb", NO), 1: lab("neumann", NO)}),
        # nothing is relaxed: all the moments are conserved, or all the rates are null
        "p1c": L.desc(1, [4], [L.sch((1, 2), ["1", "X"], ["0", "0"], ["rho", "q"], ["rho", "q"])], params=P),
        "p2n": L.desc(2, [2, 3], [L.d2q5(("0", "0", "0", "0"))], params=P),
        "p2": L.desc(2, [4, 3], [q9], params=P),
        "p2r": L.desc(2, [3, 2], [L.d2q5()], params=P, relvel=["0.2*rho", "-0.1"]),
        "p2s": L.desc(2, [3, 4], [src(q9, qy="c*g*T", qx="rho*qy"), src(t5, T="g*(1 - T)")], params=P),
        "b2": L.desc(2, [6, 5], [q9], params=P, label=[0, 1, 2, 3], elems=[OBST2[3]],
                     bc={0: lab("bb", ("space", False, None)), 1: lab("abb", ("spacetime", True, None)), 2: lab("bouzidi", NO), 3: lab("neumann", NO), 5: lab("bouzidi", NO), 6: lab("bouzidi_anti", ("const", False, None))}),
        "b2t": L.desc(2, [4, 5], [t5, q9], params=P, label=[-1, -1, 0, 1], elems=[OBST2[0]],
                      bc={0: lab(["bb", "abb"], ("time", True, None)), 1: lab(["neumanny", "bb"], NO), 5: lab(["abb", "bouzidi"], ("const", False, None)), 6: lab(["bb", "bb"], NO)}),
        "b2s": L.desc(2, [5, 4], [src(q9, qy="c*g*rho", rho="0.1*t")], params=P, label=[0, 0, -1, -1], elems=[OBST2[1]], bc={0: lab("bb", NO), 5: lab("bb", NO), 6: lab("abb", NO)}),
        "p3": L.desc(3, [2, 3, 4], [L.d3q7()], params=P),
        "p2w": L.desc(2, [4, 3], [L.wide((1, 2))], params=P, label=[-1, -1, 0, 1], bc={0: lab("bb", ("space", False, None)), 1: lab("neumann", NO)}),
        "p3w": L.desc(3, [2, 3, 2], [L.wide((1, 2, 1))], params=P),
        "p3r": L.desc(3, [2, 3, 2], [L.d3q6()], params=P, relvel=["0.1*rho", "0", "-0.2"]),
        "p3s": L.desc(3, [2, 3, 2], [src(L.d3q7(), rho="c*rho + t")], params=P),
        "b3": L.desc(3, [5, 4, 4], [L.d3q7()], params=P, label=[0, 1, 2, 3, 0, 4], elems=[OBST3[0]],
                     bc={0: lab("bb", NO), 1: lab("abb", ("spacetime", True, None)), 2: lab("bouzidi", ("space", False, None)), 3: lab("neumanny", NO), 4: lab("bouzidi_anti", NO), 5: lab("bouzidi", NO), 6: lab("abb", ("const", False, None))}),
    }


def trim(d):
    if "bc" in d:
        used = set(d["label"]) | {l for e in d.get("elems", []) for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
        d["bc"] = {k: v for k, v in d["bc"].items() if k in used}
    return d


SPLIT = {"split": True}


def cases(tier):
    th = tier == "thorough"
    D = descs()
    # cython first: the longest cases
    one = lambda name, gen, so, algo, st: {"name": name, "gen": gen, "sorder": list(so) if so else None, "algo": algo, "settings": st}
    cy = []
    for st in ({}, {"m_local": False}, SPLIT, {"split": True, "m_local": False}):
        for a in ("pull", "base"):
            cy.append(one("b1s", "cython", (1, 0) if a == "pull" else (0, 1), a, st))
    for so in itertools.permutations(range(3)):
        cy.append(one("b2", "cython", so, "pull", {}))
        cy.append(one("p2s", "cython", so, "base" if so[0] == 1 else "pull", [{}, SPLIT, {}, {"m_local": False}, SPLIT, {"split": True, "m_local": False}][list(itertools.permutations(range(3))).index(so)]))
    for so in itertools.permutations(range(4)) if th else ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)):
        cy.append(one("b3", "cython", so, "pull", {}))
    cy += [one("p1r", "cython", None, "pull", {}), one("p2r", "cython", None, "pull", {"m_local": False}), one("p1", "cython", None, "base", {}), one("p3s", "cython", (1, 2, 3, 0), "pull", SPLIT)]
    cy += [one("p1r", "cython", None, "pull", SPLIT)]
    for name in ("p1c", "p2n"):
        cy += [one(name, "cython", None, "pull", {}), one(name, "cython", None, "base", SPLIT)]
    if th:
        for name, d in D.items():
            for st in ({}, {"m_local": False}, SPLIT, {"m_local": False, "split": True}):
                for a in ("pull", "base"):
                    cy.append(one(name, "cython", None, a, st))
        for so in itertools.permutations(range(3)):
            for name in ("p2", "p2r", "b2t", "b2s"):
                cy.append(one(name, "cython", so, "pull", {}))
    yield from cy
    for name, d in D.items():
        perms = list(itertools.permutations(range(d["dim"] + 1)))
        for st, a in itertools.product(({}, SPLIT), ("pull", "base")):
            for n, so in enumerate([None] + perms):
                if d["dim"] == 3 and not th and (st or a == "base") and n % 5:
                    continue
                yield one(name, "numpy", so, a, st)


def run_case(case, ctx):
    import pylbm

    d = json.loads(json.dumps(trim(descs()[case["name"]])))
    d = normalise(d)
    if case["algo"] == "base":
        algo = pylbm.algorithm.BaseAlgorithm
    else:
        algo = pylbm.algorithm.PullAlgorithm
    walls = bool(d["bc"])
    d["init"] = {c: 0.3 + 0.1 * i for s in d["schemes"] for i, c in enumerate(s["consm"])}
    dico = to_bdico(d, case["gen"]) if walls else to_dico(d, case["gen"])
    dico["lbm_algorithm"] = {"name": algo, "settings": dict(case["settings"])}
    sim = pylbm.Simulation(dico, sorder=case["sorder"])
    ref = BRef(d, sim.domain) if walls else Ref(d)
    fluid = ref.fluid if walls else np.ones(tuple(d["n"]), bool)
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample(case)
    m = np.zeros((nv,) + shape)
    for c, v in d["init"].items():
        m[ref.consm[c]] = v
    f = ref.m2f(ref.equilibrium(m))
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    starts = [None, (np.cos(3.7 * g + 0.3) * 0.1 + 0.2).reshape((nv,) + shape)]
    for k in range(nv):
        b = np.full((nv,) + shape, 0.05)
        b[k] += 0.25
        b[(k,) + (0,) * len(shape)] += 0.5
        starts.append(b)
    syms = {str(k): k for s in sim.scheme.consm for k in [s]}
    for n, f0 in enumerate(starts):
        if f0 is not None:
            set_F(sim, f0)
            f = f0
        for it in range(4 if n == 0 else 2):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            got = get_F(sim, nv)
            ok, cmp_, where, err = match(got, f, fluid)
            if not ctx.check(ok, lambda: "start %d step %d: distributions differ by %g at %s" % (n, it + 1, err, where)):
                return
            if it % 2:
                mom = ref.f2m(f)
                for c, i in ref.consm.items():
                    ok, cmp_, where, err = match(np.array(sim.m[syms[c]])[None], mom[i][None], fluid)
                    if not ctx.check(ok, lambda: "start %d step %d: moment %s differs by %g at %s" % (n, it + 1, c, err, where)):
                        return
            with np.errstate(all="ignore"):
                if not np.nanmax(np.abs(np.where(fluid, got, 0))) < 1e3:
                    break
            ctx.state(np.where(fluid[None], got, 0))
            ctx.outcome(np.where(fluid[None], got, 0))
        ctx.trace()
