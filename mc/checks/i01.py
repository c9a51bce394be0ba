"""I01: initial data"""
import itertools
import json

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, to_dico

RULE = "one case = one description with one kind of initial data per field, one generator and storage order; every field, halo included, before the first step; then 2 steps; then the same with a deferred initialisation after its first step"
ASSUMPTIONS = ["initial functions are vectorised, as required by the documentation", "tolerance 1e-12 on coordinates, 1e-9 on fields"]
CASE_TIMEOUT = 300

# name: (function of (coordinates, arguments), arguments)
FUNS = {
    "xyz": (lambda x, a: 1.0 + sum((i + 2) * (i + 1.5) ** 2 * c for i, c in enumerate(x)) * 0.05, ()),
    "first": (lambda x, a: 0.5 + 0.1 * x[0] ** 2, ()),
    "last": (lambda x, a: 0.5 - 0.1 * x[-1] ** 3, ()),
    "step": (lambda x, a: np.where(x[0] + 0.3 * x[-1] > 0.4, 1.2, 0.7), ()),
    "prod": (lambda x, a: 1.0 + 0.1 * np.prod(np.broadcast_arrays(*x), axis=0) if len(x) > 1 else 1.0 + 0.1 * x[0], ()),
    "flat": (lambda x, a: 0.375, ()),
    "arg1": (lambda x, a: a[0] + 0.1 * x[0] + 0.2 * x[-1], (0.7,)),
    "arg2": (lambda x, a: a[0] * (x[0] < a[1]) + 0.2 * x[-1], (0.7, 0.3)),
    "arg3": (lambda x, a: (x[0] - a[0]) ** 2 + a[1] * x[-1] - a[2], (0.1, 0.2, 0.3)),
}
CONST = {"zero": 0, "one": 1, "int": -2, "float": 0.3}
KINDS = list(FUNS) + list(CONST)


def bounds(tier):
    return "9 functions (with 0 to 3 extra arguments) and 4 constants per field, by moments and by distributions, 1D/2D/3D, 1-2 schemes, halos of width 0, 1 and 2, every storage order; numpy and cython"


def descs():
    P = {"c": 0.35}
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    q9 = L.d2q9()
    order = [4, 2, 0, 3, 1, 8, 6, 5, 7]
    q9p = L.sch(q9["vel"], [q9["poly"][i] for i in order], [q9["s"][i] for i in order], [q9["eq"][i] for i in order], ["qy", "rho", "qx"])
    return {
        "q3": L.desc(1, [5], [L.d1q3(("1.7",), "0.4*rho + 0.1*q**2")], params=P, lo=[-0.3], dx=0.1),
        "q5": L.desc(1, [4], [L.d1q5()], params=P, lo=[1.0], dx=0.3, la=2.0),
        "q2q3": L.desc(1, [6], [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")], params=P),
        "q9": L.desc(2, [4, 3], [q9], params=P, lo=[-0.5, 0.2], dx=0.1),
        "q9p": L.desc(2, [2, 5], [q9p], params=P),
        "t5q9": L.desc(2, [3, 4], [t5, q9], params=P, dx=0.2),
        "q4h": L.desc(2, [5, 6], [L.sch((5, 6, 7, 8, 9), ["1", "X", "Y", "X*Y", "X**2"], ["0", "1", "1.5", "1.2", "0.8"], ["rho", "c*rho", "0", "0.1*rho", "0.5*rho"], ["rho"])], params=P),
        "flat2": L.desc(2, [4, 3], [L.sch((0, 1, 3), ["1", "X", "X**2"], ["0", "0", "1.3"], ["rho", "q", "rho/3"], ["rho", "q"])], params=P),
        "d3": L.desc(3, [2, 4, 3], [L.d3q7()], params=P, lo=[-0.4, 0.3, 1.0], dx=0.1),
        "w2": L.desc(2, [3, 4], [L.wide((1, 2))], params=P, lo=[-0.5, 0.2], dx=0.1),
        "w3": L.desc(3, [2, 3, 4], [L.wide((2, 1, 0))], params=P, lo=[-0.4, 0.3, 1.0], dx=0.1),
        "d3b": L.desc(3, [3, 2, 2], [L.d3q19()], params=P, lo=[0.0, -1.0, 0.5]),
    }


def cases(tier):
    th = tier == "thorough"
    D = descs()
    case = lambda n, gen, so, ty, kinds, rev=False: {"name": n, "gen": gen, "sorder": list(so) if so else None, "type": ty, "kinds": list(kinds), "rev": rev}

    def fields(n, ty):
        d = D[n]
        return sum(len(s["consm"]) for s in d["schemes"]) if ty == "moments" else sum(len(s["vel"]) for s in d["schemes"])

    cyc = lambda k, n: [KINDS[(k + 5 * i) % len(KINDS)] for i in range(n)]
    for n, so in (("q3", None), ("t5q9", None), ("q9p", (2, 1, 0)), ("d3", (1, 3, 0, 2))) if not th else [(n, None) for n in D]:
        for ty in ("moments", "distributions"):
            yield case(n, "cython", so, ty, cyc(0, fields(n, ty)))
    for n, d in D.items():
        for ty in ("moments", "distributions"):
            nf = fields(n, ty)
            for k in range(len(KINDS)):
                if not th and n == "d3b" and k % 3:
                    continue
                yield case(n, "numpy", None, ty, cyc(k, nf), rev=bool(k % 2))
            if ty == "moments" and n == "q3" or th and ty == "moments" and nf < 4:
                for kk in itertools.product(KINDS, repeat=nf):
                    yield case(n, "numpy", None, ty, kk)
            for j, so in enumerate(itertools.permutations(range(d["dim"] + 1))):
                if th or n != "d3b" or j % 5 == 0:
                    yield case(n, "numpy", so, ty, cyc(j, nf), rev=True)


def value(kind, x):
    if kind in CONST:
        return CONST[kind]
    f, a = FUNS[kind]
    return f(x, a)


def spec(kind, dim):
    if kind in CONST:
        return CONST[kind]
    f, a = FUNS[kind]

    def fn(*args):
        assert len(args) == dim + len(a), "the initial function was called with %d arguments" % len(args)
        return f(args[:dim], args[dim:])

    return (fn, a) if a else fn


def build(d, case, initialize=True):
    import pylbm
    import sympy as sp

    dico = to_dico(d, case["gen"])
    consm = [c for s in d["schemes"] for c in s["consm"]]
    if case["type"] == "moments":
        keys = [sp.Symbol(c) for c in consm]
    else:
        keys = list(range(len(case["kinds"])))
        dico["inittype"] = "distributions"
    items = list(zip(keys, case["kinds"]))
    if case["rev"]:
        items.reverse()
    dico["init"] = {k: spec(kind, d["dim"]) for k, kind in items}
    return pylbm.Simulation(dico, sorder=case["sorder"], initialize=initialize), {str(k): k for k in keys}


def run_case(case, ctx):
    import sympy as sp

    d = json.loads(json.dumps(descs()[case["name"]]))
    ref = Ref(d)
    nv, dim, n = ref.nv, ref.dim, ref.n
    vm = ref.vmax()
    ctx.sample(case)
    sim, keys = build(d, case)
    x1 = [d["lo"][j] + (np.arange(-vm[j], n[j] + vm[j]) + 0.5) * d["dx"] for j in range(dim)]
    x = np.meshgrid(*x1, indexing="ij")
    shape = x[0].shape
    if not ctx.check(tuple(sim.domain.shape_halo) == shape, "shape of the halo"):
        return
    full = lambda kind: np.broadcast_to(np.asarray(value(kind, x), float), shape)
    consm = [c for s in d["schemes"] for c in s["consm"]]
    if case["type"] == "moments":
        m = np.zeros((nv,) + shape)
        for c, kind in zip(consm, case["kinds"]):
            m[ref.consm[c]] = full(kind)
        f = ref.m2f(ref.equilibrium(m))
    else:
        f = np.array([full(kind) for kind in case["kinds"]])
    m = ref.f2m(f)
    inner = tuple(slice(v, v + k) for v, k in zip(vm, n))
    for k in range(nv):
        got = np.array(sim.F_halo[k])
        ctx.check(close(got, f[k]), lambda: "distribution %d with its halo: %s" % (k, maxdiff(got, f[k])))
        got = np.array(sim.F[k])
        ctx.check(close(got, f[k][inner]), lambda: "distribution %d: %s" % (k, maxdiff(got, f[k][inner])))
    for c in consm:
        got = np.array(sim.m_halo[sp.Symbol(c)])
        exp = m[ref.consm[c]]
        ctx.check(close(got, exp), lambda: "moment %s with its halo: %s" % (c, maxdiff(got, exp)))
        got = np.array(sim.m[sp.Symbol(c)])
        ctx.check(close(got, exp[inner]), lambda: "moment %s: %s" % (c, maxdiff(got, exp[inner])))
        ctx.state(got)
        ctx.outcome(got)
    ctx.check(sim.t == 0 and sim.nt == 0, "time %r and number of steps %r before the first step" % (sim.t, sim.nt))
    ctx.trace()
    if ctx.findings:
        return
    late, _ = build(d, case, initialize=False)
    g = f[(slice(None),) + inner]
    for it in range(2):
        sim.one_time_step()
        late.one_time_step()
        g = ref.step(g)
        ctx.step()
        a, b = get_F(sim, nv), get_F(late, nv)
        ctx.check(close(a, g), lambda: "step %d: %s" % (it + 1, maxdiff(a, g)))
        ctx.check(np.array_equal(a, b), lambda: "step %d with a deferred initialisation: %s" % (it + 1, maxdiff(b, a)))
        ctx.check(sim.nt == it + 1 == late.nt and close(sim.t, ref.t, 1e-12) and close(late.t, ref.t, 1e-12), "counters after step %d" % (it + 1))
        ctx.state(a)
        ctx.outcome(a)
    ctx.trace()
