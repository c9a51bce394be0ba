"""S05: source terms as two half steps around the relaxation"""
import itertools

import numpy as np

from .. import schemes as L
from ..bref import BRef, match, normalise, to_bdico
from ..ref import Ref, close, ev, get_F, maxdiff, set_F, to_dico

RULE = "one case = one scheme with source terms: dense states and every basis state, 2-5 steps from the initial data; with walls: from the initial data and dense states"
ASSUMPTIONS = [
    "the second half step uses the time of the beginning of the step, as the first",
    "values that a boundary formula would take from a cell which is not fluid are not compared",
    "tolerance 1e-9",
]
CASE_TIMEOUT = 300
# keyed expressions: c, g parameters, t time, moments
ONE = [
    "0.4", "-1", "c", "c/3", "-c*g", "t", "1 + t", "t**2 - 0.3*t", "c*t", "sin(t)", "cos(3*t)*c",
    "{u}", "-{u}", "c*{u}", "{u}*(1 - {u})", "c*{u}*(1 - {u})", "{u}**2", "{u}**3/3", "1/(2 + {u})", "{u}/(1 + {u}**2)",
    "t*{u}", "c*{u} - g*t", "-c*({u} - g)", "exp(-{u})", "sin({u})*c", "sqrt(1 + {u}**2)", "g - {u}*2/3", "(1 + t)*{u}**2", "(-{u})**3", "-({u}**2)", "2*{u} - {u}/4 + 1/8",
]
CROSS = ["{v}", "c*{v}", "{u}*{v}", "{v} - {u}", "{v}**2 + t", "c*{v}*(1 - {u})", "{v}/(2 + {u})", "-{v}"]


def bounds(tier):
    return "31 expressions of one moment, 8 of two, pairs and triples of sources over 1-3 moments, 1D/2D/3D, 1-2 schemes, walls and obstacles, all orders of the moments of a D1Q3, storage orders; both algorithms, fused and split loops; numpy and cython"


def src(s, *pairs):
    return dict(s, source=dict(pairs))


def cases(tier):
    th = tier == "thorough"
    P = {"c": 0.35, "g": 0.2}
    out = []
    add = lambda dim, n, schs, **kw: out.append(L.desc(dim, n, schs, params=P, **kw))
    q2 = L.d1q2("1.3", "0.2*rho")
    q3 = L.d1q3(("1.7",), "0.4*rho + 0.1*q**2")
    q3s = L.d1q3s(("0.8", "1.9"))
    for e in ONE:
        add(1, [3], [src(q2, ("rho", e.format(u="rho")))], dx=0.1)
        add(1, [4], [src(q3s, ("rho", e.format(u="rho")))], la=2.0)
        add(1, [3], [src(q3, ("q", e.format(u="q")))])
        add(1, [3], [src(q3, ("rho", e.format(u="rho")))])
        add(2, [2, 2], [src(L.d2q5(), ("rho", e.format(u="rho")))])
        add(2, [2, 3], [src(L.d2q4(), ("rho", e.format(u="rho")))], la=3.0)
    for e in CROSS:
        for u, v in (("rho", "q"), ("q", "rho")):
            add(1, [3], [src(q3, (u, e.format(u=u, v=v)))])
    # several sources, listed in both orders; coupled or not
    pick = ["0.4", "c*t", "{u}", "c*{u}*(1 - {u})", "{v}", "c*{u}*{v}", "-{v} + t"]
    for e1, e2 in itertools.product(pick, repeat=2):
        a, b = ("rho", e1.format(u="rho", v="q")), ("q", e2.format(u="q", v="rho"))
        add(1, [3], [src(q3, a, b)])
        add(1, [3], [src(q3, b, a)])
        x, y = ("rho", e1.format(u="rho", v="T")), ("T", e2.format(u="T", v="rho"))
        two = [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")]
        add(1, [3], [src(two[0], x), src(two[1], y)])
        add(1, [3], [src(two[1], y), src(two[0], x)])
    # all orders of the moments: the conserved ones need not come first
    ss, ee, pp = ["0", "0", "1.7"], ["rho", "q", "0.4*rho + 0.1*q**2"], ["1", "X", "X**2"]
    for p in itertools.permutations(range(3)):
        for cons in (["rho", "q"], ["q", "rho"]):
            for s in ((("rho", "c*rho"),), (("q", "c*rho*q"),), (("q", "c - q"), ("rho", "t"))):
                add(1, [3], [src(L.sch((0, 1, 2), [pp[i] for i in p], [ss[i] for i in p], [ee[i] for i in p], cons), *s)])
    # two and three dimensions, several moments
    q9 = L.d2q9()
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    trip = ["0.4", "c*t", "{u}*c", "rho*c", "qx*qy"]
    for e1, e2, e3 in itertools.product(trip, repeat=3):
        if th or len({e1, e2, e3}) > 1 or e1 == "0.4":
            add(2, [2, 2], [src(q9, ("rho", e1.format(u="rho")), ("qx", e2.format(u="qx")), ("qy", e3.format(u="qy")))])
    for e in ("c*g*T", "c*T", "t*T", "c*T*rho - t"):
        add(2, [3, 2], [src(q9, ("qy", e)), t5])
        add(2, [3, 2], [src(q9, ("qy", e)), src(t5, ("T", "g*(1 - T)"))])
        add(2, [2, 3], [src(t5, ("T", e.replace("rho", "qx"))), q9])
    for e in ONE[::3]:
        add(3, [2, 2, 2], [src(L.d3q7(), ("rho", e.format(u="rho")))])
        add(3, [2, 1, 2], [src(L.d3q6(), ("rho", e.format(u="rho")))])
    add(3, [2, 2, 1], [src(L.d3q19(), ("qz", "c*rho"), ("qx", "t"))])
    # walls and obstacles
    from .b02 import lab, NO

    for e in ONE[2::4]:
        for m, m2 in itertools.product(["bb", "abb", "bouzidi", "neumann"], repeat=2):
            add(1, [4], [src(q3, ("q", e.format(u="q")))], label=[0, 1], bc={0: lab(m, NO), 1: lab(m2, ("spacetime", True, None))})
        ob = {"kind": "circle", "center": [0.6, 0.1], "r": 0.3, "label": 1}
        add(2, [5, 4], [src(q9, ("qy", e.format(u="qy")))], label=[0, 0, -1, -1], bc={0: lab("bb", NO)})
        add(2, [5, 4], [src(q9, ("qx", e.format(u="qx")))], label=[0, 2, 0, 2], bc={0: lab("abb", ("time", True, None)), 2: lab("bouzidi", NO)})
    cy = [
        L.desc(1, [4], [src(q3, ("q", "c*q*(1 - q) + t"), ("rho", "c"))], params=P),
        L.desc(2, [3, 4], [src(q9, ("qy", "c*g*T")), t5], params=P),
        L.desc(2, [3, 2], [src(q9, ("qx", "c*rho"), ("qy", "g*t"))], params=P),
        L.desc(3, [2, 2, 3], [src(L.d3q7(), ("rho", "c*rho*(1 - rho)"))], params=P),
    ]
    if th:
        cy += [L.desc(1, [3], [src(q3, ("q", e.format(u="q")), ("rho", e.format(u="rho")))], params=P) for e in ONE]
    # storage orders
    for so in itertools.permutations(range(2)):
        for e in ONE[11::3]:
            add(1, [3], [src(q3, ("q", e.format(u="q")), ("rho", "c*rho*q"))], sorder=list(so))
    for so in itertools.permutations(range(3)):
        for e in ("c*T*rho - t", "c*T", "c*qx*qy", "qx"):
            add(2, [3, 2], [src(q9, ("qy", e)), src(t5, ("T", "g*(1 - T)"))], sorder=list(so))
            add(2, [3, 3], [src(q9, ("qx", e)), t5], sorder=list(so))
    for so in list(itertools.permutations(range(4)))[:: 1 if th else 3]:
        for n in ([2, 3, 2], [2, 2, 2]):
            add(3, n, [src(L.d3q7(), ("rho", "c*rho*(1 - rho)"))], sorder=list(so))
    cy += [L.desc(2, [3, 2], [src(q9, ("qx", "c*rho*qy"), ("qy", "g*t"))], params=P, sorder=so) for so in ([0, 2, 1], [1, 2, 0])]
    for d in cy:
        yield dict(d, gen="cython")
    # the same sources in the other algorithm and in split loops
    for i, (d, settings) in enumerate(itertools.product(cy[:3], ({"m_local": True, "split": False}, {"m_local": False, "split": False}, {"m_local": False, "split": True}))):
        if th or i % 2 == 0:
            yield dict(d, gen="cython", algo="base", settings=settings)
    for i, d in enumerate(out):
        if th or i % 4 == 0:
            yield dict(d, gen="numpy", algo="base", settings={"split": i % 8 == 4})
        if th or i % 8 == 2:
            yield dict(d, gen="numpy", algo="pull", settings={"split": True})
    for d in out:
        yield dict(d, gen="numpy")
    # with a relative velocity: the totals of the conserved moments
    for rv in (["0.1"], ["U"], ["0.2*rho"]):
        for e in ("0.4", "c*rho", "c*t", "rho*(1 - rho)"):
            for s in (q2, q3s):
                for algo in (None, "base"):
                    yield L.desc(1, [3], [src(s, ("rho", e))], params=dict(P, U=0.15), relvel=rv, gen="numpy", **({"algo": algo} if algo else {}))


class GS(Ref):
    """sources applied one after the other, each seeing the previous ones"""

    order = "moment"

    def half_source(self, m):
        out = m.copy()
        for c in sorted(self.source, key=lambda c: self.consm[c]):
            out[self.consm[c]] = out[self.consm[c]] + self.dt / 2 * ev(self.source[c], self.env(out))
        return out


class BGS(GS, BRef):
    pass


def run_relvel(d, ctx):
    import pylbm

    sim = pylbm.Simulation(to_dico(d, d["gen"]))
    ref = Ref(d)
    e = d["schemes"][0]["source"]["rho"]
    nv, n = ref.nv, ref.n[0]
    base = np.full((nv, n), 0.25)
    for k in range(nv):
        for val in (0.0, 0.5):
            f = base.copy()
            f[k, 0] += val
            set_F(sim, f)
            t = sim.t
            r0 = sum(ref.stream(f))
            S = lambda r: np.broadcast_to(ev(e, dict(d["params"], rho=r, t=t)), r.shape)
            r1 = r0 + ref.dt / 2 * S(r0)
            exp = r1 + ref.dt / 2 * S(r1)
            lost = r0 + ref.dt / 2 * S(r0)
            sim.one_time_step()
            ctx.step()
            got = sum(get_F(sim, nv))
            ctx.state(got)
            ctx.outcome(got)
            if not close(got, exp):
                ctx.fail("density after a step with a source and a relative velocity: %s" % maxdiff(got, exp),
                         key="relative-velocity" if close(got, lost) else None)
    ctx.trace()


def run_case(d, ctx):
    import pylbm

    d = normalise(d)
    if d.get("relvel"):
        return run_relvel(d, ctx)
    d["init"] = {c: 0.3 + 0.1 * i for s in d["schemes"] for i, c in enumerate(s["consm"])}
    walls = bool(d["bc"])
    sim = pylbm.Simulation(to_bdico(d, d["gen"]) if walls else to_dico(d, d["gen"]), sorder=d.get("sorder"))
    ref = BRef(d, sim.domain) if walls else Ref(d)
    alt = BGS(d, sim.domain) if walls else GS(d)
    fluid = ref.fluid if walls else np.ones(tuple(d["n"]), bool)
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample({k: d[k] for k in ("dim", "n", "schemes")})
    m = np.zeros((nv,) + shape)
    for c, v in d["init"].items():
        m[ref.consm[c]] = v
    f = ref.m2f(ref.equilibrium(m))
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    starts = [None, (np.cos(3.7 * g + 0.3) * 0.1 + 0.2).reshape((nv,) + shape), (np.sin(1.3 * g) * 0.2).reshape((nv,) + shape)]
    if not walls:
        for k in range(nv):
            for i in np.ndindex(*shape):
                b = np.zeros((nv,) + shape)
                b[(k,) + i] = 0.5
                starts.append(b)
    seq = False  # the sources have been seen to act one after the other
    for n, f0 in enumerate(starts):
        if f0 is not None:
            set_F(sim, f0)
            f = f0
        h = f
        alt.t = ref.t
        for it in range(4 if n == 0 else 2):
            sim.one_time_step()
            if not seq:
                h = f
            f = ref.step(f)
            h = alt.step(h)
            ctx.step()
            got = get_F(sim, nv)
            with np.errstate(all="ignore"):
                if not np.nanmax(np.abs(np.where(fluid, got, 0))) < 1e3:
                    break
            if not match(got, f, fluid)[0]:
                ok, cmp_, where, err = match(got, h, fluid)
                ctx.fail("start %d step %d: distributions differ by %g" % (n, it + 1, match(got, f, fluid)[3]), key="coupled-sources" if ok else None)
                if not ok:
                    return
                seq = True
            ctx.state(np.where(fluid[None], got, 0))
            ctx.outcome(np.where(fluid[None], got, 0))
        ctx.trace()
        seq = False
