"""S04: relative velocity"""
import itertools

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico

RULE = "one case = one scheme with a relative velocity; basis of states (plus a background where the velocity divides by a moment), dense states, 2-3 steps"
ASSUMPTIONS = ["the relative velocity is finite on the states explored", "tolerance 1e-9"]
CASE_TIMEOUT = 300


def bounds(tier):
    return "1D/2D/3D schemes with up to 9 velocities, constant and moment dependent relative velocities, equal and distinct relaxation rates, several schemes, all orders of the moments of a D1Q3, conserved moments with a null rate or not; both algorithms, fused and split loops, several scheme velocities and storage orders"


RV1 = [["0"], ["0.1"], ["-0.35"], ["U"], ["q/rho"], ["0.3*q"], ["0.2 + 0.1*rho"]]
RV1s = [["0"], ["0.1"], ["-0.35"], ["U"], ["0.2*rho"], ["0.1*rho**2"]]
RV2 = [["0", "0"], ["0.1", "0"], ["0", "-0.2"], ["U", "0.3"], ["qx/rho", "qy/rho"], ["0.2*qy", "0.1 + 0.1*qx"]]
RV2s = [["0", "0"], ["0.1", "-0.2"], ["0.2*rho", "0.05"], ["0", "U*rho"]]
RV3 = [["0", "0", "0"], ["0.1", "-0.2", "0.05"], ["0.1*rho", "0", "U"]]


def described(tier):
    th = tier == "thorough"
    P = {"c": 0.35, "U": 0.15}
    rates = ["0.8", "1", "1.7"]
    out = []
    for rv in RV1:
        for s in rates + ["w"]:
            out.append((1, [4], [L.d1q3((s,), "0.4*rho + 0.1*q")], rv))
            out.append((1, [4], [L.d1q3((s,), "rho/2 + q**2/rho" if "rho" in rv[0] else "rho/2 + q**2")], rv))
        for s in itertools.product(rates, repeat=3):
            if th or len(set(s)) != 2:
                out.append((1, [4], [L.d1q5(s)], rv))
    for rv in RV1s:
        for s in itertools.product(rates + ["w"], repeat=2):
            out.append((1, [4], [L.d1q3s(s)], rv))
        out.append((1, [3], [L.d1q2("1.3", "0.2*rho")], rv))
        out.append((1, [5], [L.d1q3s(("0.8", "1.9"), vel=(0, 3, 4))], rv))
        a = L.d1q2("1.3", "0.2*rho + 0.1*T")
        b = L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")
        out.append((1, [4], [a, b], rv))
        out.append((1, [4], [b, a], rv))
        # any order of the moments
        base = L.d1q3s(("0.8", "1.9"))
        for p in itertools.permutations(range(3)):
            out.append((1, [4], [L.sch(base["vel"], [base["poly"][i] for i in p], [base["s"][i] for i in p], [base["eq"][i] for i in p], ["rho"])], rv))
    for rv in RV2:
        for s in (("1.5",) * 6, ("1.1", "1.2", "1.3", "1.4", "1.5", "1.6"), ("0.5", "1", "1.9", "1", "1.3", "0.7")):
            out.append((2, [3, 2], [L.d2q9(s, nonlinear=False)], rv))
        out.append((2, [3, 3], [L.d2q9(("1.1", "1.2", "1.3", "1.4", "1.5", "1.6"))], rv))
    for rv in RV2s:
        for s in (("1.5",) * 4, ("1.5", "0.7", "1.1", "1.9"), ("1.2", "1.2", "1", "0.3")):
            out.append((2, [3, 2], [L.d2q5(s)], rv))
        out.append((2, [2, 3], [L.d2q4()], rv))
        t2 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
        out.append((2, [2, 3], [L.d2q4(), t2], rv))
    for rv in RV3:
        out.append((3, [2, 2, 2], [L.d3q6()], rv))
        out.append((3, [2, 2, 2], [L.d3q7()], rv))
        out.append((3, [2, 2, 2], [L.d3q7(("1.4",) * 6)], rv))
    # the rates of the conserved moments, which are at equilibrium, do not matter
    def relaxed(sch, w):
        return dict(sch, s=[w if x == "0" else x for x in sch["s"]])

    for w in ("1.7", "0.6", "w"):
        for rv in RV1:
            out.append((1, [4], [relaxed(L.d1q3((w,), "0.4*rho + 0.1*q"), w)], rv))
            out.append((1, [4], [relaxed(L.d1q5(("0.8", "1", "1.7")), w)], rv))
        for rv in RV1s:
            out.append((1, [4], [relaxed(L.d1q3s(("0.8", w)), w)], rv))
        for rv in RV2:
            out.append((2, [3, 2], [relaxed(L.d2q9(("1.1", "1.2", "1.3", "1.4", "1.5", "1.6"), nonlinear=False), w)], rv))
        for rv in RV2s:
            a, b = L.d2q4(), L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
            out.append((2, [2, 3], [relaxed(a, w), b], rv))
    cy = [
        (1, [4], [relaxed(L.d1q3(("1.7",), "0.4*rho + 0.1*q"), "1.7")], ["0.1"]),
        (1, [4], [L.d1q3(("1.7",), "0.4*rho + 0.1*q")], ["q/rho"]),
        (2, [3, 2], [L.d2q9(("1.1", "1.2", "1.3", "1.4", "1.5", "1.6"), nonlinear=False)], ["qx/rho", "0.1 + 0.1*qy"]),
        (2, [2, 3], [L.d2q5()], ["0.2*rho", "-0.1"]),
        (1, [4], [L.d1q5()], ["0.1"]),
    ]
    for gen, lst in (("cython", cy), ("numpy", out)):
        for dim, n, schs, rv in lst:
            params = dict(P)
            if any(x == "w" for s in schs for x in s["s"]):
                params["w"] = 1.25
            yield L.desc(dim, n, schs, params=params, relvel=rv, gen=gen)


def cases(tier):
    yield from L.algorithms(described(tier), 1 if tier == "thorough" else 3)


def run_case(d, ctx):
    import pylbm

    sim = pylbm.Simulation(to_dico(d, d["gen"]), sorder=d.get("sorder"))
    ref = Ref(d)
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample(d)
    cons = set(ref.consm.values())
    rates = {s for i, s in enumerate(ref.s) if i not in cons}
    depends = any(c in "".join(d["relvel"]) for c in ref.consm)
    same = len(rates) == 1
    plain = Ref({k: v for k, v in d.items() if k != "relvel"})
    # a one-rate scheme is only insensitive to the frame if the conserved moments are too:
    # they are at equilibrium, so relaxing them or not is the same thing
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    dense = (np.cos(3.7 * g + 0.3) * 0.1 + 0.5).reshape((nv,) + shape)
    divides = "/rho" in "".join(d["relvel"]) or any("/rho" in e for s in d["schemes"] for e in s["eq"])
    states = [dense]
    for k in range(nv):
        for i in np.ndindex(*shape):
            f = np.full_like(dense, 0.25 if divides else 0.0)
            f[(k,) + i] += 1.0
            states.append(f)
    for n, f0 in enumerate(states):
        set_F(sim, f0)
        f = h = f0
        for it in range(5 if n == 0 else 2):
            sim.one_time_step()
            f = ref.step(f)
            ctx.step()
            if not np.max(np.abs(f)) < 1e3:
                break
            got = get_F(sim, nv)
            if not ctx.check(close(got, f), lambda: "state %d step %d: %s" % (n, it + 1, maxdiff(got, f))):
                return
            if same and not depends:
                h = plain.step(h)
                if not ctx.check(close(got, h), lambda: "state %d step %d: one relaxation rate, constant relative velocity, but the solution differs from the one without: %s" % (n, it + 1, maxdiff(got, h))):
                    return
            ctx.state(got)
            ctx.outcome(got)
        ctx.trace()
