"""N01: a parameter has the value in force when a step runs, whichever way it is given"""
import itertools
import re

import numpy as np

from .. import schemes as L
from ..bref import BRef, match, normalise, to_bdico
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico
from .b02 import NO, lab

RULE = "one case = one description and one way of giving every one of its parameters; the initial data, then every sequence of values of the parameters given at run time over the steps, and the phases run one by one, compared with the reference interpreter which knows the numbers only"
ASSUMPTIONS = [
    "a parameter of the moments (polynomials), of a prescribed boundary value, or the scheme velocity keeps its value during a run",
    "keyword arguments of a step replace the value of a parameter which also has one in extra_parameters",
    "tolerance 1e-9",
]
CASE_TIMEOUT = 300
# number: written in the expressions; param: in `parameters`; chain: in `parameters`, through another one;
# chainx: in `parameters`, through one given at run time; extra: extra_parameters; kw: argument of the step
WAYS = ["number", "param", "chain", "chainx", "extra", "kw"]


# names of a parameter
NAMES = ["lambda", "k", "v", "dim", "mm", "extra", "local", "kwargs", "self", "simulation", "args", "d", "s", "key", "value", "func", "queue", "lambda_", "w_0", "Lambda", "eq", "dx", "la", "i", "j", "x", "relax", "sigma", "mu"]


def bounds(tier):
    return "6 ways for every one of up to 3 parameters (scheme velocity, relaxation rates, equilibria, polynomials, sources, relative velocity, walls), all combinations; all sequences of 2 values over 3 steps; numpy, cython on selected combinations"


def descs():
    q3 = L.d1q3(("w",), "k*rho + q**2/3")
    src = lambda s, **kw: dict(s, source=kw)
    D = {}
    # name: (desc, values, second values of those which may change)
    D["q3"] = (L.desc(1, [4], [q3], la=2.0), {"w": 1.7, "k": 0.4}, {"w": 0.6, "k": 0.75})
    D["q3la"] = (L.desc(1, [4], [L.d1q3(("w",), "LA**2*rho/3 + k*q")], la=2.0), {"w": 1.7, "k": 0.4}, {"w": 1.1, "k": -0.2})
    D["two"] = (L.desc(1, [4], [L.d1q2("w", "k*rho + T/9"), L.d1q3s(("z", "w"), ("0.3*T", "k*T"), u="T")]), {"w": 1.2, "z": 0.7, "k": 0.3}, {"w": 1.9, "z": 1.4, "k": 0.1})
    D["poly"] = (L.desc(1, [4], [L.sch((0, 1, 2), ["1", "X", "X**2 + a*X"], ["0", "w", "1.3"], ["rho", "0.2*rho", "k*rho"], ["rho"])]), {"a": 0.5, "w": 0.9, "k": 0.4}, {"w": 1.8, "k": 0.6})
    D["src"] = (L.desc(1, [4], [src(q3, q="g*rho - k*q", rho="g*t")]), {"w": 1.3, "k": 0.4, "g": 0.15}, {"w": 1.6, "k": 0.2, "g": -0.3})
    D["rel"] = (L.desc(1, [4], [L.d1q3(("w",), "0.4*rho + 0.1*q")], relvel=["v"]), {"w": 1.3, "v": 0.2}, {"w": 0.7, "v": -0.1})
    D["relm"] = (L.desc(1, [4], [L.d1q3s(("w", "1.1"), ("v*rho", "0.4*rho"))], relvel=["v*rho"]), {"w": 1.3, "v": 0.2}, {"w": 0.7, "v": -0.1})
    for nm in NAMES:
        D["name_" + nm] = (L.desc(1, [4], [L.d1q2("1.4", "zz*rho")]), {"zz": 0.3}, {"zz": 0.0})
    D["q5"] = (L.desc(2, [3, 2], [L.d2q5(("w", "w", "z", "1.9"), ("k*rho", "-k*rho", "0.3*rho", "0"))]), {"w": 1.2, "z": 0.8, "k": 0.25}, {"w": 0.9, "z": 1.5, "k": 0.1})
    D["q7"] = (L.desc(3, [2, 3, 2], [L.d3q7(("w", "w", "w", "1.1", "z", "z"))]), {"w": 1.2, "z": 0.8, "c": 0.25}, {"w": 0.9, "z": 1.5, "c": 0.1})
    D["wall"] = (L.desc(1, [5], [L.d1q3(("w",), "k*rho + q**2/3")], label=[0, 1], bc={0: lab("bb", ("spacetime", True, None)), 1: lab("abb", ("space", False, None))}), {"w": 1.3, "k": 0.4}, {"w": 0.8})
    D["wall2"] = (L.desc(2, [3, 4], [L.d2q5(("w", "w", "z", "1.9"), ("k*rho", "0", "0.3*rho", "0"))], label=[0, 1, -1, -1], bc={0: lab("abb", ("spacetime", True, None)), 1: lab("bouzidi", NO)}), {"w": 1.3, "z": 0.9, "k": 0.3}, {"w": 0.8, "z": 1.7})
    for d, v, v2 in D.values():
        d["params"] = {}
    return D


def cases(tier):
    th = tier == "thorough"
    D = descs()
    cy = []
    for name, ways in (
        ("q3", {"LA": "extra", "w": "extra", "k": "kw"}), ("q3la", {"LA": "chainx", "w": "kw", "k": "extra"}), ("two", {"LA": "number", "w": "extra", "z": "kw", "k": "chainx"}),
        ("poly", {"LA": "param", "a": "extra", "w": "chainx", "k": "kw"}), ("src", {"LA": "extra", "w": "param", "k": "kw", "g": "extra"}), ("rel", {"LA": "extra", "w": "kw", "v": "extra"}),
        ("wall", {"LA": "chain", "w": "extra", "k": "chainx"}), ("q5", {"LA": "extra", "w": "extra", "z": "kw", "k": "chainx"}), ("name_lambda", {"LA": "extra", "zz": "extra"}), ("name_k", {"LA": "param", "zz": "chainx"}),
    ):
        cy.append(dict(name=name, gen="cython", ways=ways))
        if th:
            for w in WAYS[1:]:
                cy.append(dict(name=name, gen="cython", ways={k: w if w != "kw" or k in D[name][2] else "extra" for k in ways}))
    yield from cy
    n = 0
    for name, (d, vals, second) in D.items():
        names = ["LA"] + list(vals)
        for combo in itertools.product(WAYS, repeat=len(names)):
            ways = dict(zip(names, combo))
            if any(w == "kw" and k not in second for k, w in ways.items()):
                continue
            if len(names) > 3 and not th and WAYS.index(ways["LA"]) != min(4, sum(map(WAYS.index, combo[1:])) % 6):
                continue
            if name.startswith("name_") and (ways["LA"] != "param" or ways["zz"] == "kw" and name[5:] in ("lambda", "self", "simulation")):
                continue  # (python has no keyword arguments with these names)
            n += 1
            # (split loops and relative velocities: S05)
            yield dict(name=name, gen="numpy", ways=ways, **({"alg": 1 if "relvel" in d else 1 + n // 3 % 3} if n % 3 == 0 else {}))


def write(e, name, value):
    return re.sub(r"\b%s\b" % name, "(%r)" % value, e) if isinstance(e, str) else e


def described(name, d, ways, vals, dico_of, gen):
    """the dictionary of pylbm, and the parameters of the run time"""
    import sympy as sp

    d = dict(d, extra={})
    extra, params = {}, {}
    for k, w in ways.items():
        v = vals[k]
        if w == "number":
            if k == "LA":
                d["la_symbol"] = False
            f = lambda e: write(e, k, v)
            d["schemes"] = [dict(s, poly=list(map(f, s["poly"])), s=list(map(f, s["s"])), eq=list(map(f, s["eq"])),
                                 **({"source": {c: f(e) for c, e in s["source"].items()}} if "source" in s else {})) for s in d["schemes"]]
            if "relvel" in d:
                d["relvel"] = list(map(f, d["relvel"]))
            continue
        d["extra"][k] = 0
        S = sp.Symbol(k)
        if w == "param":
            params[S] = v
        elif w == "chain":
            h = sp.Symbol("h_" + k)
            params[S] = 2 * h - 1
            params[h] = (v + 1) / 2
        elif w == "chainx":
            h = sp.Symbol("h_" + k)
            params[S] = 2 * h - 1
            extra[h] = (v + 1) / 2
        else:
            extra[S] = v
    dico = dico_of(d, gen)
    if name.startswith("name_"):
        new = sp.Symbol(name[5:])
        dico["schemes"][0]["equilibrium"] = [e.subs(sp.Symbol("zz"), new) for e in dico["schemes"][0]["equilibrium"]]
        for p in (params, extra):
            if sp.Symbol("zz") in p:
                p[new] = p.pop(sp.Symbol("zz"))
    dico.pop("parameters", None)
    if params:
        dico["parameters"] = params
    return dico, extra


def run_case(case, ctx):
    import pylbm
    import sympy as sp

    d, vals, second = descs()[case["name"]]
    walls = "bc" in d
    if walls:
        d = normalise(d)
    vals = dict(vals, LA=d["la"])
    ways = case["ways"]
    ctx.sample(case)
    d["init"] = {c: 0.3 + 0.1 * i for s in d["schemes"] for i, c in enumerate(s["consm"])}
    dico, extra = described(case["name"], d, ways, vals, to_bdico if walls else to_dico, case["gen"])
    alg = case.get("alg", 0)
    if alg:
        # another algorithm, split loops, another storage order
        dico["lbm_algorithm"] = {"name": pylbm.algorithm.BaseAlgorithm if alg % 2 else pylbm.algorithm.PullAlgorithm, "settings": {"split": alg > 1}}
        perms = list(itertools.permutations(range(d["dim"] + 1)))
        sorder = list(perms[(7 * alg) % len(perms)])
    full = dict(d, params={k: v for k, v in vals.items() if k != "LA"})
    later = any(w in ("extra", "kw", "chainx") for w in ways.values())
    sim = pylbm.Simulation(dico, sorder=sorder if alg else None, initialize=not later)
    # names of what is replaced during the run
    run = [k for k in second if ways[k] in ("extra", "chainx")]
    kws = [k for k in second if ways[k] == "kw"]
    sym = lambda k: sp.Symbol(case["name"][5:] if k == "zz" else k)
    decoy = {k: 0.5 * vals[k] + 0.25 for k in kws}

    def give(values):
        e = dict(extra)
        for k in run:
            if ways[k] == "extra":
                e[sym(k)] = values[k]
            else:
                e[sp.Symbol("h_" + k)] = (values[k] + 1) / 2
        for k in kws:
            e[sym(k)] = decoy[k]
        sim.extra_parameters = e

    ref = BRef(full, sim.domain) if walls else Ref(full)
    fluid = ref.fluid if walls else np.ones(tuple(d["n"]), bool)
    nv, shape = ref.nv, tuple(ref.n)
    put = lambda v: ref.params.update({k: x for k, x in v.items() if k != "LA"})
    give(vals)
    if not ctx.check(abs(sim.dt - d["dx"] / d["la"]) < 1e-14, lambda: "time step %s instead of %s" % (sim.dt, d["dx"] / d["la"])):
        return

    def same(exp, what):
        got = get_F(sim, nv)
        ok, _, where, err = match(got, exp, fluid)
        ctx.state(np.where(fluid[None], got, 0))
        ctx.outcome(what)
        return ctx.check(ok, lambda: "%s: distributions differ by %.3g at %s" % (what, err, where))

    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    dense = (np.cos(3.7 * g + 0.3) * 0.1 + 0.3).reshape((nv,) + shape)
    basis = np.full((nv,) + shape, 0.05)
    basis[(0,) + (0,) * len(shape)] += 0.5
    # initial data: at equilibrium for the values in force
    m = np.zeros((nv,) + shape)
    for c, v in d["init"].items():
        m[ref.consm[c]] = v
    put({**vals, **decoy})
    start = ref.m2f(ref.equilibrium(m))
    # all the sequences of values of the run time
    choices = [vals, {**vals, **second}] if run or kws else [vals]
    syms = {str(k): k for k in sim.scheme.consm}
    for ns, seq in enumerate(itertools.product(range(len(choices)), repeat=3)):
        if ns == 0:
            f = start
        else:
            f = [dense, basis][ns % 2]
            set_F(sim, f)
        for it, c in enumerate(seq):
            # a parameter of each way changes on its own steps
            now = {k: choices[c][k] if k in kws or k in run else vals[k] for k in vals}
            give(now)
            keyed = (it + ns) % 3 != 2  # a step without its keywords uses the other value
            put({**now, **({} if keyed else decoy)})
            sim.one_time_step(**({str(sym(k)): now[k] for k in kws} if keyed else {}))
            f = ref.step(f)
            ctx.step()
            if ns == 0 and it == 0 and not same(f, "first step"):
                return
            if not same(f, "values %s, step %d %s" % (seq, it + 1, "" if keyed else "without keyword")):
                return
            with np.errstate(all="ignore"):
                if not np.nanmax(np.abs(np.where(fluid[None], f, 0))) < 1e3:
                    break
            if it == 1:
                mom = ref.f2m(f)
                for cname, i in ref.consm.items():
                    ok, _, where, err = match(np.array(sim.m[syms[cname]])[None], mom[i][None], fluid)
                    if not ctx.check(ok, lambda: "values %s: moment %s differs by %.3g" % (seq, cname, err)):
                        return
        ctx.trace()
    # the phases one by one
    if walls or "relvel" in d:
        return
    for n, c in enumerate(choices):
        now = {k: c[k] if k in kws or k in run else vals[k] for k in vals}
        give(now)
        kw = {str(sym(k)): now[k] for k in kws}
        put(now)
        for phase in ("relaxation", "equilibrium") + (("source_term",) if ref.source else ()):
            set_F(sim, dense)
            getattr(sim, phase)(**kw)
            sim.m2f(**kw)
            mm = ref.f2m(dense)
            ref.t = sim.t
            mm = {"relaxation": ref.relax, "equilibrium": ref.equilibrium, "source_term": ref.half_source}[phase](mm)
            ctx.step()
            if not same(ref.m2f(mm), "%s with values %d" % (phase, n)):
                return
