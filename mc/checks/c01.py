"""C01: the generated code computes the expressions of the user"""
import itertools
import json
import math
import os

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico

RULE = "one case = one batch of expression trees given as equilibrium, relaxation rate or source of one simulation (values of every cell compared with those of an independent evaluator), or one description whose parameters are chained, ordered or named in one way, or whose polynomials contain parameters"
ASSUMPTIONS = [
    "cells where the expression has no finite real value are not compared",
    "functions: sin cos tan exp log sqrt sinh cosh tanh asin acos atan asinh atan2 Abs floor ceiling sign Min Max Piecewise",
    "relative tolerance 1e-9", "names are identifiers (python keywords included)",
]
CASE_TIMEOUT = 300

U = np.array([-2.3, -0.9, -0.35, 0.15, 0.55, 1.0, 2.45, 3.1])
V = np.array([0.25, 0.5, 1.05, 1.55, 2.0, 3.15, 0.15, 0.7])
PARAMS = {"a": 1.5, "b": -2, "n": 3, "h": 0.5}

UNARY = [
    "(-{0})", "({0})**2", "({0})**3", "({0})**(-1)", "({0})**(-2)", "({0})**(-3)", "({0})**Rational(1,2)", "({0})**Rational(-1,2)",
    "({0})**Rational(3,2)", "({0})**0.7", "({0})**(-1.3)", "({0})**a", "({0})**b", "({0})**n", "({0})**h", "2**({0})", "a**({0})", "1/(1 + ({0})**2)",
    "sin({0})", "cos({0})", "tan({0})", "exp({0})", "log({0})", "sqrt({0})", "sinh({0})", "cosh({0})", "tanh({0})",
    "asin({0}/4)", "acos({0}/4)", "atan({0})", "asinh({0})", "Abs({0})", "floor({0})", "ceiling({0})", "sign({0})", "pi*({0})",
]
SHORT = ["(-{0})", "({0})**2", "({0})**(-1)", "({0})**Rational(1,2)", "({0})**Rational(-3,2)", "({0})**b", "({0})**a", "2**({0})", "sin({0})", "exp({0})", "log({0})", "Abs({0})", "tanh({0})", "floor({0})"]
BINARY = ["({0}) + ({1})", "({0}) - ({1})", "({0})*({1})", "({0})/({1})"]
REL = ["<", "<=", ">", ">=", "==", "!="]
LEAVES = ["u", "v", "a", "b", "n", "2", "Rational(1,2)", "0.3", "Rational(-7,3)", "1e-3", "0.1234567890123", "1.5e-8"]


def pw(*args):
    return "Piecewise(%s)" % ", ".join("(%s, %s)" % a for a in args)


def rel(op, a, b):
    return {"==": "Eq(%s, %s)", "!=": "Ne(%s, %s)"}.get(op, "(%s) " + op + " (%s)") % (a, b)


def grammar(tier):
    """name of the family -> list of expressions"""
    th = tier == "thorough"
    one = [f.format(x) for f in UNARY for x in ("u", "v", "a*u")]
    two = [f.format(x, y) for f in BINARY for x in LEAVES for y in LEAVES if ("u" in (x, y) or "v" in (x, y))]
    two += ["atan2(%s, %s)" % p for p in (("u", "v"), ("v", "u"), ("u", "a"))]
    two += ["%s(%s)" % (f, ", ".join(p)) for f in ("Min", "Max") for p in (("u", "v"), ("u", "2"), ("v", "Rational(1,2)"), ("u", "v", "1"), ("u", "2*v", "a", "-u"))]
    args = [f.format(x, y) for f in BINARY for x, y in (("u", "v"), ("u", "a"), ("2", "u"), ("v", "Rational(1,3)"), ("u**2", "v"), ("v", "u*v"))]
    deep = [f.format(x) for f in (UNARY if th else SHORT) for x in (args + ["sin(u)", "u**2", "v**(-1)", "sqrt(v)", "-u", "exp(u)"])]
    comb = [f.format(g.format(x), h.format(y)) for f in BINARY for g in SHORT for h in SHORT for x, y in ((("u", "v"),) if not th else (("u", "v"), ("v", "u"), ("u", "u"), ("u + v", "v")))]
    cond = []
    for op in REL:
        for x, y in (("u", "v"), ("u", "1"), ("u*v", "a"), ("0.15", "u"), ("v", "b")):
            cond.append(pw(("u", rel(op, x, y)), ("v**2", "True")))
    for op, op2 in itertools.product(REL, REL):
        cond.append(pw(("u", rel(op, "u", "1")), ("v", rel(op2, "v", "Rational(1,2)")), ("-u", "True")))
    for op in REL:
        c, d = rel(op, "u", "Rational(1,10)"), rel(op, "v", "1")
        cond += [pw(("u", "And(%s, %s)" % (c, d)), ("v", "True")), pw(("u", "Or(%s, %s)" % (c, d)), ("v", "True")), pw(("u", "And(%s, Not(%s))" % (c, d)), ("2", "True")), pw(("u", "Or(And(%s, %s), v > 2)" % (c, d)), ("2", "True"))]
        p = pw(("u", c), ("v", "True"))
        cond += ["%s + 1" % p, "-2*%s" % p, "(%s)**2" % p, "(%s)**(-1)" % p, "sin(%s)" % p, "u/(%s)" % p, "(%s)*(%s)" % (p, pw(("u", d), ("v", "True"))), pw((p, "v > Rational(1,2)"), ("3", "True"))]
    fam = {"one": one, "two": two, "deep": deep, "comb": comb, "cond": cond}
    if th:
        lv = ["u", "v", "a", "2", "Rational(1,2)"]
        fam["nest"] = ["(%s)%s((%s)%s(%s))" % (x, f, y, g, z) for f in "+-*/" for g in ("+", "-", "*", "/", "**") for x, y, z in itertools.product(lv, repeat=3) if "u" in (x, y, z)]
        fam["nest2"] = ["((%s)%s(%s))%s(%s)" % (x, f, y, g, z) for f in "+-*/" for g in ("-", "/", "**") for x, y, z in itertools.product(lv, repeat=3) if "u" in (x, y, z)]
    else:
        lv = ["u", "v", "2"]
        fam["nest"] = ["(%s)%s((%s)%s(%s))" % (x, f, y, g, z) for f in "-*/" for g in ("-", "/", "**") for x, y, z in itertools.product(lv, repeat=3) if "u" in (x, y, z)]
    for k in fam:
        fam[k] = [e for e in fam[k] if np.isfinite(evaluate(e, {"u": U, "v": V, **PARAMS})).any()]
    return fam


class F:
    """functions of the evaluator (floats and conditions as arrays)"""

    Rational = staticmethod(lambda p, q: p / q)
    sin, cos, tan, exp, log, sqrt = np.sin, np.cos, np.tan, np.exp, np.log, np.sqrt
    sinh, cosh, tanh, asin, acos, atan, asinh, atan2 = np.sinh, np.cosh, np.tanh, np.arcsin, np.arccos, np.arctan, np.arcsinh, np.arctan2
    Abs, floor, ceiling, sign, pi = np.abs, np.floor, np.ceil, np.sign, math.pi
    Eq, Ne, And, Or, Not = np.equal, np.not_equal, np.logical_and, np.logical_or, np.logical_not
    Min = staticmethod(lambda *x: np.min(np.broadcast_arrays(*x), axis=0))
    Max = staticmethod(lambda *x: np.max(np.broadcast_arrays(*x), axis=0))

    @staticmethod
    def Piecewise(*args):
        out = np.full(U.shape, np.nan)
        for e, c in reversed(args):
            out = np.where(c, e, out)
        return out


def evaluate(expr, env):
    ns = {k: getattr(F, k) for k in dir(F) if k[0] != "_"}
    with np.errstate(all="ignore"):
        # numbers are floats, so that 2/3, (-2)**(1/2).. are those of real numbers
        val = eval(numbers(expr), {"__builtins__": {}}, {**ns, **{k: np.float64(w) if np.isscalar(w) else w for k, w in env.items()}, "_f": np.float64})
    val = np.broadcast_to(np.asarray(val, float), U.shape).copy()
    val[~np.isfinite(val)] = np.nan
    return val


def numbers(expr):
    import re

    return re.sub(r"(?<![\w.])(\d+\.?\d*(?:e-?\d+)?)(?![\w.(])", r"_f(\1)", expr)


def symbolic(expr, loc):
    import sympy as sp

    ns = {k: getattr(sp, k) for k in ("Rational", "sin", "cos", "tan", "exp", "log", "sqrt", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "atan2", "Abs", "floor", "ceiling", "sign", "pi", "Eq", "Ne", "And", "Or", "Not", "Min", "Max", "Piecewise")}
    return sp.sympify(eval(expr, {"__builtins__": {}}, {**ns, **loc, "True": True}))


SIZE = 38


def batches(exprs):
    # integer division of literals would be done by python and not by sympy: none is written
    for i in range(0, len(exprs), SIZE):
        yield exprs[i:i + SIZE]


CHAINS = [
    {"k": "2*p", "p": "w + 1", "w": 0.5},
    {"k": "p**2 + w", "p": "w/4", "w": 2},
    {"k": "-p", "p": "-w", "w": -0.75},
    {"k": "p*w*z", "p": "w + z", "w": "z**2", "z": 0.5},
]
POLY = [
    ["1", "X", "X**2"], ["1", "X + w", "X**2 - w"], ["1", "w*X", "X**2/2 + k*X"], ["1 + w", "X", "(X - k)**2"], ["1", "X/LA", "X**2/LA**2"],
    ["w", "X*w + X**2", "X**2*k"], ["1", "X", "3*X**2 - 2*LA**2"], ["1", "X - X**2", "X + X**2"], ["1", "X*Rational(1,3)", "X**2*Rational(-2,7)"],
    ["1", "0.3*X", "X**2 + 1e-3"], ["1", "X*(X + 1)*(X - w)", "X**2 - Rational(2,3)*LA**2"],
]
NAMES = ["m", "f", "t", "x", "X_", "xx", "yy", "i", "k", "ix", "ix_", "iy", "nx", "dt", "dx", "fnew", "feq", "n", "l", "S", "N", "Q", "C", "O", "E", "I", "pi", "beta", "gamma", "zeta", "Lambda", "LA0", "rho", "rho_", "alpha_1", "u0", "iv", "nv", "rhs", "self", "source_0", "source", "rel_ux", "test", "np", "sin0", "e", "A", "F", "M", "T", "ux", "in_or_out", "lambda", "in", "def", "sin", "exp", "Symbol", "Max", "m_0", "one_time_step", "numpy", "range", "int", "double", "sqrt", "float"]


def bounds(tier):
    n = {k: len(v) for k, v in grammar(tier).items()}
    return "expression trees %s as equilibrium on 8 cells (numpy: all, Cython: %s); rates, sources: families one and cond; chains of 3-4 parameters in every order; %d polynomial families; %d names for a moment and for a parameter" % (n, "all" if tier == "thorough" else "one, cond and every combination of two functions", len(POLY), len(NAMES))


def cases(tier):
    fam = grammar(tier)
    th = tier == "thorough"
    for k, ex in fam.items():
        if th or k in ("one", "cond"):
            for b in batches(ex):
                yield {"what": "eq", "gen": "cython", "exprs": b}
    for b in batches(fam["one"][1::3] + fam["cond"][1::4]):
        yield {"what": "rate", "gen": "cython", "exprs": b}
    if not th:
        ops = [f.format(g.format("u"), h.format("v")) for f, (g, h) in zip(itertools.cycle(BINARY), itertools.product(SHORT, SHORT))]
        for b in batches(ops):
            yield {"what": "eq", "gen": "cython", "exprs": b}
    for b in batches(fam["one"][::3] + fam["cond"][::4]):
        yield {"what": "source", "gen": "cython", "exprs": b[:20]}
    for k, ex in fam.items():
        for b in batches(ex):
            yield {"what": "eq", "gen": "numpy", "exprs": b}
    for b in batches(fam["one"] + fam["cond"]):
        yield {"what": "rate", "gen": "numpy", "exprs": b}
    src = fam["one"] + fam["cond"] if th else fam["one"] + fam["cond"][::3]
    for i in range(0, len(src), 18):
        yield {"what": "source", "gen": "numpy", "exprs": src[i:i + 18]}
    for c in CHAINS:
        for order in itertools.permutations(c):
            yield {"what": "chain", "gen": "numpy", "chain": c, "order": list(order)}
    for p in POLY:
        for la in (1.0, 2.0):
            yield {"what": "poly", "gen": "numpy", "poly": p, "la": la}
    for nm in NAMES:
        yield {"what": "name", "gen": "numpy", "name": nm}
    for nm in NAMES if th else ("m", "f", "lambda", "i", "nx", "X_"):
        yield {"what": "name", "gen": "cython", "name": nm}


def run_case(case, ctx):
    ctx.sample(case)
    {"eq": batch, "rate": batch, "source": sources, "chain": chain, "poly": poly, "name": name}[case["what"]](case, ctx)
    ctx.trace()


def locs():
    import sympy as sp

    return {k: sp.Symbol(k) for k in ["u", "v", *PARAMS]}


def batch(case, ctx):
    import pylbm
    import sympy as sp

    loc = locs()
    ex = [symbolic(e, loc) for e in case["exprs"]]
    n = len(ex) + 2
    zero = sp.Integer(0)
    rate = case["what"] == "rate"
    u, v = loc["u"], loc["v"]
    if rate:
        eq, s = [u, v] + [zero] * len(ex), [zero, zero] + ex
    else:
        eq, s = [u, v] + ex, [0, 0] + [1] * len(ex)
    sch = {"velocities": list(range(n)), "M": sp.eye(n), "relaxation_parameters": s, "equilibrium": eq, "conserved_moments": [u, v]}
    nx = max(24, n)
    sim = pylbm.Simulation({
        "box": {"x": [0.0, float(nx)], "label": -1}, "space_step": 1.0, "scheme_velocity": 1.0, "generator": case["gen"],
        "parameters": {sp.Symbol(k): w for k, w in PARAMS.items()}, "schemes": [sch], "init": {u: 0.0, v: 0.0},
    })
    sim.m[u][:], sim.m[v][:] = np.resize(U, nx), np.resize(V, nx)
    for k in range(2, n):
        sim.m[k][:] = 1.0
    if rate:
        sim.relaxation()
    else:
        sim.equilibrium()
    for k, e in enumerate(case["exprs"]):
        ref = evaluate(e, {"u": U, "v": V, **PARAMS})
        ref = np.resize(1.0 - ref if rate else ref, nx)
        got = np.asarray(sim.m[k + 2], float)
        verdict(case, e, got, ref, ctx)


def verdict(case, e, got, ref, ctx):
    ctx.state(e, case["what"], case["gen"])
    ctx.step()
    ok = np.isfinite(ref)
    ctx.outcome(np.round(ref[ok], 9))
    ctx.check(np.all(np.isfinite(got[ok])) and np.all(np.abs(got - ref)[ok] <= 1e-9 * (1 + np.abs(ref[ok]))), lambda: "%s (%s): %s computed as %s, its value is %s" % (case["what"], case["gen"], e, got[:8].tolist(), ref[:8].tolist()))


def sources(case, ctx):
    """moments c0..: source of c_k is the k-th expression of u=c0 and v=c1; only streaming and sources"""
    import pylbm
    import sympy as sp

    loc = locs()
    ex = [symbolic(e, loc) for e in case["exprs"]]
    nc = len(ex) + 3
    cs = [loc["u"], loc["v"]] + [sp.Symbol("c%d" % k) for k in range(2, nc - 1)]
    nx = 48
    sch = {
        "velocities": list(range(nc)), "M": sp.eye(nc), "relaxation_parameters": [0] * (nc - 1) + [1.5], "equilibrium": cs + [cs[0]], "conserved_moments": cs,
        "source_terms": {c: e for c, e in zip(cs[2:], ex)},
    }
    sim = pylbm.Simulation({
        "box": {"x": [0.0, float(nx)], "label": -1}, "space_step": 1.0, "scheme_velocity": 1.0, "generator": case["gen"],
        "parameters": {sp.Symbol(k): w for k, w in PARAMS.items()}, "schemes": [sch], "init": {c: 0.0 for c in cs},
    })
    # v is put on the velocity +1: it moves by one cell
    sim.m[cs[0]][:], sim.m[cs[1]][:] = np.resize(U, nx), np.resize(np.roll(V, -1), nx)
    for k in range(2, nc):
        sim.m[k][:] = 0.25
    sim.m2f()
    sim.one_time_step()
    for k, e in enumerate(case["exprs"]):
        ref = np.resize(0.25 + evaluate(e, {"u": U, "v": V, **PARAMS}), nx)
        verdict(case, e, np.asarray(sim.m[k + 2], float), ref, ctx)


def same(d, dref, case, ctx, what, gen="numpy", init=None):
    """the description d behaves as the reference says, for 2 steps"""
    import pylbm

    ref = Ref(dref)
    sim = pylbm.Simulation(to_dico(d, gen))
    f = np.array([0.3 + 0.1 * k + 0.05 * np.sin((1.0 + k) * np.arange(d["n"][0])) for k in range(ref.nv)])
    set_F(sim, f)
    for it in range(2):
        sim.one_time_step()
        f = ref.step(f)
        got = get_F(sim, ref.nv)
        ctx.state(what, it, f)
        ctx.step()
        if not ctx.check(close(got, f, 1e-9), lambda: "%s: after %d steps: %s" % (what, it + 1, maxdiff(got, f))):
            return
    ctx.outcome(np.round(f, 9))


def resolve(chain):
    env = {}
    while len(env) < len(chain):
        for k, e in chain.items():
            try:
                env[k] = eval(e, {"__builtins__": {}}, dict(env)) if isinstance(e, str) else e
            except NameError:
                pass
    return env


def chain(case, ctx):
    import sympy as sp
    import pylbm

    c = case["chain"]
    vals = resolve(c)
    sch = L.d1q3(("1 + k/10",), "0.4*rho + 0.1*q**2 + k*q/8")
    sch["source"] = {"q": "p*rho/16"}
    d = L.desc(1, [6], [sch], params=vals)
    dico = to_dico(d)
    loc = {k: sp.Symbol(k) for k in c}
    la = {k: v for k, v in dico["parameters"].items() if str(k) not in c}
    dico["parameters"] = {loc[k]: (sp.sympify(c[k], locals=loc) if isinstance(c[k], str) else c[k]) for k in case["order"]}
    dico["parameters"].update(la)
    ref = Ref(d)
    sim = pylbm.Simulation(dico)
    f = np.array([0.3 + 0.1 * k + 0.05 * np.sin((1.0 + k) * np.arange(6)) for k in range(3)])
    set_F(sim, f)
    for it in range(2):
        sim.one_time_step()
        f = ref.step(f)
        got = get_F(sim, 3)
        ctx.state("chain", c, case["order"], it)
        ctx.step()
        ctx.check(close(got, f, 1e-9), lambda: "parameters %s given in the order %s: %s" % (c, case["order"], maxdiff(got, f)))
    ctx.outcome(np.round(f, 9))


def poly(case, ctx):
    p = case["poly"]
    sch = L.sch((0, 1, 2), p, ["0", "0.7", "1.6"], ["rho", "c*rho", "0.3*rho"], ["rho"])
    d = L.desc(1, [6], [sch], params={"c": 0.35, "w": 0.4, "k": -1.5}, la=case["la"])
    same(d, d, case, ctx, "polynomials %s, scheme velocity %s" % (p, case["la"]))


def name(case, ctx):
    """a conserved moment, then a parameter, has the given name"""
    import pylbm
    import sympy as sp

    nm = case["name"]
    sch = L.d1q3(("w",), "0.4*rho + 0.1*q**2 + c*q")
    sch["source"] = {"q": "c*rho*q + w/8", "rho": "0.1*q"}
    d = L.desc(1, [6], [sch], params={"c": 0.35, "w": 1.7})
    ref = Ref(d)
    for what in ("rho", "q", "c", "w"):
        if nm in ("rho", "q", "c", "w"):
            continue
        new = sp.Symbol(nm)
        dico = to_dico(d, case["gen"])
        sub = {sp.Symbol(what): new}
        s = dico["schemes"][0]
        for k in ("equilibrium", "relaxation_parameters", "conserved_moments"):
            s[k] = [sp.sympify(e).subs(sub) for e in (s[k] if isinstance(s[k], list) else [s[k]])]
        s["source_terms"] = {k.subs(sub): sp.sympify(v).subs(sub) for k, v in s["source_terms"].items()}
        dico["parameters"] = {k.subs(sub): v for k, v in dico["parameters"].items()}
        dico["init"] = {k.subs(sub): v for k, v in dico["init"].items()}
        sim = pylbm.Simulation(dico)
        f = np.array([0.3 + 0.1 * k + 0.05 * np.sin((1.0 + k) * np.arange(6)) for k in range(3)])
        set_F(sim, f)
        ref.t = 0.0
        for it in range(2):
            sim.one_time_step()
            f = ref.step(f)
        got = get_F(sim, 3)
        ctx.state("name", nm, what, case["gen"])
        ctx.step(2)
        ctx.outcome(np.round(got, 9))
        ctx.check(close(got, f, 1e-9), lambda: "%s %s named %s: %s" % ("moment" if what in ("rho", "q") else "parameter", what, nm, maxdiff(got, f)))
