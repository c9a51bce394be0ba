"""Y01: descriptions are accepted exactly when they are well formed"""
import copy
import itertools

import numpy as np

RULE = "one case = one class, one valid description and the first of (at most) two mutations: all second mutations; or all rotations and reversals of the entries; or one valid variant given to the class itself"
ASSUMPTIONS = [
    "tuples instead of lists, booleans or numpy scalars instead of numbers, empty lists of velocities or schemes, a zero space step, upper case generators, functions which are not plain python functions, initial arrays: no verdict expected",
    "a refusal is an exception raised by the class before it builds anything",
]
CASE_TIMEOUT = 300


def bounds(tier):
    return "5 classes, 12 valid descriptions; single mutations: removal of an entry, unknown entry, 22 values for each entry, lists one longer or shorter; pairs of them %s" % (
        "(removals, unknown entries, one wrong value in every third (Simulation: sixth) place)" if tier == "quick" else "(all)")


# ---------------------------------------------------------------------------
# the vocabulary
# ---------------------------------------------------------------------------
_ENV = {}


def env():
    if _ENV:
        return _ENV
    import sympy as sp
    import pylbm
    from pylbm.algorithm import PullAlgorithm

    rho, q, LA, X, Y, c = sp.symbols("rho q LA X Y c")

    def f0(x):
        return 0.0 * x + 1

    def f1(x, a):
        return 0.0 * x + a

    def g(f, m, x):
        m[rho] = 1.0

    def g2(f, m, x, a):
        m[rho] = a

    def feq(v, a):
        return sp.Matrix([rho / 3, rho / 3, rho / 3])

    class Plain:
        pass

    _ENV.update(locals())
    _ENV["sp"], _ENV["pylbm"], _ENV["Pull"] = sp, pylbm, PullAlgorithm
    return _ENV


def bases():
    """{class: [valid descriptions]}; fresh containers at each call"""
    e = env()
    sp, pylbm = e["sp"], e["pylbm"]
    rho, q, LA, X, Y, c = (e[n] for n in ("rho", "q", "LA", "X", "Y", "c"))
    bc = pylbm.bc

    def s2(**kw):
        d = {"velocities": [1, 2], "polynomials": [1, X], "relaxation_parameters": [0, 1.5], "equilibrium": [rho, c * rho], "conserved_moments": rho}
        d.update(kw)
        return d

    def s3(**kw):
        d = {"velocities": [0, 1, 2], "polynomials": [1, X, X**2], "relaxation_parameters": [0.0, 0.0, c], "equilibrium": [rho, q, rho / 3], "conserved_moments": [rho, q], "source_terms": {rho: -c, q: 0.5}}
        d.update(kw)
        return d

    def s4(**kw):
        d = {"velocities": [1, 2, 3, 4], "polynomials": [1, X, Y, X**2 - Y**2], "relaxation_parameters": [0, 1.5, c, 1], "equilibrium": [rho, c * rho, 0.0, 0], "conserved_moments": rho}
        d.update(kw)
        return d

    def noP(d, **kw):
        d.pop("polynomials")
        d.update(kw)
        return d

    def fe(d):
        d.pop("equilibrium")
        d["feq"] = [e["feq"], [1.0]]
        d["conserved_moments"] = [rho]
        d.pop("source_terms")
        return d

    box1 = lambda: {"x": [0.0, 1.0], "label": 0}
    box2 = lambda: {"x": [0, 1.0], "y": [0.0, 2.0], "label": [0, 0, 1, -1]}
    return {
        "Geometry": [
            {"box": {"x": [0, 1]}},
            {"box": box2(), "elements": [pylbm.Circle([0.5, 0.5], 0.2, label=1), pylbm.Ellipse([0.2, 1.5], [0.1, 0], [0, 0.05], label=2)]},
            {"box": {"x": [0.0, 1.0], "y": [0.0, 1.0], "z": [0.0, 2.0], "label": [0, 1, 0, 1, 2, 2]}, "elements": []},
        ],
        "Domain": [
            {"box": box1(), "space_step": 0.25, "schemes": [{"velocities": [0, 1, 2]}]},
            {"box": box2(), "space_step": 0.5, "schemes": [{"velocities": [1, 2, 3, 4]}, {"velocities": [0, 1]}], "elements": [pylbm.Circle([0.5, 1.0], 0.3, label=1)]},
        ],
        "Stencil": [
            {"dim": 2, "schemes": [{"velocities": [0, 1, 2]}, {"velocities": [4]}]},
            {"box": box1(), "schemes": [{"velocities": [0, 1, 2]}]},
        ],
        "Scheme": [
            {"dim": 1, "scheme_velocity": 1.0, "schemes": [s2()], "parameters": {c: 0.5}},
            {"dim": 1, "scheme_velocity": LA, "schemes": [s3()], "parameters": {LA: 1, c: sp.Rational(1, 3)}, "relative_velocity": [0.1]},
            {"dim": 2, "scheme_velocity": 1, "schemes": [noP(s4(), M=sp.Matrix([[1, 1, 1, 1], [1, 0, -1, 0], [0, 1, 0, -1], [1, -1, 1, -1]]))]},
            {"dim": 1, "scheme_velocity": 1.0, "schemes": [fe(s3())]},
        ],
        "Simulation": [
            {"box": box1(), "space_step": 0.25, "scheme_velocity": LA, "schemes": [s2(), s3(equilibrium=[q, rho, c * q], conserved_moments=[q], source_terms={q: 0.1})],
             "parameters": {LA: 2.0, c: 0.5}, "init": {rho: 1.0, q: (e["f1"], (0.5,))}, "generator": "numpy",
             "boundary_conditions": {0: {"method": {0: bc.BounceBack, 1: bc.Neumann}, "value": e["g"], "time_bc": False}},
             "lbm_algorithm": {"name": e["Pull"], "settings": {"check_isfluid": False}}, "show_code": False, "inittype": "moments"},
            {"box": {"x": [0.0, 1.0], "y": [0.0, 1.0], "label": 0}, "space_step": 0.25, "scheme_velocity": 1.0, "schemes": [s4()], "parameters": {c: 0.5}, "init": {rho: lambda x, y: x + y},
             "generator": "numpy", "boundary_conditions": {0: {"method": {0: bc.AntiBounceBack}}}, "relative_velocity": [0.1, 0]},
        ],
    }


# ---------------------------------------------------------------------------
# what a well formed description is: True, False or None (no verdict expected)
# ---------------------------------------------------------------------------
def both(vals):
    vals = list(vals)
    if any(v is False for v in vals):
        return False
    return None if any(v is None for v in vals) else True


def one_of(vals):
    vals = list(vals)
    if any(v is True for v in vals):
        return True
    return None if any(v is None for v in vals) else False


def num(v):
    if isinstance(v, (bool, np.generic)):
        return True if isinstance(v, float) else None
    return isinstance(v, (int, float))


def integer(v):
    if isinstance(v, (bool, np.integer)):
        return None
    return isinstance(v, int)


def expr(v):
    return isinstance(v, env()["sp"].Expr)


def symbol(v):
    return isinstance(v, env()["sp"].Symbol)


def text(v):
    return isinstance(v, str)


def boolean(v):
    return isinstance(v, bool)


def function(v):
    import types

    if isinstance(v, types.FunctionType):
        return True
    return None if callable(v) and not isinstance(v, type) else False


def matrix(v):
    return isinstance(v, env()["sp"].Matrix)


def element(v):
    return isinstance(v, env()["pylbm"].elements.base.Element)


def subclass(getter):
    return lambda v: isinstance(v, type) and issubclass(v, getter())


def number_or_expr(v):
    return one_of([num(v), expr(v)])


def listof(item, empty=True):
    def ok(v):
        if isinstance(v, (tuple, np.ndarray)):
            return None if isinstance(v, tuple) else False
        if not isinstance(v, list):
            return False
        if not v:
            return empty
        return both(item(x) for x in v)

    return ok


def func_args(v):
    """(function, arguments)"""
    if not isinstance(v, (list, tuple)):
        return False
    if len(v) == 1:
        return None
    if len(v) != 2:
        return False
    return both([function(v[0]), True if isinstance(v[1], (list, tuple)) else (None if v[1] is None else False)])


def mapping(key, value, empty=True):
    def ok(v):
        if not isinstance(v, dict):
            return False
        if not v:
            return empty
        return both([both([key(a), value(b)]) for a, b in v.items()])

    return ok


def record(fields, required=(), exclusive=(), empty=None):
    """dictionary with known entries; exclusive: (names, at least one required)"""

    def ok(v):
        if not isinstance(v, dict):
            return False
        if not v and empty is not None:
            return empty
        res = []
        for k, x in v.items():
            res.append(fields[k](x) if isinstance(k, str) and k in fields else False)
        res += [r in v for r in required]
        for names, needed in exclusive:
            n = sum(k in v for k in names)
            res.append(n <= 1 and (n == 1 or not needed))
        return both(res)

    return ok


def wellformed(dico, cls):
    pylbm = env()["pylbm"]
    full = cls in ("Scheme", "Simulation")
    vel = full or cls in ("Domain", "Stencil")
    bound = listof(num)

    def interval(v):
        r = bound(v)
        return r if r is not True else len(v) == 2

    def box(v):
        r = record({"x": interval, "y": interval, "z": interval, "label": lambda w: one_of([integer(w), listof(integer, None)(w)])}, required=["x"])(v)
        if isinstance(v, dict) and "z" in v and "y" not in v:
            return False
        return r

    scheme = record(
        {
            "velocities": listof(lambda v: both([integer(v), isinstance(v, int) and v >= 0]), None),
            "M": matrix,
            "polynomials": listof(number_or_expr, None),
            "relaxation_parameters": listof(number_or_expr, None),
            "equilibrium": listof(number_or_expr, None),
            "feq": lambda v: func_args(v) if isinstance(v, list) else (None if isinstance(v, tuple) else False),
            "conserved_moments": lambda v: one_of([symbol(v), listof(symbol, None)(v)]),
            "source_terms": mapping(symbol, number_or_expr),
        },
        required=(["velocities"] if vel else []) + (["relaxation_parameters", "conserved_moments"] if full else []),
        exclusive=[(("M", "polynomials"), full), (("equilibrium", "feq"), full)],
        empty=None if vel else True,
    )
    algorithm = lambda: pylbm.algorithm.BaseAlgorithm
    fields = {
        "dim": lambda v: both([integer(v), v in (1, 2, 3) if isinstance(v, int) else False]),
        "box": box,
        "elements": listof(element),
        "space_step": lambda v: both([num(v), None if isinstance(v, (int, float)) and v == 0 else isinstance(v, (int, float)) and v > 0]),
        "scheme_velocity": lambda v: one_of([num(v), symbol(v), None if expr(v) else False]),
        "schemes": listof(scheme, None),
        "parameters": mapping(symbol, number_or_expr),
        "inittype": lambda v: isinstance(v, str) and v in ("moments", "distributions"),
        "init": mapping(lambda k: one_of([symbol(k), num(k)]), lambda v: None if isinstance(v, np.ndarray) else one_of([num(v), function(v), func_args(v)])),
        "boundary_conditions": mapping(
            integer,
            record(
                {
                    "method": mapping(integer, subclass(lambda: pylbm.boundary.BoundaryMethod)),
                    "value": lambda v: one_of([function(v), func_args(v)]),
                    "time_bc": lambda v: None if v is None else boolean(v),
                },
                required=["method"],
            ),
        ),
        "relative_velocity": listof(number_or_expr, None),
        "generator": lambda v: isinstance(v, str) and (v in ("numpy", "cython", "loopy") or (None if v.lower() in ("numpy", "cython", "loopy") else False)),
        "codegen_option": lambda v: both([record({"directory": text, "generate": boolean}, empty=True)(v), True if not isinstance(v, dict) or not v or "directory" in v else None]),
        "lbm_algorithm": record({"name": subclass(algorithm), "settings": lambda v: isinstance(v, dict)}, empty=True),
        "show_code": boolean,
    }
    required = {
        "Geometry": ["box"],
        "Domain": ["box", "space_step", "schemes"],
        "Stencil": ["schemes"],
        "Scheme": ["scheme_velocity", "schemes"],
        "Simulation": ["box", "space_step", "scheme_velocity", "schemes", "init"],
    }[cls]
    return record(fields, required=required, exclusive=[(("dim", "box"), cls in ("Stencil", "Scheme"))])(dico)


# ---------------------------------------------------------------------------
# mutations
# ---------------------------------------------------------------------------
def menu():
    e = env()
    sp, pylbm = e["sp"], e["pylbm"]
    return {
        "text": "text", "none": None, "int": 2, "negative": -1, "float": 0.5, "negfloat": -0.5, "true": True,
        "symbol": e["X"], "expr": 2 * e["X"] + 1, "matrix": sp.eye(2), "function": e["f0"], "empty list": [], "list": [1.5], "list2": [0.0, 3.0],
        "empty dict": {}, "dict": {e["X"]: 1}, "condition": pylbm.bc.BounceBack, "class": e["Plain"], "algorithm": e["Pull"],
        "element": pylbm.Circle([0.5, 0.5], 0.1), "array": np.array([0.0, 1.0]), "npfloat": np.float64(0.5), "object": e["Plain"](),
        "numpy": "numpy", "tofun": (e["f1"], (2.0,)), "big": 4,
    }


SHORT = ["text", "int", "float", "symbol", "list", "empty dict", "none"]
UNKNOWN = ["unknown", 3]


def paths(d, at=()):
    """all places of a description: entries of dictionaries, items of lists"""
    items = list(d.items()) if isinstance(d, dict) else list(enumerate(d)) if isinstance(d, (list, tuple)) else []
    for k, v in items:
        yield at + (k,)
        if not (isinstance(v, tuple) and at and at[-1] == "value"):
            yield from paths(v, at + (k,))


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    if isinstance(d, list):
        return [clone(v) for v in d]
    if isinstance(d, tuple):
        return tuple(clone(v) for v in d)
    return d


OPTIONAL = {"codegen_option": {"directory": "here", "generate": True}, "elements": [], "show_code": True, "inittype": "distributions", "generator": "cython"}


def mutations(d):
    """all single mutations, as data"""
    ps = list(paths(d))
    for i, p in enumerate(ps):
        yield ("del", i)
        for m in menu():
            yield ("set", i, m)
    dicts = [-1] + [i for i, p in enumerate(ps) if isinstance(get(d, p), dict)]
    for i in dicts:
        for u in UNKNOWN:
            yield ("new", i, u)
    for i in [i for i, p in enumerate(ps) if isinstance(get(d, p), list)]:
        yield ("longer", i)
        yield ("twice", i)
    for k in ("M", "polynomials", "equilibrium", "feq", "source_terms"):
        yield ("scheme", k)
    for k in ("dim", "box", *OPTIONAL):
        yield ("top", k)


def get(d, p):
    for k in p:
        d = d[k]
    return d


def put(d, p, fn):
    """copy of d where fn acted on the container of the last key"""
    if len(p) == 1:
        if isinstance(d, tuple):
            l = list(d)
            fn(l, p[0])
            return tuple(l)
        d = dict(d) if isinstance(d, dict) else list(d)
        fn(d, p[0])
        return d
    new = put(d[p[0]], p[1:], fn)
    if isinstance(d, tuple):
        l = list(d)
        l[p[0]] = new
        return tuple(l)
    d = dict(d) if isinstance(d, dict) else list(d)
    d[p[0]] = new
    return d


def mutate(d, mut, ps):
    """None when the mutation does not apply"""
    kind = mut[0]
    try:
        if kind == "del":
            return put(d, ps[mut[1]], lambda c, k: c.__delitem__(k))
        if kind == "set":
            get(d, ps[mut[1]])
            return put(d, ps[mut[1]], lambda c, k: c.__setitem__(k, menu()[mut[2]]))
        if kind == "new":
            v = {"unknown": 1.0, 3: 0.5}[mut[2]]
            if mut[1] < 0:
                return {**d, mut[2]: v}
            t = get(d, ps[mut[1]])
            return put(d, ps[mut[1]], lambda c, k: c.__setitem__(k, {**t, mut[2]: v})) if isinstance(t, dict) else None
        if kind in ("longer", "twice"):
            t = get(d, ps[mut[1]])
            if not isinstance(t, list):
                return None
            extra = ([t[-1]] if t else [1]) if kind == "longer" else t
            return put(d, ps[mut[1]], lambda c, k: c.__setitem__(k, t + extra))
        if kind == "scheme":
            if "schemes" not in d or not d["schemes"] or not isinstance(d["schemes"][0], dict):
                return None
            e = env()
            v = {"M": e["sp"].eye(2), "polynomials": [1, e["X"]], "equilibrium": [e["rho"], 0.0], "feq": [e["feq"], [0.5]], "source_terms": {}}[mut[1]]
            return put(d, ("schemes", 0, mut[1]), lambda c, k: c.__setitem__(k, v))
        if kind == "top":
            v = {"dim": 1, "box": {"x": [0.0, 1.0]}, **OPTIONAL}[mut[1]]
            return {**d, mut[1]: clone(v)}
    except (KeyError, IndexError, TypeError, AttributeError):
        return None
    raise AssertionError(mut)


def cases(tier):
    th = tier == "thorough"
    for cls, ds in bases().items():
        for ib, d in enumerate(ds):
            yield dict(kind="order", cls=cls, base=ib, short=not th)
            yield dict(kind="build", cls=cls, base=ib)
            muts = list(mutations(d))
            yield dict(kind="single", cls=cls, base=ib)
            step = 24
            first = [i for i, m in enumerate(muts) if th or m[0] != "set" or m[2] == "int"]
            for a in range(0, len(first), step):
                yield dict(kind="pairs", cls=cls, base=ib, first=first[a : a + step], short=not th)
    for i in range(len(variants())):
        yield dict(kind="variant", i=i)


# ---------------------------------------------------------------------------
def verdict(fn, *args):
    """True accepted; else the exception"""
    try:
        fn(*args)
        return True
    except (SystemExit, Exception) as e:
        return e


CRASH = (AttributeError, NameError, IndexError, KeyError)


def snapshot(d):
    """structure of containers, with the identity of the leaves"""
    if isinstance(d, dict):
        return ("dict", id(d), tuple((k, snapshot(v)) for k, v in d.items()))
    if isinstance(d, (list, tuple)):
        return (type(d).__name__, id(d), tuple(snapshot(v) for v in d))
    if isinstance(d, np.ndarray):
        return ("array", d.tobytes())
    if type(d).__module__.startswith("sympy.matrices"):
        return ("matrix", id(d), tuple(d))
    return id(d)


def show(d):
    return " ".join(repr(d).split())[:400]


def judge(ctx, d, cls, what, construct=False):
    from pylbm.validator import validate

    want = wellformed(d, cls)
    before = snapshot(d)
    got = verdict(validate, d, cls)
    ctx.step()
    ctx.state(cls, what)
    ctx.outcome(cls, want, type(got).__name__)
    ctx.check(snapshot(d) == before, "%s: the description is modified by its validation: %s" % (what, show(d)))
    if want is True:
        ctx.check(got is True, lambda: "%s: a well formed description for %s is refused (%s %s): %s" % (what, cls, type(got).__name__, str(got)[:80], show(d)))
    elif want is False:
        if ctx.check(got is not True, lambda: "%s: a malformed description for %s is accepted: %s" % (what, cls, show(d))):
            ctx.check(not isinstance(got, CRASH), lambda: "%s: validation of a malformed description fails with %s %s: %s" % (what, type(got).__name__, got, show(d)))
            if construct:
                c = verdict(getattr(env()["pylbm"], cls), d)
                ctx.check(c is not True and type(c) is type(got), lambda: "%s: the class %s answers %r to a malformed description" % (what, cls, c))
    return got


def single(case, ctx):
    d = bases()[case["cls"]][case["base"]]
    ps = list(paths(d))
    for m in mutations(d):
        x = mutate(clone(d), m, ps)
        if x is not None:
            judge(ctx, x, case["cls"], "%s at %s" % (m, ps[m[1]] if isinstance(m[1], int) and m[1] >= 0 else "top"), construct=m[0] != "set" or m[2] in SHORT)


def pairs(case, ctx):
    d = bases()[case["cls"]][case["base"]]
    ps = list(paths(d))
    muts = list(mutations(d))
    second = [m for m in muts if not case["short"] or m[0] in ("del", "new", "scheme", "top") or m[0] == "set" and m[2] == "text" and m[1] % (6 if case["cls"] == "Simulation" else 3) == 0]
    for i in case["first"]:
        x = mutate(clone(d), muts[i], ps)
        if x is None:
            continue
        for m in second:
            if m[0] == "del" and muts[i][0] == "del" and len(ps[m[1]]) and isinstance(ps[m[1]][-1], int):
                continue  # positions of lists have moved
            y = mutate(x, m, ps)
            if y is not None:
                judge(ctx, y, case["cls"], "%s then %s" % (muts[i], m))


def reorder(d, how):
    if isinstance(d, dict):
        items = [(k, reorder(v, how)) for k, v in d.items()]
        return dict(how(items))
    if isinstance(d, list):
        return [reorder(v, how) for v in d]
    return d


def order(case, ctx):
    import random

    d = bases()[case["cls"]][case["base"]]
    hows = [lambda l: l[::-1]] + [lambda l, k=k: l[k % max(1, len(l)) :] + l[: k % max(1, len(l))] for k in range(1, 12)] + [lambda l, k=k: l[::-1][k % max(1, len(l)) :] + l[::-1][: k % max(1, len(l))] for k in range(1, 12)]
    muts = [m for m in mutations(d) if m[0] != "set" or m[2] in ("text", "int")]
    ps = list(paths(d))
    for m in [None] + muts:
        x = clone(d) if m is None else mutate(clone(d), m, ps)
        if x is None:
            continue
        for n, how in enumerate(hows):
            if m is not None and n > 2 and case["short"]:
                break
            judge(ctx, reorder(x, how), case["cls"], "order %d of %s" % (n, m))


def build(case, ctx):
    """the class itself takes its valid descriptions, with and without the optional entries, in any order"""
    cls = case["cls"]
    d = bases()[cls][case["base"]]
    K = getattr(env()["pylbm"], cls)
    forms = [("as it is", d)]
    forms += [("order", reorder(clone(d), lambda l: l[::-1]))]
    for p in paths(d):
        if len(p) and isinstance(p[-1], str) and "settings" not in p:
            x = put(clone(d), p, lambda c, k: c.__delitem__(k))
            if wellformed(x, cls) is True and p != ("parameters",) and p[0] not in ("generator", "boundary_conditions") and p not in (("box", "y"), ("box", "z")):
                forms.append(("without %s" % (p,), x))
    for what, x in forms:
        before = snapshot(x)
        got = verdict(K, x)
        ctx.step()
        ctx.state(cls, what)
        ctx.check(got is True, lambda: "%s %s: %s refuses a well formed description: %s %s" % (what, case["base"], cls, type(got).__name__, str(got)[:200]))
        ctx.check(snapshot(x) == before, "%s: the description is modified by %s" % (what, cls))
    ctx.trace()


def variants():
    """further well formed descriptions (accepted by the class) and shapes which no class
    can take (refused): (class, description, accepted)"""
    e = env()
    sp, pylbm = e["sp"], e["pylbm"]
    rho, q, X, c = e["rho"], e["q"], e["X"], e["c"]
    out = []
    B = bases()
    sim = lambda: clone(bases()["Simulation"][0])

    def v(ok, d, cls="Simulation", **path):
        out.append((cls, d, ok))

    def edit(p, fn, d=None):
        return put(d or sim(), p, fn)

    setto = lambda val: (lambda c_, k: c_.__setitem__(k, val))
    # initial values and boundary values in all their forms
    for val in (2, 0.5, -1, np.float64(0.5), e["f0"], (e["f1"], (2.0,)), [e["f1"], [2.0]], [e["f1"], (2.0,)], (e["f1"], [2.0]), lambda x: x):
        v(True, edit(("init", q), setto(val)))
    for val in (e["g"], (e["g2"], (0.5,)), [e["g2"], [0.5]], (e["g2"], [0.5])):
        v(True, edit(("boundary_conditions", 0, "value"), setto(val)))
    v(True, edit(("boundary_conditions", 0, "time_bc"), setto(False)))
    v(True, {**sim(), "codegen_option": {}})
    v(True, {**sim(), "lbm_algorithm": {}})
    v(True, {**sim(), "lbm_algorithm": {"settings": {}}})
    v(True, {**sim(), "elements": []})
    v(True, {**sim(), "scheme_velocity": 2})
    # numbers of entries
    for k in ("polynomials", "relaxation_parameters", "equilibrium"):
        for i in (0, 1):
            l = sim()["schemes"][i][k]
            v(False, edit(("schemes", i, k), setto(l[:-1])))
            v(False, edit(("schemes", i, k), setto(l + [0.5])))
            # right total, wrong distribution between the schemes
            j = 1 - i
            o = sim()["schemes"][j][k]
            v(False, edit(("schemes", j, k), setto(o[:-1]), edit(("schemes", i, k), setto(l + [0.5]))))
    for i in (0, 1):
        v(False, edit(("schemes", i, "velocities"), setto(sim()["schemes"][i]["velocities"] + [3])))
        v(False, edit(("schemes", i, "velocities"), setto(sim()["schemes"][i]["velocities"][:-1])))
    # moments that no scheme has
    v(False, edit(("schemes", 0, "conserved_moments"), setto(sp.Symbol("unknown"))))
    v(False, edit(("init",), setto({rho: 1.0, q: 1.0, sp.Symbol("unknown"): 1.0})))
    v(False, edit(("schemes", 0, "source_terms"), setto({sp.Symbol("unknown"): 1.0})))
    # labels
    for lab in ([0], [0, 0, 0], []):
        v(False, edit(("box", "label"), setto(lab)))
    v(False, edit(("box", "label"), setto(3)))  # no condition for this label
    v(False, edit(("box", "x"), setto([1.0, 0.0])))
    v(False, edit(("box", "x"), setto([1.0, 1.0])))
    # dimensions
    v(False, {**sim(), "relative_velocity": [0.1, 0.2]})
    v(False, {**sim(), "elements": [pylbm.Circle([0.5, 0.5], 0.1)]})
    return out


def variant(case, ctx):
    cls, d, ok = variants()[case["i"]]
    before = snapshot(d)
    got = verdict(getattr(env()["pylbm"], cls), d)
    ctx.step()
    ctx.trace()
    ctx.state(case["i"])
    ctx.outcome(ok, type(got).__name__)
    if ok:
        ctx.check(got is True, lambda: "%s refuses a well formed description: %s %s: %s" % (cls, type(got).__name__, str(got)[:200], show(d)))
    else:
        ctx.check(got is not True, lambda: "%s accepts a malformed description: %s" % (cls, show(d)))
    ctx.check(snapshot(d) == before, "the description is modified by %s" % cls)


def run_case(case, ctx):
    {"single": single, "pairs": pairs, "order": order, "build": build, "variant": variant}[case["kind"]](case, ctx)
    ctx.sample(case)
