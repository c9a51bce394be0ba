"""R01: simulations living in one process do not interfere"""
import gc
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import schemes as L
from ..bref import normalise, to_bdico
from ..engine import HarnessError
from .b02 import NO, lab
from .p01 import init

RULE = "one case = one group of simulations, one generator and a block of the interleavings of their programs (construct, steps, reads, deletion); every value read is compared with the run of this simulation alone in a fresh process"
ASSUMPTIONS = [
    "one thread: operations of different simulations interleave but do not overlap",
    "a user who writes in the arrays or changes the attributes of a simulation changes only this one: such writes are part of its program",
]
CASE_TIMEOUT = 800


def bounds(tier):
    th = tier == "thorough"
    return "8 descriptions in 1D to 3D, in pairs (%s) and triples; all interleavings of [construct, step, read, step] or with deletion (numpy: %s), of [construct, step, write, step] on Cython with code in one directory per simulation, one common directory, the directory of the program or a temporary one; all 120 orders of building five classes from one dictionary; hash seeds 0 to %d" % (
        "all" if th else "10", "70 per pair, 1680 per triple" if th else "20 per pair, 90 per triple", 15 if th else 3)


def descs():
    P = {"c": 0.35, "g": 0.2}
    P2 = {"c": 0.55, "g": -0.3}
    q3 = L.d1q3(("1.7",), "0.4*rho + c*q**2")
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    src = lambda s, **kw: dict(s, source=kw)
    return {
        "A": L.desc(1, [6], [q3], params=P),
        "B": L.desc(1, [6], [L.d1q3(("1.2",), "0.4*rho + c*q**2")], params=P),  # same code size, other rate
        "C": L.desc(1, [6], [q3], params=P2),  # same code, other parameters
        "W": L.desc(1, [7], [src(q3, q="c*rho + t")], params=P2, label=[0, 1], bc={0: lab("bouzidi", ("spacetime", True, None)), 1: lab("abb", ("args", False, [0.7, 0.3]))}),
        "T": L.desc(1, [5], [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "c*T"), u="T")], params=P, la=2.0),
        "R": L.desc(1, [6], [L.d1q3(("1.7",), "0.4*rho + c*q")], params=P, relvel=["q/rho"]),
        "D": L.desc(2, [5, 4], [t5, L.d2q4()], params=P, label=[-1, -1, 0, 1], elems=[{"kind": "circle", "args": [[0.6, -0.1], 0.3], "label": 5}],
                    bc={0: lab(["bb", "abb"], ("time", True, None)), 1: lab(["neumanny", "bb"], NO), 5: lab(["bouzidi", "bb"], NO)}),
        "E": L.desc(3, [3, 2, 3], [L.d3q7()], params=P2),
    }


def dico(name, gen, **kw):
    d = json.loads(json.dumps(descs()[name]))
    d = normalise(d)
    out = to_bdico(d, gen, **kw)
    out["init"] = init(d)
    if name in SETTINGS:
        from pylbm.algorithm import PullAlgorithm

        out["lbm_algorithm"] = {"name": PullAlgorithm, "settings": dict(SETTINGS[name])}
    return out


# settings of the algorithm given by the user: {} is completed by the defaults of the backend
SETTINGS = {"B": {}, "W": {"split": True}, "D": {"split": False}}


def step(S):
    S.one_time_step()


def read(S):
    out = [np.array(S.m[k]) for k in S.scheme.consm]
    out += [np.array(S.F[k]) for k in range(S.scheme.stencil.nv_ptr[-1])]
    return [S.t, S.nt] + [a.tobytes() for a in out]


def write(S):
    k = list(S.scheme.consm)[0]
    S.m_halo[k] = 0.9 + 0.05 * np.arange(S.domain.shape_halo[0]).reshape((-1,) + (1,) * (S.dim - 1)) + np.zeros(S.domain.shape_halo)
    S.m2f()


PROGRAMS = {"csrs": ["c", "s", "r", "s"], "csr": ["c", "s", "r"], "csd": ["c", "s", "d"], "csws": ["c", "s", "w", "s"], "csw": ["c", "s", "w"], "cs": ["c", "s"]}


def play(ops, S, d):
    """runs one program alone: list of the values read after each operation"""
    import pylbm

    out = []
    for o in ops:
        if o == "c":
            S = pylbm.Simulation(d)
        elif o == "s":
            step(S)
        elif o == "w":
            write(S)
        out.append(read(S) if o != "d" else None)
    return out


def alone(name, gen, prog):
    """the program of one simulation in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = play(PROGRAMS[prog], None, dico(name, gen))
            except BaseException as e:
                res = "%s: %s" % (type(e).__name__, e)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if isinstance(res, str):
        raise AssertionError("simulation %s alone on %s: %s" % (name, gen, res))
    return res


_ALONE = {}


def init_worker():
    import pylbm  # noqa: F401  (imported before the forks)

    for name in descs():
        try:
            _ALONE[name, "numpy"] = alone(name, "numpy", "csws")
            _ALONE[name, "numpy", "csrs"] = alone(name, "numpy", "csrs")
        except AssertionError as e:
            _ALONE["error"] = str(e)


def reference(name, gen, prog):
    """expected values after each operation of a program"""
    if "error" in _ALONE:
        raise AssertionError(_ALONE["error"])
    if "w" in PROGRAMS[prog]:
        if (name, gen) not in _ALONE:
            _ALONE[name, gen] = alone(name, gen, "csws")
        return _ALONE[name, gen][: len(PROGRAMS[prog])]
    full = _ALONE.get((name, gen, "csrs"))
    if full is None:
        full = _ALONE[name, gen, "csrs"] = alone(name, gen, "csrs")
    # values after c, s, r, s
    return [full[["c", "s", "r", "s"].index(o)] if o != "d" else None for o in PROGRAMS[prog]]


def interleavings(n, k):
    """all words with n times each of the letters 0..k-1"""

    def go(left):
        if not any(left):
            yield ()
            return
        for i in range(k):
            if left[i]:
                for rest in go(left[:i] + (left[i] - 1,) + left[i + 1 :]):
                    yield (i,) + rest

    return list(go((n,) * k))


PAIRS = ["AA", "AB", "AC", "BW", "WW", "AT", "RA", "DD", "WD", "CE"]
TRIPLES = ["ABC", "WDA", "TDR", "EWB"]


def cases(tier):
    th = tier == "thorough"
    pairs = PAIRS if not th else ["".join(p) for p in itertools.combinations_with_replacement("ABCWTRDE", 2)]
    for mode in ("temp", "common"):
        for g in ["AB", "WA"][: 2 if th else 1]:
            n = len(interleavings(2, 2))
            for a in range(n):
                yield dict(kind="inter", gen="cython", mode=mode, group=g, prog="cs", block=[a, a + 1])
    yield dict(kind="inter", gen="cython", mode="program", group="BA", prog="cs", block=[0, 1])
    for g in ["ABC"] if not th else ["ABC", "WDA", "TRE"]:
        for a in range(0, 1680 if th else 90, 420 if th else 90):
            yield dict(kind="inter", gen="cython", mode="reuse", group=g, prog="csr" if th else "cs", block=[a, a + 420])
    for g in ["AB", "WD"]:
        yield dict(kind="inter", gen="cython", mode="reuse", group=g, prog="csws" if th else "csw", block=[0, 70])
    for g in pairs:
        prog = "csrs" if th else "csr"
        n = len(interleavings(len(PROGRAMS[prog]), 2))
        for a in range(0, n, 10):
            yield dict(kind="inter", gen="numpy", mode="temp", group=g, prog=prog, block=[a, a + 10], share=g[0] == g[1])
        if th or g in ("AB", "WW", "RA", "CE"):
            yield dict(kind="inter", gen="numpy", mode="temp", group=g, prog="csd", block=[0, 20], share=False)
        if th:
            for a in range(0, 70, 10):
                yield dict(kind="inter", gen="numpy", mode="temp", group=g, prog="csws", block=[a, a + 10], share=g[0] == g[1])
    for g in ["AB", "AC", "WD", "BA"]:
        for mode in ("common", "program"):
            yield dict(kind="inter", gen="numpy", mode=mode, group=g, prog="cs" if not th else "csr", block=[0, 20])
    for g in TRIPLES if th else ["ABC", "RWB"]:
        prog = "csr" if th else "cs"
        n = len(interleavings(len(PROGRAMS[prog]), 3))
        for a in range(0, n, 30):
            yield dict(kind="inter", gen="numpy", mode="temp", group=g, prog=prog, block=[a, a + 30])
    for name in "AWTRDE":
        for a in range(0, 120, 15):
            if th or name == "W" or name == "D" and a == 0:
                yield dict(kind="classes", name=name, block=[a, a + 15])
    for name in "AWTRDE":
        yield dict(kind="seeds", name=name, seeds=16 if th else 4)


def snapshot(d):
    if isinstance(d, dict):
        return ("dict", id(d), tuple((snapshot(k), snapshot(v)) for k, v in d.items()))
    if isinstance(d, (list, tuple)):
        return (type(d).__name__, id(d), tuple(snapshot(v) for v in d))
    if isinstance(d, np.ndarray):
        return ("array", id(d), d.tobytes())
    if type(d).__module__.startswith("sympy"):
        return ("sympy", str(d))
    if type(d).__module__.startswith("pylbm") and hasattr(d, "__dict__") and not isinstance(d, type):
        return ("object", id(d), tuple((k, snapshot(v)) for k, v in vars(d).items()))
    return (type(d).__name__, repr(d) if isinstance(d, (int, float, str, bool, type(None))) else id(d))


def interleave(case, ctx):
    import pylbm

    g, gen, mode, prog = case["group"], case["gen"], case["mode"], case["prog"]
    ops = PROGRAMS[prog]
    refs = [reference(n, gen, prog) for n in g]
    with tempfile.TemporaryDirectory() as tmp:
        extra = [{} for _ in g]
        if mode == "common":
            extra = [{"codegen_option": {"directory": os.path.join(tmp, "code")}}] * len(g)
        elif mode == "program":
            # the code of the first simulation is kept in the directory of the program
            here = sys.path[0]
            sys.path.insert(0, tmp)
            extra[0] = {"codegen_option": {"directory": tmp}}
        elif mode == "reuse":
            extra = [{"codegen_option": {"directory": os.path.join(tmp, "code%d" % i), "generate": False}} for i in range(len(g))]
            for i, n in enumerate(g):
                pylbm.Simulation(dico(n, gen, codegen_option={"directory": os.path.join(tmp, "code%d" % i)}))
        try:
            words = interleavings(len(ops), len(g))[case["block"][0] : case["block"][1]]
            for word in words:
                dicos = [dico(n, gen, **x) for n, x in zip(g, extra)]
                if case.get("share"):
                    dicos = [dicos[0]] * len(g)
                before = [snapshot(d) for d in dicos]
                S, pos = [None] * len(g), [0] * len(g)
                for w, i in enumerate(word):
                    o = ops[pos[i]]
                    if o == "c":
                        S[i] = pylbm.Simulation(dicos[i])
                    elif o == "s":
                        step(S[i])
                    elif o == "w":
                        write(S[i])
                    elif o == "d":
                        S[i] = None
                        gc.collect()
                    want = refs[i][pos[i]]
                    pos[i] += 1
                    ctx.step()
                    if want is None:
                        continue
                    # the other simulations are read first in one order out of two
                    if o in "r" or w == len(word) - 1 or prog in ("cs", "csw", "csws"):
                        got = read(S[i])
                        if not ctx.check(same(got, want), lambda: "%s on %s (%s code), interleaving %s of %s: %s" % (g[i], gen, mode, "".join(map(str, word)), prog, differ(got, want))):
                            return
                for i in range(len(g)):
                    if S[i] is not None:
                        got = read(S[i])
                        last = refs[i][len(ops) - 1]
                        if not ctx.check(same(got, last), lambda: "%s on %s (%s code), after interleaving %s of %s: %s" % (g[i], gen, mode, "".join(map(str, word)), prog, differ(got, last))):
                            return
                for i, d in enumerate(dicos):
                    ctx.check(snapshot(d) == before[i], "the description of %s is modified (interleaving %s of %s)" % (g[i], word, prog))
                ctx.trace()
                ctx.state(g, gen, mode, prog, word)
            ctx.outcome([r[-1] for r in refs])
        finally:
            if mode == "program":
                for p in list(sys.path):
                    if p == tmp:
                        sys.path.remove(p)
                if sys.path[0] != here:
                    ctx.fail("the import path is changed: it starts with %s" % sys.path[0])


def same(a, b, tol=1e-13):
    return a[:2] == b[:2] and len(a) == len(b) and all(
        x == y or len(x) == len(y) and np.allclose(np.frombuffer(x), np.frombuffer(y), rtol=tol, atol=tol) for x, y in zip(a[2:], b[2:]))


def differ(got, want):
    if got[:2] != want[:2]:
        return "time and step %s instead of %s" % (got[:2], want[:2])
    for i, (a, b) in enumerate(zip(got[2:], want[2:])):
        if a != b:
            x, y = np.frombuffer(a), np.frombuffer(b)
            return "field %d differs from the run alone %s" % (i, "by %g" % np.abs(x - y).max() if x.shape == y.shape else "in shape")
    return "fields missing"


CLASSES = ["Geometry", "Domain", "Stencil", "Scheme", "Simulation"]


def describe(K, o):
    """what a user can see of an object, as text"""
    if K == "Simulation":
        return read(o)
    s = str(o)
    if K == "Domain":
        s += repr([o.in_or_out.tobytes(), o.distance.tobytes(), o.flag.tobytes()])
    return s


def classes(case, ctx):
    import pylbm

    name = case["name"]
    ref = reference(name, "numpy", "csrs")
    seen = {}
    for order in list(itertools.permutations(CLASSES))[case["block"][0] : case["block"][1]]:
        d = dico(name, "numpy")
        before = snapshot(d)
        objs = {}
        for K in order:
            objs[K] = getattr(pylbm, K)(d)
            ctx.step()
        objs["Simulation"].one_time_step()
        second = pylbm.Simulation(d)
        second.one_time_step()
        for S, what in ((objs["Simulation"], "the simulation"), (second, "a second simulation")):
            got = read(S)
            ctx.check(same(got, ref[1]), lambda: "%s built with the classes in order %s: %s" % (what, order, differ(got, ref[1])))
        for K in CLASSES[:4]:
            t = describe(K, objs[K])
            ctx.check(seen.setdefault(K, t) == t, lambda: "%s depends on the objects built before (%s): %s, and %s" % (K, order, t[:300], seen[K][:300]))
        ctx.check(snapshot(d) == before, lambda: "the description is modified by building %s" % (order,))
        ctx.trace()
        ctx.state(name, order)
    ctx.outcome(sorted(seen.items()))


ALONE = """
import sys, pickle
sys.path[:0] = [%r, %r]
sys.argv = ["verif"]
from mc.checks import r01
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(r01.play(r01.PROGRAMS["csws"], None, r01.dico(%r, "numpy"))))
"""


def seeds(case, ctx):
    """fresh processes with other hash seeds"""
    from ..engine import REPO, ROOT

    ref = reference(case["name"], "numpy", "csws")
    for s in range(case["seeds"]):
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        r = subprocess.run([sys.executable, "-c", ALONE % (ROOT, REPO, case["name"])], capture_output=True, env=env)
        if b"RESULT" not in r.stdout:
            raise HarnessError("run with hash seed %d: %s" % (s, r.stderr.decode()[-1500:]))
        got = pickle.loads(r.stdout.split(b"RESULT", 1)[1])
        ctx.step(len(got))
        ctx.trace()
        ctx.state(case["name"], s)
        for a, b in zip(got, ref):
            ctx.check(same(a, b, 1e-11), lambda: "%s with hash seed %d: %s" % (case["name"], s, differ(a, b)))
            ctx.outcome(a == b)


def run_case(case, ctx):
    ctx.sample(case)
    {"inter": interleave, "classes": classes, "seeds": seeds}[case["kind"]](case, ctx)
