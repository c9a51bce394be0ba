"""S07: lazily updated moments; every operation sequence on one simulation object"""
import itertools
import shutil
import tempfile

import numpy as np

from .. import schemes as L
from ..ref import Ref, close, get_F, maxdiff, set_F, to_dico

RULE = "one case = all operation sequences with a given prefix; state = (distributions, moments) observed after each sequence"
ASSUMPTIONS = [
    "writes are whole-field item assignments (sim.m_halo[k] = .., sim.F_halo[k] = ..)",
    "the values of F read directly after a moment was written and not yet transformed are the old distributions (documented: m2f transfers)",
]
CASE_TIMEOUT = 400

OPS = ["step", "readm", "readF", "wm0", "wm1", "wF", "f2m", "m2f", "eq", "relax"]
# move: boundary_condition and transport; user: moments and distributions which are not the ones of the
# simulation; load: distributions of the simulation set from moments which are not its own
N = len(OPS)
OPS += ["move", "user", "load"]


def bounds(tier):
    return "all sequences up to %d operations over %s, D1Q3 (numpy and cython), D2Q5 and a two-scheme D1 system (numpy); with the operations %s too, up to %d operations (one less than for D1Q3 numpy elsewhere); the first ones up to %d operations from the construction of a simulation initialised by moments or distributions at its first step, and one operation less when initialised at once" % (5 if tier == "quick" else 6, OPS[:N], OPS[N:], 4 if tier == "quick" else 5, 3 if tier == "quick" else 4)


def confs(tier):
    depth = 5 if tier == "quick" else 6
    yield "d1q3", "numpy", depth
    yield "d1q3", "cython", depth
    yield "two", "numpy", depth - 1
    yield "d2q5", "numpy", depth - 1
    if tier != "quick":
        yield "two", "cython", depth - 1


def cases(tier):
    # histories which begin with the construction of the simulation
    for name, gen in (("d1q3", "numpy"), ("d1q3", "cython"), ("two", "numpy")) + ((("two", "cython"),) if tier != "quick" else ()):
        for o in range(N):
            yield {"scheme": name, "gen": gen, "depth": 3 if tier == "quick" else 4, "prefix": [o], "built": True}
    for name, gen, depth in confs(tier):
        for pre in itertools.product(range(N), repeat=2):
            yield {"scheme": name, "gen": gen, "depth": depth, "prefix": list(pre)}
        for o in range(len(OPS)):
            yield {"scheme": name, "gen": gen, "depth": depth - 1 if (name, gen) == ("d1q3", "numpy") else 3 if tier == "quick" else 4, "prefix": [o], "more": True}


def desc_of(name):
    if name == "d1q3":
        return L.desc(1, [3], [L.sch([0, 1, 2], ["1", "X", "X**2"], [0, 0, "1.4"], ["rho", "q", "0.4*rho + 0.2*q + 0.1*rho*q"], ["rho", "q"])])
    if name == "two":
        a = L.sch([0, 1, 2], ["1", "X", "X**2"], [0, "0.8", "1.4"], ["rho", "0.2*rho + 0.1*T", "0.4*rho"], ["rho"])
        b = L.sch([1, 2], ["1", "X"], [0, "1.7"], ["T", "0.3*T - 0.2*rho"], ["T"])
        return L.desc(1, [3], [a, b])
    return L.desc(2, [2, 3], [L.sch([0, 1, 2, 3, 4], ["1", "X", "Y", "X**2 + Y**2", "X**2 - Y**2"], [0, 0, "0.9", "1.2", "0.7"],
                                    ["rho", "qx", "0.3*rho", "0.6*rho + 0.1*qx", "0.05*qx"], ["rho", "qx"])])


SIMS = {}
DIRS = {}


def simulation(name, gen):
    import pylbm

    if (name, gen) not in SIMS:
        d = desc_of(name)
        SIMS[name, gen] = (pylbm.Simulation(to_dico(d, gen)), Ref(d), d)
    return SIMS[name, gen]


def fresh(name, gen, kind, now):
    """a new simulation (code generated once) and the distributions it must start from"""
    import sympy as sp
    import pylbm

    _, ref, d = simulation(name, gen)
    dico = to_dico(d, gen)
    names = list(ref.consm)
    g = np.arange(int(np.prod(ref.n)), dtype=float).reshape(tuple(ref.n))
    if kind == "moments":
        data = {c: 0.3 + 0.1 * i + 0.05 * np.cos(2.1 * g + i) for i, c in enumerate(names)}
        m = np.zeros((ref.nv,) + tuple(ref.n))
        for c in names:
            m[ref.consm[c]] = data[c]
        F = ref.m2f(ref.equilibrium(m))
        keys = {sp.Symbol(c): data[c] for c in names}
    else:
        F = np.array([0.3 + 0.05 * np.cos(1.7 * g + k) for k in range(ref.nv)])
        keys = dict(enumerate(F))

    def wrap(a):
        def init(*x):
            # periodic extension in the halo
            idx = [np.floor((c - lo) / d["dx"]).astype(int) % n for c, lo, n in zip(x, d["lo"], ref.n)]
            return a[tuple(np.broadcast_arrays(*idx))]

        return init

    dico["init"] = {k: wrap(a) for k, a in keys.items()}
    dico["inittype"] = kind
    if gen == "cython":
        if (name, gen) not in DIRS:
            DIRS[name, gen] = tempfile.mkdtemp(prefix="s07_")
            dico["codegen_option"] = {"directory": DIRS[name, gen]}
            pylbm.Simulation(dico)
        dico["codegen_option"] = {"directory": DIRS[name, gen], "generate": False}
    return pylbm.Simulation(dico, initialize=now), F


def end_worker():
    for d in DIRS.values():
        shutil.rmtree(d, ignore_errors=True)
    DIRS.clear()


class Model:
    """distributions and moments; moments are a function of the distributions until they
    are written or transformed"""

    def __init__(self, ref, F):
        self.ref, self.F, self.own = ref, F, None

    @property
    def m(self):
        return self.ref.f2m(self.F) if self.own is None else self.own

    def do(self, op, arg):
        r = self.ref
        if op == "step":
            self.F, self.own = r.step(self.F), None
        elif op in ("wm0", "wm1"):
            m = self.m.copy()
            m[arg[0]] = arg[1]
            self.own = m
        elif op == "wF":
            self.F = self.F.copy()
            self.F[arg[0]] = arg[1]
            self.own = None
        elif op == "f2m":
            self.own = r.f2m(self.F)
        elif op == "m2f":
            m = self.m
            self.F, self.own = r.m2f(m), m
        elif op == "eq":
            self.own = r.equilibrium(self.m)
        elif op == "relax":
            self.own = r.relax(self.m)
        elif op == "move":
            self.F, self.own = r.stream(self.F), None
        elif op == "load":
            self.F, self.own = arg, None


def run_case(case, ctx):
    import sympy as sp

    sim, ref, d = simulation(case["scheme"], case["gen"])
    nv, shape = ref.nv, tuple(ref.n)
    ctx.sample({"case": case, "desc": d})
    vm = [(h - n) // 2 for h, n in zip(sim.domain.shape_halo, sim.domain.shape_in)]
    inner = tuple(slice(v, v + n) for v, n in zip(vm, shape))
    names = list(ref.consm)
    sym = {c: sp.Symbol(c) for c in names}
    g = np.arange(nv * int(np.prod(shape)), dtype=float)
    F0 = (np.cos(3.7 * g + 0.3) * 0.3 + 0.5).reshape((nv,) + shape)

    # position of each moment in the simulation's numbering (conserved ones first)
    def halo(a):
        h = np.full(sim.domain.shape_halo, 0.5)
        h[inner] = a
        return h

    def arrays():
        from pylbm.storage import Array

        a = Array(nv, sim.container.nspace, sim.container.vmax, sim.container.sorder, sim.domain.mpi_topo)
        a.set_conserved_moments(sim.scheme.consm)
        return a

    tmpl = (np.arange(int(np.prod(shape))) * 0.1 + 0.2).reshape(shape)

    def seqs():
        p = tuple(case["prefix"])
        if len(p) > 1 and p[1] == 0:
            yield p[:1]
        for n in range(case["depth"] - len(p) + 1):
            for rest in itertools.product(range(len(OPS) if case.get("more") else N), repeat=n):
                if not case.get("more") or max(p + rest) >= N:
                    yield p + rest

    def observe(seq, pos, model, what):
        got = np.array([np.array(sim.m[sym[c]]) for c in names])
        exp = np.array([model.m[ref.consm[c]] for c in names])
        return ctx.check(
            close(got, exp),
            lambda: "%s after %s: moments %s: %s" % (what, [OPS[o] for o in seq[: pos + 1]], names, maxdiff(got, exp)),
        )

    def starts(seq):
        if not case.get("built"):
            yield sim, F0
            return
        for kind in ("moments", "distributions"):
            if len(seq) < case["depth"]:
                yield fresh(case["scheme"], case["gen"], kind, True)
            if OPS[seq[0]] == "step":
                yield fresh(case["scheme"], case["gen"], kind, False)

    for seq, (sim, F0) in ((q, st) for q in seqs() for st in starts(q)):
        if not case.get("built"):
            set_F(sim, F0)
        model = Model(ref, F0)
        ok = True
        for pos, o in enumerate(seq):
            op = OPS[o]
            val = tmpl + 0.05 * pos
            if op == "step":
                sim.one_time_step()
                model.do(op, None)
            elif op == "readm":
                ok = observe(seq, pos, model, "read")
            elif op == "readF":
                got = get_F(sim, nv)
                ok = ctx.check(close(got, model.F), lambda: "distributions after %s: %s" % ([OPS[x] for x in seq[: pos + 1]], maxdiff(got, model.F)))
            elif op in ("wm0", "wm1"):
                c = names[0] if op == "wm0" else names[-1]
                sim.m_halo[sym[c]] = halo(val)
                model.do(op, (ref.consm[c], val))
            elif op == "wF":
                k = (pos + 1) % nv
                sim.F_halo[k] = halo(val)
                model.do(op, (k, val))
            elif op == "f2m":
                sim.f2m()
                model.do(op, None)
            elif op == "m2f":
                sim.m2f()
                model.do(op, None)
            elif op == "eq":
                sim.equilibrium()
                model.do(op, None)
            elif op == "relax":
                sim.relaxation()
                model.do(op, None)
            elif op == "move":
                sim.boundary_condition()
                sim.transport()
                model.do(op, None)
            else:
                mu, fu = arrays(), arrays()
                m = np.zeros((nv,) + shape)
                for i, c in enumerate(names):
                    mu[sym[c]] = halo(val + 0.1 * i)
                    m[ref.consm[c]] = val + 0.1 * i
                sim.equilibrium(mu)
                new = ref.m2f(ref.equilibrium(m))
                if op == "load":
                    sim.m2f(mu)
                    model.do(op, new)
                else:
                    sim.m2f(mu, fu)
                    out = np.array([np.array(fu._in(k)) for k in range(nv)])
                    ok = ctx.check(close(out, new), lambda: "distributions of other moments after %s: %s" % ([OPS[x] for x in seq[: pos + 1]], maxdiff(out, new)))
            ctx.step()
            if not ok:
                return
        got = get_F(sim, nv)
        if not ctx.check(close(got, model.F), lambda: "distributions after %s: %s" % ([OPS[x] for x in seq], maxdiff(got, model.F))):
            return
        if not observe(seq, len(seq) - 1, model, "final read"):
            return
        # the non conserved moments show through the distributions they give back
        sim.m2f()
        got2, exp2 = get_F(sim, nv), ref.m2f(model.m)
        if not ctx.check(close(got2, exp2), lambda: "moments transformed back after %s: %s" % ([OPS[x] for x in seq], maxdiff(got2, exp2))):
            return
        ctx.state(got, exp2)
        ctx.outcome(exp2)
        ctx.trace()
