"""Reference interpreter of lattice Boltzmann descriptions.

A description ("desc") is plain data; the same desc is turned into a pylbm
dictionary (to_dico) and interpreted here with plain python/numpy.  Nothing of
pylbm is used by the interpreter: expressions are python strings evaluated by
eval, velocities come from the tables of checks/v01, moments from the polynomials
evaluated on the lattice, inverses from numpy.

desc = {
  "dim": 1, "n": [6], "dx": .25, "lo": [0.], "la": 2.,
  "schemes": [{"vel": [0,1,2], "poly": ["1","X","X**2"], "s": ["0","0","1.5"],
               "eq": ["rho","q","rho*q/2+q**2"], "consm": ["rho","q"],
               "source": {"q": "c*rho"}}],
  "params": {"c": .5}, "relvel": ["0.1"], "label": -1 | [..],
}
"""
import math

import numpy as np

from .checks.v01 import table

_VEL = {}


def velocity(dim, num):
    if dim not in _VEL:
        _VEL[dim] = table(dim, {1: 20, 2: 5, 3: 3}[dim])
    return _VEL[dim][num]


FUN = {
    "sin": np.sin, "cos": np.cos, "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "tanh": np.tanh,
    "abs": np.abs, "Abs": np.abs, "pi": math.pi, "Rational": lambda a, b: a / b,
}


def ev(expr, env):
    if not isinstance(expr, str):
        return expr
    return eval(expr, {"__builtins__": {}}, {**FUN, **env})


class Ref:
    def __init__(self, desc):
        self.desc = desc
        self.dim = desc["dim"]
        self.n = list(desc["n"])
        self.dx = desc["dx"]
        self.la = desc["la"]
        self.dt = self.dx / self.la
        self.params = dict(desc.get("params", {}))
        self.params["LA"] = self.la
        self.vel, self.poly, self.s, self.eq, self.ptr = [], [], [], [], [0]
        self.consm = {}
        self.source = {}
        for sch in desc["schemes"]:
            base = self.ptr[-1]
            nv = len(sch["vel"])
            self.vel += [velocity(self.dim, k) for k in sch["vel"]]
            self.poly += sch["poly"]
            self.s += sch["s"]
            self.eq += sch["eq"]
            self.ptr.append(base + nv)
            for c in sch["consm"]:
                self.consm[c] = base + sch["eq"].index(c)
            self.source.update(sch.get("source", {}))
        self.nv = self.ptr[-1]
        self.block = np.zeros(self.nv, int)
        for k in range(len(self.ptr) - 1):
            self.block[self.ptr[k]:self.ptr[k + 1]] = k
        self.relvel = desc.get("relvel")
        self.M = self.moment_matrix(np.zeros(self.dim))
        self.invM = np.linalg.inv(self.M)
        self.coords = [
            desc["lo"][d] + (np.arange(self.n[d]) + 0.5) * self.dx for d in range(self.dim)
        ]
        self.t = 0.0
        self.nt = 0

    # -- algebra ---------------------------------------------------------------
    def moment_matrix(self, u):
        M = np.zeros((self.nv, self.nv))
        for i in range(self.nv):
            for j in range(self.nv):
                if self.block[i] != self.block[j]:
                    continue
                env = dict(self.params)
                for d, name in enumerate("XYZ"[: self.dim]):
                    env[name] = self.vel[j][d] * self.la - u[d]
                M[i, j] = ev(self.poly[i], env)
        return M

    def env(self, m, extra=None):
        env = dict(self.params)
        env.update({c: m[i] for c, i in self.consm.items()})
        env["t"] = self.t
        if extra:
            env.update(extra)
        return env

    def equilibrium(self, m):
        """moments at equilibrium with the conserved components of m"""
        env = self.env(m)
        return np.array([np.broadcast_to(ev(e, env), m[0].shape) for e in self.eq], dtype=float)

    def f2m(self, f):
        return np.tensordot(self.M, f, 1)

    def m2f(self, m):
        return np.tensordot(self.invM, m, 1)

    def half_source(self, m):
        if not self.source:
            return m
        env = self.env(m)
        out = m.copy()
        for c, e in self.source.items():
            out[self.consm[c]] = m[self.consm[c]] + self.dt / 2 * ev(e, env)
        return out

    def relax(self, m, eq=None):
        env = self.env(m)
        eq = self.equilibrium(m) if eq is None else eq
        s = np.array([np.broadcast_to(ev(x, env), m[0].shape) for x in self.s], dtype=float)
        return m + s * (eq - m)

    def collide(self, f):
        """collision of streamed distributions"""
        if not self.relvel:
            m = self.half_source(self.f2m(f))
            m = self.half_source(self.relax(m))
            return self.m2f(m)
        shape = f.shape[1:]
        m0 = self.f2m(f)
        eq = self.equilibrium(m0)
        env = self.env(m0)
        u = [np.broadcast_to(np.asarray(ev(e, env), float), shape) for e in self.relvel]
        s = [np.broadcast_to(np.asarray(ev(x, env), float), shape) for x in self.s]
        out = np.empty_like(f)
        for idx in np.ndindex(*shape):
            Mu = self.moment_matrix([uu[idx] for uu in u])
            mu = Mu @ f[(slice(None),) + idx]
            equ = Mu @ self.invM @ eq[(slice(None),) + idx]
            ss = np.array([x[idx] for x in s])
            mu = mu + ss * (equ - mu)
            out[(slice(None),) + idx] = np.linalg.solve(Mu, mu)
        return out

    # -- streaming on the periodic box ------------------------------------------
    def stream(self, f):
        out = np.empty_like(f)
        for k in range(self.nv):
            out[k] = np.roll(f[k], self.vel[k], axis=tuple(range(self.dim)))
        return out

    def step(self, f):
        f = self.collide(self.stream(f))
        self.t += self.dt
        self.nt += 1
        return f

    def vmax(self):
        return [max(abs(v[d]) for v in self.vel) for d in range(self.dim)]


# ---------------------------------------------------------------------------------
# the same description as a pylbm dictionary
# ---------------------------------------------------------------------------------
def symbols_of(desc):
    import sympy as sp

    names = set("XYZ") | set(desc.get("params", {})) | {"LA", "t"}
    for s in desc["schemes"]:
        names |= set(s["consm"])
    names |= set(desc.get("extra", {}))
    return {n: sp.Symbol(n) for n in names}


def to_dico(desc, generator="numpy", **kw):
    import sympy as sp

    loc = symbols_of(desc)
    loc_fun = dict(loc)
    S = lambda e: sp.sympify(e, locals=loc_fun) if isinstance(e, str) else e
    num = lambda e: (sp.sympify(e, locals=loc_fun) if isinstance(e, str) else e)

    def relax(e):
        v = num(e)
        return float(v) if isinstance(v, sp.Number) else v

    schemes = []
    for s in desc["schemes"]:
        d = {
            "velocities": list(s["vel"]),
            "polynomials": [S(p) for p in s["poly"]],
            "relaxation_parameters": [relax(x) for x in s["s"]],
            "equilibrium": [S(e) for e in s["eq"]],
            "conserved_moments": [loc[c] for c in s["consm"]],
        }
        if s.get("source"):
            d["source_terms"] = {loc[c]: S(e) for c, e in s["source"].items()}
        schemes.append(d)
    box = {}
    for d, name in enumerate("xyz"[: desc["dim"]]):
        box[name] = [desc["lo"][d], desc["lo"][d] + desc["n"][d] * desc["dx"]]
    lab = desc.get("label", -1)
    box["label"] = list(lab) if isinstance(lab, (list, tuple)) else lab
    params = {loc[k]: v for k, v in desc.get("params", {}).items()}
    out = {
        "box": box,
        "space_step": desc["dx"],
        "schemes": schemes,
        "generator": generator,
    }
    if desc.get("la_symbol", True):
        out["scheme_velocity"] = loc["LA"]
        params[loc["LA"]] = desc["la"]
    else:
        out["scheme_velocity"] = desc["la"]
    if params:
        out["parameters"] = params
    if desc.get("algo"):
        import pylbm

        out["lbm_algorithm"] = {"name": {"base": pylbm.algorithm.BaseAlgorithm, "pull": pylbm.algorithm.PullAlgorithm}[desc["algo"]],
                                "settings": dict(desc.get("settings", {}))}
    if desc.get("relvel"):
        out["relative_velocity"] = [S(e) if isinstance(e, str) else e for e in desc["relvel"]]
    if "init" in desc:
        out["init"] = {loc[k]: v for k, v in desc["init"].items()}
    else:
        out["init"] = {loc[c]: 0.0 for s in desc["schemes"] for c in s["consm"]}
    out.update(kw)
    return out


def set_F(sim, f):
    """write interior distributions (halo: zero) through the public accessor"""
    ref_vmax = [(h - i) // 2 for h, i in zip(sim.domain.shape_halo, sim.domain.shape_in)]
    for k in range(f.shape[0]):
        a = np.full(sim.domain.shape_halo, 7.25)
        a[tuple(slice(v, v + n) for v, n in zip(ref_vmax, sim.domain.shape_in))] = f[k]
        sim.F_halo[k] = a


def get_F(sim, nv):
    return np.array([np.array(sim.F[k]) for k in range(nv)])


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= tol * scale))


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    return "max difference %.3g" % float(np.max(np.abs(a - b)))
