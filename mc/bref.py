"""Reference interpreter with boundaries: Ref plus walls, obstacles and their methods.

desc gets   "label": [2*dim edge labels]   "elems": [geometry elements]
            "bc": {label: {"method": [name per scheme], "value": name?, "time": bool, "args": [...]}}
Labels of links are the ones of the G01 oracle; where that one is undecided (corners shared
by two labels, grazing links) the label and distance recorded by pylbm.Domain are used.
"""
import numpy as np

from .checks import g01
from .geo import build
from .ref import Ref, to_dico, velocity

NONE = 999
MIRROR = {}


class BRef(Ref):
    def __init__(self, desc, dom=None):
        super().__init__(desc)
        self.num = [k for s in desc["schemes"] for k in s["vel"]]
        dim, n = self.dim, self.n
        self.label = list(desc["label"])
        case = {"dim": dim, "n": n, "dx": self.dx, "lo": desc["lo"], "label": self.label,
                "vel": [list(s["vel"]) for s in desc["schemes"]], "elems": desc.get("elems", [])}
        self.fluid, fdoubt, links = g01.oracle(case)
        vm = self.vmax()
        self.vm = vm
        self.links = []  # (k, x_f, v_out, distance, label)
        self.undecided = 0
        opposite = {}
        for i in range(self.nv):
            for j in range(self.nv):
                if self.block[i] == self.block[j] and all(a == -b for a, b in zip(self.vel[i], self.vel[j])):
                    opposite[i] = j
        self.opposite = opposite
        if dom is not None:
            uniq = {tuple(int(c) for c in uv.v[:dim]): k for k, uv in enumerate(dom.stencil.unique_velocities)}
        byvel = {tuple(int(c) for c in velocity(dim, q)): e for q, e in links.items()}
        for k in range(self.nv):
            vout = tuple(-int(c) for c in self.vel[k])
            if not any(vout):
                continue
            if vout not in byvel:
                continue  # the opposite velocity is not in the stencil: no link recorded
            for idx, (kind, t, labs) in byvel[vout].items():
                if kind == 0:
                    continue
                lab = None
                if kind in (1, 4) and len(labs) == 1:
                    lab = next(iter(labs))
                else:
                    i = tuple(a + b for a, b in zip(idx, vm))
                    kk = uniq[vout]
                    lab = int(dom.flag[(kk,) + i])
                    if kind not in (1, 4):
                        self.undecided += 1
                        t = float(dom.distance[(kk,) + i])
                if lab in (-1, -2, NONE):
                    continue
                self.links.append((k, idx, vout, t, lab))
        self.values = {}

    # -- values -------------------------------------------------------------------
    def feq(self, link, name, t, args):
        """equilibrium distributions of the prescribed moments at the crossing point"""
        k, idx, vout, d, lab = link
        x = [self.coords[j][idx[j]] + vout[j] * d * self.dx for j in range(self.dim)]
        m = np.zeros((self.nv, 1))
        for c, val in VALUES[name](t, x, args).items():
            if c in self.consm:
                m[self.consm[c]] = val
        told, self.t = self.t, t
        out = self.m2f(self.equilibrium(m))[:, 0]
        self.t = told
        return out

    # -- one phase ------------------------------------------------------------------
    def halo(self, f, fill=np.nan):
        """periodic extension in every direction; cells which are not fluid are unknown"""
        g = np.where(self.fluid[None], f, fill)
        pad = [(0, 0)] + [(v, v) for v in self.vm]
        g = np.pad(g, pad, mode="wrap")
        for j in range(self.dim):  # beyond a wall only the written links mean anything
            if self.label[2 * j] != -1 and self.vm[j]:
                g[(slice(None),) * (j + 1) + (slice(0, self.vm[j]),)] = fill
            if self.label[2 * j + 1] != -1 and self.vm[j]:
                g[(slice(None),) * (j + 1) + (slice(self.vm[j] + self.n[j], None),)] = fill
        return g

    def boundary(self, f):
        g = self.halo(f)
        src = g.copy()
        written = set()
        at = lambda idx: tuple(a + b for a, b in zip(idx, self.vm))
        for link in self.links:
            k, idx, vout, d, lab = link
            bc = self.desc["bc"][lab]
            meth = bc["method"][self.block[k]]
            v = [-c for c in vout]
            ks = self.opposite.get(k)
            rhs = 0.0
            if bc.get("value") and "neumann" not in meth:
                fe = self.feq(link, bc["value"], self.t if bc.get("time") else 0.0, bc.get("args", ()))
                rhs = fe[k] + fe[ks] if meth in ("abb", "bouzidi_anti") else fe[k] - fe[ks]
            near = at(idx)
            far = at([a + b for a, b in zip(idx, v)])
            out = at([a + b for a, b in zip(idx, vout)])
            get = lambda q, where: src[(q,) + where] if all(0 <= w < s for w, s in zip(where, src.shape[1:])) else np.nan
            if meth == "bb":
                val = get(ks, near) + rhs
            elif meth == "abb":
                val = -get(ks, near) + rhs
            elif meth in ("bouzidi", "bouzidi_anti"):
                sgn = -1.0 if meth == "bouzidi_anti" else 1.0
                if d < 0.5:
                    s = 2 * d
                    val = sgn * s * get(ks, near) + (1 - s) * get(ks, far) if s != 1 else sgn * get(ks, near)
                else:
                    s = 0.5 / d
                    val = sgn * s * get(ks, near) + (1 - s) * get(k, near) if s != 1 else sgn * get(ks, near)
                val = val + rhs
            elif meth == "neumann":
                val = get(k, near)
            else:  # neumannx/y/z: copy from the point in front of the wall in that direction only
                ax = "xyz".index(meth[-1])
                p = list(out)
                p[ax] -= vout[ax]
                p = tuple(p)
                val = get(k, p)
                if any(j != ax and not self.vm[j] <= p[j] < self.vm[j] + self.n[j] for j in range(self.dim)):
                    val = np.nan  # a point outside the box: depends on other labels
            g[(k,) + out] = val
        return g

    def stream_halo(self, g):
        out = np.empty((self.nv,) + tuple(self.n))
        for k in range(self.nv):
            sl = tuple(slice(self.vm[d] - self.vel[k][d], self.vm[d] - self.vel[k][d] + self.n[d]) for d in range(self.dim))
            out[k] = g[(k,) + sl]
        return out

    def step(self, f):
        """unknown values (nan) spread through the collision"""
        f = self.stream_halo(self.boundary(f))
        f = np.where(self.fluid[None], f, np.nan)
        with np.errstate(all="ignore"):
            f = self.collide(f)
        self.t += self.dt
        self.nt += 1
        return f


# value functions: reference form (dict of moments) and pylbm form built from it
VALUES = {
    "const": lambda t, x, a: {"rho": 1.5, "qx": 0.2, "qy": -0.1, "q": 0.3, "T": 0.7, "qz": 0.15},
    "zero": lambda t, x, a: {"rho": 0.0, "qx": 0.2, "qy": 0.0, "q": 0.0, "T": 0.0, "qz": 0.0},
    "space": lambda t, x, a: {
        "rho": 1.0 + 0.5 * x[0] + (0.25 * x[1] if len(x) > 1 else 0) + (0.125 * x[2] ** 2 if len(x) > 2 else 0),
        "qx": 0.1 + 0.3 * x[-1], "qy": 0.2 * x[0] - 0.1, "q": x[0] ** 2, "T": 0.4 - 0.2 * x[-1], "qz": 0.3 * x[0]},
    "time": lambda t, x, a: {"rho": 1.0 + 0.5 * t, "qx": 0.1 - t, "qy": 0.2 * t * t, "q": t + 0.2, "T": 0.3 * t, "qz": -t},
    "spacetime": lambda t, x, a: {"rho": 1.0 + t * x[0], "qx": 0.1 + x[-1] - t, "qy": t * x[-1], "q": x[0] - t, "T": x[-1] * (1 + t), "qz": t + x[0]},
    "args": lambda t, x, a: {"rho": a[0] + a[1] * x[0], "qx": a[0] * x[-1], "qy": -a[1], "q": a[1], "T": a[0] - a[1] * x[-1], "qz": a[1] * x[0]},
    "argstime": lambda t, x, a: {"rho": a[0] + a[1] * t * x[0], "qx": a[0] * x[-1], "qy": -a[1] * t, "q": a[1], "T": a[0] - t * x[-1], "qz": a[1]},
    "partial": lambda t, x, a: {"rho": 1.25 + 0.5 * x[0]},
}


def pylbm_value(name, consm, time, dim):
    import sympy as sp

    syms = {c: sp.Symbol(c) for c in consm}

    def body(m, t, *rest):
        x, args = rest[:dim], rest[dim:]
        for c, val in VALUES[name](t, x, args).items():
            if c in syms:
                m[syms[c]] = val

    if time:
        def fn(f, m, t, *rest):
            body(m, t, *rest)
    else:
        def fn(f, m, *rest):
            body(m, 0.0, *rest)
    return fn


def to_bdico(desc, generator="numpy", **kw):
    import pylbm

    d = to_dico(desc, generator, **kw)
    if desc.get("elems"):
        d["elements"] = [build(e) for e in desc["elems"]]
    names = {"bb": "BounceBack", "abb": "AntiBounceBack", "bouzidi": "BouzidiBounceBack", "bouzidi_anti": "BouzidiAntiBounceBack",
             "neumann": "Neumann", "neumannx": "NeumannX", "neumanny": "NeumannY", "neumannz": "NeumannZ"}
    consm = [c for s in desc["schemes"] for c in s["consm"]]
    bcs = {}
    for lab, bc in desc["bc"].items():
        e = {"method": {i: getattr(pylbm.bc, names[m]) for i, m in enumerate(bc["method"])}}
        if bc.get("value"):
            fn = pylbm_value(bc["value"], consm, bc.get("time"), desc["dim"])
            e["value"] = (fn, tuple(bc["args"])) if bc.get("args") else fn
            if bc.get("time"):
                e["time_bc"] = True
        bcs[int(lab)] = e
    if bcs:
        d["boundary_conditions"] = bcs
    return d


def normalise(desc):
    """json turns integer keys into strings"""
    desc = dict(desc)
    desc["bc"] = {int(k): v for k, v in desc.get("bc", {}).items()}
    return desc


def match(got, exp, fluid, tol=1e-9):
    """equal where the reference is known; returns (ok, number of compared values, where)"""
    known = np.isfinite(exp) & fluid[None]
    diff = np.where(known, np.abs(got - np.where(known, exp, 0)), 0.0)
    with np.errstate(invalid="ignore"):
        scale = max(1.0, float(np.nanmax(np.abs(np.where(known, exp, 0)))))
        bad = ~(diff <= tol * scale)
    return not bad.any(), int(known.sum()), np.argwhere(bad)[:3].tolist(), float(np.max(diff))
