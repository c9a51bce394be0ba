"""Independent geometry: every element is the affine image of a simple convex set.

element = {"kind", "args": {...}, "label": int | list, "fluid": bool}
A shape is p = c + A q with q in K, K given by faces:
   ("ball", axes, label)          sum_{i in axes} q_i^2 <= 1
   ("half", n, b, label)          n.q <= b
"""
import os
import zlib

import numpy as np

from . import stl

INF = np.inf


class Shape:
    def __init__(self, e):
        k, a = e["kind"], e["args"]
        lab = e.get("label", 0)
        V = lambda x: np.asarray(x, float)
        self.fluid = bool(e.get("fluid", False))
        self.kind = k
        if k in ("circle", "sphere"):
            self.dim = 2 if k == "circle" else 3
            self.c, self.A = V(a[0]), a[1] * np.eye(self.dim)
            faces = [("ball", range(self.dim))]
        elif k in ("ellipse", "ellipsoid"):
            self.dim = 2 if k == "ellipse" else 3
            self.c, self.A = V(a[0]), np.array([V(x) for x in a[1:]]).T
            faces = [("ball", range(self.dim))]
        elif k == "parallelogram":
            self.dim = 2
            self.c, self.A = V(a[0]), np.array([V(a[1]), V(a[2])]).T
            # sides in the order of the documentation: p..p+v1, p..p+v2, p+v1.., p+v2..
            faces = [("half", V([0, -1]), 0.0), ("half", V([-1, 0]), 0.0), ("half", V([0, 1]), 1.0), ("half", V([1, 0]), 1.0)]
        elif k == "triangle":
            self.dim = 2
            self.c, self.A = V(a[0]), np.array([V(a[1]), V(a[2])]).T
            faces = [("half", V([0, -1]), 0.0), ("half", V([-1, 0]), 0.0), ("half", V([1, 1]), 1.0)]
        elif k in ("cylcircle", "cylellipse", "cyltriangle"):
            self.dim = 3
            self.c, self.A = V(a[0]), np.array([V(x) for x in a[1:]]).T
            if k == "cyltriangle":
                faces = [("half", V([0, -1, 0]), 0.0), ("half", V([-1, 0, 0]), 0.0), ("half", V([1, 1, 0]), 1.0)]
            else:
                faces = [("ball", (0, 1))]
            faces += [("half", V([0, 0, -1]), 1.0), ("half", V([0, 0, 1]), 1.0)]
        elif k in ("box3", "stlbox"):
            self.dim = 3
            self.c, self.A = V(a[0]), np.array([V(x) for x in a[1:]]).T
            faces = [("half", V([0, -1, 0]), 0.0), ("half", V([-1, 0, 0]), 0.0), ("half", V([1, 0, 0]), 1.0), ("half", V([0, 1, 0]), 1.0)]
            faces += [("half", V([0, 0, -1]), 0.0), ("half", V([0, 0, 1]), 1.0)]
            if k == "stlbox":  # one label for the whole surface, vertices in single precision
                assert isinstance(lab, int) and all(float(np.float32(x)) == x for v in a for x in v)
        else:
            raise ValueError(k)
        if isinstance(lab, int):
            lab = [lab] * len(faces)
        self.faces = [f + (l,) for f, l in zip(faces, lab)]
        self.nfaces = len(faces)
        self.iA = np.linalg.inv(self.A)

    def local(self, p):
        return np.tensordot(np.asarray(p, float) - self.c, self.iA.T, 1)

    def level(self, p):
        """max over faces of (constraint - bound); <= 0 inside.  p[..., dim]"""
        q = self.local(p)
        out = np.full(q.shape[:-1], -INF)
        for f in self.faces:
            if f[0] == "ball":
                g = np.sqrt(sum(q[..., i] ** 2 for i in f[1])) - 1.0
            else:
                g = q @ f[1] - f[2]
            out = np.maximum(out, g)
        return out

    def extreme(self, s):
        """support function in direction s (for the bounding box)"""
        w = self.A.T @ np.asarray(s, float)
        best = float(self.c @ s)
        if self.kind in ("circle", "sphere", "ellipse", "ellipsoid"):
            return best + np.linalg.norm(w)
        if self.kind in ("parallelogram",):
            return best + sum(max(0, x) for x in w)
        if self.kind == "triangle":
            return best + max(0, w[0], w[1])
        if self.kind in ("box3", "stlbox"):
            return best + sum(max(0, x) for x in w)
        base = np.hypot(w[0], w[1]) if self.kind != "cyltriangle" else max(0, w[0], w[1])
        return best + base + abs(w[2])

    def ray(self, p, v, spans=False):
        """first crossing of the boundary along p + t v, t > 0, for arrays of points p[..., dim].

        returns t (inf: none), label, outward normal, doubt (grazing or edge)"""
        q = self.local(p)
        w = self.iA @ np.asarray(v, float)
        shape = q.shape[:-1]
        tin, tout = np.full(shape, -INF), np.full(shape, INF)
        fin, fout = np.full(shape, -1), np.full(shape, -1)
        tin2, tout2 = np.full(shape, -INF), np.full(shape, INF)  # runner up: edges
        empty = np.zeros(shape, bool)
        doubt = np.zeros(shape, bool)
        for i, f in enumerate(self.faces):
            if f[0] == "ball":
                ax = list(f[1])
                a = sum(w[j] ** 2 for j in ax)
                b = sum(q[..., j] * w[j] for j in ax)
                c = sum(q[..., j] ** 2 for j in ax) - 1.0
                if a < 1e-24:
                    empty |= c > 0
                    doubt |= np.abs(c) < 1e-9
                    continue
                delta = b * b - a * c
                doubt |= np.abs(delta) < 1e-9 * max(1.0, a)
                miss = delta < 0
                empty |= miss
                r = np.sqrt(np.where(miss, 0, delta))
                t0, t1 = (-b - r) / a, (-b + r) / a
            else:
                nv = float(f[1] @ w)
                g = q @ f[1] - f[2]
                if abs(nv) < 1e-12:
                    empty |= g > 0
                    doubt |= np.abs(g) < 1e-9
                    continue
                t = -g / nv
                t0 = t if nv < 0 else np.full(shape, -INF)
                t1 = t if nv > 0 else np.full(shape, INF)
            up = t0 > tin
            tin2 = np.where(up, tin, np.maximum(tin2, t0))
            fin = np.where(up, i, fin)
            tin = np.where(up, t0, tin)
            up = t1 < tout
            tout2 = np.where(up, tout, np.minimum(tout2, t1))
            fout = np.where(up, i, fout)
            tout = np.where(up, t1, tout)
        eps = 1e-7
        with np.errstate(invalid="ignore"):
            doubt |= np.abs(tout - tin) < eps
            doubt |= (np.abs(tin) < eps) | (np.abs(tout) < eps)
        empty |= tin > tout
        labs = np.array([f[-1] for f in self.faces] + [-1])
        with np.errstate(invalid="ignore"):
            ein, eout = np.abs(tin - tin2) < eps, np.abs(tout - tout2) < eps
        if spans:  # the part of the line inside the shape: [tin, tout]
            tin = np.where(empty & ~doubt, INF, tin)
            tout = np.where(empty & ~doubt, -INF, tout)
            return tin, tout, labs[fin], labs[fout], doubt, ein, eout
        use_in = tin > 0
        t = np.where(use_in, tin, tout)
        face = np.where(use_in, fin, fout)
        edge = np.where(use_in, ein, eout)
        t = np.where(empty | (t <= 0), INF, t)
        labels = labs[face]
        nrm = np.zeros(shape + (self.dim,))
        hit = q + np.where(np.isfinite(t), t, 0)[..., None] * w
        for i, f in enumerate(self.faces):
            sel = face == i
            if f[0] == "ball":
                g = np.zeros(shape + (self.dim,))
                for j in f[1]:
                    g[..., j] = hit[..., j]
            else:
                g = np.broadcast_to(f[1], shape + (self.dim,))
            n = g @ self.iA
            with np.errstate(all="ignore"):
                n = n / np.linalg.norm(n, axis=-1)[..., None]
            nrm[sel] = n[sel]
        return t, labels, nrm, doubt, edge


def build(e):
    """the pylbm element"""
    import pylbm

    if e["kind"] == "stlbox":
        path = os.path.abspath("box%d.stl" % (zlib.crc32(str(e["args"]).encode())))
        stl.write(path, stl.triangles([(0, 0, 0)], e["args"]), "binary")
        return pylbm.STLElement(path, label=e.get("label", 0), isfluid=bool(e.get("fluid", False)))
    cls = {
        "circle": "Circle", "sphere": "Sphere", "ellipse": "Ellipse", "ellipsoid": "Ellipsoid",
        "parallelogram": "Parallelogram", "triangle": "Triangle", "cylcircle": "CylinderCircle",
        "cylellipse": "CylinderEllipse", "cyltriangle": "CylinderTriangle", "box3": "Parallelepiped",
    }[e["kind"]]
    return getattr(pylbm, cls)(*e["args"], label=e.get("label", 0), isfluid=bool(e.get("fluid", False)))
