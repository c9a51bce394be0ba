"""E02: elements read from STL files - membership, bounds, ray crossings, normals"""
import itertools
import os

import numpy as np

from ..stl import triangles, write

RULE = "one case = one solid made of voxels, a frame, a triangulation and a format of file; every point of a lattice is classified and shot along every direction"
ASSUMPTIONS = [
    "closed surfaces whose triangles are oriented outwards (right hand rule), as required by the format",
    "coordinates of STL files are in single precision: points within 1e-5 of the surface and rays within 1e-5 of an edge of the solid are not judged",
]
TOL = 1e-5
CASE_TIMEOUT = 300


def bounds(tier):
    return ("every non-empty union of the voxels of a 2x2x2 block up to the position%s, and unions of 3x3x3 voxels with a cavity, a hole, a notch or several components, in 6 frames; lattices of 7^3 points in generic position and on the planes of symmetry; "
            "directions |v|<=%d; both diagonals of the faces, 3 orders of the triangles, binary and ASCII files") % ((" in one frame", 1) if tier == "quick" else ("", 2))


# frames: origin and the images of the three axes (exact in single precision)
FRAMES = [
    ((0.0, 0.0, 0.0), (1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0)),
    ((0.25, -0.5, 0.125), (0.5, 0, 0), (0, 0.75, 0), (0, 0, 1.25)),
    ((-0.25, 0.5, 0.0), (0, 0, 0.75), (0.5, 0, 0), (0, 1.0, 0)),
    ((0.125, 0.25, -0.5), (0.5, 0.25, 0), (-0.25, 0.5, 0.125), (0.0, -0.125, 0.75)),
    ((1.0, 0.0, 0.0), (-0.75, 0.25, 0.5), (0.25, 0.75, 0.0), (0.5, -0.25, 0.625)),  # left handed or not: both occur
    ((0.1, -0.3, 0.2), (0.3, 0.0, 0.0), (0.0, 0.3, 0.0), (0.0, 0.0, 0.3)),  # not exact
]


def block(shape, full):
    a = np.zeros(shape, bool)
    for i in full:
        a[i] = True
    return a


def solids(tier):
    cells = list(itertools.product(range(2), repeat=3))
    seen = set()
    for m in range(1, 9):
        for c in itertools.combinations(cells, m):
            lo = np.min(c, axis=0)
            key = tuple(sorted(tuple(int(y) for y in np.array(x) - lo) for x in c))
            if key not in seen:
                seen.add(key)
                yield ("pocket", 2, key)
    full = set(itertools.product(range(3), repeat=3))
    yield ("cavity", 3, tuple(sorted(full - {(1, 1, 1)})))
    yield ("ring", 3, tuple(sorted(x for x in full if x[2] == 1 and x[:2] != (1, 1))))
    yield ("tunnel", 3, tuple(sorted(x for x in full if x[:2] != (1, 1))))
    yield ("notch", 3, tuple(sorted(full - {(2, 1, 1), (1, 1, 2), (0, 0, 0)})))
    yield ("islands", 3, ((0, 0, 0), (2, 0, 0), (0, 2, 2), (2, 2, 2)))
    yield ("cross", 3, tuple(sorted(x for x in full if sum(y == 1 for y in x) >= 2)))
    yield ("plate", 3, tuple(sorted(x for x in full if x[1] == 0)))


def cases(tier):
    th = tier == "thorough"
    for k, (name, n, vox) in enumerate(solids(tier)):
        frames = range(len(FRAMES)) if th or name != "pocket" or len(vox) in (1, 8) else [3 + k % 3, k % 3] if k % 4 == 0 else [3 + k % 3]
        for f in frames:
            for j, (diag, order, fmt) in enumerate(itertools.product((0, 1), (0, 1, 2), ("binary", "ascii"))):
                if th and len(vox) in (1, 3) or j == (5 * k + f) % 12:
                    yield {"name": name, "n": n, "vox": vox, "frame": f, "diag": diag, "order": order, "fmt": fmt, "dmax": [None, 1.0][(k + j) % 2], "reach": 2 if th else 1}
    for f in range(len(FRAMES)):
        for diag, order, fmt in itertools.product((0, 1), (0, 1, 2), ("binary", "ascii")):
            for dmax in (None, 1.0, 0.5) if th else ([None, 1.0, 0.5][(f + order + diag) % 3],):
                yield {"name": "cube", "n": 1, "vox": ((0, 0, 0),), "frame": f, "diag": diag, "order": order, "fmt": fmt, "dmax": dmax, "reach": 2}


# ------------------------------------------------------------------ the model
class Voxels:
    def __init__(self, n, vox, frame):
        self.n = n
        o, *ax = [np.array(x, float) for x in FRAMES[frame]]
        self.o, self.A = o, np.array(ax).T
        self.iA = np.linalg.inv(self.A)
        self.full = np.zeros((n + 4,) * 3, bool)  # two empty layers around
        for x in vox:
            self.full[tuple(i + 2 for i in x)] = True
        self.vertices = np.array([o + self.A @ (np.array(x) + c) for x in vox for c in itertools.product((0.0, 1.0), repeat=3)])

    def local(self, P):
        return (P - self.o) @ self.iA.T

    def occ(self, q):
        i = np.clip(np.floor(q).astype(int) + 2, 0, self.n + 3)
        return self.full[i[..., 0], i[..., 1], i[..., 2]]

    def inside(self, P):
        """membership, and True when too close to a surface"""
        q = self.local(P)
        occ = self.occ(q)
        doubt = np.zeros(occ.shape, bool)
        for s in itertools.product((-TOL, 0.0, TOL), repeat=3):
            doubt |= self.occ(q + np.array(s)) != occ
        return occ, doubt

    def ray(self, P, v):
        """first crossing of the surface along P + t v: t, outward normal, doubt"""
        q0 = self.local(P)
        w = self.iA @ v
        best = np.full(q0.shape[:-1], np.inf)
        nrm = np.zeros(q0.shape)
        bdoubt = np.zeros(best.shape, bool)
        _, doubt0 = self.inside(P)
        for d in range(3):
            if abs(w[d]) < 1e-12:
                continue
            for k in range(self.n + 1):
                t = (k - q0[..., d]) / w[d]
                hit = q0 + t[..., None] * w
                e = np.eye(3)[d]
                lo, hi = hit.copy(), hit.copy()
                lo[..., d], hi[..., d] = k - 0.5, k + 0.5
                change = self.occ(lo) != self.occ(hi)
                near = np.zeros(best.shape, bool)  # close to an edge of the solid, or to a face which is not there
                for a, b in itertools.product((-TOL, 0, TOL), repeat=2):
                    s = a * np.eye(3)[(d + 1) % 3] + b * np.eye(3)[(d + 2) % 3]
                    c2 = self.occ(lo + s) != self.occ(hi + s)
                    near |= (c2 != change) | (c2 & (self.occ(lo + s) != self.occ(lo)))
                ok = (t > -TOL) & (t < best + TOL) & (change | near)
                new = ok & (t < best - TOL)
                same = ok & ~new
                out = np.where(self.occ(lo)[..., None], e, -e)
                bdoubt = np.where(new, near | ~change | (t < TOL), bdoubt | same)
                nrm[new] = out[new]
                best = np.where(new, t, np.where(same, np.minimum(best, t), best))
        n = nrm @ self.iA
        with np.errstate(all="ignore"):
            n = n / np.linalg.norm(n, axis=-1)[..., None]
        return best, n, bdoubt | doubt0


def lattices(vx, n):
    """a lattice in generic position, and one on the planes of symmetry (through vertices and diagonals)"""
    lo, hi = vx.vertices.min(axis=0), vx.vertices.max(axis=0)
    yield [np.linspace(lo[i] - 0.31 * (1 + 0.1 * i), hi[i] + 0.27 * (1 + 0.07 * i), n) for i in range(3)]
    h = (hi - lo) / (n - 3)
    yield [lo[i] + h[i] * (np.arange(n) - 0.5) for i in range(3)]


def run_case(case, ctx):
    import pylbm

    vx = Voxels(case["n"], case["vox"], case["frame"])
    tri = triangles(case["vox"], FRAMES[case["frame"]], case["diag"], case["order"])
    path = os.path.abspath("solid.stl")
    write(path, tri, case["fmt"])
    ctx.sample(case)
    el = pylbm.STLElement(path, label=3)
    ctx.check(el.dim == 3 and el.number_of_bounds == 1 and not el.isfluid and list(el.label) == [3], lambda: "dimension, number of faces, label")
    lo, hi = (np.asarray(b, float) for b in el.get_bounds())
    ctx.check(np.all(lo <= vx.vertices.min(axis=0) + TOL) and np.all(hi >= vx.vertices.max(axis=0) - TOL), lambda: "bounds %s %s do not contain the solid" % (lo, hi))
    ctx.check(np.allclose(lo, vx.vertices.min(axis=0), atol=TOL) and np.allclose(hi, vx.vertices.max(axis=0), atol=TOL), lambda: "bounds %s %s are not those of the solid" % (lo, hi))
    for il, ax in enumerate(lattices(vx, 7)):
        for sizes in ((7, 7, 7), (1, 7, 7), (7, 1, 1), (1, 1, 1)) if case["name"] in ("cube", "ring") else ((7, 7, 7),):
            axs = [a[3 : 3 + s] if s < 7 else a for a, s in zip(ax, sizes)]
            lattice(case, ctx, vx, el, axs, (il,) + sizes)
            if len(ctx.findings) > 5:
                return
    ctx.trace()


def lattice(case, ctx, vx, el, ax, tag):
    grid = np.meshgrid(*ax, sparse=True, indexing="ij")
    P = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
    occ, doubt = vx.inside(P)
    got = np.broadcast_to(el.point_inside(grid), occ.shape)
    bad = (got != occ) & ~doubt
    ctx.check(not bad.any(), lambda: "%s membership of %s: inside=%s" % (tag, P[bad][0].tolist(), bool(got[bad][0])))
    ctx.step(occ.size)
    ctx.state(tag, case["frame"], occ)
    dmax = case["dmax"]
    nhit = nmiss = 0
    for iv in itertools.product(range(-case["reach"], case["reach"] + 1), repeat=3):
        if not any(iv) or sum(map(abs, iv)) > 3 or (1 in occ.shape and sum(map(abs, iv)) > 1):
            continue
        v = 0.3 * np.array(iv, float)
        t, nrm, dbt = vx.ray(P, v)
        for normal in (True, False):
            alpha, border, nv = el.distance(grid, v, dmax, normal)
            alpha, border = np.broadcast_to(alpha, t.shape), np.broadcast_to(border, t.shape)
            lim = np.inf if dmax is None else dmax
            exp_hit = np.isfinite(t) & (t <= lim)
            with np.errstate(invalid="ignore"):
                sure = ~dbt & ~(np.abs(t - lim) < TOL)
            got_hit = alpha > 0
            w = sure & (got_hit != exp_hit)
            if not ctx.check(not w.any(), lambda: "%s v=%s dmax=%s point %s: distance %s, expected %s" % (tag, v.tolist(), dmax, P[w][0].tolist(), alpha[w][0], t[w][0])):
                return
            both = sure & got_hit & exp_hit
            with np.errstate(invalid="ignore"):
                w = both & ~(np.abs(alpha - t) < 10 * TOL)
            if not ctx.check(not w.any(), lambda: "%s v=%s point %s: distance %s, expected %s" % (tag, v.tolist(), P[w][0].tolist(), alpha[w][0], t[w][0])):
                return
            w = both & (border != 3)
            if not ctx.check(not w.any(), lambda: "%s v=%s point %s: label %s" % (tag, v.tolist(), P[w][0].tolist(), border[w][0])):
                return
            if normal:
                w = both & ~(np.abs(np.linalg.norm(nv, axis=-1) - 1) < 10 * TOL)
                if not ctx.check(not w.any(), lambda: "%s v=%s point %s: the normal %s is not unit" % (tag, v.tolist(), P[w][0].tolist(), nv[w][0].tolist())):
                    return
                s = np.where((nrm @ v > 0)[..., None], -nrm, nrm)
                w = both & ~(np.max(np.abs(nv - s), axis=-1) < 10 * TOL)
                if not ctx.check(not w.any(), lambda: "%s v=%s point %s: normal %s, expected %s" % (tag, v.tolist(), P[w][0].tolist(), nv[w][0].tolist(), s[w][0].tolist())):
                    return
        ctx.step(t.size)
        nhit += int(exp_hit.sum())
        nmiss += int((~exp_hit).sum())
        ctx.state(tag, iv, exp_hit)
    ctx.outcome(tag, nhit, nmiss)
