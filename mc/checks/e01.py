"""E01: elements - membership, bounds, ray crossings, labels, normals"""
import itertools

import numpy as np

from ..geo import Shape, build

RULE = "one case = one element x every direction of the alphabet; every lattice point is classified and shot along every direction"
ASSUMPTIONS = [
    "faces are numbered as the elements draw them (2D) or side faces, bottom, top (3D)",
    "points within 1e-9 of the surface and rays that graze it or hit within 1e-7 of an edge are not judged (distance still judged on edges)",
    "axes of circular and elliptic sections are orthogonal (documented)",
]
CASE_TIMEOUT = 300


def bounds(tier):
    return "2D: ~%s elements, 20x20 points, directions |v|<=%d; 3D: all kinds with 10 frames, 9^3 points, directions |v|<=%d" % ("200", *((3, 2) if tier == "quick" else (5, 3)))


def elements2(tier):
    cs = [(0.0, 0.0), (0.25, -0.125), (-0.4, 0.3)]
    for c in cs:
        for r in (0.25, 0.6, 1.0, 1.5):
            yield {"kind": "circle", "args": [c, r], "label": 3}
    ax = [((1.0, 0.0), (0.0, 0.5)), ((0.0, 1.2), (0.4, 0.0)), ((0.6, 0.8), (-0.4, 0.3)), ((0.5, -0.5), (0.25, 0.25)), ((-0.3, 0.9), (0.9, 0.3)), ((0.1, 0.1), (1.0, -1.0))]
    for c in cs:
        for a, b in ax:
            yield {"kind": "ellipse", "args": [c, a, b], "label": 7}
    vs = [(1.0, 0.0), (0.0, 1.0), (0.75, 0.5), (-0.5, 1.0), (-1.0, -0.25), (0.3, -0.8), (1.25, 0.0)]
    for c in cs:
        for a, b in itertools.permutations(vs, 2):
            if abs(a[0] * b[1] - a[1] * b[0]) > 1e-9:
                yield {"kind": "parallelogram", "args": [c, a, b], "label": [1, 2, 3, 4]}
                yield {"kind": "triangle", "args": [c, a, b], "label": [5, 6, 7]}


def frames(tier):
    yield (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)
    yield (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0)
    yield (0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)
    yield (0.0, 1.0, 0.0), (1.0, 0.0, 0.0), (0.0, 0.0, 1.0)
    yield (-1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0)
    yield (0.6, 0.8, 0.0), (-0.8, 0.6, 0.0), (0.0, 0.0, 1.0)
    yield (0.0, 0.6, 0.8), (1.0, 0.0, 0.0), (0.0, -0.8, 0.6)
    yield (2 / 3, 2 / 3, 1 / 3), (-2 / 3, 1 / 3, 2 / 3), (1 / 3, -2 / 3, 2 / 3)
    yield (2 / 7, 3 / 7, 6 / 7), (3 / 7, -6 / 7, 2 / 7), (6 / 7, 2 / 7, -3 / 7)
    yield (0.0, 0.8, -0.6), (0.0, 0.6, 0.8), (-1.0, 0.0, 0.0)


def elements3(tier):
    sc = lambda v, s: tuple(s * x for x in v)
    cs = [(0.0, 0.0, 0.0), (0.2, -0.1, 0.15)]
    for c in cs:
        for r in (0.4, 0.9):
            yield {"kind": "sphere", "args": [c, r], "label": 2}
    for i, (a, b, w) in enumerate(frames(tier)):
        for c in cs:
            for (x, y, z) in [(1.0, 0.5, 0.75), (0.4, 0.9, 1.2)]:
                yield {"kind": "ellipsoid", "args": [c, sc(a, x), sc(b, y), sc(w, z)], "label": 4}
                yield {"kind": "cylellipse", "args": [c, sc(a, x), sc(b, y), sc(w, z)], "label": [1, 2, 3]}
                # an oblique axis
                ob = tuple(p + 0.5 * q for p, q in zip(sc(w, z), a))
                yield {"kind": "cylellipse", "args": [c, sc(a, x), sc(b, y), ob], "label": [1, 2, 3]}
                yield {"kind": "cyltriangle", "args": [c, sc(a, x), sc(b, y), sc(w, z)], "label": [1, 2, 3, 4, 5]}
                yield {"kind": "box3", "args": [c, sc(a, x), sc(b, y), sc(w, 2 * z)], "label": [1, 2, 3, 4, 5, 6]}
                yield {"kind": "box3", "args": [c, sc(a, x), tuple(p + 0.5 * q for p, q in zip(sc(b, y), a)), ob], "label": [1, 2, 3, 4, 5, 6]}
            for r, z in [(0.5, 1.0), (1.0, 0.3)]:
                yield {"kind": "cylcircle", "args": [c, sc(a, r), sc(b, r), sc(w, z)], "label": [1, 2, 3]}


def cases(tier):
    for e in elements3(tier):
        for dmax in (None, 1.0):
            yield {"elem": e, "dmax": dmax, "reach": 2 if tier == "quick" else 3}
    for e in elements2(tier):
        for dmax in (None, 1.0, 0.4):
            yield {"elem": e, "dmax": dmax, "reach": 3 if tier == "quick" else 5}


def run_case(case, ctx):
    e, dmax = case["elem"], case["dmax"]
    sh = Shape(e)
    dim = sh.dim
    el = build(e)
    ctx.sample(case)
    ctx.check(el.dim == dim and el.number_of_bounds == sh.nfaces, "dimension/number of faces")
    # bounding box contains the shape
    lo, hi = el.get_bounds()
    for i in range(dim):
        s = np.zeros(dim)
        s[i] = 1.0
        ctx.check(hi[i] >= sh.extreme(s) - 1e-9, "upper bound %d: %s < %s" % (i, hi[i], sh.extreme(s)))
        ctx.check(lo[i] <= -sh.extreme(-s) + 1e-9, "lower bound %d: %s > %s" % (i, lo[i], -sh.extreme(-s)))
    n = 20 if dim == 2 else 9
    h = 0.19 if dim == 2 else 0.37
    ax = [np.arange(n) * h - 0.5 * n * h + 0.0131 * (i + 1) for i in range(dim)]
    grid = np.meshgrid(*ax, sparse=True, indexing="ij")
    P = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
    lev = sh.level(P)
    got = np.broadcast_to(el.point_inside(grid), lev.shape)
    bad = (got != (lev <= 0)) & (np.abs(lev) > 1e-9)
    ctx.check(not bad.any(), lambda: "membership of %s: inside=%s" % (P[bad][0].tolist(), bool(got[bad][0])))
    ctx.state(e, lev <= 0)
    nmiss = nhit = 0
    for iv in itertools.product(range(-case["reach"], case["reach"] + 1), repeat=dim):
        if not any(iv) or (dim == 3 and sum(map(abs, iv)) > 4):
            continue
        v = 0.3 * np.array(iv, float)
        t, lab, nrm, doubt, edge = sh.ray(P, v)
        for normal in (True, False):
            alpha, border, nv = el.distance(grid, v, dmax, normal)
            lim = np.inf if dmax is None else dmax
            exp_hit = np.isfinite(t) & (t <= lim)
            sure = ~doubt & (np.abs(t - lim) > 1e-7)
            alpha = np.broadcast_to(alpha, t.shape)
            got_hit = alpha > 0
            w = sure & (got_hit != exp_hit) & ~(edge & ~exp_hit)
            if not ctx.check(not w.any(), lambda: "v=%s dmax=%s point %s: distance %s, expected %s" % (v.tolist(), dmax, P[w][0].tolist(), alpha[w][0], t[w][0])):
                break
            both = sure & got_hit & exp_hit
            w = both & (np.abs(alpha - np.where(np.isfinite(t), t, 0)) > 1e-6)
            if not ctx.check(not w.any(), lambda: "v=%s point %s: distance %s, expected %s" % (v.tolist(), P[w][0].tolist(), alpha[w][0], t[w][0])):
                break
            w = both & ~edge & (np.broadcast_to(border, t.shape) != lab)
            if not ctx.check(not w.any(), lambda: "v=%s point %s: label %s, expected %s" % (v.tolist(), P[w][0].tolist(), np.broadcast_to(border, t.shape)[w][0], lab[w][0])):
                break
            if normal:
                dot = np.abs(np.sum(nv * nrm, axis=-1))
                w = both & ~edge & ((np.abs(dot - 1) > 1e-6) | (np.abs(np.linalg.norm(nv, axis=-1) - 1) > 1e-6))
                if not ctx.check(not w.any(), lambda: "v=%s point %s: normal %s, expected +-%s" % (v.tolist(), P[w][0].tolist(), nv[w][0].tolist(), nrm[w][0].tolist())):
                    break
                w = both & ~edge & (nv @ v > 1e-9)
                if not ctx.check(not w.any(), lambda: "v=%s point %s: normal %s is not opposite to the direction" % (v.tolist(), P[w][0].tolist(), nv[w][0].tolist())):
                    break
            else:
                break
        ctx.step(t.size)
        nhit += int(exp_hit.sum())
        nmiss += int((~exp_hit).sum())
        ctx.state(e, iv, lab * exp_hit)
        ctx.outcome(nhit, nmiss)
        if len(ctx.findings) > 5:
            return
    ctx.trace()
