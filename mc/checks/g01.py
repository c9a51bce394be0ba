"""G01: fluid/solid map, boundary links (distance, label, normal) of a domain"""
import itertools

import numpy as np

from .. import schemes as L
from ..engine import HarnessError
from ..geo import Shape, build
from ..ref import velocity

EYE = np.eye(3)

RULE = "one case = one box, stencil and ordered list of elements; every cell and every velocity of it is checked"
ASSUMPTIONS = [
    "links whose segment is within 1e-7 of an edge, a corner or a tangency of a surface: membership only",
    "links that leave the fluid and enter it again before their target, or that leave through a periodic edge and meet an element outside the box: membership only",
    "ties between two surfaces: the label of any of them is accepted",
]
EPS = 1e-7


def bounds(tier):
    return ("1D boxes up to 6 cells with velocities up to 5; 2D boxes up to 7x6 cells, 24 elements, all ordered pairs (all triples of 10 elements in thorough), velocities up to 2; "
            "3D boxes up to 5x4x4, 13 elements (and pairs), D3Q7/19/27; all labels of edges in {-1, 0, 1, 2} with periodic pairs")


def el(kind, args, label=0, fluid=False):
    return {"kind": kind, "args": args, "label": label, "fluid": fluid}


# box of 6 x 5 cells of size .25 : [0, 1.5] x [-.5, .75]
ELEMS2 = [
    el("circle", [[0.7, 0.1], 0.31], 5),
    el("circle", [[0.7, 0.1], 0.06], 6),  # may contain no centre
    el("circle", [[1.45, 0.2], 0.4], 7),  # across the right edge
    el("circle", [[0.05, -0.45], 0.37], 8),  # corner
    el("ellipse", [[0.8, 0.05], [0.42, 0.14], [-0.08, 0.24]], 9),
    el("parallelogram", [[0.5, -0.25], [0.5, 0.0], [0.0, 0.5]], [10, 11, 12, 13]),  # on cell faces
    el("parallelogram", [[0.3, -0.3], [0.61, 0.17], [-0.2, 0.55]], [14, 15, 16, 17]),
    el("parallelogram", [[-0.3, -0.13], [2.1, 0.0], [0.0, 0.41]], [18, 19, 20, 21]),  # channel through the box
    el("parallelogram", [[-0.5, -1.0], [2.5, 0.0], [0.0, 2.5]], 22),  # covers the box
    el("triangle", [[0.33, -0.4], [0.9, 0.12], [0.05, 0.95]], [23, 24, 25]),
    el("circle", [[-2.0, 0.1], 0.5], 26),  # outside, left
    el("circle", [[4.0, 0.1], 0.5], 27),  # outside, right
]
ELEMS3 = [
    el("sphere", [[0.6, 0.1, 1.4], 0.33], 5),
    el("sphere", [[1.2, 0.4, 1.1], 0.3], 6),
    el("ellipsoid", [[0.6, 0.05, 1.5], [0.4, 0.2, 0.0], [-0.12, 0.24, 0.0], [0.0, 0.0, 0.3]], 7),
    el("box3", [[0.25, -0.25, 1.25], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]], [10, 11, 12, 13, 14, 15]),
    el("box3", [[0.3, -0.2, 1.15], [0.5, 0.1, 0.05], [-0.1, 0.45, 0.0], [0.02, -0.07, 0.52]], [16, 17, 18, 19, 20, 21]),
    el("cylcircle", [[0.6, 0.02, 1.5], [0.3, 0, 0], [0, 0.3, 0], [0, 0, 0.31]], [22, 23, 24]),
    el("cylcircle", [[0.6, 0.02, 1.5], [0.0, 0.31, 0], [0, 0, 0.28], [1.2, 0, 0]], [25, 26, 27]),
    el("cylellipse", [[0.62, 0.03, 1.47], [0.4, 0.2, 0.0], [-0.12, 0.24, 0.0], [0.04, -0.06, 0.36]], [28, 29, 30]),
    el("cyltriangle", [[0.2, -0.3, 1.45], [0.8, 0.1, 0], [0.1, 0.75, 0], [0, 0.02, 0.33]], [31, 32, 33, 34, 35]),
    el("box3", [[-0.5, -1.0, 0.5], [3, 0, 0], [0, 3, 0], [0, 0, 3]], 36),
    el("stlbox", [[0.25, -0.25, 1.25], [0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]], 51),
    el("stlbox", [[0.296875, -0.203125, 1.15625], [0.5, 0.125, 0.0625], [-0.125, 0.4375, 0.0], [0.03125, -0.0625, 0.515625]], 52),
    el("stlbox", [[0.890625, 0.140625, 1.703125], [0.75, 0.125, 0], [0, 0.5, 0.0625], [0, 0.03125, 0.75]], 53),
    el("sphere", [[-3.0, 0.1, 1.4], 0.5], 37),
    el("sphere", [[0.6, 5.1, 1.4], 0.5], 38),
]


def fl(e):
    return dict(e, fluid=True, label=[x + 40 for x in e["label"]] if isinstance(e["label"], list) else e["label"] + 40)


def labels2():
    return [list(a + b) for a in [(-1, -1), (0, 1), (2, 2)] for b in [(-1, -1), (3, 4), (2, 2)]]


def cases(tier):
    th = tier == "thorough"
    # 1D: no element, velocities up to 5 cells, one or two schemes
    sets1 = [s for r in (1, 2, 3) for s in itertools.combinations(range(11), r)]
    for s in sets1:
        for n in (1, 2, 3, 6):
            for lab in ([-1, -1], [0, 0], [0, 1]):
                if any(abs(velocity(1, k)[0]) > n for k in s):  # longer than the box
                    continue
                yield {"dim": 1, "n": [n], "dx": 0.5, "lo": [0.25], "label": lab, "vel": [list(s)], "elems": []}
    for a, b in itertools.product([[0, 1, 2], [3, 4], [2, 5], [0]], repeat=2):
        yield {"dim": 1, "n": [5], "dx": 0.1, "lo": [-1.0], "label": [3, 4], "vel": [a, b], "elems": []}
    # 2D
    q9, q4, q25 = [list(range(9))], [[1, 2, 3, 4]], [[0, 1, 2, 3, 4], list(range(9, 25))]
    base = {"dim": 2, "n": [6, 5], "dx": 0.25, "lo": [0.0, -0.5]}
    both = ELEMS2 + [fl(e) for e in ELEMS2]
    for lab in labels2():
        for vel in (q9, q4, q25, [[5, 6, 0], [7, 8, 17, 20]], [[8], [7], [6], [5]], [[1, 3, 5], [13, 14, 9]]):
            for n in ([6, 5], [2, 3], [2, 2]):
                yield {**base, "n": n, "label": lab, "vel": vel, "elems": []}
        for e in both:
            for vel in (q9, q4, q25):
                yield {**base, "label": lab, "vel": vel, "elems": [e]}
    for a, b in itertools.product(both, repeat=2):
        yield {**base, "label": [0, 1, 3, 4], "vel": q9, "elems": [a, b]}
        yield {**base, "label": [-1, -1, 3, 4], "vel": q25 if not th else q9, "elems": [a, b]}
        if th:
            for lab in labels2():
                yield {**base, "label": lab, "vel": q25, "elems": [a, b]}
    few = [ELEMS2[i] for i in (0, 3, 5, 6, 8)] + [fl(ELEMS2[i]) for i in (0, 4, 6, 7, 9)]
    for t in itertools.product(few, repeat=3):
        if th or (t[0] is ELEMS2[8]):
            yield {**base, "label": [0, 1, -1, -1], "vel": q9, "elems": list(t)}
    # 3D
    base = {"dim": 3, "n": [5, 4, 4], "dx": 0.25, "lo": [0.0, -0.5, 1.0]}
    q7, q19, q27 = [list(range(7))], [list(range(19))], [list(range(27))]
    l3 = [list(a + b + c) for a in [(-1, -1), (0, 1)] for b in [(-1, -1), (2, 3)] for c in [(-1, -1), (4, 4)]]
    both = ELEMS3 + [fl(e) for e in ELEMS3]
    for lab in l3:
        for vel in (q7, q19, q27, [[0, 5, 6], [1, 2, 3, 4]]):
            yield {**base, "n": [3, 2, 2], "label": lab, "vel": vel, "elems": []}
        for e in both:
            yield {**base, "label": lab, "vel": q19 if not th else q27, "elems": [e]}
    # velocities which do not reach as far in every direction
    sets = [[L.numbers(3, list(itertools.product(*(range(-x, x + 1) for x in r))))] for r in ((1, 2, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1))]
    for lab in l3:
        for vel in sets:
            yield {**base, "n": [3, 2, 2], "label": lab, "vel": vel, "elems": []}
    for i, e in enumerate(both):
        yield {**base, "n": [6, 5, 5], "label": [0, 1, 2, 3, 4, 5], "vel": sets[i % 4], "elems": [e]}
    for e in both:
        yield {**base, "label": [0, 1, 2, 3, 4, 5], "vel": q27, "elems": [e]}
    pairs = list(itertools.product(both, repeat=2)) if th else [(ELEMS3[9], fl(e)) for e in ELEMS3] + [(ELEMS3[i], b) for i in (0, 4) for b in both]
    for a, b in pairs:
        yield {**base, "label": [0, 1, -1, -1, 2, 3], "vel": q19, "elems": [a, b]}


def medium(p, shapes, lo, hi):
    """True where fluid; second result: too close to a surface to say"""
    fluid = np.ones(p.shape[:-1], bool)
    doubt = np.zeros(p.shape[:-1], bool)
    for s in shapes:
        l = s.level(p)
        fluid = np.where(l <= 0, s.fluid, fluid)
        doubt |= np.abs(l) < 1e-9
    return fluid, doubt


def oracle(case):
    """expected membership, and per velocity: (kind, t, labels) with kind
    0: nothing recorded, 1: link, 2: undecided"""
    dim, n, dx, lo = case["dim"], case["n"], case["dx"], np.array(case["lo"])
    hi = lo + dx * np.array(n)
    shapes = [Shape(e) for e in case["elems"]]
    axes = [lo[d] + (np.arange(n[d]) + 0.5) * dx for d in range(dim)]
    P = np.stack(np.meshgrid(*axes, indexing="ij"), -1)
    fluid, fdoubt = medium(P, shapes, lo, hi)
    out = {}
    for num in sorted({k for s in case["vel"] for k in s}):
        v = np.array(velocity(dim, num), float)
        if not v.any():
            continue
        exp = {}
        spans = [s.ray(P, v * dx, spans=True) for s in shapes]
        target, tdoubt = medium(P + v * dx, shapes, lo, hi)
        for idx in np.ndindex(*n):
            if not fluid[idx] or fdoubt[idx] or tdoubt[idx]:
                continue
            x = P[idx]
            # crossings of box edges
            walls, per = [], []
            for d in range(dim):
                if v[d] > 0:
                    t, lab, nrm = (hi[d] - x[d]) / (v[d] * dx), case["label"][2 * d + 1], np.eye(dim)[d]
                elif v[d] < 0:
                    t, lab, nrm = (lo[d] - x[d]) / (v[d] * dx), case["label"][2 * d], -np.eye(dim)[d]
                else:
                    continue
                if t < 1:
                    (per if lab == -1 else walls).append((t, lab, nrm))
            cross, doubt = [], False
            for s, (tin, tout, lin, lout, db, ein, eout) in zip(shapes, spans):
                if db[idx] and min(tin[idx], tout[idx]) < 1 + EPS and max(tin[idx], tout[idx]) > -EPS:
                    doubt = True
                for t, lab, e in ((tin[idx], lin[idx], ein[idx]), (tout[idx], lout[idx], eout[idx])):
                    if EPS < t < 1 - EPS:
                        cross.append((t, int(lab), None))
                        doubt |= bool(e)
                    elif abs(t) <= EPS or abs(t - 1) <= EPS:
                        doubt = True
            inside = all(0 <= idx[d] + v[d] < n[d] for d in range(dim))
            if inside and target[idx]:
                exp[idx] = (0, None, None)
                continue
            if doubt:
                exp[idx] = (2, None, None)
                continue
            tper = min([t for t, *_ in per], default=2.0)
            if per:
                if any(t > tper - EPS for t, *_ in cross):
                    exp[idx] = (2, None, None)
                    continue
            # walk along the segment
            events = sorted([e for e in cross + walls], key=lambda e: e[0])
            ts = [0.0] + [e[0] for e in events] + [1.0]
            media = []
            for a, b in zip(ts[:-1], ts[1:]):
                mid = x + v * dx * (a + b) / 2
                m = bool(medium(mid[None], shapes, lo, hi)[0][0])
                if any(t <= (a + b) / 2 for t, *_ in walls):
                    m = False
                media.append((b - a > EPS, m))
            if not media[0][1] and media[0][0]:
                raise HarnessError("cell centre not fluid")
            seq = [m for ok, m in media if ok]
            changes = [i for i in range(1, len(seq)) if seq[i] != seq[i - 1]]
            if len(changes) > 1:
                exp[idx] = (2, None, None)
                continue
            if not changes:
                if per:
                    image = tuple(int((idx[d] + v[d]) % n[d]) for d in range(dim))
                    # the image of the target is solid: a surface should have been met there
                    exp[idx] = (1 if fluid[image] or fdoubt[image] else 4, tper, {-1})
                    continue
                exp[idx] = (2, None, None)
                continue
            # time of the change
            acc, tstar = 0, None
            for i in range(1, len(media)):
                prev = [m for ok, m in media[:i] if ok][-1:]
                if prev and media[i][0] and media[i][1] != prev[0]:
                    tstar = ts[i]
                    break
            labs = {lab for t, lab, _ in events if abs(t - tstar) < EPS}
            exp[idx] = (1, tstar, labs)
            if len({round(t, 6) for t, *_ in events if t < tstar - EPS}) > 0:
                exp[idx] = (3, tstar, labs)  # hidden surfaces were crossed before
        out[num] = exp
    return fluid, fdoubt, out


def incremental(case, num, idx):
    """what the element-by-element update of the links records for one link: each element
    only sees the cells painted before it and its own first crossing.  Used only to tell
    the recorded known finding (links that meet several elements) from anything else."""
    dim, n, dx, lo = case["dim"], case["n"], case["dx"], np.array(case["lo"])
    v = np.array(velocity(dim, num))
    x = lo + (np.array(idx) + 0.5) * dx
    y = x + v * dx
    inbox = all(0 <= idx[d] + v[d] < n[d] for d in range(dim))
    edges = []
    for d in range(dim):
        if v[d] > 0 and idx[d] + v[d] >= n[d]:
            edges.append(((n[d] - idx[d] - 0.5) / v[d], case["label"][2 * d + 1]))
        elif v[d] < 0 and idx[d] + v[d] < 0:
            edges.append(((idx[d] + 0.5) / -v[d], case["label"][2 * d]))
    walls = [e for e in edges if e[1] != -1]
    box = min(walls or edges, key=lambda e: e[0], default=(999.0, 999))
    dist, flag = box
    here, there = True, inbox
    met = 0
    for e in case["elems"]:
        s = Shape(e)
        inx, iny = bool(s.level(x[None])[0] <= 0), bool(s.level(y[None])[0] <= 0)
        t, lab = (a[0] for a in s.ray(x[None], v * dx)[:2])
        alpha = float(t) if t <= 1 else -1.0
        met += alpha > 0
        if inx:
            here = s.fluid
        if iny and inbox:
            there = s.fluid
        if not s.fluid:
            if inx:
                dist, flag = 999.0, 999
            elif alpha > 0 and not there and alpha < dist:
                dist, flag = alpha, int(lab)
        else:
            if here and there:
                dist, flag = 999.0, 999
            if inx and alpha > 0 and not there and (alpha > dist or dist == 999.0):
                dist, flag = alpha, int(lab)
            if inx and box[1] != 999 and (alpha <= 0 or alpha > box[0] + 1e-10):
                dist, flag = box
    return met, dist, flag


def run_case(case, ctx):
    import pylbm

    dim, n = case["dim"], case["n"]
    box = {}
    for d, name in enumerate("xyz"[:dim]):
        box[name] = [case["lo"][d], case["lo"][d] + n[d] * case["dx"]]
    box["label"] = list(case["label"])
    dico = {"box": box, "space_step": case["dx"], "schemes": [{"velocities": list(v)} for v in case["vel"]]}
    if case["elems"]:
        dico["elements"] = [build(e) for e in case["elems"]]
    dom = pylbm.Domain(dico)
    ctx.sample(case)
    fluid, fdoubt, links = oracle(case)
    ctx.state(fluid, dom.distance, dom.flag)
    vmax = [max(abs(velocity(dim, k)[d]) for s in case["vel"] for k in s) for d in range(dim)]
    for d in range(dim):
        x = case["lo"][d] + (np.arange(n[d]) + 0.5) * case["dx"]
        xh = case["lo"][d] + (np.arange(-vmax[d], n[d] + vmax[d]) + 0.5) * case["dx"]
        ctx.check(np.shape(dom.coords[d]) == x.shape and np.allclose(dom.coords[d], x, atol=1e-12), "coordinates of the cells in direction %d: %s" % (d, dom.coords[d]))
        ctx.check(np.shape(dom.coords_halo[d]) == xh.shape and np.allclose(dom.coords_halo[d], xh, atol=1e-12), "coordinates with halo in direction %d: %s" % (d, dom.coords_halo[d]))
    if ctx.findings:
        return
    inner = tuple(slice(vmax[d], vmax[d] + n[d]) for d in range(dim))
    full = np.zeros([n[d] + 2 * vmax[d] for d in range(dim)], bool)
    full[inner] = fluid
    und = np.zeros(full.shape, bool)
    und[inner] = fdoubt
    got = dom.in_or_out == dom.valin
    bad = np.argwhere((got != full) & ~und)
    if not ctx.check(bad.size == 0, lambda: "cells %s: fluid=%s, expected %s" % (bad[:4].tolist(), got[tuple(bad[0])], full[tuple(bad[0])])):
        return
    ctx.step(int(full.size))
    shapes = [Shape(e) for e in case["elems"]]
    unique = {tuple(uv.v[:dim]): k for k, uv in enumerate(dom.stencil.unique_velocities)}
    ctx.check(len(unique) == len({k for s in case["vel"] for k in s}), "unique velocities %s" % (sorted(unique),))
    nlinks = 0
    for num, exp in links.items():
        v = tuple(int(c) for c in velocity(dim, num))
        k = unique[v]
        for idx, (kind, t, labs) in exp.items():
            i = tuple(idx[d] + vmax[d] for d in range(dim))
            dist, flag = float(dom.distance[(k,) + i]), int(dom.flag[(k,) + i])
            where = "cell %s (at %s) velocity %s" % (list(idx), [float(dom.coords[d][idx[d]]) for d in range(dim)], v)
            if kind == 0:
                ctx.check(flag == dom.valin and dist == dom.valin, lambda: "%s: link between fluid cells recorded with distance %g label %d" % (where, dist, flag))
            elif kind == 4:
                if flag == -1 and abs(dist - t) < 1e-6:
                    ctx.fail("%s: leaves through a periodic edge into a solid cell, recorded as periodic" % where, "periodic-image")
                else:
                    ctx.check(flag not in (-1, dom.valin), lambda: "%s: label %d" % (where, flag))
            elif kind in (1, 3):
                nlinks += 1
                key = None
                if kind == 3 or len(case["elems"]) > 1:
                    if abs(dist - t) >= 1e-6 or flag not in labs:
                        met, pd, pf = incremental(case, num, idx)
                        if met > 1 and abs(pd - dist) < 1e-6 and pf == flag:
                            key = "overlapping-elements"
                ctx.check(abs(dist - t) < 1e-6 and 0 < dist <= 1, lambda: "%s: distance %g, expected %g (labels %s)" % (where, dist, t, sorted(labs)), key)
                ctx.check(flag in labs, lambda: "%s: label %d, expected %s" % (where, flag, sorted(labs)), key)
                if kind == 1 and abs(dist - t) < 1e-6 and len(labs) == 1 and len(case["elems"]) <= 1:
                    nrm = np.array(dom.normal[(k,) + i])
                    edges = [d for d in range(dim) if v[d] and abs(((n[d] - 0.5 - idx[d]) if v[d] > 0 else (idx[d] + 0.5)) / abs(v[d]) - t) < 1e-7]
                    if len(edges) == 1:
                        ref = np.sign(v[edges[0]]) * EYE[edges[0]][:dim]
                    elif not edges:
                        x = np.array([dom.coords[d][idx[d]] for d in range(dim)])
                        ref = shapes[0].ray(x[None], np.array(v) * case["dx"])[2][0]
                        ref = ref if ref @ np.array(v) > 0 else -ref
                    else:
                        ref = nrm
                    ctx.check(np.allclose(nrm, ref, atol=1e-6), lambda: "%s: normal vector %s, expected %s" % (where, nrm.tolist(), ref.tolist()))
            ctx.step()
            if sum(key is None for _, key in ctx.findings) > 6:
                return
    # solid cells record nothing
    sol = ~full & ~und
    for k in range(dom.stencil.unvtot):
        ctx.check(bool(np.all(dom.flag[k][sol] == dom.valin)), "labels recorded on cells which are not fluid")
    ctx.trace(nlinks)
    ctx.outcome(dom.distance)
    ctx.outcome(dom.flag)
