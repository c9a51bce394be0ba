"""V03: drawings and printed descriptions show what the objects hold"""
import itertools
import os
import re

import numpy as np

from ..geo import Shape, build
from ..ref import to_dico
from .. import schemes as L
from .g01 import ELEMS2, ELEMS3, el
from .v01 import table

os.environ.setdefault("MPLBACKEND", "Agg")

RULE = "one case = one object and one choice of the options; a recording viewer receives the drawing, the report is parsed; model = the description"
ASSUMPTIONS = [
    "the positions, sizes, texts and titles of what is drawn are checked, and that faces of different labels have different colours; not the look",
    "only what is sent to the viewer module is observed, and for the matplotlib viewer the data held by the artists it creates",
]
TOL = 1e-9


def bounds(tier):
    return ("stencils of 1 to 3 elementary lists in 1D/2D/3D with every choice of stencils to plot; 26 elements and their copies with other labels; geometries and domains of 1D/2D/3D boxes with up to 3 elements, "
            "every option of the drawing of a domain alone and every velocity; printed reports of stencils, elements, geometries, domains, schemes, simulations and equivalent equations; figures of stability under every move of two sliders over 3 positions; "
            "arrays of up to 4x5 values through every widget of the matplotlib viewer, with two updates")


# ---------------------------------------------------------------- the recorder
class Layer:
    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def set_offsets(self, pos):
        self.args = (np.array(pos),) + tuple(self.args[1:])


class View:
    def __init__(self):
        self.calls = []
        self.title = ""
        self.ax = Ax()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kw):
            layer = Layer(name, [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args], kw)
            self.calls.append(layer)
            return layer

        return call

    def named(self, *names):
        return [c for c in self.calls if c.name in names]


class Ax:
    """accepts every call and every attribute"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Ax()

    def __call__(self, *a, **k):
        return Ax()


class Fig:
    def __init__(self, nrows=1, ncols=1, dim=0, figsize=(6, 4)):
        self.shape, self.dim = (nrows, ncols), dim
        self.views = {}
        self.fig = Ax()
        self.title = ""

    def __getitem__(self, i):
        return self.views.setdefault(i if isinstance(i, tuple) else (i, 0), View())

    def fix_space(self, *a, **k):
        pass

    def show(self):
        pass

    def close(self):
        pass


class Viewer:
    """stands for a viewer module"""

    def __init__(self):
        self.figs = []

    def Fig(self, *a, **k):
        self.figs.append(Fig(*a, **k))
        return self.figs[-1]


def arg(call, i, name, default=None):
    if len(call.args) > i:
        return call.args[i]
    return call.kw.get(name, default)


def texts(view):
    out = []
    for c in view.named("text"):
        t, pos = arg(c, 0, "text"), arg(c, 1, "pos")
        if isinstance(t, str):
            t, pos = [t], [pos]
        assert len(t) == len(pos), "texts and positions"
        out += [(str(a), tuple(float(x) for x in p)) for a, p in zip(t, pos)]
    return out


def rows(calls, dim):
    """the set of points drawn by markers"""
    out = []
    for c in calls:
        p = np.asarray(arg(c, 0, "pos"), float)
        out += [tuple(np.round(x[:dim], 9) + 0.0) for x in p]
    return sorted(out)


def pts(a, dim):
    return sorted(tuple(np.round(np.asarray(x, float)[:dim], 9) + 0.0) for x in a)


# ---------------------------------------------------------------- cases
STENCILS = [
    (1, [(0, 1, 2)]), (1, [(2, 0, 1), (1, 2)]), (1, [(1, 2), (4, 3, 0), (0, 1, 2)]), (1, [(2,), (1, 2, 0)]),
    (2, [tuple(range(9))]), (2, [(0, 1, 2, 3, 4), (8, 6, 7, 5)]), (2, [(4, 3, 2, 1), (0, 5, 6, 7, 8), (1, 2, 3, 4)]), (2, [(17, 21, 9, 11), tuple(range(5))]),
    (3, [tuple(range(7))]), (3, [(6, 5, 4, 3, 2, 1), tuple(range(7))]), (3, [(0, 1, 2), tuple(range(19)), (26, 25, 20, 19)]),
]
DOM1 = [dict(box=dict(x=[-0.5, 1.0], label=lab), dx=0.25, vel=vel, elems=[]) for lab in ([1, 2], [3, -1], -1) for vel in ([0, 1, 2], [1, 2, 3, 4])]
BOX2 = dict(x=[0.0, 1.5], y=[-0.5, 0.75])
BOX3 = dict(x=[0.0, 1.0], y=[-0.25, 0.5], z=[1.0, 1.75])
STL_LAB = {"x": "x", "y": "y", "z": "z"}


def relabel(e, k):
    """other labels for the faces of an element, all of them different"""
    n = Shape(e).nfaces
    if e["kind"] == "stlbox":
        return dict(e, label=k)
    return dict(e, label=[(k + 3 * i) % 10 for i in range(n)])


def doms(tier):
    th = tier == "thorough"
    for d in DOM1:
        yield 1, d
    two = [[e] for e in ELEMS2[:10]]
    two += [[ELEMS2[0], dict(ELEMS2[4], fluid=True)], [ELEMS2[8], dict(ELEMS2[0], fluid=True)], [ELEMS2[6], ELEMS2[9], dict(ELEMS2[1], fluid=True)]]
    for i, es in enumerate([[]] + two):
        for lab in ([1, 2, 3, 4], [-1, -1, 0, 7]):
            for vel in ([0, 1, 2, 3, 4], list(range(1, 9))) + ([list(range(13))],) * th:
                if th or (i + len(vel)) % 2 == 0 or lab[0] == 1:
                    yield 2, dict(box=dict(BOX2, label=lab), dx=0.25, vel=vel, elems=es)
    for es in [[], [ELEMS3[0]], [ELEMS3[7]], [ELEMS3[11]], [ELEMS3[3], dict(ELEMS3[0], fluid=True)]] + [[e] for e in ELEMS3[1:9]] * th:
        yield 3, dict(box=dict(BOX3, label=[1, 2, 3, 4, 5, 6]), dx=0.25, vel=list(range(7)), elems=es)
        if th:
            yield 3, dict(box=dict(BOX3, label=[-1, -1, 3, 4, 5, 6]), dx=0.25, vel=list(range(19)), elems=es)


def cases(tier):
    for dim, vels in STENCILS:
        n = len(vels)
        ks = [None] + list(range(n)) + [list(p) for m in range(1, n + 1) for p in itertools.permutations(range(n), m)]
        for unique in (False, True):
            for label in (True, False):
                for k in ks if not unique else [None]:
                    yield {"what": "stencil", "dim": dim, "vels": vels, "k": k, "unique": unique, "label": label}
    for e in ELEMS2 + ELEMS3:
        for k in (None, 0, 1, 4):
            for alpha in (1.0, 0.25):
                yield {"what": "element", "e": e if k is None else relabel(e, k), "alpha": alpha}
    # v1 shorter than v2, axes along the directions
    for a in ([[0.1, 0.2], [0.1, 0.0], [0.0, 0.4]], [[0.1, 0.2], [0.0, 0.1], [0.4, 0.0]], [[0.1, 0.2], [0.0, 0.5], [-0.2, 0.0]], [[0.3, -0.2], [0.1, 0.1], [-0.3, 0.3]], [[0.3, -0.2], [-0.2, -0.4], [0.2, -0.1]]):
        yield {"what": "element", "e": el("ellipse", a, 3), "alpha": 1.0}
    geos = [(1, {"x": [-0.5, 1.0], "label": lab}, []) for lab in (3, [1, 2], [7, -1])]
    for lab in (0, [1, 2, 3, 4], [-1, -1, 5, 6]):
        for es in [[]] + [[relabel(e, 2)] for e in ELEMS2] + [[a, dict(b, fluid=True)] for a, b in itertools.permutations(ELEMS2[:8:2], 2)]:
            geos.append((2, dict(BOX2, label=lab), es))
    for lab in (0, [1, 2, 3, 4, 5, 6], [-1, -1, 5, 6, 13, 2]):
        for es in [[]] + [[relabel(e, 2)] for e in ELEMS3] + [[ELEMS3[0], dict(ELEMS3[5], fluid=True)], [el("box3", ELEMS3[3]["args"], [11, 12, 13, 14, 15, 16])]]:
            geos.append((3, dict(BOX3, label=lab), es))
    for dim, box, es in geos:
        for vl in (True, False):
            yield {"what": "geometry", "dim": dim, "box": box, "elems": es, "viewlabel": vl}
    for dim, d in doms(tier):
        yield {"what": "domain", "dim": dim, "d": d}
    # reports
    for dim, vels in STENCILS:
        yield {"what": "print stencil", "dim": dim, "vels": vels}
    for e in ELEMS2 + ELEMS3:
        for fluid in (False, True):
            yield {"what": "print element", "e": dict(relabel(e, 1), fluid=fluid)}
    for dim, d in doms("quick"):
        yield {"what": "print domain", "dim": dim, "d": d}
    P = {"c": 0.35, "U": 0.15}
    a1, b1 = L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")
    schs = [(1, [L.d1q2()]), (1, [L.d1q3()]), (1, [L.d1q5()]), (1, [a1, b1]), (1, [b1, a1]), (2, [L.d2q4()]), (2, [L.d2q9()]), (3, [L.d3q7()])]
    base = L.d1q3(("w",))
    for p in itertools.permutations(range(3)):
        schs.append((1, [L.sch(base["vel"], [base["poly"][i] for i in p], [base["s"][i] for i in p], [base["eq"][i] for i in p], base["consm"])]))
    for p in itertools.permutations(range(3)):
        c1 = L.sch(b1["vel"], [b1["poly"][i] for i in p], [b1["s"][i] for i in p], [b1["eq"][i] for i in p], ["T"])
        schs.append((1, [a1, c1]))
        schs.append((1, [c1, a1]))
    t2 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    schs.append((2, [L.d2q4(), t2]))
    schs.append((2, [t2, L.d2q4()]))
    for dim, ss in schs:
        for rv in ([None] if len(ss) > 1 else [None, ["0.1"] * dim]):
            d = L.desc(dim, [3] * dim, ss, params=dict(P, w=1.25) if any("w" in s["s"] for s in ss) else P)
            if rv:
                d["relvel"] = rv
            yield {"what": "print scheme", "d": d}
        if dim < 3 and len(ss) > 1 or dim == 1:
            yield {"what": "print equation", "d": L.desc(dim, [3] * dim, ss, params=dict(P, w=1.25) if any("w" in s["s"] for s in ss) else P)}
    yield {"what": "print equation", "d": L.desc(3, [3] * 3, [L.d3q7()], params=P)}
    yield {"what": "print equation", "d": L.desc(2, [3] * 2, [L.d2q9()], params=P)}
    for dim, ss in (schs[0], schs[3], schs[5], schs[7]):
        yield {"what": "print simulation", "d": L.desc(dim, [3] * dim, ss, params=P)}
    for dim, ss in schs[:8]:
        for rv in (None, ["0.1"] * dim):
            if len(ss) == 1:
                yield {"what": "stability", "d": dict(L.desc(dim, [3] * dim, ss, params=P), **({"relvel": rv} if rv else {})), "nwv": 9 if dim < 3 else 8}
    for shape in ((1, 1), (2, 3), (3, 2), (4, 5), (1, 4)):
        for n in (0, 1):
            yield {"what": "matplotlib", "shape": shape, "n": n}
    for name in ("markers", "line", "plot", "segments", "text", "polygon", "ellipse", "grid of views", "surface", "ellipsoid", "axis", "ticks", "visible", "scale", "labels", "contour", "legend", "clear"):
        yield {"what": "primitive", "name": name}


# ---------------------------------------------------------------- checks
def stencil_dico(c):
    return {"dim": c["dim"], "schemes": [{"velocities": list(v)} for v in c["vels"]]}


def run_stencil(c, ctx):
    import pylbm

    s = pylbm.Stencil(stencil_dico(c))
    v = Viewer()
    kw = {"unique_velocities": c["unique"], "view_label": c["label"]}
    if c["k"] is not None:
        kw["k"] = c["k"]
    f = s.visualize(viewer_mod=v, **kw)
    ctx.step()
    n = len(c["vels"])
    if c["unique"]:
        sel = [sorted(set(x for v in c["vels"] for x in v))]
    else:
        ks = range(n) if c["k"] is None else [c["k"]] if isinstance(c["k"], int) else c["k"]
        sel = [list(c["vels"][k]) for k in ks]
    ctx.check(f is v.figs[-1] and len(f.views) == len(sel), lambda: "%d views, %d expected" % (len(f.views), len(sel)))
    tab = table(c["dim"], max(max(x) for x in c["vels"]) + 1)
    for i, nums in enumerate(sel):
        view = f.views[(i, 0)]
        pad = lambda p: tuple(float(x) for x in p) + ((0.0,) if c["dim"] == 1 else ())
        exp = sorted((str(k), pad(tab[k])) for k in nums) if c["label"] else []
        got = sorted(texts(view))
        ctx.check(got == exp, lambda: "view %d: texts %s instead of %s" % (i, got[:6], exp[:6]))
        if not c["unique"]:
            k = list(range(n) if c["k"] is None else [c["k"]] if isinstance(c["k"], int) else c["k"])[i]
            ctx.check(re.findall(r"\d+", view.title) == [str(k)], lambda: "view %d: title %s for the stencil %d" % (i, view.title, k))
        for a in view.named("axis"):
            lim = [float(x) for x in a.args]
            for k in nums:
                p = pad(tab[k])
                ctx.check(all(lim[2 * j] <= p[j] <= lim[2 * j + 1] for j in range(len(p))), lambda: "the velocity %d is out of the frame %s" % (k, lim))
        ctx.state(got, view.title)
        ctx.outcome(got)


def face_of(shape, p):
    """labels of the faces that contain the point p of the surface (None: not on the surface)"""
    p = np.asarray(p, float)
    if abs(float(shape.level(p))) > 1e-9:
        return None
    q = shape.local(p)
    out = []
    for i, f in enumerate(shape.faces):
        g = np.sqrt(sum(q[j] ** 2 for j in f[1])) - 1.0 if f[0] == "ball" else float(q @ f[1]) - f[2]
        if abs(g) < 1e-9:
            out.append(i)
    return out


def drawn_region(call, P):
    """the points of P in the region drawn by a polygon or an ellipse, and those near its border"""
    if call.name == "polygon":
        V = np.asarray(arg(call, 0, "pos"), float)
        ins = np.zeros(len(P), bool)
        dist = np.full(len(P), np.inf)
        for a, b in zip(V, np.roll(V, -1, axis=0)):
            with np.errstate(divide="ignore", invalid="ignore"):
                cross = (a[1] > P[:, 1]) != (b[1] > P[:, 1])
                ins ^= cross & (P[:, 0] < (b[0] - a[0]) * (P[:, 1] - a[1]) / (b[1] - a[1]) + a[0])
            t = np.clip(((P - a) @ (b - a)) / max(1e-300, (b - a) @ (b - a)), 0, 1)
            dist = np.minimum(dist, np.linalg.norm(P - a - t[:, None] * (b - a), axis=1))
        return ins, dist < 1e-6
    pos, rad = np.asarray(arg(call, 0, "pos"), float), arg(call, 1, "radius")
    rad = np.asarray(rad, float)
    th = float(arg(call, 3, "angle", 0.0))
    Q = (P - pos) @ np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    lev = np.hypot(Q[:, 0] / rad[0], Q[:, 1] / rad[1])
    return lev <= 1, np.abs(lev - 1) < 1e-6


def lattice(shape, n=17):
    lo = [-shape.extreme(-s) for s in np.eye(shape.dim)]
    hi = [shape.extreme(s) for s in np.eye(shape.dim)]
    ax = [np.linspace(a - 0.07 * (b - a), b + 0.07 * (b - a), n) for a, b in zip(lo, hi)]
    return np.stack([g.ravel() for g in np.meshgrid(*ax, indexing="ij")], axis=1)


def surface_points(c):
    if c.name == "surface":
        X, Y, Z = (np.asarray(arg(c, i, k), float) for i, k in enumerate("xyz"))
        return np.stack(np.broadcast_arrays(X, Y, Z), axis=-1).reshape(-1, 3)
    pos, a, b, cc = (np.asarray(arg(c, i, k), float) for i, k in enumerate(("pos", "a", "b", "c")))
    u, v = (g.ravel() for g in np.meshgrid(np.linspace(0, 2 * np.pi, 13), np.linspace(0, np.pi, 7)))
    return pos + np.outer(np.cos(u) * np.sin(v), a) + np.outer(np.sin(u) * np.sin(v), b) + np.outer(np.cos(v), cc)


def check_element(view, e, ctx, colors, labels, where):
    """the calls made by one element"""
    sh = Shape(e)
    if sh.dim == 2:
        reg = view.named("polygon", "ellipse")
        if not ctx.check(len(reg) == 1, lambda: "%s: %d regions drawn" % (where, len(reg))):
            return
        P = lattice(sh)
        ins, near = drawn_region(reg[0], P)
        lev = sh.level(P)
        bad = (ins != (lev <= 0)) & ~near & (np.abs(lev) > 1e-6)
        ctx.check(not bad.any(), lambda: "%s: the region drawn is not the element, e.g. at %s" % (where, P[bad][0]))
        ctx.check(arg(reg[0], 2 if reg[0].name == "ellipse" else 1, "color") == colors, lambda: "%s: colour" % where)
        ts = texts(view)
        if labels:
            seen = set()
            for t, p in ts:
                fs = face_of(sh, p)
                if ctx.check(fs is not None, lambda: "%s: the label %s is written at %s, out of the surface" % (where, t, p)):
                    ctx.check(any(str(sh.faces[i][-1]) == t for i in fs), lambda: "%s: the label %s is written on the face of label %s" % (where, t, [sh.faces[i][-1] for i in fs]))
                    seen |= set(fs)
            ctx.check(len(ts) == sh.nfaces and seen == set(range(sh.nfaces)), lambda: "%s: labels %s for %d faces" % (where, ts, sh.nfaces))
        else:
            ctx.check(not ts, lambda: "%s: labels although they are not asked for" % where)
        return
    surf = view.named("surface", "ellipse_3d")
    seen = {}
    for c in surf:
        P = surface_points(c)
        ctx.check(np.max(np.abs(sh.level(P))) < 1e-9, lambda: "%s: a surface is not on the element (%s)" % (where, np.max(np.abs(sh.level(P)))))
        common = set.intersection(*[set(face_of(sh, p) or []) for p in P])
        if ctx.check(len(common) == 1, lambda: "%s: a surface lies on the faces %s" % (where, common)):
            f = common.pop()
            seen[f] = True
            if isinstance(colors, list) and e["kind"] != "stlbox":  # surfaces of STL files have their own colour
                col = arg(c, 4 if c.name == "ellipse_3d" else 3, "color")
                ctx.check(col == colors[f], lambda: "%s: the face %d has the colour of another one" % (where, f))
    ctx.check(set(seen) == set(range(sh.nfaces)), lambda: "%s: faces drawn %s of %d" % (where, sorted(seen), sh.nfaces))
    if e["kind"] == "stlbox":
        ctx.check(len(surf) == 12, lambda: "%d triangles drawn" % len(surf))
        area = 0.0
        for c in surf:  # degenerate quadrilaterals: the area of the triangles is that of the surface
            X, Y, Z = (np.asarray(arg(c, i, k), float) for i, k in enumerate("xyz"))
            Q = np.unique(np.round(np.stack([X, Y, Z], axis=-1).reshape(-1, 3), 9), axis=0)
            if ctx.check(len(Q) == 3, lambda: "%d vertices for a triangle" % len(Q)):
                area += 0.5 * np.linalg.norm(np.cross(Q[1] - Q[0], Q[2] - Q[0]))
        a, b, d = sh.A.T
        exp = 2 * sum(np.linalg.norm(np.cross(x, y)) for x, y in ((a, b), (b, d), (a, d)))
        ctx.check(abs(area - exp) < 1e-6 * exp, lambda: "area drawn %s instead of %s" % (area, exp))
        ts = texts(view)
        if labels:
            mid = sh.c + sh.A @ np.full(3, 0.5)
            ctx.check(len(ts) == 1 and ts[0][0] == str(sh.faces[0][-1]) and np.allclose(ts[0][1], mid, atol=1e-6), lambda: "label %s, centre %s" % (ts, mid))
        elif labels is False:
            ctx.check(not ts, lambda: "labels although they are not asked for")


def run_element(c, ctx):
    e = c["e"]
    sh = Shape(e)
    obj = build(e)
    for labels in (True, False):
        view = View()
        col = "c0" if sh.dim == 2 else ["c%d" % i for i in range(sh.nfaces)]
        obj.visualize(view, col, viewlabel=labels, alpha=c["alpha"])
        ctx.step()
        check_element(view, e, ctx, col, labels, e["kind"])
        ctx.check(all(arg(x, 99, "alpha", c["alpha"]) == c["alpha"] for x in view.named("polygon", "ellipse", "surface", "ellipse_3d")), lambda: "transparency")
        ctx.state([(x.name, [np.asarray(a).tolist() if not isinstance(a, str) else a for a in x.args[:3]]) for x in view.calls])
    ctx.outcome(e["kind"], e["label"])


def sub(view, a, b):
    v = View()
    v.calls = view.calls[a:b]
    return v


def run_geometry(c, ctx):
    import pylbm

    elems = [build(e) for e in c["elems"]]
    marks = []
    g = pylbm.Geometry({"box": dict(c["box"]), "elements": elems} if elems else {"box": dict(c["box"])})
    v = Viewer()

    # the calls made by each element, in the order of their drawing
    def spy(e, i):
        f = e.visualize

        def visualize(view, color, *a, **k):
            n = len(view.calls)
            r = f(view, color, *a, **k)
            marks.append((i, n, len(view.calls), color))
            return r

        e.visualize = visualize

    for i, e in enumerate(g.list_elem):
        spy(e, i)
    try:
        f = g.visualize(viewer_app=v, viewlabel=c["viewlabel"])
    finally:
        for e in g.list_elem:
            e.__dict__.pop("visualize", None)
    ctx.step()
    view = f.views[(0, 0)]
    lab = c["box"]["label"]
    lab = [lab] * 2 * c["dim"] if isinstance(lab, int) else lab
    lo = np.array([c["box"][k][0] for k in "xyz"[: c["dim"]]])
    hi = np.array([c["box"][k][1] for k in "xyz"[: c["dim"]]])
    first = min([m[1] for m in marks], default=len(view.calls))
    box = sub(view, 0, first)
    ctx.check([m[0] for m in marks] == (list(range(len(elems))) if c["dim"] > 1 else []), lambda: "elements drawn in the order %s" % [m[0] for m in marks])
    colors = {}
    for i, a, b, col in marks:
        e = c["elems"][i]
        sh = Shape(e)
        if c["dim"] == 2 or not isinstance(col, list):
            check_element(sub(view, a, b), e, ctx, col if c["dim"] == 2 else None, c["viewlabel"] if c["dim"] == 2 or e["kind"] == "stlbox" else False, "element %d" % i)
            colors.setdefault("fluid" if e.get("fluid") else "solid", set()).add(str(col))
        else:
            check_element(sub(view, a, b), e, ctx, col, c["viewlabel"] if e["kind"] == "stlbox" else False, "element %d" % i)
            ls = [fa[-1] for fa in sh.faces]
            for (x, cx), (y, cy) in itertools.combinations(zip(ls, col), 2):
                ctx.check((cx == cy) == (x % 10 == y % 10), lambda: "labels %s and %s with the colours %s and %s" % (x, y, cx, cy))
    if c["dim"] == 2:
        reg = box.named("polygon", "ellipse")
        if ctx.check(len(reg) == 1, lambda: "%d regions for the box" % len(reg)):
            s = np.linspace(-0.1, 1.1, 13)
            P = np.array([lo + (hi - lo) * np.array(t) for t in itertools.product(s, s)])
            ins, near = drawn_region(reg[0], P)
            true = np.all((P >= lo) & (P <= hi), axis=1)
            ctx.check(not np.any((ins != true) & ~near), lambda: "the region of the box")
            colors.setdefault("fluid", set()).add(str(arg(reg[0], 1, "color")))
        ctx.check(all(len(x) == 1 for x in colors.values()) and (len(colors) < 2 or colors["fluid"] != colors["solid"]), lambda: "colours %s" % colors)
    ts = texts(box)
    if not c["viewlabel"]:
        ctx.check(not ts, lambda: "labels although they are not asked for")
    else:
        face = {}
        for t, p in ts:
            p = np.array(p)[: c["dim"]]
            if c["dim"] == 1:  # written next to the end
                i = int(np.argmin([abs(p[0] - lo[0]), abs(p[0] - hi[0])]))
            else:
                on = [2 * d + j for d in range(c["dim"]) for j, b in enumerate((lo, hi)) if abs(p[d] - b[d]) < 1e-9]
                if not ctx.check(len(on) == 1 and np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9), lambda: "the label %s of the box is written at %s" % (t, p)):
                    continue
                i = on[0]
            face.setdefault(i, []).append(t)
        ctx.check(face == {i: [str(x)] for i, x in enumerate(lab)}, lambda: "labels of the box %s written as %s" % (lab, face))
    if c["dim"] == 3:
        seen = {}
        for s in box.named("surface"):
            P = surface_points(s)
            on = [2 * d + j for d in range(3) for j, b in enumerate((lo, hi)) if np.allclose(P[:, d], b[d], atol=1e-9)]
            if ctx.check(len(on) == 1 and np.allclose(P.min(axis=0), np.where(np.arange(3) == on[0] // 2, P[0], lo)) and np.allclose(P.max(axis=0), np.where(np.arange(3) == on[0] // 2, P[0], hi)), lambda: "a face of the box: %s" % P.tolist()):
                seen[on[0]] = arg(s, 3, "color")
        if ctx.check(sorted(seen) == list(range(6)), lambda: "faces of the box drawn: %s" % sorted(seen)):
            for a, b in itertools.combinations(range(6), 2):
                ctx.check((seen[a] == seen[b]) == (lab[a] % 10 == lab[b] % 10), lambda: "faces of labels %s and %s: colours %s and %s" % (lab[a], lab[b], seen[a], seen[b]))
    ctx.state(len(view.calls), ts)
    ctx.outcome(ts, len(marks))


def dom_of(c):
    import pylbm

    d = c["d"]
    dico = {"box": dict(d["box"]), "space_step": d["dx"], "schemes": [{"velocities": list(d["vel"])}]}
    if d["elems"]:
        dico["elements"] = [build(e) for e in d["elems"]]
    return pylbm.Domain(dico)


def run_domain(c, ctx):
    dim = c["dim"]
    dom = dom_of(c)
    d = c["d"]
    nu = dom.stencil.unvtot
    vel = [np.array(u.v, float) for u in dom.stencil.unique_velocities]
    ctx.check(sorted(map(tuple, vel)) == sorted(tuple(float(x) for x in table(dim, max(d["vel"]) + 1)[k]) for k in d["vel"]), lambda: "unique velocities")
    centres = [np.asarray(x) for x in dom.coords_halo]
    lo = np.array([d["box"][k][0] for k in "xyz"[:dim]])
    for a in range(dim):  # the centres of the cells, halo included
        ctx.check(np.allclose(centres[a], lo[a] + (np.arange(len(centres[a])) - dom.stencil.vmax[a] + 0.5) * d["dx"], atol=1e-9), lambda: "centres along %d" % a)

    def where(mask):
        return np.array([[centres[a][i[a]] for a in range(dim)] for i in zip(*np.where(mask))]).reshape(-1, dim)

    fluid, solid = where(dom.in_or_out == dom.valin), where(dom.in_or_out == dom.valout)
    OFF = dict(view_geom=False, view_distance=False, view_in=False, view_out=False, view_bound=False, view_normal=False)

    def draw(**kw):
        v = Viewer()
        f = dom.visualize(viewer_app=v, **dict(OFF, **kw))
        ctx.step()
        return f.views[(0, 0)]

    def marks(view):
        return rows(view.named("markers"), dim)

    def segs(view):
        out = []
        for s in view.named("segments"):
            p = np.asarray(arg(s, 0, "pos"), float)
            for a, b in zip(p[::2], p[1::2]):
                out.append(tuple(np.round(np.concatenate([a[:dim], b[:dim]]), 9) + 0.0))
        return sorted(out)

    same = lambda a, b: len(a) == len(b) and np.allclose(np.array(a, float), np.array(b, float), atol=1e-8)
    ctx.check(marks(draw(view_in=True)) == pts(fluid, dim), lambda: "the markers of the fluid cells")
    ctx.check(marks(draw(view_out=True)) == pts(solid, dim), lambda: "the markers of the solid cells")
    v = draw(view_in=True, view_out=True)
    ctx.check(marks(v) == pts(np.concatenate([fluid, solid]), dim), lambda: "the markers of all the cells")
    ctx.check(not draw().named("markers", "segments"), lambda: "drawn although nothing is asked for")

    links = {}
    for k in range(nu):
        m = dom.distance[k] <= 1
        links[k] = (where(m), dom.distance[k][m], dom.flag[k][m], dom.normal[k][m])
    labs = sorted({int(x) for k in links for x in links[k][2]}) + [99]
    lsel = [None] + labs + [labs[:2]] + [labs]
    for ks in [True, False] + list(range(nu)) + [[0, nu - 1], [nu - 1, nu + 3], (nu,), nu, -1, []]:
        sel = list(range(nu)) if ks is True else [] if ks is False else [ks] if isinstance(ks, int) else list(ks)
        sel = [k for k in sel if 0 <= k < nu]
        for lab in lsel if ks is True else lsel[:3]:
            ok = None if lab is None else {lab} if isinstance(lab, int) else set(lab)
            E = []
            for k in sel:
                for x, s, l, n in zip(*links[k]):
                    if ok is None or int(l) in ok:
                        E.append((x, x + s * d["dx"] * vel[k], n))
            kw = {} if lab is None else {"label": lab}
            what = "velocities %s, labels %s" % (ks, lab)
            got = segs(draw(view_distance=ks, **kw))
            ctx.check(same(got, sorted(tuple(np.round(np.concatenate([a, b]), 9) + 0.0) for a, b, n in E)), lambda: "%s: the links drawn are not those of the domain" % what)
            got = marks(draw(view_bound=ks, **kw))
            ctx.check(same(got, pts([b for a, b, n in E], dim)), lambda: "%s: the points of the wall drawn are not those of the domain" % what)
            got = segs(draw(view_normal=ks, **kw))
            ctx.check(same(got, sorted(tuple(np.round(np.concatenate([b, b + d["dx"] * n]), 9) + 0.0) for a, b, n in E)), lambda: "%s: the normal vectors drawn are not those of the domain" % what)
            ctx.state(what, len(E))
    if dim > 1:
        view = draw(view_geom=True)
        n = len(view.named("polygon", "ellipse", "surface", "ellipse_3d"))
        exp = (dim == 2) + sum(1 if dim == 2 or Shape(e).kind in ("sphere", "ellipsoid") else 12 if e["kind"] == "stlbox" else Shape(e).nfaces for e in d["elems"])
        ctx.check(n == exp, lambda: "%d regions drawn for the geometry, %d expected" % (n, exp))
    ctx.outcome(len(fluid), len(solid), [len(links[k][0]) for k in links])


def plain(obj):
    """the report of an object without the codes of the colours"""
    return re.sub(r"\x1b\[[\d;]*m", "", str(obj))


def numbers(s):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", s)]


def field(txt, key):
    """what follows 'key:' up to the next entry"""
    m = re.search(r"^[ ]*(?:- |\. )?" + re.escape(key) + r":(.*?)(?=^[ ]*(?:- |\. |\w[\w ]*:|\+-)|\Z)", txt, re.S | re.M)
    return m.group(1).strip() if m else None


def run_print_stencil(c, ctx):
    import pylbm

    s = plain(pylbm.Stencil(stencil_dico(c)))
    ctx.step()
    tab = table(c["dim"], max(max(x) for x in c["vels"]) + 1)
    ctx.check(field(s, "spatial dimension") == str(c["dim"]), lambda: "dimension")
    allv = np.array([np.atleast_1d(tab[k]) for x in c["vels"] for k in x])
    ctx.check(numbers(field(s, "minimal velocity in each direction")) == list(allv.min(axis=0)), lambda: "minimal velocity")
    ctx.check(numbers(field(s, "maximal velocity in each direction")) == list(np.abs(allv).max(axis=0)), lambda: "maximal velocity")
    parts = re.split(r"^ *stencil (\d+) *$", s, flags=re.M)
    ctx.check(parts[1::2] == [str(i) for i in range(len(c["vels"]))], lambda: "sections %s" % parts[1::2])
    for nums, sec in zip(c["vels"], parts[2::2]):
        ctx.check(numbers(field(sec, "number of velocities")) == [len(nums)], lambda: "number of velocities")
        got = [numbers(x) for x in re.findall(r"\(([^)]*)\)", sec)]
        exp = [[float(k)] + [float(x) for x in np.atleast_1d(tab[k])] for k in nums]
        ctx.check(got == exp, lambda: "velocities %s instead of %s" % (got, exp))
    ctx.state(s)
    ctx.outcome(s)


ARGS = {
    "circle": ("center", "radius"), "sphere": ("center", "radius"), "ellipse": ("center", "v1", "v2"), "ellipsoid": ("center", "v1", "v2", "v3"),
    "parallelogram": ("start point", "v1", "v2"), "triangle": ("start point", "v1", "v2"),
    "cylcircle": ("center", "v1", "v2", "w"), "cylellipse": ("center", "v1", "v2", "w"), "cyltriangle": ("center", "v1", "v2", "w"), "box3": (), "stlbox": (),
}


def check_report_of(txt, e, ctx):
    sh = Shape(e)
    for k, a in zip(ARGS[e["kind"]], e["args"]):
        got = numbers(field(txt, k) or "")
        exp = np.atleast_1d(np.asarray(a, float))
        ctx.check(len(got) == len(exp) and np.allclose(got, exp, rtol=1e-6), lambda: "%s: %s printed as %s" % (e["kind"], k, got))
    ctx.check(numbers(field(txt, "label") or "") == [f[-1] for f in sh.faces][: 1 if e["kind"] == "stlbox" else None], lambda: "%s: labels printed %s" % (e["kind"], field(txt, "label")))
    ctx.check(field(txt, "type") == ("fluid" if sh.fluid else "solid"), lambda: "%s: type printed %s" % (e["kind"], field(txt, "type")))


def run_print_element(c, ctx):
    s = plain(build(c["e"]))
    ctx.step()
    check_report_of(s, c["e"], ctx)
    ctx.check(field(s, "dimension") == str(Shape(c["e"]).dim), lambda: "dimension")
    if c["e"]["kind"] == "stlbox":
        sh = Shape(c["e"])
        ctx.check(numbers(field(s, "number of triangles")) == [12], lambda: "number of triangles %s" % field(s, "number of triangles"))
        for d, k in enumerate("xyz"):
            got = numbers(field(s, k) or "")
            exp = [-sh.extreme(-np.eye(3)[d]), sh.extreme(np.eye(3)[d])]
            ctx.check(len(got) == 2 and np.allclose(got, exp, atol=1e-6), lambda: "extent along %s: %s instead of %s" % (k, got, exp))
    ctx.state(s)
    ctx.outcome(s)


def run_print_domain(c, ctx):
    dom = dom_of(c)
    s = plain(dom)
    ctx.step()
    d, dim = c["d"], c["dim"]
    lo = np.array([d["box"][k][0] for k in "xyz"[:dim]])
    hi = np.array([d["box"][k][1] for k in "xyz"[:dim]])
    n = np.round((hi - lo) / d["dx"]).astype(int)
    vm = np.max(np.abs([np.atleast_1d(table(dim, max(d["vel"]) + 1)[k]) for k in d["vel"]]), axis=0)
    head, geo = s.split("Geometry information")
    ctx.check(numbers(field(head, "spatial dimension")) == [dim] and numbers(field(head, "space step")) == [d["dx"]], lambda: "dimension, space step")
    halo, inn = head.split("without halo")
    for txt, h in ((halo[halo.index("with halo") :], vm), (inn, 0 * vm)):
        ctx.check(numbers(field(txt, "number of points")) == list(n + 2 * h), lambda: "number of points printed %s" % field(txt, "number of points"))
        got = numbers(field(txt, "bounds of the box"))
        exp = np.concatenate([lo - (h - 0.5) * d["dx"], hi + (h - 0.5) * d["dx"]])
        ctx.check(len(got) == len(exp) and np.allclose(got, exp, atol=1e-7), lambda: "bounds printed %s instead of %s" % (got, exp))
    lab = d["box"]["label"]
    got = numbers(field(geo, "bounds of the box"))
    ctx.check(np.allclose(got, np.stack([lo, hi], axis=1).ravel()), lambda: "bounds of the box printed %s" % got)
    ctx.check(numbers(field(geo, "labels")) == ([lab] * 2 * dim if isinstance(lab, int) else list(lab)), lambda: "labels of the box printed %s" % field(geo, "labels"))
    secs = re.split(r"^ *\+-+\+ *\n *\| (\w+) \| *\n *\+-+\+ *$", geo, flags=re.M)
    ctx.check(len(secs[2::2]) == len(d["elems"]), lambda: "elements printed: %s" % secs[1::2])
    for e, sec in zip(d["elems"], secs[2::2]):
        check_report_of(sec, e, ctx)
    ctx.state(s)
    ctx.outcome(s)


def block(txt, title):
    """the lines under '- title', without the margin"""
    m = re.search(r"^( *)- " + title + r" *\n(.*?)(?=^ *- |^ *\+-+\+ *$|\Z)", txt, re.S | re.M)
    if not m:
        return None
    lines = [x for x in m.group(2).splitlines() if x.strip()]
    pad = min((len(x) - len(x.lstrip()) for x in lines), default=0)
    return [x[pad:].rstrip() for x in lines]


def run_print_scheme(c, ctx):
    import pylbm
    import sympy as sp

    d = c["d"]
    dico = to_dico(d)
    keep = {k: v for k, v in dico.items() if k not in ("generator", "init")}
    s = plain(pylbm.Scheme(keep))
    ctx.step()
    dim = d["dim"]
    head = s.split("Scheme 0")[0]
    nv = [len(x["vel"]) for x in d["schemes"]]
    ctx.check(numbers(field(head, "spatial dimension")) == [dim], lambda: "dimension")
    ctx.check(numbers(field(head, "number of schemes")) == [len(nv)], lambda: "number of schemes")
    ctx.check(numbers(field(head, "number of velocities")) in ([sum(nv)], nv), lambda: "number of velocities %s of the schemes %s" % (field(head, "number of velocities"), nv))
    names = re.findall(r"\w+", field(head, "conserved moments"))
    pretty = lambda x: [y.rstrip() for y in sp.pretty(x).splitlines()]
    exp = sorted(sp.pretty(k) for x in dico["schemes"] for k in x["conserved_moments"])
    ctx.check(sorted(names) == exp, lambda: "conserved moments %s instead of %s" % (names, exp))
    secs = re.split(r"^ *\| Scheme (\d+) \| *$", s, flags=re.M)
    ctx.check(secs[1::2] == [str(i) for i in range(len(nv))], lambda: "sections %s" % secs[1::2])
    for sch, sec in zip(dico["schemes"], secs[2::2]):
        tab = table(dim, max(sch["velocities"]) + 1)
        got = [numbers(x.strip("() ")) for x in block(sec, "velocities")]
        ctx.check(got == [[float(k)] + [float(x) for x in np.atleast_1d(tab[k])] for k in sch["velocities"]], lambda: "velocities %s" % got)
        for title, key in (("polynomials", "polynomials"), ("equilibria", "equilibrium"), ("relaxation parameters", "relaxation_parameters")):
            got = block(sec, title)
            # compared after the normalisation of the numbers and of the order of the terms
            ctx.check(same_column(got, sch[key], key), lambda: "%s printed\n%s" % (title, "\n".join(got or [])))
    ctx.check(("relative velocities" in s) == ("relvel" in d), lambda: "relative velocities")
    ctx.state(s)
    ctx.outcome(s)


def run_print_equation(c, ctx):
    import pylbm
    import sympy as sp

    dim = c["d"]["dim"]
    dico = {k: v for k, v in to_dico(c["d"]).items() if k not in ("generator", "init")}
    eq = pylbm.EquivalentEquation(pylbm.Scheme(dico))
    s = plain(eq)
    ctx.step()
    clean = lambda t: re.sub(r"\s+", " ", t)
    S = sp.Symbol
    Fs = [S("F" + a) for a in "xyz"[:dim]]
    names = [(S("U"), eq.consm)] + list(zip(Fs, eq.coeff_order1))
    for i, j in itertools.product(range(dim), repeat=2):
        names.append((S("B" + "xyz"[i] + "xyz"[j]), -S("Delta_t") * eq.coeff_order2[i][j]))
    pos = 0
    txt = clean(s)
    for n, v in names:
        t = clean(sp.pretty(sp.Eq(n, v, evaluate=False)))
        k = txt.find(t, pos)
        if ctx.check(k >= 0, lambda: "the definition of %s is not printed (or not after the previous one)" % n):
            pos = k + len(t)
    x = sp.symbols("x y z")[:dim]
    U, D = S("U"), sp.Derivative
    pde = sp.Eq(D(U, S("t")) + sum(D(f, y) for f, y in zip(Fs, x)), sum(D(S("B" + "xyz"[i] + "xyz"[j]) * D(U, x[j]), x[i]) for i in range(dim) for j in range(dim)))
    ctx.check(clean(sp.pretty(pde)) in txt, lambda: "the equation is not printed")
    ctx.state(s)
    ctx.outcome(s)


def run_print_simulation(c, ctx):
    import pylbm

    sim = pylbm.Simulation(to_dico(c["d"]))
    s = plain(sim)
    ctx.step()
    lines = [x.strip() for x in s.splitlines() if x.strip()]
    for o in (sim.domain, sim.scheme):
        want = [x.strip() for x in plain(o).splitlines() if x.strip()]
        ctx.check(any(lines[i : i + len(want)] == want for i in range(len(lines))), lambda: "the report of the %s is not in the report of the simulation" % type(o).__name__)
    ctx.state(s)
    ctx.outcome(s)


def same_column(got, exprs, key):
    import sympy as sp

    if not got:
        return False
    opts = []
    for f in (lambda e: e, lambda e: sp.nsimplify(e, rational=True), lambda e: sp.factor(e), lambda e: sp.expand(e), lambda e: sp.factor(sp.nsimplify(e, rational=True)), lambda e: sp.expand(sp.nsimplify(e, rational=True))):
        try:
            opts.append([y.rstrip() for y in sp.pretty(sp.Matrix([f(sp.sympify(e)) for e in exprs])).splitlines() if y.strip()])
        except Exception:  # a form that does not exist for this expression
            pass
    clean = lambda ls: re.sub(r"[\s⎡⎤⎢⎥⎣⎦]+", " ", "\n".join(ls))
    return any(clean(got) == clean(o) for o in opts)


def run_stability(c, ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import pylbm
    import sympy as sp
    from matplotlib import widgets

    d = c["d"]
    dico = {k: v for k, v in to_dico(d).items() if k not in ("generator", "init")}
    scheme = pylbm.Scheme(dico)
    names = {str(k): k for k in dico["parameters"]}
    cons = list(scheme.consm.keys())
    lin = {k: 0.3 + 0.1 * i for i, k in enumerate(cons)}
    P = names["c"]
    desc = {
        "linearization": dict(lin), "number_of_wave_vectors": c["nwv"],
        "parameters": {P: {"range": [-2.0, 2.0], "init": d["params"]["c"], "step": 0.05}, cons[0]: {"range": [0.0, 2.0], "init": lin[cons[0]], "step": 0.1}},
    }
    made = []
    orig = widgets.Slider

    class Spy(orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)

    stab = pylbm.Stability(scheme)
    v = Viewer()
    before = dict(scheme.param)
    widgets.Slider = Spy
    try:
        stab.visualize(dict(desc), viewer_app=v)
    finally:
        widgets.Slider = orig
    fig = v.figs[0]
    titles = ["stable", "probably stable", "unstable"]

    def expect(par, l0):
        """eigenvalues recomputed by a fresh object, from the parameters and the state displayed"""
        dd = dict(dico, parameters={k: par if k == P else val for k, val in dico["parameters"].items()})
        st = pylbm.Stability(pylbm.Scheme(dd))
        xi, eg = st.eigenvalues([l0] + [lin[k] for k in cons[1:]], c["nwv"])
        return xi, eg, st.is_stable_l2

    def look(par, l0, what):
        xi, eg, verdict = expect(par, l0)
        a = [x for x in fig.views[(0, 0)].named("markers")]
        b = [x for x in fig.views[(0, 1)].named("markers")]
        if not ctx.check(len(a) == 1 and len(b) == 1, lambda: "%s: %d and %d clouds of points" % (what, len(a), len(b))):
            return
        key = lambda m: m[np.lexsort(np.round(m, 6).T)]
        got = key(np.asarray(a[0].args[0]))
        exp = key(np.stack([eg.real.ravel(), eg.imag.ravel()], axis=1))
        ctx.check(got.shape == exp.shape and hausdorff(got, exp) < 1e-6, lambda: "%s: the points drawn are not the eigenvalues" % what)
        got = np.asarray(b[0].args[0])
        exp = np.stack([np.repeat(np.max(xi, axis=0)[:, None], eg.shape[1], axis=1).ravel(), np.abs(eg).ravel()], axis=1)
        ctx.check(got.shape == exp.shape and hausdorff(got, exp) < 1e-6, lambda: "%s: the moduli drawn are not those of the eigenvalues" % what)
        for i in range(2):
            t = fig.views[(0, i)].title
            ctx.check(t.split(":")[-1].strip() == titles[verdict], lambda: "%s: title %r" % (what, t))
        ctx.state(what, np.round(np.sort(np.abs(eg).ravel()), 9))
        ctx.outcome(verdict, np.round(np.max(np.abs(eg)), 6))

    par, l0 = d["params"]["c"], lin[cons[0]]
    look(par, l0, "at first")
    if ctx.check(len(made) == 2, lambda: "%d sliders" % len(made)):
        for moves in itertools.product([(0, -1.5), (0, 0.2), (1, 0.9), (1, 0.4)], repeat=2):
            for i, val in moves:
                made[i].set_val(val)
                ctx.step()
                if i == 0:
                    par = val
                else:
                    l0 = val
            look(par, l0, "after the moves %s" % (moves,))
    scheme.param.update(before)
    plt.close("all")


def hausdorff(a, b):
    D = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(-1))
    return max(D.min(axis=1).max(), D.min(axis=0).max())


def run_matplotlib(c, ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    from pylbm.viewer import matplotlib_viewer as mv

    nx, ny = c["shape"]
    a = [np.arange(nx * ny, dtype=float).reshape(nx, ny) * s + s for s in (1.0, -0.5, 3.0)]
    fig = mv.Fig()
    ax = fig[0]
    A = lambda im: np.ma.filled(im.get_array(), np.nan)
    ctx.check(np.array_equal(A(ax.image(a[0])), a[0]), lambda: "image of an array")
    ctx.check(np.array_equal(A(ax.image(lambda s: s * a[0], fargs=(2.0,))), 2 * a[0]), lambda: "image of a function with its arguments")
    im = ax.SurfaceImage(a[0], clim=[0, 5])
    img = ax.ax.images[-1]
    for k in range(3):
        if k:
            im.update(a[k])
        ctx.check(np.array_equal(A(img), a[k].T), lambda: "SurfaceImage, update %d: the image is not the transposed field" % k)
        lo, hi = img.get_extent()[:2]
        ctx.check(img.origin == "lower" and tuple(img.get_clim()) == (0, 5), lambda: "SurfaceImage: origin, range of the values")
        ctx.step()
    x, y = np.linspace(0, 1, nx * ny), [b.ravel() for b in a]
    line = ax.CurveLine(x, y[0], width=3, color="b", label="u")
    for k in range(3):
        if k:
            line.update(y[k])
        art = ax.ax.lines[0]
        ctx.check(np.array_equal(art.get_xdata(), x) and np.array_equal(art.get_ydata(), y[k]), lambda: "CurveLine, update %d" % k)
        ctx.check(art.get_linewidth() == 3 and art.get_label() == "u", lambda: "CurveLine: width, label")
        ctx.step()
    sc = ax.CurveScatter(x, y[0])
    for k in range(3):
        if k:
            sc.update(y[k])
        off = np.ma.filled(ax.ax.collections[-1].get_offsets(), np.nan)
        ctx.check(np.array_equal(off, np.stack([x, y[k]], axis=1)), lambda: "CurveScatter, update %d" % k)
        ctx.step()
    f3 = mv.Fig(dim=3)
    X, Y = np.linspace(0, 1, nx), np.linspace(2, 3, ny)
    for samp in (1, 2, 3):
        s3 = f3[0].SurfaceScatter(X, Y, a[0], 5, sampling=samp)
        for k in range(3):
            if k:
                s3.update(a[k])
            got = np.array([np.ma.filled(np.ma.asarray(q, float), np.nan) for q in f3[0].ax.collections[-1]._offsets3d]).T
            exp = np.array([[X[i], Y[j], a[k][i, j]] for i in range(0, nx, samp) for j in range(0, ny, samp)])
            ctx.check(got.shape == exp.shape and np.array_equal(np.array(sorted(map(tuple, got))), np.array(sorted(map(tuple, exp)))), lambda: "SurfaceScatter, sampling %d, update %d" % (samp, k))
            ctx.step()
    calls = []
    fig.animate(lambda i: calls.append(i), interval=7)
    fr = fig.animation
    ctx.check(fr._interval == 7 and fr._fig is fig.fig, lambda: "animate: interval")
    it = fr.new_frame_seq()
    for _ in range(3):
        fr._func(next(it))
    ctx.check(len(calls) == 3, lambda: "animate: calls")
    fr._draw_was_started = True
    ctx.state(c["shape"], c["n"])
    ctx.outcome(c["shape"])
    plt.close("all")


def run_primitive(c, ctx):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    from pylbm.viewer import matplotlib_viewer as mv

    name = c["name"]
    P2 = np.array([[0.0, 1.0], [2.0, -1.0], [0.5, 0.25], [3.0, 4.0]])
    P3 = np.array([[0.0, 1.0, 2.0], [2.0, -1.0, 0.5], [1.0, 1.0, -3.0], [0.0, 7.0, 1.0]])
    F = lambda x: np.ma.filled(np.ma.asarray(x, float), np.nan)
    for dim, P in ((2, P2), (3, P3)):
        fig = mv.Fig(dim=dim)
        ax = fig[0]
        if name == "markers":
            m = ax.markers(P, 12, symbol="s")
            got = F(m.get_offsets()) if dim == 2 else np.array([F(q) for q in m._offsets3d]).T
            ctx.check(np.array_equal(got, P) and list(m.get_sizes()) == [12], lambda: "%dD markers" % dim)
            if dim == 3:
                f2 = mv.Fig(dim=2)
                m = f2[0].markers(P, 3, dim=2)
                ctx.check(np.array_equal(F(m.get_offsets()), P[:, :2]), lambda: "markers of a plane figure")
        elif name in ("line", "plot"):
            r = ax.line(P, width=4) if name == "line" else ax.plot(*P.T, width=4)
            got = np.array(r[0].get_data() if dim == 2 else r[0].get_data_3d()).T
            ctx.check(np.array_equal(got, P) and r[0].get_linewidth() == 4, lambda: "%dD %s" % (dim, name))
        elif name == "segments":
            ax.segments(P, width=3)
            got = [np.array(x.get_data() if dim == 2 else x.get_data_3d()).T for x in ax.ax.lines]
            ctx.check(len(got) == 2 and all(np.array_equal(g, P[2 * i : 2 * i + 2]) for i, g in enumerate(got)), lambda: "%dD segments" % dim)
        elif name == "text":
            r = ax.text(["a", "b", "c"], P[:3]) + ax.text("solo", P[3])
            got = [(x.get_text(), tuple(x.get_position()) if dim == 2 else tuple(x.get_position_3d())) for x in r]
            ctx.check(got == [(t, tuple(p)) for t, p in zip(("a", "b", "c", "solo"), P)], lambda: "%dD texts %s" % (dim, got))
        elif name == "polygon" and dim == 2:
            r = ax.polygon(P, "red")
            ctx.check(np.array_equal(r.get_xy()[:4], P), lambda: "polygon")
        elif name == "ellipse" and dim == 2:
            for th in (0.0, 0.3, -1.2, 2.0):
                r = ax.ellipse((1.0, 2.0), (3.0, 0.5), "red", angle=th)
                q = np.array([[1 + 3 * np.cos(th), 2 + 3 * np.sin(th)], [1 - 0.5 * np.sin(th), 2 + 0.5 * np.cos(th)]])
                ins = r.get_path().contains_points(r.get_patch_transform().inverted().transform(np.array([1, 2]) + 0.999 * (q - [1, 2])))
                out = r.get_path().contains_points(r.get_patch_transform().inverted().transform(np.array([1, 2]) + 1.01 * (q - [1, 2])))
                ctx.check(ins.all() and not out.any(), lambda: "ellipse of angle %s" % th)
        elif name == "surface" and dim == 3:
            u, v = np.meshgrid(np.arange(2.0), np.arange(2.0), indexing="ij")
            for A in (np.eye(3), np.array([[1, 2, 0], [0, 1, -1], [3, 0, 1.0]])):
                X, Y, Z = (A[i, 0] * u + A[i, 1] * v + A[i, 2] for i in range(3))
                r = ax.surface(X, Y, Z, "red", alpha=0.25)
                got = np.array([q[:3] for q in r._vec.T]) if hasattr(r, "_vec") else np.concatenate(r._segments3d)
                exp = {tuple(A @ np.array([a, b, 1.0])) for a in (0, 1) for b in (0, 1)}
                ctx.check({tuple(np.round(g, 9) + 0.0) for g in got} == {tuple(np.round(g, 9) + 0.0) for g in exp}, lambda: "surface: its corners are not the points given")
                ctx.check(r.get_alpha() == 0.25, lambda: "surface: transparency")
                ctx.step()
        elif name == "ellipsoid" and dim == 3:
            c0 = np.array([1.0, -2.0, 0.5])
            for A in (np.eye(3), np.array([[2.0, 0, 0], [0, 0.5, 0], [0, 0, 1.5]]), np.array([[1.0, -1.0, 0.5], [1.0, 1.0, 0.0], [0.25, 0, 2.0]])):
                r = ax.ellipse_3d(c0, A[:, 0], A[:, 1], A[:, 2], "red", alpha=0.5)
                got = np.array([q[:3] for q in r._vec.T]) if hasattr(r, "_vec") else np.concatenate(r._segments3d)
                q = np.linalg.solve(A, (got - c0).T).T
                ctx.check(np.allclose((q**2).sum(axis=1), 1, atol=1e-9), lambda: "ellipsoid: points out of the surface")
                dense = [p / np.linalg.norm(p) for p in itertools.product(range(-3, 4), repeat=3) if any(p)]
                ctx.check(all(np.linalg.norm(q - p, axis=1).min() < 0.2 for p in dense), lambda: "ellipsoid: a part of the surface is not drawn")
                ctx.step()
        elif name == "axis":
            for lim in itertools.product(((-1.0, 2.0), (0.5, 0.75)), ((0.0, 3.0), (-4.0, -2.0)), ((-1.0, 1.0), (5.0, 8.0))):
                for d in (1, 2, 3) if dim == 3 else (1, 2):
                    f = mv.Fig(dim=dim)
                    (x0, x1), (y0, y1), (z0, z1) = lim
                    if d == 3:
                        f[0].axis(x0, x1, y0, y1, z0, z1, dim=3)
                    else:
                        f[0].axis(x0, x1, y0, y1, dim=d)
                    w = f[0].ax
                    ctx.check(tuple(w.get_xlim()) == (x0, x1) and tuple(w.get_ylim()) == (y0, y1) and (d < 3 or tuple(w.get_zlim()) == (z0, z1)), lambda: "axis %s in dimension %d" % (lim, d))
                    ctx.check(w.get_yaxis().get_visible() == (d > 1), lambda: "second axis in dimension %d" % d)
                    if d == 2 and dim == 2:
                        f[0].axis(x0, x1, y0, y1, aspect="equal")
                        ctx.check(w.get_aspect() in ("equal", 1.0), lambda: "axis: aspect")
                        f[0].set_xlim(y0, y1)
                        ctx.check(tuple(w.get_xlim()) == (y0, y1) and tuple(w.get_ylim()) == (y0, y1), lambda: "set_xlim")
                        f[0].set_ylim(x0, x1)
                        ctx.check(tuple(w.get_xlim()) == (y0, y1) and tuple(w.get_ylim()) == (x0, x1), lambda: "set_ylim")
                    ctx.step()
                    plt.close(f.fig)
            if dim == 2:
                ax.axis_equal()
                ctx.check(ax.ax.get_aspect() in ("equal", 1.0), lambda: "axis_equal")
        elif name == "ticks":
            for maj, mino in itertools.product(([0.0, 1.0], [0.25, 0.5, 2.0]), (None, [0.1, 0.2])):
                for which in "xyz"[:dim]:
                    f = mv.Fig(dim=dim)
                    before = {k: list(getattr(f[0].ax, "get_%sticks" % k)()) for k in "xyz"[:dim]}
                    getattr(f[0], which + "axis")(maj, mino)
                    for k in "xyz"[:dim]:
                        got = list(getattr(f[0].ax, "get_%sticks" % k)())
                        gmin = list(getattr(f[0].ax, "get_%sticks" % k)(minor=True))
                        ctx.check(got == (maj if k == which else before[k]) and gmin == ((mino or []) if k == which else []), lambda: "ticks of the axis %s after %saxis(%s, %s): %s %s" % (k, which, maj, mino, got, gmin))
                    ctx.step()
                    plt.close(f.fig)
        elif name == "visible":
            for seq in itertools.product(*[(True, False)] * dim):
                for k, b in zip("xyz", seq):
                    getattr(ax, k + "axis_set_visible")(b)
                ctx.check([getattr(ax.ax, "get_%saxis" % k)().get_visible() for k in "xyz"[:dim]] == list(seq), lambda: "visibility of the axes %s" % (seq,))
                ctx.step()
            for b in (True, False, True):
                ax.grid(visible=b)
                on = ax.ax._draw_grid if dim == 3 else ax.ax.xaxis.get_gridlines()[0].get_visible() and ax.ax.yaxis.get_gridlines()[0].get_visible()
                ctx.check(bool(on) == b, lambda: "grid(%s)" % b)
                ctx.step()
        elif name == "scale" and dim == 2:
            for kx, ky in itertools.product((("linear", None), ("log", None), ("log", 2), ("symlog", None)), repeat=2):
                f = mv.Fig()
                f[0].set_xscale(*kx)
                f[0].set_yscale(*ky)
                w = f[0].ax
                ctx.check((w.get_xscale(), w.get_yscale()) == (kx[0], ky[0]), lambda: "scales %s %s" % (kx, ky))
                for a, (nme, base) in zip((w.xaxis, w.yaxis), (kx, ky)):
                    if nme == "log":
                        ctx.check(a.get_transform().base == (base or 10), lambda: "base of the scales %s %s" % (kx, ky))
                ctx.step()
                plt.close(f.fig)
        elif name == "labels":
            for labs in itertools.product((None, "a", "b"), repeat=dim):
                f = mv.Fig(dim=dim)
                f[0].set_label(*labs)
                ctx.check([getattr(f[0].ax, "get_%slabel" % k)() for k in "xyz"[:dim]] == [x or "" for x in labs], lambda: "labels of the axes %s" % (labs,))
                f[0].title = "t"
                ctx.check(f[0].title == "t" and f[0].ax.get_title() == "t", lambda: "title")
                ctx.step()
                plt.close(f.fig)
        elif name == "contour" and dim == 2:
            for shape in ((3, 4), (5, 2)):
                i, j = np.indices(shape)
                for fld, where in ((1.0 * i, lambda p: p[:, 1]), (1.0 * j, lambda p: p[:, 0])):
                    for lev in ([0.5], [0.25, 0.75]):
                        for direct in (True, False):
                            f = mv.Fig()
                            # a contour shows a field of arrays, a surface the transposed one
                            r = f[0].contour(fld, levels=lev, colors="r") if direct else f[0].SurfaceContour(fld.T, levels=lev, colors="r").contour
                            ctx.check(list(r.levels) == lev, lambda: "contour: levels")
                            for l, path in zip(lev, r.get_paths()):
                                ctx.check(len(path.vertices) > 0 and np.allclose(where(path.vertices), l), lambda: "contour of the value %s" % l)
                            ctx.step()
                            plt.close(f.fig)
        elif name == "legend":
            ax.plot(*P.T, label="u")
            ax.line(P, label="v")
            ax.markers(P, 3, label="w")
            for loc, frame in itertools.product(("upper left", "best", "lower right"), (True, False)):
                ax.legend(loc=loc, frameon=frame)
                lg = ax.ax.get_legend()
                ctx.check(sorted(t.get_text() for t in lg.get_texts()) == ["u", "v", "w"] and lg.get_frame_on() == frame and lg._loc == {"upper left": 2, "best": 0, "lower right": 4}[loc], lambda: "legend %s" % loc)
                ctx.step()
        elif name == "clear":
            other = mv.Fig(1, 2, dim=dim)
            for i in range(2):
                other[0, i].plot(*P.T)
                other[0, i].text("a", P[0])
            other[0, 0].clear()
            ctx.check(not other[0, 0].ax.lines and not other[0, 0].ax.texts and len(other[0, 1].ax.lines) == 1 and len(other[0, 1].ax.texts) == 1, lambda: "clear: the view is not empty, or another one is")
        elif name == "grid of views":
            f = mv.Fig(2, 3, dim=dim)
            vs = {}
            for i in itertools.product(range(2), range(3)):
                vs[i] = f[i]
                vs[i].title = "view %d %d" % i
            ctx.check(len({id(x) for x in vs.values()}) == 6 and all(f[i] is vs[i] for i in vs) and all(f[i].title == "view %d %d" % i for i in vs), lambda: "views of a figure")
            g = mv.Fig(3, 1, dim=dim)
            ws = [g[i] for i in range(3)]
            ctx.check(len({id(x) for x in ws}) == 3 and all(g[i, 0] is ws[i] for i in range(3)), lambda: "views of a column")
        ctx.step()
        plt.close("all")
    ctx.state(name)
    ctx.outcome(name)


def run_case(c, ctx):
    ctx.sample(c)
    globals()["run_" + c["what"].replace(" ", "_")](c, ctx)
    ctx.trace()
