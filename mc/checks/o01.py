"""O01: HDF5 output"""
import itertools
import json
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

from .. import schemes as L
from ..engine import HarnessError
from ..h5_driver import SCALARS, VECTORS, field
from . import p01

RULE = "one case = one process grid: every sequence of file operations of that dimension is performed by mpirun on it; every data set of every file is compared at every cell with the field registered, and every item of the description file with the data set it names"
ASSUMPTIONS = [
    "fields are numpy arrays, lists of arrays, or functions returning them",
    "one dimensional meshes have no rectilinear topology in XDMF: in 1D only the data items of the description are compared",
]
CASE_TIMEOUT = 400
NPROC = 4


def bounds(tier):
    n = "at most 8" if tier == "thorough" else "at most 5 (1D), 4 and 2x3, 3x2 (2D), 2 and 2x2x1, 1x2x2, 2x1x2, 2x2x2 (3D)"
    return "process grids of %s processes; shapes that divide or not; 7 kinds of arrays, functions with arguments, vectors of 1 to 3 components, moments at steps 0 to 3; 70 interleavings of the operations on 2 files (quick: 1D and 2D); 6 kinds of paths, with and without time steps; storage orders" % n


def cases(tier):
    th = tier == "thorough"
    lst = []
    for dim, nmax in ((1, 5), (2, 4), (3, 2)) if not th else ((1, 8), (2, 8), (3, 8)):
        for g in p01.grids(dim, nmax):
            lst.append({"dim": dim, "grid": g})
    if not th:
        lst += [{"dim": 2, "grid": g} for g in ([2, 3], [3, 2])]
        lst += [{"dim": 3, "grid": g} for g in ([1, 2, 2], [2, 1, 2], [2, 2, 1], [2, 2, 2])]
    lst.sort(key=lambda c: -int(np.prod(c["grid"])) * 2 ** c["dim"])
    for c in lst:
        yield dict(c, deep=True) if th else c


def init(d):
    return p01.init(d)


def descs(dim):
    if dim == 1:
        return [L.desc(1, [n], [L.d1q3(("1.7",), "0.4*rho + 0.1*q**2")], lo=[-0.3]) for n in (8, 11)]
    if dim == 2:
        q5 = L.sch(range(5), ["1", "X", "Y", "X**2 + Y**2", "X**2 - Y**2"], ["0", "0", "0", "1.3", "0.9"], ["rho", "qx", "qy", "0.7*rho", "0.1*qx"], ["rho", "qx", "qy"])
        return [L.desc(2, n, [q5], lo=[-0.5, 2.0]) for n in ([7, 6], [6, 9])]
    return [L.desc(3, n, [L.d3q7()], lo=[0.0, -0.5, 1.0]) for n in ([4, 5, 6], [5, 4, 3])]


def body(name):
    """every kind of field in the file `name`"""
    acts = [["scalar", name, s] for s in SCALARS] + [["scalar_fun", name]]
    acts += [["vector", name, v] for v in VECTORS] + [["vector_fun", name]]
    return acts + [["moment", name, 0], ["moments", name]]


def interleavings(a, b):
    for pos in itertools.combinations(range(len(a) + len(b)), len(a)):
        ia, ib = iter(a), iter(b)
        yield [next(ia) if i in pos else next(ib) for i in range(len(a) + len(b))]


def jobs(case):
    dim, out = case["dim"], []
    D = descs(dim)

    def job(d, actions, sorder=None):
        out.append({"id": "j%d" % len(out), "desc": d, "actions": actions, "sorder": sorder})

    for d in D:
        # (the first one with a simulation, the second one with a domain only)
        job(d, [["open", "A", {"filename": "out"}], ["grid", "A"], *(body("A") if d is D[0] else body("A")[:-2]), ["save", "A"]])
    sorders = list(itertools.permutations(range(dim + 1)))
    for so in sorders[1:: 1 if dim < 3 else 9]:
        job(D[0], [["open", "A", {"filename": "out"}], ["grid", "A"], ["moments", "A"], ["moment", "A", 0], ["save", "A"]], list(so))
    # one file per step
    acts = []
    for t in range(4):
        n = "S%d" % t
        acts += [["open", n, {"filename": "run", "path": "./steps", "timestep": t}], ["grid", n], ["moment", n, 0], ["moments", n], ["save", n], ["step"]]
    job(D[1], acts)
    # paths
    acts = []
    for i, kw in enumerate([{}, {"path": ".", "filename": "dot"}, {"path": "./new"}, {"path": "a/b/c"}, {"path": "./new", "timestep": 3}, {"path": "end/"}, {"filename": "other.h5", "path": "new"}, {"path": "", "timestep": 0}]):
        n = "P%d" % i
        acts += [["open", n, dict({"filename": "file"}, **kw)], ["grid", n], ["scalar", n, SCALARS[i % len(SCALARS)]], ["save", n]]
    job(D[0], acts)
    if dim == 3 and not case.get("deep"):
        return out
    # two files written at the same time
    seq = lambda n, k: [["open", n, {"filename": "f", "timestep": k}], ["grid", n], ["scalar", n, SCALARS[k]], ["save", n]]
    acts = []
    for i, order in enumerate(interleavings(seq("X", 0), seq("Y", 1))):
        for a in order:
            a = [a[0], a[1] + str(i), *a[2:]]
            if a[0] == "open":
                a[2] = dict(a[2], path="t%d" % i)
            acts.append(a)
    job(D[0], acts)
    return out


def launch(*args):
    return p01.launch(*args, module="mc.h5_driver")


def run_case(case, ctx):
    n = int(np.prod(case["grid"]))
    jbs = jobs(case)
    ctx.sample(case)
    out = tempfile.mkdtemp(prefix="o01", dir=os.getcwd())
    try:
        rc, log = launch(jbs, n, case["grid"], out, 300)
        for j in jbs:
            for r in range(n):
                err = os.path.join(out, "%s.%d.err" % (j["id"], r))
                if os.path.exists(err):
                    ctx.fail("%dD grid %s, cells %s, %s: rank %d: %s" % (case["dim"], case["grid"], j["desc"]["n"], j["actions"][:3], r, open(err).read()))
                    return
        if rc != 0:
            ctx.fail("%dD grid %s: the run %s: %s" % (case["dim"], case["grid"], "hangs" if rc is None else "ended with status %s" % rc, log[-300:]))
            return
        for j in jbs:
            verify(case, j, os.path.join(out, j["id"]), n, ctx)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def verify(case, job, work, n, ctx):
    import h5py

    d = job["desc"]
    dim, shape = d["dim"], d["n"]
    full = [np.arange(k) for k in shape]
    ranks = [np.load(os.path.join(work, "saved.%d.npz" % r)) for r in range(n)]

    def whole(key):
        a = np.full(shape, np.nan)
        for z in ranks:
            a[np.ix_(*[z["idx%d" % i] for i in range(dim)])] = z[key]
        return a

    files = {}
    for act in job["actions"]:
        if act[0] == "step":
            continue
        op, name = act[0], act[1]
        if op == "open":
            kw = act[2]
            stem = os.path.splitext(kw["filename"])[0] + ("_%s" % kw["timestep"] if "timestep" in kw else "")
            files[name] = {"h5": os.path.join(work, kw.get("path", ""), stem + ".h5"), "xdmf": os.path.join(work, kw.get("path", ""), stem + ".xdmf"), "s": {}, "v": {}}
        elif op == "scalar":
            files[name]["s"][act[2]] = field(act[2], full).astype(float)
        elif op == "scalar_fun":
            files[name]["s"]["fun"] = field("float", full) * 3.0
        elif op == "vector":
            files[name]["v"][act[2]] = [field(k, full).astype(float) for k in VECTORS[act[2]]]
        elif op == "vector_fun":
            files[name]["v"]["vfun"] = [field("float", full) + 0.5, field("int", full) * 1.0]
        elif op == "moment":
            files[name]["s"]["m%d" % act[2]] = whole("%s.m%d" % (name, act[2]))
        elif op == "moments":
            nc = sum(len(s["consm"]) for s in d["schemes"])
            files[name]["v"]["mv"] = [whole("%s.mv.%d" % (name, i)) for i in range(nc)]
    what = "%dD grid %s cells %s" % (dim, case["grid"], shape)
    for name, f in files.items():
        ctx.step()
        ctx.state(json.dumps(job["actions"]), name, case)
        if not ctx.check(os.path.exists(f["h5"]) and os.path.exists(f["xdmf"]), lambda: "%s: file %s or its description is missing" % (what, f["h5"][len(work):])):
            return
        with h5py.File(f["h5"], "r") as h:
            for i in range(dim):
                x = d["lo"][i] + (np.arange(shape[i]) + 0.5) * d["dx"]
                ctx.check("x_%d" % i in h and h["x_%d" % i].shape == x.shape and np.allclose(h["x_%d" % i][:], x, atol=1e-12), lambda: "%s: coordinate %d of %s: %s" % (what, i, name, h["x_%d" % i][:] if "x_%d" % i in h else None))
            for k, v in f["s"].items():
                ctx.step()
                got = h[k][:] if k in h else None
                ctx.check(got is not None and got.shape == v.T.shape and np.array_equal(got, v.T), lambda: "%s: scalar %s of %s: %s instead of %s" % (what, k, name, brief(got), brief(v.T)))
                ctx.outcome(v)
            for k, v in f["v"].items():
                ctx.step()
                got = h[k][:] if k in h else None
                ok = got is not None and got.ndim == dim + 1 and got.shape[:-1] == v[0].T.shape and all(np.array_equal(got[..., i], c.T) for i, c in enumerate(v))
                ctx.check(ok, lambda: "%s: vector %s of %s: %s" % (what, k, name, brief(got)))
            describe(what, f, h, dim, shape, ctx)
    ctx.trace()


def brief(a):
    return None if a is None else "%s %s" % (a.shape, a.ravel()[:6].tolist())


def describe(what, f, h, dim, shape, ctx):
    try:
        root = ET.parse(f["xdmf"]).getroot()
    except ET.ParseError as e:
        ctx.fail("%s: %s: %s" % (what, os.path.basename(f["xdmf"]), e))
        return
    grid = root.find("Domain/Grid")
    sizes = [int(s) for s in grid.find("Topology").get("NumberOfElements").split()]
    if dim > 1:
        ctx.check(sizes == shape[::-1], lambda: "%s: mesh of %s described with %s elements (slowest index first)" % (what, shape, sizes))
        ctx.check(grid.find("Topology").get("TopologyType") == "%dDRectMesh" % dim, "%s: type of mesh %s" % (what, grid.find("Topology").attrib))
    def item(it):
        dims = tuple(int(s) for s in it.get("Dimensions").split())
        name, path = it.text.strip().split(":", 1)
        ok = ctx.check(name == os.path.basename(f["h5"]), lambda: "%s: the description refers to the file %s" % (what, name))
        if ok and ctx.check(path.strip("/") in h, lambda: "%s: the description refers to %s which does not exist" % (what, path)):
            got = h[path.strip("/")].shape
            ctx.check(tuple(got) == dims, lambda: "%s: %s has the shape %s and is described with %s" % (what, path, got, dims))
        return path.strip("/")
    geo = [item(it) for it in grid.findall("Geometry/DataItem")]
    ctx.check(geo == ["x_%d" % i for i in range(dim)], lambda: "%s: coordinates of the description: %s" % (what, geo))
    seen = {"Scalar": {}, "Vector": {}}
    for a in grid.findall("Attribute"):
        seen.setdefault(a.get("AttributeType"), {})[a.get("Name")] = item(a.find("DataItem"))
    ctx.check(seen["Scalar"] == {k: k for k in f["s"]} and seen["Vector"] == {k: k for k in f["v"]}, lambda: "%s: fields described: %s; registered: %s %s" % (what, seen, list(f["s"]), list(f["v"])))
