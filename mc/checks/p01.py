"""P01: results do not depend on the processes"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import schemes as L
from ..bref import normalise, to_bdico
from ..engine import REPO, ROOT, HarnessError, kill_tree
from ..ref import close, to_dico
from .b02 import NO, lab

RULE = "one case = one process grid: every description of that dimension run by mpirun on it, compared cell by cell and step by step with the run on one process; the messages recorded in the halo exchange are then explored in every order"
ASSUMPTIONS = [
    "sub-domains are at least as wide as the largest velocity",
    "known finding of G01: obstacles at periodic edges are not placed",
    "message model: non overtaking per (source, tag), sends complete only when received (the strictest semantics allowed)",
]
CASE_TIMEOUT = 600
NPROC = 4


def bounds(tier):
    n = "at most 8 processes" if tier == "thorough" else "2 to 4 processes (1D), 2 to 4 and 2x3, 3x2 (2D), 2 and 2x2x1, 2x1x2, 1x2x2, 2x2x2 (3D)"
    return "every process grid of %s, chosen explicitly and by default; 7 descriptions in 1D, 9 in 2D, 5 in 3D, 4 steps; every order of the messages of 2 exchanges" % n


def el(kind, args, label, fluid=False):
    e = {"kind": kind, "args": args, "label": label}
    if fluid:
        e["fluid"] = True
    return e


def descs(dim):
    P = {"c": 0.35, "g": 0.2}
    q3 = L.d1q3(("1.7",), "0.4*rho + 0.1*q**2")
    q9 = L.d2q9()
    t5 = L.d2q5(("1.2", "0.9", "1.1", "0.4"), ("0.3*rho", "-0.1*rho", "0.5*rho", "0"), u="T")
    st, sp = ("spacetime", True, None), ("space", False, None)
    src = lambda s, **kw: dict(s, source=kw)
    if dim == 1:
        two = [L.d1q2("1.3", "0.2*rho + 0.1*T"), L.d1q3s(("0.8", "1.9"), ("0.3*T", "T/3"), u="T")]
        return [
            L.desc(1, [11], [q3], params=P),
            L.desc(1, [17], [L.d1q5()], params=P),
            L.desc(1, [9], [src(q3, q="c*rho + t")], params=P, label=[0, 1], bc={0: lab("bouzidi", st), 1: lab("abb", sp)}),
            L.desc(1, [16], [L.d1q5()], params=P, label=[0, 1], bc={0: lab("bouzidi_anti", st), 1: lab("neumann", NO)}),
            L.desc(1, [8], two, params=P, label=[0, 0], bc={0: lab(["bb", "abb"], st)}),
            L.desc(1, [8], [q3], params=P, relvel=["q/rho"]),
            L.desc(1, [10], [q3], params=P, sorder=[1, 0]),
        ]
    if dim == 2:
        walls = lambda **e: {0: lab("bb", sp), 1: lab("abb", st), 2: lab("bouzidi", NO), 3: lab("neumann", NO), 5: lab("bouzidi", st), 6: lab("bouzidi_anti", sp)}
        return [
            L.desc(2, [7, 9], [q9], params=P),
            L.desc(2, [8, 7], [q9], params=P, label=[0, 1, 2, 3], bc=walls()),
            L.desc(2, [9, 7], [q9], params=P, label=[0, 1, 2, 3], elems=[el("circle", [[1.1, 0.4], 0.43], 5)], bc=walls()),
            L.desc(2, [8, 8], [q9], params=P, label=[0, 0, 0, 0], elems=[el("parallelogram", [[0.45, -0.2], [0.9, 0.13], [-0.1, 0.97]], [5, 6, 6, 5]), el("circle", [[1.63, 1.0], 0.2], 1)], bc=walls()),
            L.desc(2, [9, 8], [q9, src(t5, T="g*(1 - T)")], params=P, label=[-1, -1, 0, 2], elems=[el("triangle", [[0.8, -0.3], [0.7, 0.92], [-0.25, 0.75]], [5, 6, 6])],
                   bc={0: lab(["bb", "abb"], st), 2: lab(["abb", "neumanny"], NO), 5: lab(["bb", "bouzidi"], sp), 6: lab(["bb", "abb"], NO)}),
            L.desc(2, [8, 7], [q9], params=P, label=[0, 1, -1, -1], elems=[el("parallelogram", [[-0.1, -0.6], [3.0, 0.0], [0.0, 3.0]], [0, 1, 1, 0]), el("circle", [[1.0, 0.3], 0.62], 5, True)], bc=walls()),
            L.desc(2, [7, 8], [t5], params=P, label=[0, 1, 0, 1], elems=[el("ellipse", [[0.8, 0.5], [0.6, 0.2], [-0.1, 0.3]], 5)], bc=walls(), sorder=[1, 2, 0]),
            L.desc(2, [7, 7], [q9], params=P, label=[0, 1, 2, 3], elems=[el("triangle", [[0.1, -0.3], [1.5, 0.03], [0.05, 0.12]], [5, 6, 6])], bc=walls()),
            L.desc(2, [12, 13], [L.sch((5, 6, 7, 8, 9), ["1", "X", "Y", "X*Y", "X**2"], ["0", "1", "1.5", "1.2", "0.8"], ["rho", "c*rho", "0", "0.1*rho", "0.5*rho"], ["rho"])], params=P),
        ]
    b3 = {0: lab("bb", NO), 1: lab("abb", st), 2: lab("bouzidi", sp), 3: lab("neumanny", NO), 4: lab("bouzidi_anti", NO), 5: lab("bouzidi", NO), 6: lab("abb", ("const", False, None))}
    return [
        L.desc(3, [4, 5, 4], [L.sch((8, 11, 17, 19, 26, 24), ["1", "X", "Y", "Z", "X*Y", "X*Z"], ["0", "1.2", "1.5", "0.7", "1", "0.9"], ["rho", "c*rho", "0.2*rho", "0", "0.1*rho", "-0.1*rho"], ["rho"])], params=P),
        L.desc(3, [5, 4, 4], [L.d3q7()], params=P, label=[0, 1, 2, 3, 0, 4], elems=[el("sphere", [[0.7, 0.1, 1.5], 0.4], 5)], bc={**b3, 2: lab("abb", sp), 5: lab("bb", NO)}),
        L.desc(3, [4, 4, 5], [L.d3q7()], params=P, label=[-1, -1, 0, 1, -1, -1], bc=b3),
        L.desc(3, [4, 5, 4], [L.d3q7()], params=P, label=[0, 1, 2, 0, 1, 4], elems=[el("box3", [[0.3, -0.3, 1.2], [0.4, 0.0, 0.0], [0.0, 0.6, 0.0], [0.0, 0.0, 0.4]], [5, 6, 5, 6, 5, 6])], bc=b3, sorder=[3, 1, 0, 2]),
        L.desc(3, [4, 5, 4], [L.wide((1, 2, 1))], params=P, label=[-1, -1, -1, -1, 0, 1], bc={0: lab("bb", NO), 1: lab("abb", sp)}),
        L.desc(3, [4, 4, 4], [L.d3q6()], params=P, relvel=["0.1*rho", "0", "-0.2"]),
    ]


def grids(dim, nmax):
    for g in itertools.product(range(1, nmax + 1), repeat=dim):
        n = int(np.prod(g))
        if n <= nmax:
            yield list(g)


def cases(tier):
    th = tier == "thorough"
    lst = []
    for dim, nmax in ((1, 4), (2, 4), (3, 2)) if not th else ((1, 8), (2, 8), (3, 8)):
        for g in grids(dim, nmax):
            if max(g) > 1:
                lst.append({"dim": dim, "grid": g, "explicit": True})
        for n in range(2, nmax + 1) if th else (nmax,):
            lst.append({"dim": dim, "np": n, "explicit": False})
    if not th:
        lst += [{"dim": 2, "grid": g, "explicit": True} for g in ([2, 3], [3, 2])]
        lst += [{"dim": 3, "grid": g, "explicit": True} for g in ([1, 2, 2], [2, 1, 2], [2, 2, 1], [2, 2, 2])]
    lst.sort(key=lambda c: -int(np.prod(c.get("grid", [c.get("np", 1)]))) * 2 ** c["dim"])
    yield {"dim": 2, "grid": [2, 2], "explicit": True, "gen": "cython"}
    yield from lst


def init(d):
    import sympy as sp

    out = {}
    for i, c in enumerate(c for s in d["schemes"] for c in s["consm"]):
        def fn(*x, i=i):
            return 0.8 + 0.1 * i + 0.1 * np.cos(sum((3.1 + 2 * j + i) * v for j, v in enumerate(x)))
        out[sp.Symbol(c)] = fn
    return out


def jobs(case):
    gen = case.get("gen", "numpy")
    D = descs(case["dim"])
    if gen == "cython":
        D = [D[2]]
    out = []
    for i, d in enumerate(D):
        if "bc" in d:
            used = set(d["label"]) | {l for e in d.get("elems", []) for l in (e["label"] if isinstance(e["label"], list) else [e["label"]])}
            d["bc"] = {k: v for k, v in d["bc"].items() if k in used}
        out.append({"id": "j%d" % i, "desc": d, "gen": gen, "sorder": d.get("sorder"), "steps": 4})
    return out


_SERIAL = {}


def launch(jbs, n, grid, outdir, timeout, module="mc.mpi_driver"):
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, "jobs.json")
    with open(path, "w") as f:
        json.dump(jbs, f)
    cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-np", str(n), sys.executable, "-m", module, path, outdir]
    for name, g in zip(("-npx", "-npy", "-npz"), grid or []):
        cmd += [name, str(g)]
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PMIX", "OMPI_COMM", "ORTE_", "PMI_"))}
    env["PYTHONPATH"] = ROOT
    env["TMPDIR"] = outdir
    p = subprocess.Popen(cmd, cwd=outdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    try:
        log, _ = p.communicate(timeout=timeout)
        return p.returncode, log.decode(errors="replace")
    except subprocess.TimeoutExpired:
        kill_tree(p.pid)
        p.wait()
        return None, ""


def load(outdir, job, n):
    out = []
    for r in range(n):
        err = os.path.join(outdir, "%s.%d.err" % (job["id"], r))
        if os.path.exists(err):
            return "rank %d: %s" % (r, open(err).read())
    for r in range(n):
        try:
            z = np.load(os.path.join(outdir, "%s.%d.npz" % (job["id"], r)))
            z = dict(z, **json.load(open(os.path.join(outdir, "%s.%d.json" % (job["id"], r)))))
        except (OSError, ValueError):
            return None
        out.append(z)
    return out


def explore(logs, rounds=2):
    """every order of the messages recorded, `rounds` exchanges; returns (error, states, transitions)

    A rank posts its requests up to the next wait, and passes it when each of its requests
    is matched: the k-th receive from (s, tag) with the k-th send of s to this rank with that tag.
    Sends are synchronous.
    """
    n = len(logs)
    prog = []
    for log in logs:
        if log is None or any(op[0] == "other" for op in log) or (log and log[-1][0] != "wait"):
            return "unknown", 0, 0
        blocks = [[]]
        for op in log * rounds:
            if op[0] == "wait":
                blocks.append([])
            else:
                blocks[-1].append(op)
        prog.append([b for b in blocks if b])
    # request k of (kind, me, peer, tag): block in which it is posted
    send, recv = {}, {}
    for r in range(n):
        for b, block in enumerate(prog[r]):
            for i, (kind, peer, tag, size) in enumerate(block):
                if kind == "Isend":
                    send.setdefault((r, peer, tag), []).append((b, i, size))
                else:
                    recv.setdefault((peer, r, tag), []).append((b, i, size))
    partner = {}
    for key in set(send) | set(recv):
        s, v = send.get(key, []), recv.get(key, [])
        if len(s) != len(v):
            return "messages %s: %d sent, %d received" % (key, len(s), len(v)), 0, 0
        for (bs, i_, zs), (bv, j_, zv) in zip(s, v):
            if zs != zv:
                return "message %s: sizes %d and %d" % (key, zs, zv), 0, 0
            if bs != bv:
                return "message %s sent in exchange %d is received in exchange %d" % (key, bs, bv), 0, 0
            partner[("S", key[0], bs, i_)] = (key[1], bv)
            partner[("R", key[1], bv, j_)] = (key[0], bs)
    # state: number of blocks posted per rank
    need = []
    for r in range(n):
        need.append([sorted({partner[("S" if k == "Isend" else "R", r, b, i)] for i, (k, *_x) in enumerate(block)}) for b, block in enumerate(prog[r])])
    start = (0,) * n
    seen, todo, trans = {start}, [start], 0
    end = tuple(len(p) for p in prog)
    while todo:
        st = todo.pop()
        moved = False
        for r in range(n):
            b = st[r]
            if b == len(prog[r]):
                continue
            # the previous wait is passed if its partners have posted
            if b > 0 and any(st[p] <= q for p, q in need[r][b - 1]):
                continue
            moved = True
            trans += 1
            new = st[:r] + (b + 1,) + st[r + 1:]
            if new not in seen:
                seen.add(new)
                todo.append(new)
                if len(seen) > 400000:
                    raise HarnessError("too many states")
        if not moved and st != end:
            return "deadlock of the halo exchange: exchanges posted by the ranks %s of %s" % (st, end), len(seen), trans
    return None, len(seen), trans


def run_case(case, ctx):
    n = int(np.prod(case["grid"])) if "grid" in case else case["np"]
    jbs = jobs(case)
    ctx.sample(case)
    top = tempfile.mkdtemp(prefix="p01", dir=os.getcwd())
    try:
        key = (case["dim"], case.get("gen", "numpy"))
        if key not in _SERIAL:
            ref = os.path.join(top, "ref")
            rc, log = launch(jbs, 1, None, ref, 300)
            _SERIAL[key] = [load(ref, j, 1) for j in jbs]
            for j, z in zip(jbs, _SERIAL[key]):
                if z is None and not any(isinstance(y, str) for y in _SERIAL[key]):
                    raise HarnessError("serial run failed: %s" % log[-800:])
        out = os.path.join(top, "out")
        rc, log = launch(jbs, n, case.get("grid"), out, 200)
        for j, ref in zip(jbs, _SERIAL[key]):
            if isinstance(ref, str):
                ctx.fail("description %s on one process: %s" % (j["id"], ref))
                return
            got = load(out, j, n)
            if isinstance(got, str):
                ctx.fail("description %s: %s" % (j["id"], got))
                return
            if got is None:
                ctx.fail("description %s: the run on %d processes %s: %s" % (j["id"], n, "hangs" if rc is None else "ended with status %s" % rc, log[-300:]))
                return
            compare(case, normalise(j["desc"]), ref[0], got, ctx)
        if rc != 0:
            ctx.fail("mpirun ended with status %s: %s" % (rc, log[-300:]))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def compare(case, d, ref, got, ctx):
    dim, n = d["dim"], d["n"]
    what = "%dD %s" % (dim, json.dumps({k: d[k] for k in ("n", "label", "elems") if k in d})[:200])
    owner = np.full(n, -1)
    names = ("F", "m", "in_or_out", "distance", "flag")
    whole = {k: np.full(ref[k].shape, np.nan) for k in names}
    for r, z in enumerate(got):
        idx = []
        for j in range(dim):
            x = (z["x%d" % j] - d["lo"][j]) / d["dx"] - 0.5
            i = np.rint(x).astype(int)
            if not ctx.check(i.size > 0 and np.allclose(x, i, atol=1e-6) and i[0] >= 0 and i[-1] < n[j], lambda: "%s: coordinates of rank %d: %s" % (what, r, z["x%d" % j])):
                return
            idx.append(i)
        ix = np.ix_(*idx)
        if not ctx.check(np.all(owner[ix] == -1), lambda: "%s: rank %d overlaps another one" % (what, r)):
            return
        owner[ix] = r
        for k in names:
            whole[k][(Ellipsis,) + ix] = z[k]
    if not ctx.check(np.all(owner >= 0), lambda: "%s: cells owned by no process" % what):
        return
    if "grid" in case:
        sizes = [len(set(owner[tuple(slice(None) if i == j else 0 for i in range(dim))])) for j in range(dim)]
        ctx.check(sizes == case["grid"], lambda: "%s: grid of processes %s" % (what, sizes))
    ctx.check(np.array_equal(whole["in_or_out"], ref["in_or_out"]), "%s: cells in the fluid" % what)
    fluid = ref["in_or_out"] == 999
    none = lambda z: np.isin(z["flag"], (-1, -2, 999)) | ~fluid
    diff = (none(whole) != none(ref)) | (~none(ref) & ((whole["flag"] != ref["flag"]) | (np.abs(whole["distance"] - ref["distance"]) > 1e-9)))
    if diff.any():
        k = tuple(np.argwhere(diff)[0])
        ctx.fail("%s grid %s: link %s: label and distance %s %s, on one process %s %s" % (what, case.get("grid"), [int(i) for i in k], whole["flag"][k], whole["distance"][k], ref["flag"][k], ref["distance"][k]))
    for it in range(len(ref["F"])):
        a, b = np.where(fluid, whole["F"][it], 0), np.where(fluid, ref["F"][it], 0)
        ctx.state(b)
        ctx.step()
        ctx.outcome(a)
        if not ctx.check(close(a, b, 1e-10), lambda: "%s grid %s: distributions after %d steps differ at (velocity, cell) %s" % (what, case.get("grid"), it, np.argwhere(np.abs(a - b) > 1e-10)[:3].tolist())):
            return
    a, b = np.where(fluid, whole["m"], 0), np.where(fluid, ref["m"], 0)
    ctx.check(close(a, b, 1e-10), "%s: conserved moments" % what)
    err, states, trans = explore([z["log"] for z in got])
    if err != "unknown":
        ctx.check(err is None, lambda: "%s grid %s: %s" % (what, case.get("grid"), err))
        ctx.state("messages", states, trans, case)
        ctx.step(trans)
    ctx.trace()
