"""V02: every view of a stencil agrees with the list of velocities given"""
import itertools

from .v01 import table

RULE = "one case = one tuple of elementary velocity lists; model = plain python lists"
ASSUMPTIONS = ["no duplicate velocity inside one elementary scheme"]


def bounds(tier):
    return (
        "1D: all ordered lists over {0..4} (size<=4 quick, <=5 thorough), pairs of ordered lists, triples of sets; "
        "2D: all subsets of {0..8} and ordered triples; selected long velocities; 3D: symmetric closed families; all axes"
    )


def subsets(s, lo, hi):
    for k in range(lo, hi + 1):
        yield from itertools.combinations(s, k)


def configs(tier):
    th = tier == "thorough"
    # 1D, one scheme: every ordered list
    for k in range(1, (5 if th else 4) + 1):
        for p in itertools.permutations(range(5), k):
            yield 1, [p]
    # 1D two schemes: ordered lists over {0..3}
    ol = [p for k in (1, 2, 3) for p in itertools.permutations(range(4 if th else 3), k)]
    for a in ol:
        for b in ol:
            yield 1, [a, b]
    ss = list(subsets(range(5), 1, 5 if th else 3))
    for a in ss:
        for b in ss[:: 1 if th else 2]:
            yield 1, [a, b]
    tri = [(0, 1, 2), (1, 2), (0,), (2, 1, 0), (0, 3, 4), (4, 3, 2, 1), (7, 8, 0)]
    for t in itertools.product(tri, repeat=3):
        yield 1, list(t)
    # 2D: all subsets of the D2Q9 numbers
    for s in subsets(range(9), 1, 9):
        yield 2, [s]
    for p in itertools.permutations(range(9), 3):
        yield 2, [p]
    two = [
        (0, 1, 2, 3, 4), (1, 2, 3, 4), (4, 3, 2, 1), (0, 5, 6, 7, 8), (8, 6, 7, 5), tuple(range(9)),
        tuple(range(25)), tuple(range(24, -1, -1)), (9, 10, 11, 12, 0), (17, 21, 20, 24, 18, 22, 19, 23),
        (1, 3), (2, 4), (0,), (30, 32, 29, 31),
    ]
    for k in (1, 2) + ((3,) if th else ()):
        for t in itertools.product(two, repeat=k):
            yield 2, list(t)
    for t in itertools.product(two[:7], repeat=3):
        yield 2, list(t)
    three = [
        (0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1), tuple(range(19)), tuple(range(27)), (0,) + tuple(range(19, 27)),
        tuple(range(26, 18, -1)), (1, 2), (0,), (27, 28, 29, 30, 31, 32),
    ]
    for k in (1, 2) + ((3,) if th else ()):
        for t in itertools.product(three, repeat=k):
            yield 3, list(t)
    for i in range(0, 27):
        for j in range(0, 27):
            if i != j:
                yield 3, [(i, j)]


def cases(tier):
    blk = []
    seen = set()
    for dim, schemes in configs(tier):
        key = (dim, tuple(map(tuple, schemes)))
        if key in seen:
            continue
        seen.add(key)
        blk.append([dim, [list(s) for s in schemes]])
        if len(blk) == 50:
            yield {"configs": blk}
            blk = []
    if blk:
        yield {"configs": blk}


_N = {}


def tabs(dim):
    if dim not in _N:
        t = table(dim, 5 if dim < 3 else 3)
        _N[dim] = (t, {v: i for i, v in enumerate(t)})
    return _N[dim]


def run_case(case, ctx):
    for dim, schemes in case["configs"]:
        one(dim, schemes, ctx)


def one(dim, schemes, ctx):
    import numpy as np
    import pylbm

    tab, inv = tabs(dim)
    dico = {"dim": dim, "schemes": [{"velocities": list(s)} for s in schemes]}
    st = pylbm.Stencil(dico)
    ctx.state(dim, schemes)
    ctx.sample({"dim": dim, "schemes": schemes})
    ctx.trace()

    def eq(name, got, want):
        ctx.step()
        try:
            g = np.asarray(got).astype(int).tolist()
        except Exception:
            g = repr(got)
        w = np.asarray(want).astype(int).tolist()
        ctx.check(g == w, lambda: "dim %d schemes %s: %s = %s, expected %s" % (dim, schemes, name, g, w))

    uniq = sorted(set(n for s in schemes for n in s))
    eq("dim", st.dim, dim)
    eq("nstencils", st.nstencils, len(schemes))
    eq("len", len(st), len(schemes))
    eq("unum", st.unum, uniq)
    eq("unvtot", st.unvtot, len(uniq))
    eq("unique velocities", [v.v for v in st.unique_velocities], [list(tab[n]) for n in uniq])
    for d, name in enumerate(("uvx", "uvy", "uvz")[:dim]):
        eq(name, getattr(st, name), [tab[n][d] for n in uniq])
    ptr = [0]
    for s in schemes:
        ptr.append(ptr[-1] + len(s))
    eq("nv_ptr", st.nv_ptr, ptr)
    eq("nv", st.nv, [len(s) for s in schemes])
    for k, s in enumerate(schemes):
        eq("num[%d]" % k, st.num[k], s)
        eq("[%d].num" % k, st[k].num, s)
        eq("[%d].nv" % k, st[k].nv, len(s))
        for d, name in enumerate(("vx", "vy", "vz")[:dim]):
            eq("%s[%d]" % (name, k), getattr(st, name)[k], [tab[n][d] for n in s])
            eq("[%d].%s" % (k, name), getattr(st[k], name), [tab[n][d] for n in s])
        eq("v[%d]" % k, [v.v for v in st.v[k]], [list(tab[n]) for n in s])
        eq("get_all_velocities(%d)" % k, st.get_all_velocities(k), [list(tab[n]) for n in s])
    allv = [list(tab[n]) for s in schemes for n in s]
    eq("get_all_velocities()", st.get_all_velocities(), allv)
    eq("num2index", st.num2index, [n for s in schemes for n in s])
    eq("unum2index", [st.unum2index[n] for n in uniq], range(len(uniq)))
    eq("vmax", st.vmax, [max(abs(tab[n][d]) for n in uniq) for d in range(dim)])
    # extreme velocities enclose what the halo must hold
    eq("vmin", st.vmin, [min(tab[n][d] for n in uniq) for d in range(dim)])
    full = [int(x) for x in st.vmax_full]
    ctx.check(full == [int(x) for x in st.vmax] + [0] * (3 - dim), "vmax_full %s" % full)
    # symmetry
    alls = True
    for k, s in enumerate(schemes):
        for n in s:
            if inv[tuple(-c for c in tab[n])] not in s:
                alls = False
    ctx.step()
    got = st.is_symmetric()
    ctx.check(bool(got) == alls, lambda: "schemes %s: is_symmetric() = %s, expected %s" % (schemes, got, alls))
    for axis in [None] + list(range(dim)):
        want = []
        ok = True
        for k, s in enumerate(schemes):
            for n in s:
                m = inv[tuple(-c if (axis is None or i != axis) else c for i, c in enumerate(tab[n]))]
                if m in s:
                    want.append(ptr[k] + list(s).index(m))
                else:
                    ok = False
        if ok:
            eq("get_symmetric(%s)" % axis, st.get_symmetric(axis), want)
            ctx.outcome("sym", want)
        else:
            ctx.step()
            try:
                r = st.get_symmetric(axis)
            except ValueError:
                r = None
            ctx.check(r is None, lambda: "schemes %s: get_symmetric(%s) answers %s for a set without its mirror" % (schemes, axis, r))

