"""V01: velocity numbering is a bijection with consistent symmetries"""
import itertools

TECHNIQUE = "exhaustive enumeration"
RULE = "one case = a block of consecutive numbers (all axes); model = spiral/shell tables written from the documentation"
ASSUMPTIONS = ["shell bounds in coverage.bounds", "reference spiral equals the published numbering figures"]
B = {"quick": (4000, 24, 3), "thorough": (40000, 90, 6)}


def bounds(tier):
    a, b, c = B[tier]
    return "1D |v|<=%d, 2D |v|<=%d, 3D |v|<=%d, all axes" % (a, b, c)


def ref1(n):
    return ((n + 1) // 2 * (1 if n % 2 else -1),)


def ref2_shell(n):
    """vectors of the shell |v|_inf = n in numbering order"""
    if n == 0:
        return [(0, 0)]
    out = [(n, 0), (0, n), (-n, 0), (0, -n), (n, n), (-n, n), (-n, -n), (n, -n)]
    for j in range(1, n):
        out += [(n, j), (j, n), (-j, n), (-n, j), (-n, -j), (-j, -n), (j, -n), (n, -j)]
    return out


def ref3_shell(n):
    """shell of the maximum norm: decreasing triple n >= i >= j, then distinct
    arrangements in lexicographic order, then signs + before -"""
    out = []
    for i in range(n + 1):
        for j in range(i + 1):
            for t in sorted(set(itertools.permutations((n, i, j)))):
                out += list(itertools.product(*[(c, -c) if c else (0,) for c in t]))
    return out


def table(dim, nmax):
    if dim == 1:
        return [ref1(n) for n in range(2 * nmax + 1)]
    out = []
    for n in range(nmax + 1):
        out += ref2_shell(n) if dim == 2 else ref3_shell(n)
    return out


_T = {}


def cases(tier):
    a, b, c = B[tier]
    for dim, nmax, blk in ((3, c, 8), (1, a, 1000), (2, b, 120)):
        size = (2 * nmax + 1) ** dim
        for lo in range(0, size, blk):
            yield {"dim": dim, "nmax": nmax, "lo": lo, "hi": min(size, lo + blk)}


def run_case(case, ctx):
    from pylbm.stencil import Velocity

    dim, nmax = case["dim"], case["nmax"]
    if (dim, nmax) not in _T:
        t = table(dim, nmax)
        assert len(set(t)) == len(t) == (2 * nmax + 1) ** dim
        _T[dim, nmax] = (t, {v: i for i, v in enumerate(t)})
    tab, inv = _T[dim, nmax]
    names = ("vx", "vy", "vz")[:dim]
    for num in range(case["lo"], case["hi"]):
        vec = tab[num]
        a = Velocity(dim=dim, num=num)
        b = Velocity(**dict(zip(names, vec)))
        c = Velocity(dim=dim, **dict(zip(names, vec)))
        ctx.step(3)
        ctx.state(dim, num)
        ctx.sample({"num": num, "v": vec})
        ctx.trace()
        for o, how in ((a, "from number"), (b, "from components"), (c, "from dim+components")):
            ctx.check(
                tuple(o.v) == vec and o.num == num and o.dim == dim,
                "dim %d: velocity %s is (%s: %s), expected (%d: %s)" % (dim, how, o.num, o.v, num, vec),
            )
            ctx.check(
                tuple(o.v_full) == vec + (0,) * (3 - dim),
                "dim %d num %d v_full %s" % (dim, num, o.v_full),
            )
            for axis in [None] + list(range(dim)):
                s = o.get_symmetric(axis)
                want = tuple(-x if (axis is None or i != axis) else x for i, x in enumerate(vec))
                ctx.step()
                ctx.check(
                    tuple(s.v) == want and s.num == inv[want] and s.dim == dim,
                    "dim %d: symmetric of %s about %s is (%s: %s), expected (%d: %s)"
                    % (dim, vec, axis, s.num, s.v, inv[want], want),
                )
            ctx.check(tuple(o.v) == vec and o.num == num, "get_symmetric modified its velocity")
