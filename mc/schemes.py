"""Family of scheme descriptions used by several checks (plain data)."""
import itertools


def sch(vel, poly, s, eq, consm, **kw):
    return dict(vel=list(vel), poly=list(poly), s=[str(x) for x in s], eq=list(eq), consm=list(consm), **kw)


def d1q2(s="1.5", eq="c*rho", vel=(1, 2), u="rho"):
    return sch(vel, ["1", "X"], ["0", s], [u, eq], [u])


def d1q3(s=("1.5",), eq="rho*q/2 + q**2", vel=(0, 1, 2)):
    return sch(vel, ["1", "X", "X**2"], ["0", "0", s[0]], ["rho", "q", eq], ["rho", "q"])


def d1q3s(s=("1.2", "1.7"), eq=("c*rho", "0.4*rho"), vel=(0, 1, 2), u="rho"):
    return sch(vel, ["1", "X", "X**2"], ["0", *s], [u, *[e.replace("rho", u) for e in eq]], [u])


def d1q5(s=("1.2", "1.7", "0.9"), eq=("0.5*rho + 0.3*q", "0.7*q", "0.2*rho"), vel=(0, 1, 2, 3, 4)):
    return sch(vel, ["1", "X", "X**2", "X**3", "X**4"], ["0", "0", *s], ["rho", "q", *eq], ["rho", "q"])


def d2q4(s=("1.5", "0.7", "1.1"), eq=("c*rho", "0.2*rho", "0"), vel=(1, 2, 3, 4)):
    return sch(vel, ["1", "X", "Y", "X**2 - Y**2"], ["0", *s], ["rho", *eq], ["rho"])


def d2q5(s=("1.5", "0.7", "1.1", "1.9"), eq=("c*rho", "0.2*rho", "0.3*rho", "0"), vel=(0, 1, 2, 3, 4), u="rho"):
    return sch(vel, ["1", "X", "Y", "X**2 + Y**2", "X**2 - Y**2"], ["0", *s], [u, *[e.replace("rho", u) for e in eq]], [u])


def d2q9(s=("1.1", "1.2", "1.3", "1.4", "1.5", "1.6"), nonlinear=True, vel=range(9)):
    nl = "+ (qx**2 + qy**2)" if nonlinear else ""
    xx = "qx**2 - qy**2" if nonlinear else "0.1*qx - 0.2*qy"
    xy = "qx*qy" if nonlinear else "0.3*qy"
    return sch(
        vel,
        ["1", "X", "Y", "X**2 + Y**2", "X**2 - Y**2", "X*Y", "X**2*Y", "X*Y**2", "X**2*Y**2"],
        ["0", "0", "0", *s],
        ["rho", "qx", "qy", "2*rho/3 " + nl, xx, xy, "qy/3", "qx/3", "rho/9"],
        ["rho", "qx", "qy"],
    )


def d3q6(s=("1.5", "0.7", "1.1", "1.9", "0.6"), vel=(1, 2, 3, 4, 5, 6)):
    return sch(
        vel,
        ["1", "X", "Y", "Z", "X**2 - Y**2", "X**2 - Z**2"],
        ["0", *s],
        ["rho", "c*rho", "0.2*rho", "-0.1*rho", "0", "0.05*rho"],
        ["rho"],
    )


def d3q7(s=("1.5", "0.7", "1.1", "1.9", "0.6", "1.3"), vel=range(7)):
    return sch(
        vel,
        ["1", "X", "Y", "Z", "X**2 + Y**2 + Z**2", "X**2 - Y**2", "X**2 - Z**2"],
        ["0", *s],
        ["rho", "c*rho", "0.2*rho", "-0.1*rho", "0.5*rho", "0", "0.05*rho"],
        ["rho"],
    )


def d3q19(nonlinear=False):
    mono = [
        "1", "X", "Y", "Z", "X**2", "Y**2", "Z**2", "X*Y", "Y*Z", "Z*X",
        "X**2*Y", "X**2*Z", "Y**2*X", "Y**2*Z", "Z**2*X", "Z**2*Y", "X**2*Y**2", "Y**2*Z**2", "Z**2*X**2",
    ]
    eq = [
        "rho", "qx", "qy", "qz", "rho/3 + 0.1*qx", "rho/3", "rho/3 - 0.2*qz", "0.1*qx", "0.2*qy", "0.1*rho",
        "qy/3", "qz/3", "qx/3", "qz/3", "qx/3", "qy/3", "rho/9", "rho/9", "rho/9",
    ]
    if nonlinear:
        eq[7], eq[8], eq[9] = "qx*qy", "qy*qz", "qz*qx"
    s = ["0"] * 4 + ["1.1", "1.2", "1.3", "1.4", "1.5", "1.6", "0.9", "0.8", "0.7", "1.7", "1.8", "1.9", "1.0", "0.5", "0.6"]
    return sch(range(19), mono, s, eq, ["rho", "qx", "qy", "qz"])


def numbers(dim, vectors):
    from .ref import velocity

    out, k = {}, 0
    while len(out) < len(vectors):
        v = tuple(velocity(dim, k))[:dim]
        if v in vectors:
            out[v] = k
        k += 1
    return [out[v] for v in vectors]


def wide(reach, u="rho"):
    """velocities along the axes, which do not reach as far in every direction"""
    dim = len(reach)
    vec, poly = [(0,) * dim], ["1"]
    for d, r in enumerate(reach):
        for k in range(1, r + 1):
            vec += [tuple(s * k if i == d else 0 for i in range(dim)) for s in (1, -1)]
        poly += ["%s**%d" % ("XYZ"[d], k) for k in range(1, 2 * r + 1)]
    n = len(vec) - 1
    rates = ["1.2", "0.9", "1.5", "0.7", "1.1", "1.7", "1", "1.3", "0.8", "1.4", "0.6", "1.6", "0.5"]
    eqs = ["0.2*" + u, "0.3*" + u, "-0.1*" + u, "0.4*" + u, "0", "0.1*" + u]
    return sch(numbers(dim, vec), poly, ["0"] + rates[:n], [u] + [eqs[i % 6] for i in range(n)], [u])


def desc(dim, n, schemes, dx=0.25, la=1.0, lo=None, params=None, **kw):
    d = dict(dim=dim, n=list(n), dx=dx, la=la, lo=lo or [0.0, -0.5, 1.0][:dim], schemes=schemes,
             params=dict(params if params is not None else {"c": 0.35}))
    d.update(kw)
    return d


def algorithms(descs, stride=3):
    """the descriptions, some of them also with the other algorithm or split loops, another scheme velocity and another storage order"""
    import itertools

    for i, d in enumerate(descs):
        yield d
        if "algo" in d or "gap" in d:
            continue
        perms = list(itertools.permutations(range(d["dim"] + 1)))
        more = {"sorder": list(perms[(i // stride) % len(perms)]), "la": 2.0 if d["la"] == 1.0 else 1.0}
        if i % stride == 0:
            yield dict(d, algo="base", settings={"split": i % (2 * stride) == stride}, **more)
        if i % (2 * stride) == 1:
            yield dict(d, algo="pull", settings={"split": True}, **more)
