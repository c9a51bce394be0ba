"""Runs monitored programs in a process where the option --monitoring is on or off.

usage: python -m mc.monitor_driver JOB OUT [--monitoring]
"""
import contextlib
import io
import itertools
import json
import os
import sys
import time
import traceback

CLOCK = [0.0]


def forests(n):
    """all ordered forests of n nodes, as nested tuples"""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for sons in forests(k):
            for rest in forests(n - 1 - k):
                yield ((sons,) + rest)


def label(forest, labels, count):
    """attach an identity and a label (operation, raises, caught) to each node"""
    out = []
    for sons in forest:
        i = count[0]
        count[0] += 1
        out.append((i, labels[i], label(sons, labels, count)))
    return out


class Boom(Exception):
    pass


def report(mon):
    """rows of the report: {(module, function): (ncall, total, self, percent, mlups)}"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        mon.Monitor.print()
    return parse(buf.getvalue())


def parse(text):
    rows, order = {}, []
    for line in text.splitlines():
        w = line.split()
        if len(w) != 7 or w[0] == "%":
            continue
        try:
            vals = (int(w[3]), float(w[4]), float(w[5]), float(w[0]), float(w[6]))
        except ValueError:
            continue
        rows.setdefault((w[1], w[2]), []).append(vals)
        order.append(vals[1])
    return rows, order


def weigh(obj, seen=None):
    """number of objects kept by the monitor"""
    seen = set() if seen is None else seen
    if id(obj) in seen or isinstance(obj, (str, int, float, type(None), type)) or callable(obj):
        return 0
    seen.add(id(obj))
    n = 1
    if isinstance(obj, dict):
        return n + sum(weigh(k, seen) + weigh(v, seen) for k, v in obj.items())
    if isinstance(obj, (list, tuple, set)):
        return n + len(obj) + sum(weigh(v, seen) for v in obj)
    if hasattr(obj, "__dict__"):
        return n + weigh(vars(obj), seen)
    return n


def fake_clock():
    import mpi4py.MPI as mpi

    read = lambda *a: CLOCK[0]
    mpi.Wtime = read
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, n, read)
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns"):
        setattr(time, n, lambda *a: int(CLOCK[0] * 1e9))


# ---------------------------------------------------------------------------
# programs: forests of calls
# ---------------------------------------------------------------------------
def operations(mon):
    def body(node, extra):
        i, (op, raises, _), sons = node
        CLOCK[0] += 3 + 7 * i
        for s in sons:
            run(s)
            CLOCK[0] += 1 + i
        if raises:
            raise Boom(i)
        return ("result", i, extra)

    class K:
        @mon.monitor
        def opm(self, node, extra=None):
            return body(node, extra)

    @mon.monitor
    def opf(node, extra=None):
        return body(node, extra)

    @mon.monitor
    def opk(*, node, extra):
        return body(node, extra)

    k = K()
    ops = [lambda n: opf(n, n[0]), lambda n: k.opm(n, extra=n[0]), lambda n: opk(node=n, extra=n[0])]
    names = [opf.__qualname__, K.opm.__qualname__, opk.__qualname__]
    errors = []

    def run(node):
        """calls a node; exceptions of nodes marked as caught stop here"""
        i, (op, raises, caught), sons = node
        try:
            r = ops[op](node)
            if r != ("result", i, i):
                errors.append("call %d returned %r" % (i, r))
        except Boom:
            if not caught:
                raise

    def top(node):
        try:
            run(node)
        except Boom:
            pass

    return top, names, errors


def reference(forest):
    """calls, total and self times of each operation"""
    acc = {}
    clock = [0.0]

    def go(node):
        """True when the call lets an exception out; returns (raised, duration)"""
        i, (op, raises, caught), sons = node
        t0, inner = clock[0], 0.0
        clock[0] += 3 + 7 * i
        out = False
        for s in sons:
            r, d = go(s)
            inner += d
            if r:
                out = True
                break
            clock[0] += 1 + i
        out = out or bool(raises)
        d = clock[0] - t0
        n, t, s_ = acc.get(op, (0, 0.0, 0.0))
        acc[op] = (n + 1, t + d, s_ + d - inner)
        return out and not caught, d

    for node in forest:
        go(node)
    return acc


def programs(job, mon, on):
    top, names, errors = operations(mon)
    module = __name__
    res = dict(states=0, steps=0, traces=0, bad=[], outcomes=set())

    def bad(msg):
        if len(res["bad"]) < 20:
            res["bad"].append(msg)

    shapes = list(forests(job["n"]))
    forest = shapes[job["shape"]]
    labels = [(o, r, c) for o in range(job["ops"]) for r in (0, 1) for c in (0, 1)]
    fresh = type(mon.Monitor)
    for labs in itertools.product(labels, repeat=job["n"]):
        mon.Monitor = fresh()
        mon.Monitor.set_size(3000000)
        weight = weigh(mon.Monitor)
        CLOCK[0] = 0.0
        errors.clear()
        prog = label(forest, labs, [0])
        for node in prog:
            top(node)
        res["steps"] += job["n"]
        res["states"] += 1
        res["traces"] += 1
        if errors:
            bad("program %s: %s" % (prog, errors[0]))
        want = {} if not on else {(module, names[o]): v for o, v in reference(prog).items()}
        rows, order = report(mon)
        res["outcomes"].add(tuple(sorted((k[1], v[0][0]) for k, v in rows.items())))
        if set(rows) != set(want):
            bad("program %s: report on %s, expected %s" % (prog, sorted(rows), sorted(want)))
            continue
        if not on:
            if weigh(mon.Monitor) != weight:
                bad("program %s: something is recorded while monitoring is off" % (prog,))
            continue
        most = max([v[1] for v in want.values()], default=0)
        for k, (n, t, s) in want.items():
            got = rows[k]
            exp = (n, t, s, 100 * t / most, n * 3.0 / t)
            if len(got) != 1 or got[0][0] != n or abs(got[0][1] - t) > 1e-6 or abs(got[0][2] - s) > 1e-6 or abs(got[0][3] - exp[3]) > 0.051 or abs(got[0][4] - exp[4]) > 0.0051:
                bad("program %s: %s reported (calls, total, self, percent, MLUPS) = %s, expected %s" % (prog, k[1], got, exp))
        if order != sorted(order, reverse=True):
            bad("program %s: report not in decreasing order: %s" % (prog, order))
    return res


# ---------------------------------------------------------------------------
# simulations
# ---------------------------------------------------------------------------
MUST = ["initialization", "f2m", "m2f", "equilibrium", "boundary_condition", "one_time_step"]


def histories(depth):
    acts = ["step", "f2m", "m2f", "read", "equilibrium", "boom"]
    for n in range(depth + 1):
        yield from itertools.product(acts, repeat=n)


def sims(job, mon, on):
    import numpy as np
    import sympy as sp

    import pylbm

    rho, X = sp.symbols("rho X")
    armed = [False]

    def value(f, m, t, x):
        if armed[0]:
            raise Boom("boundary")
        m[rho] = 1.0 + 0.1 * t + 0 * x

    def ini(x):
        if armed[0]:
            raise Boom("initial")
        return 1 + 0.1 * np.sin(6 * x)

    def build(k):
        return pylbm.Simulation(
            {"box": {"x": [0, 1], "label": 0}, "space_step": 1 / (4 + 4 * k), "scheme_velocity": 1.0, "generator": job["generator"],
             "schemes": [{"velocities": [1, 2], "polynomials": [1, X], "relaxation_parameters": [0, 1.5], "equilibrium": [rho, 0.3 * rho], "conserved_moments": rho}],
             "boundary_conditions": {0: {"method": {0: pylbm.bc.AntiBounceBack}, "value": value, "time_bc": True}}, "init": {rho: ini}},
            initialize=False)

    ROOT = os.path.dirname(os.path.abspath(pylbm.__file__)) + os.sep
    own = os.path.abspath(mon.__file__)
    log = []

    def hook(frame, event, arg):
        if event not in ("call", "return"):
            return
        mod = frame.f_globals.get("__name__", "")
        fn = os.path.abspath(frame.f_code.co_filename)
        if fn == own or not (fn.startswith(ROOT) or mod.startswith("wrapped")):
            return
        log.append((event, (mod, frame.f_code.co_qualname), CLOCK[0]))
        if event == "call":
            CLOCK[0] += 1.0

    res = dict(states=0, steps=0, traces=0, bad=[], outcomes=set(), results=[])
    sim_pool = [build(k) for k in range(job["sims"])]
    hists = list(histories(job["depth"]))
    for hist in hists:
        log.clear()
        armed[0] = False
        CLOCK[0] = 0.0
        mon.Monitor = type(mon.Monitor)()
        mon.Monitor.set_size(10)
        weight = weigh(mon.Monitor)
        S = sim_pool
        for s in S:
            s.t, s.nt, s._need_init = 0.0, 0, True
        out = []
        sys.setprofile(hook)
        try:
            for a in hist:
                for s in S:
                    try:
                        if a == "boom":
                            armed[0] = True
                            try:
                                s.one_time_step()
                            finally:
                                armed[0] = False
                        elif a == "step":
                            s.one_time_step()
                        elif a == "read":
                            s.m[rho].sum()
                        else:
                            if s._need_init:
                                s.initialization()
                                s._need_init = False
                            getattr(s, a)()
                    except Boom:
                        out.append("boom")
        finally:
            sys.setprofile(None)
        res["steps"] += len(hist) * len(S)
        res["states"] += 1
        res["traces"] += 1
        for s in S:
            out.append(s.container.F.array.tolist())
            out.append([s.t, s.nt])
        res["results"].append([list(hist), out])
        rows, _ = report(mon)
        if not on:
            if rows or weigh(mon.Monitor) > weight:
                res["bad"].append("history %s: something is recorded while monitoring is off: %s" % (hist, sorted(rows)))
            continue
        watch = set(rows)
        want, stack = {}, []
        for event, key, t in log:
            if event == "call":
                stack.append([key, t, 0.0])
            else:
                k, t0, inner = stack.pop()
                d = t - t0
                if k in watch or (k[0] == "pylbm.simulation" and k[1].split(".")[-1] in MUST):
                    n, tt, ss = want.get(k, (0, 0.0, 0.0))
                    want[k] = (n + 1, tt + d, ss + d - inner)
                    inner = d
                if stack:
                    stack[-1][2] += inner
        for k in sorted(set(want) | {r for r in rows if r[0].startswith("pylbm.")}):
            got, exp = rows.get(k), want.get(k)
            if got is None or exp is None or len(got) != 1 or got[0][0] != exp[0] or abs(got[0][1] - exp[1]) > 1e-6 or abs(got[0][2] - exp[2]) > 1e-6:
                res["bad"].append("%s history %s: %s reported (calls, total, self) = %s, happened %s" % (job["generator"], hist, ".".join(k), got, exp))
                if len(res["bad"]) > 20:
                    return res
        res["outcomes"].add(tuple(sorted((k[1], v[0]) for k, v in want.items())))
    return res


def main():
    job, outfile = json.load(open(sys.argv[1])), sys.argv[2]
    on = "--monitoring" in sys.argv
    from .engine import REPO

    sys.path.insert(0, REPO)
    try:
        import pylbm
        from pylbm import monitoring as mon

        fake_clock()
        res = {"programs": programs, "sims": sims}[job["kind"]](job, mon, on)
        res["outcomes"] = sorted(map(repr, res["outcomes"]))
    except BaseException:
        res = {"error": traceback.format_exc()}
    with open(outfile, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
