"""R02: a run can be split, deferred, resumed and performed phase by phase"""
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import schemes as L
from ..bref import BRef, normalise, to_bdico
from ..engine import HarnessError
from . import s06
from .p01 import init

RULE = "one case = one description, generator and setting: all compositions of the number of steps into parts, each part computed by a fresh simulation; or all words of fused steps and steps performed phase by phase; or all ways of reusing generated code; compared at every step with the plain run"
ASSUMPTIONS = [
    "cells which are not fluid are not compared",
    "with source terms the phases are those of the fused step: source_term before and after relaxation",
    "data which depend on time: the clock of the new simulation is set (sim.t, with or without sim.nt) to the time of the cut",
]
CASE_TIMEOUT = 600


def bounds(tier):
    th = tier == "thorough"
    return "23 descriptions in 1D/2D/3D (walls, obstacles, values, sources, relative velocity, several schemes); all compositions of %d steps (2D, 3D: %d); all words of %d steps fused or by phases; numpy with every setting, cython selected" % ((6, 5, 5) if th else (4, 3, 4))


def descs():
    D = {k: s06.trim(d) for k, d in s06.descs().items()}
    # the same with another scheme velocity and another storage order
    for i, (k, d) in enumerate(list(D.items())):
        if i % 3 == 1 and d["dim"] < 3:
            perms = list(itertools.permutations(range(d["dim"] + 1)))
            D[k + "o"] = dict(d, la=2.0 if d["la"] == 1.0 else 1.0, sorder=list(perms[(i // 3) % len(perms)]))
    # smaller than d2q9 where the velocity set does not matter
    return D


def autonomous(d):
    d = json.loads(json.dumps(d))
    for s in d["schemes"]:
        for k, e in (s.get("source") or {}).items():
            s["source"][k] = e.replace("+ t", "+ 0.3").replace("*t", "*0.3")
    for bc in d.get("bc", {}).values():
        if bc.get("time"):
            bc.pop("time")
            if bc.get("value") == "spacetime":
                bc["value"] = "space"
            elif bc.get("value") == "time":
                bc["value"] = "const"
    return d


def dico(d, gen, **kw):
    d = normalise(json.loads(json.dumps(d)))
    out = to_bdico(d, gen, **kw)
    out["init"] = init(d)
    return out


def algorithm(name, settings):
    import pylbm

    A = pylbm.algorithm.BaseAlgorithm if name == "base" else pylbm.algorithm.PullAlgorithm
    return {"lbm_algorithm": {"name": A, "settings": dict(settings)}}


def cases(tier):
    th = tier == "thorough"
    D = descs()
    cy = [("p1", "pull", {}), ("b1s", "pull", {}), ("b1s", "base", {"split": True}), ("p1r", "pull", {}), ("b2t", "pull", {})]
    if th:
        cy += [(n, a, s) for n in ("b1", "p2s", "b2", "p2r", "p3s", "b3") for a, s in (("pull", {}), ("base", {}), ("pull", {"split": True}), ("pull", {"m_local": False}))]
    for n, a, s in cy:
        yield dict(kind="generated", name=n, gen="cython", algo=a, settings=s, th=th)
    for n in D:
        for a, s in itertools.product(("pull", "base"), ({}, {"split": True})):
            if "r" not in n or not s:
                yield dict(kind="phases", name=n, gen="numpy", algo=a, settings=s, steps=5 if th else 4 if n[1] == "1" else 3)
        yield dict(kind="deferred", name=n, gen="numpy", algo="pull", settings={})
        yield dict(kind="generated", name=n, gen="numpy", algo="pull", settings={}, th=th)
        steps = (6 if th else 4) if n[1] == "1" else (5 if th else 3)
        cuts = [c for k in range(steps) for c in itertools.combinations(range(1, steps), k)]
        size = 4
        for a in range(0, len(cuts), size):
            c = dict(kind="split", name=n, gen="numpy", algo="pull", settings={}, steps=steps, cuts=[list(c) for c in cuts[a : a + size]])
            yield c
            if autonomous(D[n]) != json.loads(json.dumps(D[n])):
                yield dict(c, clock="both" if (a // size) % 2 else "time")


def state(S, nv):
    return np.array([np.array(S.F[k]) for k in range(nv)]), {str(k): np.array(S.m[k]) for k in S.scheme.consm}


def same(a, b, fluid, tol=1e-11):
    def eq(x, y):
        with np.errstate(all="ignore"):
            d = np.where(fluid, np.abs(x - y), 0)
            s = max(1.0, np.nanmax(np.abs(np.where(fluid, y, 0))))
            return not np.isnan(np.where(fluid, x, 0)).any() and d.max() <= tol * s

    if not all(eq(x, y) for x, y in zip(a[0], b[0])):
        return "distributions differ by %g" % max(float(np.nanmax(np.where(fluid, np.abs(x - y), 0))) for x, y in zip(a[0], b[0]))
    for k in b[1]:
        if not eq(a[1][k], b[1][k]):
            return "the moment %s differs by %g" % (k, float(np.nanmax(np.where(fluid, np.abs(a[1][k] - b[1][k]), 0))))
    return None


def fluid_of(S):
    v = [(h - i) // 2 for h, i in zip(S.domain.shape_halo, S.domain.shape_in)]
    a = S.domain.in_or_out[tuple(slice(x, x + n) for x, n in zip(v, S.domain.shape_in))]
    return a == S.domain.valin


def finite(x, fluid):
    with np.errstate(all="ignore"):
        return bool(np.nanmax(np.abs(np.where(fluid, x, 0))) < 1e3)


def phases(S, src):
    """the documented sequence"""
    S.boundary_condition()
    S.transport()
    S.f2m()
    if src:
        S.source_term(0.5)
    S.relaxation()
    if src:
        S.source_term(0.5)
    S.m2f()
    S.t += S.dt
    S.nt += 1


def plain(d, case, steps):
    """reference: one simulation, fused steps; states after 0, 1, .. steps"""
    import pylbm

    S = pylbm.Simulation(dico(d, case["gen"], **algorithm(case["algo"], case["settings"])), sorder=d.get("sorder"))
    nv = S.scheme.stencil.nv_ptr[-1]
    out = [state(S, nv)]
    for _ in range(steps):
        S.one_time_step()
        out.append(state(S, nv))
    return S, nv, out


def run_split(case, ctx):
    import pylbm

    clock = case.get("clock")  # the clock is set to the time of the cut, the data may depend on it
    d = descs()[case["name"]]
    if not clock:
        d = autonomous(d)
    dic = dico(d, case["gen"], **algorithm(case["algo"], case["settings"]))
    R, nv, ref = plain(d, case, case["steps"])
    fluid = fluid_of(R)
    for cuts in case["cuts"]:
        S = pylbm.Simulation(dic, sorder=d.get("sorder"))
        for it in range(1, case["steps"] + 1):
            if it - 1 in cuts:
                new = pylbm.Simulation(dic, sorder=d.get("sorder"))
                for k in range(nv):
                    new.F_halo[k] = np.array(S.F_halo[k])
                ctx.check(new.t == 0 and new.nt == 0, "the counters of a fresh simulation are %g, %d" % (new.t, new.nt))
                if clock:
                    new.t = S.t
                    if clock == "both":
                        new.nt = S.nt
                if it % 2:
                    e = same(state(new, nv), ref[it - 1], fluid)
                    ctx.check(not e, "cuts %s: after the copy at step %d: %s" % (cuts, it - 1, e))
                S = new
            S.one_time_step()
            ctx.step()
            got = state(S, nv)
            e = same(got, ref[it], fluid)
            if not ctx.check(not e, "run of %d steps cut at %s%s, step %d: %s" % (case["steps"], cuts, ", clock set" if clock else "", it, e)):
                return
            if clock and not ctx.check(abs(S.t - it * S.dt) < 1e-12 and (clock != "both" or S.nt == it), "run cut at %s, clock set: time %g and count %d after %d steps" % (cuts, S.t, S.nt, it)):
                return
            ctx.state(case["name"], cuts, it)
            ctx.outcome(np.where(fluid, got[0], 0))
        ctx.trace()


def run_phases(case, ctx):
    import pylbm

    d = descs()[case["name"]]
    dic = dico(d, case["gen"], **algorithm(case["algo"], case["settings"]))
    R, nv, ref = plain(d, case, case["steps"])
    fluid = fluid_of(R)
    S = pylbm.Simulation(dic, sorder=d.get("sorder"))
    start = [np.array(S.F_halo[k]) for k in range(nv)]
    for word in itertools.product("fp", repeat=case["steps"]):
        # back to the initial state
        S.t, S.nt = 0.0, 0
        for k in range(nv):
            S.F_halo[k] = start[k]
        for it, w in enumerate(word):
            if w == "f":
                S.one_time_step()
            else:
                phases(S, any(s.get("source") for s in d["schemes"]))
            ctx.step()
            got = state(S, nv)
            e = same(got, ref[it + 1], fluid)
            key = "phases-relative-velocity" if d.get("relvel") and "p" in word[: it + 1] else None
            if not ctx.check(not e, "steps %s (f: fused, p: phase by phase), step %d: %s" % ("".join(word), it + 1, e), key=key):
                if key:
                    break
                return
            ctx.check((S.nt, round(S.t / S.dt)) == (it + 1, it + 1), "steps %s: counters %d, %g after step %d" % ("".join(word), S.nt, S.t, it + 1))
            ctx.state(case["name"], case["algo"], case["settings"], word[: it + 1])
            ctx.outcome(np.where(fluid, got[0], 0))
        ctx.trace()


def run_deferred(case, ctx):
    """the initialisation is left to the first step"""
    import pylbm

    d = descs()[case["name"]]
    R, nv, ref = plain(d, case, 3)
    fluid = fluid_of(R)
    for how in ("deferred", "explicit", "again"):
        S = pylbm.Simulation(dico(d, case["gen"]), sorder=d.get("sorder"), initialize=how == "again")
        if how == "explicit":
            S.initialization()
            e = same(state(S, nv), ref[0], fluid)
            ctx.check(not e, "explicit initialisation: %s" % e)
        elif how == "again":
            S.initialization()
        for it in range(3):
            S.one_time_step()
            ctx.step()
            got = state(S, nv)
            e = same(got, ref[it + 1], fluid)
            if not ctx.check(not e, "%s initialisation, step %d: %s" % (how, it + 1, e)):
                return
            ctx.check(S.nt == it + 1, "%s initialisation: %d steps counted after %d" % (how, S.nt, it + 1))
            ctx.state(case["name"], how, it)
            ctx.outcome(np.where(fluid, got[0], 0))
        ctx.trace()
    # the clock is set before the first step
    for start in (1, 2):
        at_once, later = (pylbm.Simulation(dico(d, case["gen"]), sorder=d.get("sorder"), initialize=x) for x in (True, False))
        for S in (at_once, later):
            S.t, S.nt = start * S.dt, start
        for it in range(2):
            at_once.one_time_step()
            later.one_time_step()
            ctx.step()
            got = state(later, nv)
            e = same(got, state(at_once, nv), fluid)
            if not ctx.check(not e, "clock set to %g before a deferred initialisation, step %d: %s" % (start * S.dt, it + 1, e)):
                return
            ctx.check(later.nt == start + it + 1 and abs(later.t - later.nt * later.dt) < 1e-12, "clock set to %g before a deferred initialisation: %d steps, time %g after step %d" % (start * S.dt, later.nt, later.t, it + 1))
            ctx.outcome(np.where(fluid, got[0], 0))
        ctx.trace()


OTHER = """
import sys, pickle
sys.path[:0] = [%r, %r]
sys.argv = ["verif"]
import pylbm
from mc.checks import r02
desc = r02.descs()[%r]
d = r02.dico(desc, %r, codegen_option={"directory": %r, "generate": %r}, **r02.algorithm(%r, %r))
S = pylbm.Simulation(d, sorder=desc.get("sorder"))
nv = S.scheme.stencil.nv_ptr[-1]
out = [r02.state(S, nv)]
for i in range(3):
    S.one_time_step()
    out.append(r02.state(S, nv))
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(out))
"""


def run_generated(case, ctx):
    """code written in a directory by this process or another one, used by this one and another one"""
    import pylbm

    from ..engine import REPO, ROOT

    d = descs()[case["name"]]
    alg = algorithm(case["algo"], case["settings"])
    R, nv, ref = plain(d, case, 3)
    fluid = fluid_of(R)

    def compare(out, what):
        for it, got in enumerate(out):
            ctx.step()
            e = same(got, ref[it], fluid)
            if not ctx.check(not e, "%s, step %d: %s" % (what, it, e)):
                return
            ctx.state(case, what, it)
            ctx.outcome(np.where(fluid, got[0], 0))
        ctx.trace()

    def here(where, generate, relative=False):
        S = pylbm.Simulation(dico(d, case["gen"], codegen_option={"directory": where, "generate": generate}, **alg), sorder=d.get("sorder"))
        out = [state(S, nv)]
        for _ in range(3):
            S.one_time_step()
            out.append(state(S, nv))
        return out

    def there(where, generate):
        text = OTHER % (ROOT, REPO, case["name"], case["gen"], where, generate, case["algo"], case["settings"])
        with tempfile.TemporaryDirectory() as cwd:
            r = subprocess.run([sys.executable, "-c", text], capture_output=True, cwd=cwd)
        if b"RESULT" not in r.stdout:
            raise AssertionError("simulation in another process: " + r.stderr.decode()[-800:])
        return pickle.loads(r.stdout.split(b"RESULT", 1)[1])

    cython = case["gen"] == "cython"
    with tempfile.TemporaryDirectory() as tmp:
        w = os.path.join(tmp, "code")
        compare(here(w, True), "code written in a directory")
        files = {f: open(os.path.join(w, f), "rb").read() for f in os.listdir(w) if os.path.isfile(os.path.join(w, f))}
        compare(here(w, False), "code reused")
        compare(here(w, False), "code reused twice")
        small = case["name"][1] == "1"
        if small or case.get("th"):
            compare(there(w, False), "code reused by another process")
            if not cython or case.get("th"):
                w2 = os.path.join(tmp, "code2")
                compare(there(w2, True), "code written by another process")
                compare(here(w2, False), "code written by another process and reused")
        now = {f: open(os.path.join(w, f), "rb").read() for f in os.listdir(w) if os.path.isfile(os.path.join(w, f))}
        ctx.check(all(now.get(f) == t for f, t in files.items()), "reusing generated code changes its files")
        if not cython:
            compare(here(w, True), "code written again")


def run_case(case, ctx):
    ctx.sample(case)
    {"split": run_split, "phases": run_phases, "deferred": run_deferred, "generated": run_generated}[case["kind"]](case, ctx)
