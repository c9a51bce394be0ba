"""M01: monitoring accounts every call once"""
import json
import os
import subprocess
import sys
import tempfile

from ..engine import REPO, HarnessError
from ..monitor_driver import forests, parse

RULE = "one case = one shape of call tree: all assignments of operations, exceptions and handlers to its calls; or all histories of real simulations on one generator; or one whole program with its report at exit"
ASSUMPTIONS = [
    "the clock is replaced by a counter that the program drives, so that every duration is known exactly",
    "the total time of an operation is the sum of the durations of its calls (recursive calls included), its self time this sum less the durations of the monitored calls made by them",
]
CASE_TIMEOUT = 600


def bounds(tier):
    return "call trees of at most %s calls of 3 operations (function, method, keyword arguments), each raising or not, each exception caught by the caller or not; histories of depth %d of 6 actions on 2 simulations; monitoring on and off" % (("5 (4 with 3 operations)", 4) if tier == "thorough" else ("4 (3 with 3 operations)", 3))


def cases(tier):
    th = tier == "thorough"
    lst = []
    for n in range(1, 5):
        for i in range(len(list(forests(n)))):
            for on in (1, 0):
                if on or n < 4 or th:
                    lst.append(dict(kind="programs", n=n, shape=i, ops=3 if th or n < 4 else 2, on=on))
    if th:
        for i in range(len(list(forests(5)))):
            lst.append(dict(kind="programs", n=5, shape=i, ops=2, on=1))
    lst.sort(key=lambda c: -(c["ops"] * 4) ** c["n"])
    yield dict(kind="sims", generator="cython", sims=2, depth=4 if th else 3)
    yield dict(kind="sims", generator="numpy", sims=2, depth=4 if th else 3)
    yield from lst
    for p in SCRIPTS:
        for gen in ("numpy",):
            yield dict(kind="script", script=p, generator=gen)


def drive(job, on, ctx):
    with tempfile.TemporaryDirectory() as tmp:
        json.dump(job, open(os.path.join(tmp, "job.json"), "w"))
        out = os.path.join(tmp, "out.json")
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        r = subprocess.run([sys.executable, "-m", "mc.monitor_driver", os.path.join(tmp, "job.json"), out] + (["--monitoring"] if on else []), cwd=tmp, env=env, capture_output=True, text=True)
        if not os.path.exists(out):
            raise HarnessError("monitor driver: " + r.stdout[-500:] + r.stderr[-2000:])
        res = json.load(open(out))
    if "error" in res:
        ctx.fail("the program fails with monitoring %s: %s" % ("on" if on else "off", res["error"][-1500:]))
        return None
    ctx.step(res["steps"])
    ctx.trace(res["traces"])
    for i in range(res["states"]):
        ctx.state(json.dumps(job, sort_keys=True), on, i)
    for o in res["outcomes"]:
        ctx.outcome(o)
    for b in res["bad"]:
        ctx.fail("monitoring %s: %s" % ("on" if on else "off", b))
    return res


HEAD = """
import sys
sys.path.insert(0, %r)
import pylbm, sympy as sp
rho, X = sp.symbols("rho X")
def build(gen, f=lambda x: 1 + x):
    return pylbm.Simulation({"box": {"x": [0, 1], "label": -1}, "space_step": 0.25, "scheme_velocity": 1.0, "generator": gen, "init": {rho: f},
        "schemes": [{"velocities": [1, 2], "polynomials": [1, X], "relaxation_parameters": [0, 1.5], "equilibrium": [rho, 0.3*rho], "conserved_moments": rho}]})
def fail(x):
    raise ValueError("x")
"""
# program, expected numbers of calls of the operations of the class Simulation
SCRIPTS = {
    "nothing": ("", {}),
    "three steps": ("s = build(GEN)\nfor i in range(3): s.one_time_step()\nprint('sum', s.m[rho].tolist())", {"one_time_step": 3, "initialization": 1, "boundary_condition": 3}),
    "two simulations": ("a, b = build(GEN), build(GEN)\nfor i in range(2): a.one_time_step(); b.one_time_step()\na.one_time_step()\na.f2m(); b.m2f()", {"one_time_step": 5, "initialization": 2, "boundary_condition": 5}),
    "failing initialisation": ("for f in (fail, fail, lambda x: 1.0):\n    try:\n        s = build(GEN, f)\n    except ValueError: pass\nfor i in range(4): s.one_time_step()", {"one_time_step": 4, "initialization": 3, "boundary_condition": 4}),
    "uncaught exception": ("s = build(GEN)\ns.one_time_step()\nbuild(GEN, fail)", {"one_time_step": 1, "initialization": 2, "boundary_condition": 1}),
    "exit": ("s = build(GEN)\ns.one_time_step()\nsys.exit(0)", {"one_time_step": 1, "initialization": 1, "boundary_condition": 1}),
}


def script(case, ctx):
    text, calls = SCRIPTS[case["script"]]
    outs = {}
    for on in (True, False):
        with tempfile.TemporaryDirectory() as tmp:
            with open(os.path.join(tmp, "prog.py"), "w") as f:
                f.write(HEAD % REPO + text.replace("GEN", repr(case["generator"])))
            r = subprocess.run([sys.executable, "prog.py"] + (["--monitoring"] if on else []), cwd=tmp, capture_output=True, text=True)
        ctx.step()
        ctx.trace()
        ctx.state(case["script"], on)
        rows, _ = parse(r.stdout)
        ctx.outcome(case["script"], on, sorted((k, v[0][0]) for k, v in rows.items()))
        outs[on] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith("sum")])
        ends_well = case["script"] != "uncaught exception"
        ctx.check((r.returncode == 0) == ends_well, "program %s, monitoring %s: exit status %d: %s" % (case["script"], on, r.returncode, r.stderr[-400:]))
        ctx.check(("Traceback" in r.stderr) == (not ends_well) and r.stderr.count("Traceback") <= 1, "program %s, monitoring %s: errors at exit: %s" % (case["script"], on, r.stderr[-600:]))
        if not on:
            ctx.check(not rows, "program %s: a report is printed without the option" % case["script"])
            continue
        for k, n in calls.items():
            got = rows.get(("pylbm.simulation", "Simulation." + k), [])
            ctx.check([g[0] for g in got] == [n], "program %s: report on %s: %s, %d calls happened" % (case["script"], k, got, n))
        for k, got in rows.items():
            ctx.check(len(got) == 1, "program %s: %s is reported %d times" % (case["script"], k, len(got)))
            for n, t, s, *_ in got:
                ctx.check(n > 0 and t >= 0 and -1e-6 <= s <= t + 1e-6, "program %s: %s reported with total %r and self time %r" % (case["script"], k, t, s))
        if rows and "initialization" in calls:
            tops = sum(v[0][2] for v in rows.values())
            ctx.check(tops >= 0, "negative times")
    ctx.check(outs[True] == outs[False], "program %s: monitoring changes the results: %s" % (case["script"], outs))


def run_case(case, ctx):
    ctx.sample(case)
    if case["kind"] == "script":
        return script(case, ctx)
    job = {k: v for k, v in case.items() if k != "on"}
    if case["kind"] == "programs":
        return drive(job, case["on"], ctx)
    a, b = drive(job, True, ctx), drive(job, False, ctx)
    if a and b:
        for (h, x), (_, y) in zip(a["results"], b["results"]):
            ctx.check(x == y, "%s history %s: monitoring changes the results: %r instead of %r" % (case["generator"], h, x, y))
