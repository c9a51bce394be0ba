"""L01: command line, messages, progress bars and colours of a user's program"""
import colorsys
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import tempfile

import numpy as np

RULE = "one case = all command lines made of a first token and up to three others, or one program run with a command line (its messages, its report and its arguments are read), or all bars of one length, or all colours of one hue"
ASSUMPTIONS = [
    "the arguments of the program do not begin like an option of pylbm (argparse accepts abbreviations)",
    "the bar of alive_progress is used instead of the one of pylbm when it is installed (it is not here)",
]
CASE_TIMEOUT = 200


def bounds(tier):
    return "all sequences of at most %d tokens out of 13; 5 levels x monitoring x 3 places of the options; bars of 1 to 25 iterations x 4 lengths x 4 numbers of decimals; 13^3 colours" % (4 if tier == "quick" else 5)


TOKENS = [
    ("--log", "DEBUG"), ("--log", "INFO"), ("--log=WARNING",), ("--log", "ERROR"), ("--monitoring",), ("-npx", "2"), ("-npx", "3"), ("-npy", "4"), ("-npz=5",), ("-npz", "1"),
    ("data.h5",), ("--case", "7"), ("12",),
]


def model(tokens):
    """what pylbm understands: the last value given to each option"""
    exp = {"loglevel": "WARNING", "monitoring": False, "npx": 1, "npy": 1, "npz": 1}
    for t in tokens:
        opt, val = (t[0].split("=") if "=" in t[0] else (t[0], t[1] if len(t) > 1 else None))
        if opt == "--log":
            exp["loglevel"] = val
        elif opt == "--monitoring":
            exp["monitoring"] = True
        elif opt in ("-npx", "-npy", "-npz"):
            exp[opt[1:]] = int(val)
    return exp


LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]
PROGRAM = r"""
import logging, sys
before = list(sys.argv)
import numpy as np, sympy as sp
import pylbm
from pylbm.options import options
print("ARGV", sys.argv == before, sys.argv[1:])
o = options()
print("OPT", o.loglevel, o.monitoring, o.npx, o.npy, o.npz)
for name in ("pylbm", "pylbm.domain", "pylbm.a.b"):
    for k, lev in enumerate(("debug", "info", "warning", "error")):
        getattr(logging.getLogger(name), lev)("<<%s %s>>" % (name, lev.upper()))
logging.getLogger("elsewhere").info("<<elsewhere INFO>>")
rho, X = sp.symbols("rho, X")
sim = pylbm.Simulation({"box": {"x": [0, 1], "label": -1}, "space_step": 0.25, "scheme_velocity": 1.,
    "schemes": [{"velocities": [1, 2], "conserved_moments": rho, "polynomials": [1, X], "relaxation_parameters": [0, 1.5], "equilibrium": [rho, 0.3*rho]}],
    "init": {rho: lambda x: 1 + x}, "generator": "numpy"})
sim.one_time_step()
sim.one_time_step()
print("SPLIT", [int(k) for k in sim.domain.mpi_topo.split])
print("SUM %.12f" % sim.m[rho].sum())
"""


def cases(tier):
    for i in range(-1, len(TOKENS)):
        yield {"what": "parse", "first": i, "len": 4 if tier == "quick" else 5}
    for lev in [None] + LEVELS:
        for mon in (False, True):
            for place in range(3):
                yield {"what": "run", "level": lev, "monitoring": mon, "place": place}
    for bad in (["--log", "FOO"], ["--log"], ["-npx", "two"]):
        yield {"what": "refused", "args": bad}
    for n in range(1, 26):
        yield {"what": "bar", "total": n}
    for h in range(13):
        yield {"what": "colour", "h": h}


def run_parse(c, ctx):
    from pylbm.options import options

    old = sys.argv
    heads = [()] if c["first"] < 0 else [(TOKENS[c["first"]],) + r for n in range(c["len"]) for r in itertools.product(TOKENS, repeat=n)]
    if c["first"] >= 0 and c["len"] == 4:
        # the tail of the longest ones is taken among the distinct kinds of tokens
        heads = [h for h in heads if len(h) < 4 or h[3] in (TOKENS[1], TOKENS[5], TOKENS[9], TOKENS[11])]
    try:
        for toks in heads:
            argv = ["prog.py"] + [x for t in toks for x in t]
            sys.argv = list(argv)
            try:
                o = vars(options())
            except SystemExit:
                o = "refused"
            ctx.step()
            exp = model(toks)
            ctx.check(o == exp, lambda: "command line %s: understood as %s, it is %s" % (argv[1:], o, exp))
            ctx.check(sys.argv == argv, lambda: "command line %s became %s" % (argv, sys.argv))
            ctx.state(tuple(sorted(exp.items())))
    finally:
        sys.argv = old
    ctx.outcome(c["first"])


def launch(args):
    env = dict(os.environ)
    with tempfile.TemporaryDirectory(prefix="l01_") as d:
        p = os.path.join(d, "prog.py")
        with open(p, "w") as f:
            f.write(PROGRAM)
        env["PYTHONPATH"] = os.pathsep.join([os.environ.get("VERIF_REPO", "/repo"), env.get("PYTHONPATH", "")])
        return subprocess.run([sys.executable, p] + args, cwd=d, env=env, capture_output=True, text=True, timeout=150)


def run_run(c, ctx):
    opts = (["--log", c["level"]] if c["level"] else []) + (["--monitoring"] if c["monitoring"] else [])
    own = ["data.h5", "--case", "7"]
    args = {0: opts + own, 1: own + opts, 2: own[:1] + opts[::1] + own[1:]}[c["place"]]
    r = launch(args)
    ctx.step()
    who = "program run with %s" % args
    if not ctx.check(r.returncode == 0, lambda: "%s: failed: %s" % (who, r.stderr[-300:])):
        return
    out = r.stdout
    ctx.check("ARGV True %s" % args in out, lambda: "%s: its arguments were changed: %s" % (who, out[:200]))
    ctx.check("OPT %s %s 1 1 1" % (c["level"] or "WARNING", c["monitoring"]) in out, lambda: "%s: %s" % (who, out[:200]))
    ctx.check("SPLIT [1]" in out, lambda: "%s: division of the box" % who)
    total = 4 + sum((np.arange(4) + 0.5) / 4)
    ctx.check("SUM %.12f" % total in out, lambda: "%s: the result of the program changed: %s" % (who, out[-200:]))
    low = LEVELS.index(c["level"] or "WARNING")
    got = re.findall(r"<<([\w.]+ \w+)>>", r.stderr + out)
    exp = ["%s %s" % (n, l) for n in ("pylbm", "pylbm.domain", "pylbm.a.b") for l in LEVELS[low:]]
    ctx.check(sorted(got) == sorted(exp), lambda: "%s: messages shown %s, expected %s" % (who, got, exp))
    for l in LEVELS[low:]:
        heads = re.findall(r"\[(\d+)\] (\w+) +pylbm\.domain [^\n]*\n[^\n]*<<pylbm.domain %s>>" % l, r.stderr)
        ctx.check(heads == [("0", l)], lambda: "%s: a message of level %s is introduced by %s" % (who, l, heads))
    report = re.findall(r"one_time_step", out)
    ctx.check(bool(report) == c["monitoring"], lambda: "%s: report of the monitoring: %s" % (who, out[-300:]))
    ctx.state(*args)
    ctx.outcome(out.split("SUM")[0])


def run_refused(c, ctx):
    r = launch(c["args"])
    ctx.step()
    ctx.check(r.returncode not in (0, None) and "SUM" not in r.stdout, lambda: "the command line %s was accepted" % c["args"])
    ctx.state(*c["args"])
    ctx.outcome(r.returncode)


def run_bar(c, ctx):
    from pylbm import utils

    n = c["total"]

    def bars(txt):
        return re.findall(r"\r(\S*) \|([*-]*)\| (\S+)% ?([^\r]*)", txt)

    for length, dec, (pre, suf) in itertools.product((1, 10, 50, 100), (0, 1, 2, 5), (("", ""), ("a", "end"))):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            for i in range(n + 1):
                utils.print_progress(i, n, prefix=pre, suffix=suf, decimals=dec, barLength=length)
                ctx.step()
        txt = buf.getvalue()
        rows = bars(txt)
        if not ctx.check(len(rows) == n + 1 and txt.endswith("\n") and txt.count("\n") == 1, lambda: "%d iterations: %d bars shown, ends of line: %d" % (n, len(rows), txt.count("\n"))):
            return
        for i, (p, b, pc, s) in enumerate(rows):
            ctx.check(p == pre and s.strip() == suf and len(b) == length and b == "*" * b.count("*") + "-" * b.count("-"), lambda: "bar %r of length %d" % (b, length))
            ctx.check(abs(b.count("*") - length * i / n) <= 0.5 + 1e-9, lambda: "iteration %d of %d: %d stars out of %d" % (i, n, b.count("*"), length))
            ctx.check(abs(float(pc) - 100 * i / n) <= 0.5 * 10.0**-dec + 1e-9 and len((pc + ".").split(".")[1]) == dec, lambda: "iteration %d of %d shown as %s%%" % (i, n, pc))
        ctx.state(n, length, dec, pre)
    for title in (None, "run"):
        buf = io.StringIO()
        done = []
        with contextlib.redirect_stdout(buf):
            with utils.pylbm_progress_bar(n, title=title) as bar:
                for i in range(n):
                    bar()
                    done.append(buf.getvalue())
        rows = bars(buf.getvalue())
        got = [float(x[2]) for x in rows]
        ctx.check(len(rows) == n + 1 and np.allclose(got, [100 * i / n for i in range(n + 1)], atol=0.06) and all(x[0] == (title or "") for x in rows), lambda: "bar of %d iterations shows %s" % (n, got))
    ctx.outcome(n)


def run_colour(c, ctx):
    from pylbm.utils import hsl_to_rgb

    h = c["h"] / 12
    for s, l in itertools.product(range(13), repeat=2):
        got = hsl_to_rgb(h, s / 12, l / 12)
        exp = colorsys.hls_to_rgb(h, l / 12, s / 12)
        ctx.step()
        ctx.check(np.allclose(got, exp, atol=1e-12), lambda: "colour of hue %g, saturation %g, lightness %g: %s, it is %s" % (h, s / 12, l / 12, got, exp))
        ctx.state(c["h"], s, l)
    ctx.outcome(c["h"])


def run_case(c, ctx):
    ctx.sample(c)
    globals()["run_" + c["what"]](c, ctx)
    ctx.trace()
