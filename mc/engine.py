"""Case engine: runs an exhaustively enumerated list of cases against the real
code of /repo in worker processes, collects verdicts and coverage counts.

A case is plain JSON-able data.  A check module provides

    PROPERTY, TECHNIQUE..    constants
    cases(tier)              -> iterable of cases (complete enumeration of the bound)
    run_case(case, ctx)      -> None; raises Violation or records through ctx

Every exception escaping run_case that is not a HarnessError is a violation:
the cases are inputs on which the property requires an answer.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case. key identifies the finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The harness itself cannot decide (never a verdict)."""


class Ctx:
    """Coverage and findings of one case."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.findings = []

    def state(self, *parts):
        self.states.add(digest(parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *parts):
        self.outcomes.add(digest(parts))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg, key=None):
        """record a violation and carry on with the case"""
        if key is not None and sum(k == key for _, k in self.findings) >= 2:
            return
        if len(self.findings) < 50:
            self.findings.append((str(msg)[:1500], key))

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond


def digest(obj):
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, (list, tuple)):
            h.update(b"(")
            for e in o:
                feed(e)
            h.update(b")")
        elif isinstance(o, dict):
            feed(sorted((str(k), v) for k, v in o.items()))
        elif hasattr(o, "tobytes") and hasattr(o, "dtype"):
            import numpy as np

            a = np.ascontiguousarray(o)
            if a.dtype.kind == "f":
                # canonical form: the verdict never depends on the last digits
                with np.errstate(all="ignore"):
                    a = np.round(a, 9) + 0.0
            h.update(str(a.shape).encode())
            h.update(a.tobytes())
        else:
            h.update(repr(o).encode())
        h.update(b",")

    feed(obj)
    return h.hexdigest()


def setup_process(scratch):
    """make this process ready to import pylbm from /repo"""
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    sys.argv = ["verif"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def _worker(modname, conn, scratch, logpath):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    fd = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    devnull = os.open("/dev/null", os.O_RDONLY)
    os.dup2(devnull, 0)
    setup_process(scratch)
    # orphan guard: end with the parent
    try:
        import ctypes

        ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)
    except Exception:
        pass
    try:
        mod = importlib.import_module(modname)
        if hasattr(mod, "init_worker"):
            mod.init_worker()
        conn.send(("ready", None))
    except BaseException:
        conn.send(("initfail", traceback.format_exc()))
        return
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            if hasattr(mod, "end_worker"):
                mod.end_worker()
            conn.send(("bye", None))
            return
        idx, case = msg
        conn.send(("done", (idx, execute(mod, case))))


def execute(mod, case):
    ctx = Ctx()
    t0 = time.time()
    harness = None
    try:
        mod.run_case(case, ctx)
    except Violation as e:
        ctx.fail(str(e), e.key)
    except HarnessError:
        harness = traceback.format_exc()
    except BaseException as e:  # SystemExit included: pylbm exits on bad input
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        ctx.fail(
            "unexpected %s: %s at %s"
            % (
                type(e).__name__,
                str(e)[:300],
                "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name)
                if where
                else "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno),
            )
        )
    return {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "outcomes": ctx.outcomes,
        "samples": ctx.samples,
        "findings": ctx.findings,
        "harness": harness,
        "wall": time.time() - t0,
    }


class Pool:
    def __init__(self, modname, nproc, case_timeout, scratch):
        self.modname = modname
        self.nproc = nproc
        self.case_timeout = case_timeout
        self.scratch = scratch
        self.ctx = mp.get_context("fork")
        self.workers = []
        self.spawned = 0

    def spawn(self):
        self.spawned += 1
        parent, child = self.ctx.Pipe()
        d = os.path.join(self.scratch, "w%d" % self.spawned)
        os.makedirs(d, exist_ok=True)
        log = os.path.join(self.scratch, "w%d.log" % self.spawned)
        p = self.ctx.Process(
            target=_worker, args=(self.modname, child, d, log), daemon=False
        )
        p.start()
        child.close()
        return {"p": p, "c": parent, "idx": None, "t0": time.time(), "ready": False, "log": log}

    def run(self, cases, deadline):
        """yields (idx, case, result | None) ; result None = not executed (deadline)"""
        it = enumerate(cases)
        exhausted = False
        pending = {}
        self.workers = [self.spawn() for _ in range(self.nproc)]
        truncated = False

        def feed(w):
            nonlocal exhausted, truncated
            if exhausted:
                return False
            if time.time() > deadline:
                truncated = True
                exhausted = True
                return False
            try:
                idx, case = next(it)
            except StopIteration:
                exhausted = True
                return False
            pending[idx] = case
            w["idx"] = idx
            w["t0"] = time.time()
            w["c"].send((idx, case))
            return True

        alive = list(self.workers)
        try:
            while alive:
                conns = [w["c"] for w in alive]
                r, _, _ = select.select(conns, [], [], 1.0)
                for w in list(alive):
                    if w["c"] in r:
                        try:
                            kind, payload = w["c"].recv()
                        except (EOFError, OSError):
                            w["p"].join(5)
                            code = w["p"].exitcode
                            alive.remove(w)
                            if w["idx"] is not None:
                                idx = w["idx"]
                                yield idx, pending.pop(idx), {
                                    "crash": "worker process died with exit code %s" % code
                                }
                                if not exhausted:
                                    alive.append(self.spawn())
                            elif not w["ready"]:
                                raise RuntimeError("worker died at start: %s" % code)
                            continue
                        if kind == "initfail":
                            alive.remove(w)
                            yield -1, None, {"initfail": payload}
                            return
                        if kind == "ready":
                            w["ready"] = True
                            if not feed(w):
                                w["c"].send(None)
                                w["idx"] = None
                        elif kind == "done":
                            idx, res = payload
                            w["idx"] = None
                            case = pending.pop(idx)
                            if not feed(w):
                                w["c"].send(None)
                            yield idx, case, res
                        elif kind == "bye":
                            w["p"].join(10)
                            alive.remove(w)
                    elif w["idx"] is not None and time.time() - w["t0"] > self.case_timeout:
                        idx = w["idx"]
                        kill_tree(w["p"].pid)
                        w["p"].join(5)
                        alive.remove(w)
                        yield idx, pending.pop(idx), {
                            "crash": "no answer within %ds" % self.case_timeout
                        }
                        if not exhausted:
                            alive.append(self.spawn())
        finally:
            for w in alive:
                kill_tree(w["p"].pid)
            self.truncated = truncated


def kill_tree(pid):
    try:
        for c in open("/proc/%d/task/%d/children" % (pid, pid)).read().split():
            kill_tree(int(c))
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def load_known(prop):
    """known findings: lines 'known: property=<id> key=<key> | <what>'"""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: "):].partition(" | ")
        fields = dict(f.split("=", 1) for f in head.split(" ", 1))
        if fields.get("property") == prop:
            out[fields["key"]] = what
    return out


def run_check(prop, tier):
    modname = "mc.checks.%s" % prop.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = getattr(mod, "BUDGET", {}).get(tier, 780 if tier == "quick" else 7200)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    base = os.environ.get("VERIF_OUT", ROOT)  # development: results elsewhere
    outdir = os.path.join(base, "out")
    os.makedirs(outdir, exist_ok=True)
    known = load_known(prop)
    cases = mod.cases(tier)
    nproc = int(os.environ.get("VERIF_NPROC", 0)) or getattr(mod, "NPROC", 8)
    pool = Pool(modname, nproc, getattr(mod, "CASE_TIMEOUT", 300), scratch)
    states, outcomes = set(), set()
    transitions = traces = ncases = 0
    samples, findings, errors = [], [], []
    walls = []
    try:
        for idx, case, res in pool.run(cases, t0 + budget):
            if "initfail" in res:
                # the tree cannot even be imported: nothing can hold
                findings.append((-1, {"import": True}, "import failed: " + res["initfail"][-600:], "import"))
                break
            ncases += 1
            if "crash" in res:
                findings.append((idx, case, res["crash"], None))
                continue
            if res["harness"]:
                errors.append((idx, case, res["harness"]))
                continue
            states |= res["states"]
            outcomes |= res["outcomes"]
            transitions += res["transitions"]
            traces += res["traces"]
            walls.append((res["wall"], idx))
            if len(samples) < 4 and (idx % 97 == 0 or idx < 2):
                samples.extend(res["samples"][:1])
            for msg, key in res["findings"]:
                findings.append((idx, case, msg, key))
            # development: VERIF_STOP=1 stops at the first alarm
            if sum(1 for f in findings if f[3] is None or f[3] not in known) > (0 if os.environ.get("VERIF_STOP") else 2000):
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0

    # verdict -----------------------------------------------------------------
    hits, new = {}, []
    for idx, case, msg, key in findings:
        if key is not None and key in known:
            hits[key] = hits.get(key, 0) + 1
        else:
            new.append((idx, case, msg, key))
    truncated = getattr(pool, "truncated", False)
    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "cases": ncases,
        "distinct_outcomes": len(outcomes),
        "exhaustive": not truncated and not new,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else "",
        "rule": getattr(mod, "RULE", ""),
        "samples": samples[:4] or ["(none)"],
        "known_findings_seen": {k: v for k, v in sorted(hits.items())},
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    evdir = os.path.join(base, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, "%s.json" % prop))

    print(
        "%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs%s"
        % (prop, tier, ncases, len(states), transitions, traces, len(outcomes), wall,
           " TRUNCATED by time budget" if truncated else "")
    )
    if os.environ.get("VERIF_SLOW"):
        for w, i in sorted(walls, reverse=True)[:8]:
            print("  slow: case %d %.2fs" % (i, w))
    for key in sorted(hits):
        print("KNOWN-FINDING: property=%s %s [%s, %d cases]" % (prop, known[key], key, hits[key]))
    if new:
        new.sort(key=lambda e: e[0])
        seen = set()
        n = 0
        for idx, case, msg, key in new:
            sig = key or msg[:80]
            if sig in seen:
                continue
            seen.add(sig)
            path = os.path.join(outdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case, "message": msg, "key": key, "index": idx}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   case %s" % json.dumps(case, default=str)[:240])
            print("   %s%s" % (msg[:800], "  key=%s" % key if key else ""))
            n += 1
            if n >= int(os.environ.get("VERIF_MAXV", "8")):
                break
        print("%d violating observations" % len(new))
        return 1
    if errors:
        for idx, case, tb in errors[:3]:
            print("HARNESS ERROR case %s\n%s" % (json.dumps(case, default=str)[:400], tb))
        return 3
    if ncases == 0 or not states:
        print("HARNESS ERROR: nothing explored")
        return 3
    return 0
