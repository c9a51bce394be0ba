"""Runs descriptions on the processes of an mpirun; each rank writes what it owns.

usage: mpirun -np N python -m mc.mpi_driver JOBS OUTDIR [-npx .. -npy .. -npz ..]
"""
import json
import os
import sys
import traceback

import numpy as np


class Recorder:
    """communicator which records the messages posted by the halo exchange"""

    def __init__(self, comm, log):
        self._comm, self._log = comm, log

    def __getattr__(self, name):
        val = getattr(self._comm, name)
        if not callable(val):
            return val

        def call(*a, **k):
            if name in ("Isend", "Irecv") and a:
                peer = k.get("dest", k.get("source", a[1] if len(a) > 1 else None))
                tag = k.get("tag", a[2] if len(a) > 2 else 0)
                size = a[0][1].Get_size() if isinstance(a[0], (list, tuple)) and hasattr(a[0][1], "Get_size") else -1
                self._log.append([name, peer, tag, size])
            elif name[0].isupper() and not name.startswith(("Get_", "Is_")):
                self._log.append(["other", name, 0, 0])
            return val(*a, **k)

        return call


class MpiProxy:
    def __init__(self, real, log):
        self._real = real

        class Request:
            @staticmethod
            def Waitall(reqs, *a):
                log.append(["wait", 0, 0, 0])
                return real.Request.Waitall(reqs, *a)

            def __getattr__(self, n):
                return getattr(real.Request, n)

        self.Request = Request()

    def __getattr__(self, n):
        return getattr(self._real, n)


def record(sim):
    """the messages of one halo exchange, as posted by the real code"""
    import pylbm.storage as storage

    log = []
    arr = sim.container.F
    real, comm = getattr(storage, "mpi", None), getattr(arr, "comm", None)
    if real is None or comm is None:
        return None
    try:
        storage.mpi = MpiProxy(real, log)
        arr.comm = Recorder(comm, log)
        arr.update()
    finally:
        storage.mpi = real
        arr.comm = comm
    return log


def run(job, outdir, rank):
    import pylbm
    from .bref import normalise, to_bdico
    from .checks import p01
    from .ref import to_dico

    d = normalise(job["desc"])
    dico = to_bdico(d, job["gen"]) if d["bc"] else to_dico(d, job["gen"])
    dico["init"] = p01.init(d)
    sim = pylbm.Simulation(dico, sorder=job.get("sorder"))
    nv = sum(len(s["vel"]) for s in d["schemes"])
    out = {"coords": [np.array(c) for c in sim.domain.coords]}
    F = []
    for it in range(job["steps"] + 1):
        F.append([np.array(sim.F[k]) for k in range(nv)])
        if it < job["steps"]:
            sim.one_time_step()
    out["F"] = np.array(F)
    import sympy as sp

    out["m"] = np.array([np.array(sim.m[sp.Symbol(c)]) for s in d["schemes"] for c in s["consm"]])
    dom = sim.domain
    inner = tuple(slice(v, v + n) for v, n in zip(dom.stencil.vmax, dom.shape_in))
    out["in_or_out"] = np.array(dom.in_or_out[inner])
    out["distance"] = np.array(dom.distance[(slice(None),) + inner])
    out["flag"] = np.array(dom.flag[(slice(None),) + inner])
    log = record(sim)
    np.savez(os.path.join(outdir, "%s.%d.npz" % (job["id"], rank)), **{k: v for k, v in out.items() if k != "coords"},
             **{"x%d" % i: c for i, c in enumerate(out["coords"])})
    with open(os.path.join(outdir, "%s.%d.json" % (job["id"], rank)), "w") as f:
        json.dump({"log": log, "vmax": [int(v) for v in dom.stencil.vmax], "size": [int(s) for s in sim.container.F.shape]}, f)


def main():
    jobs, outdir = json.load(open(sys.argv[1])), sys.argv[2]
    from .engine import REPO

    sys.path.insert(0, REPO)
    import mpi4py.MPI as mpi

    rank = mpi.COMM_WORLD.Get_rank()
    scratch = os.path.join(outdir, "r%d" % rank)
    os.makedirs(scratch, exist_ok=True)
    os.environ["TMPDIR"] = scratch
    os.chdir(scratch)
    for job in jobs:
        try:
            run(job, outdir, rank)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            with open(os.path.join(outdir, "%s.%d.err" % (job["id"], rank)), "w") as f:
                f.write("%s: %s at %s:%d" % (type(e).__name__, str(e)[:300], os.path.basename(tb[-1].filename), tb[-1].lineno))
            os._exit(17)


if __name__ == "__main__":
    main()
