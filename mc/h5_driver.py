"""Writes HDF5 files on the processes of an mpirun.

usage: mpirun -np N python -m mc.h5_driver JOBS OUTDIR [-npx .. -npy .. -npz ..]
"""
import json
import os
import sys
import traceback

import numpy as np


def field(name, idx):
    """values of a field of the user at the cells of global indices idx (one array per direction)"""
    g = np.meshgrid(*idx, indexing="ij")
    v = sum((7 ** (d + 1)) * x for d, x in enumerate(g)) + 0 * g[0]
    if name == "float":
        return v / 3.0
    if name == "int":
        return (v * 5 - 3).astype(np.int64)
    if name == "int32":
        return (v - 11).astype(np.int32)
    if name == "single":
        return (v / 4).astype(np.float32)
    if name == "fortran":
        return np.asfortranarray(v / 5.0)
    if name == "strided":
        big = np.full([2 * s for s in v.shape], -1.0)
        big[tuple(slice(1, None, 2) for _ in v.shape)] = v / 6.0
        return big[tuple(slice(1, None, 2) for _ in v.shape)]
    if name == "const":
        return np.full(v.shape, 2.5)
    raise KeyError(name)


SCALARS = ["float", "int", "int32", "single", "fortran", "strided", "const"]
VECTORS = {"v1": ["float"], "v2": ["int", "fortran"], "v3": ["single", "strided", "float"], "v3b": ["const", "int32", "fortran"]}


def main():
    jobs, outdir = json.load(open(sys.argv[1])), sys.argv[2]
    from .engine import REPO

    sys.path.insert(0, REPO)
    import mpi4py.MPI as mpi
    import sympy as sp

    import pylbm
    from .checks import o01
    from .ref import to_dico

    rank = mpi.COMM_WORLD.Get_rank()
    for job in jobs:
        try:
            work = os.path.join(outdir, job["id"])
            if rank == 0:
                os.makedirs(work, exist_ok=True)
            mpi.COMM_WORLD.Barrier()
            os.chdir(work)
            run(job, pylbm, sp, rank, to_dico, o01)
            mpi.COMM_WORLD.Barrier()
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            with open(os.path.join(outdir, "%s.%d.err" % (job["id"], rank)), "w") as f:
                f.write("%s: %s at %s:%d" % (type(e).__name__, str(e)[:300], os.path.basename(tb[-1].filename), tb[-1].lineno))
            os._exit(17)
    os.chdir(outdir)


def run(job, pylbm, sp, rank, to_dico, o01):
    d = job["desc"]
    dico = to_dico(d)
    dico["init"] = o01.init(d)
    if any(a[0] in ("step", "moment", "moments") for a in job["actions"]):
        sim = pylbm.Simulation(dico, sorder=job.get("sorder"))
        dom = sim.domain
    else:
        dom = pylbm.Domain(dico)
    topo = dom.mpi_topo
    coords = [np.array(c) for c in dom.coords]
    idx = [np.rint((x - lo) / d["dx"] - 0.5).astype(int) for x, lo in zip(coords, d["lo"])]
    cons = [sp.Symbol(c) for s in d["schemes"] for c in s["consm"]]
    files, saved = {}, {}
    for act in job["actions"]:
        op, name = act[0], act[1] if len(act) > 1 else None
        if op == "open":
            kw = dict(act[2])
            files[name] = pylbm.H5File(topo, kw.pop("filename"), **kw)
        elif op == "grid":
            files[name].set_grid(*coords)
        elif op == "step":
            sim.one_time_step()
        elif op == "scalar":
            files[name].add_scalar(act[2], field(act[2], idx))
        elif op == "scalar_fun":
            files[name].add_scalar("fun", lambda k, a: field(k, idx) * a, "float", 3.0)
        elif op == "vector":
            files[name].add_vector(act[2], [field(k, idx) for k in VECTORS[act[2]]])
        elif op == "vector_fun":
            files[name].add_vector("vfun", lambda a: [field("float", idx) + a, field("int", idx) * 1.0], 0.5)
        elif op == "moment":
            k = cons[act[2]]
            files[name].add_scalar("m%d" % act[2], sim.m[k])
            saved["%s.m%d" % (name, act[2])] = np.array(sim.m[k])
        elif op == "moments":
            files[name].add_vector("mv", [sim.m[k] for k in cons])
            for i, k in enumerate(cons):
                saved["%s.mv.%d" % (name, i)] = np.array(sim.m[k])
        elif op == "save":
            files[name].save()
    np.savez("saved.%d.npz" % rank, **saved, **{"idx%d" % i: x for i, x in enumerate(idx)})


if __name__ == "__main__":
    main()
