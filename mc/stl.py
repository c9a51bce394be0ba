"""STL files of unions of voxels"""
import struct

import numpy as np


def triangles(vox, frame, diag=0, order=0):
    """outward triangles of a union of voxels, images of unit cubes by the frame (origin, three vectors)"""
    o, *ax = [np.array(x, float) for x in frame]
    A = np.array(ax).T
    right = np.linalg.det(A) > 0
    full = set(vox)
    out = []
    for x in sorted(full):
        for d in range(3):
            for side in (0, 1):
                y = tuple(x[i] + (2 * side - 1) * (i == d) for i in range(3))
                if y in full:
                    continue
                a, b = (d + 1) % 3, (d + 2) % 3
                p = np.array(x, float)
                p[d] += side
                ea, eb = np.eye(3)[a], np.eye(3)[b]
                q = [p, p + ea, p + ea + eb, p + eb]  # positive around +d
                if (diag + sum(x)) % 2:
                    q = q[1:] + q[:1]
                ts = [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
                for t in ts:
                    t = [o + A @ v for v in t]
                    if (side == 1) != right:
                        t = t[::-1]
                    out.append(t)
    if order == 1:
        out = out[::-1]
    elif order == 2:  # another first vertex, interleaved
        out = [t[1:] + t[:1] for t in out[::2] + out[1::2]]
    return np.array(out, np.float32)


def write(path, tri, fmt):
    nrm = np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
    nrm = nrm / np.linalg.norm(nrm, axis=1)[:, None]
    if fmt == "binary":
        with open(path, "wb") as f:
            f.write(b"binary stl".ljust(80, b" "))
            f.write(struct.pack("<I", len(tri)))
            for n, t in zip(nrm, tri):
                f.write(struct.pack("<12fH", *n, *t.ravel(), 0))
    else:
        with open(path, "w") as f:
            f.write("solid s\n")
            for n, t in zip(nrm, tri):
                f.write("facet normal %.9e %.9e %.9e\n outer loop\n" % tuple(n))
                for v in t:
                    f.write("  vertex %.9e %.9e %.9e\n" % tuple(v))
                f.write(" endloop\nendfacet\n")
            f.write("endsolid s\n")
