"""setup_cmd: nothing is compiled ahead of time; make sure what the checks use is there"""
import shutil
import sys

import Cython
import h5py
import mpi4py
import numpy
import sympy

for tool in ("gcc", "mpirun"):
    if shutil.which(tool) is None:
        sys.exit("missing tool " + tool)
print("ok", numpy.__version__, sympy.__version__, Cython.__version__, h5py.__version__, mpi4py.__version__)
