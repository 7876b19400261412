"""Imports modred from /repo as a serial (no mpi4py) installation."""
import os, sys
from .core import REPO


def modred():
    if 'modred' in sys.modules:
        return sys.modules['modred']
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k.split('.')[0] == 'mpi4py']:
        del sys.modules[k]
    sys.modules['mpi4py'] = None            # import mpi4py raises ImportError
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import modred as m
    import modred.parallel, modred.vectors, modred.vectorspace, modred.util           # noqa
    import modred.pod, modred.bpod, modred.dmd, modred.era, modred.okid, modred.ltigalerkinproj     # noqa
    f = os.path.abspath(m.__file__)
    assert f.startswith(os.path.abspath(REPO) + os.sep), f
    return m
