"""Process set-up shared by every check: import paths, threads, determinism.

The interpreter is the one that has torch (/opt/venv).  Hypothesis lives in another
virtual environment of the same Python version; only that one package (and what it
imports) is made visible from there, so numpy/torch always come from /opt/venv.
"""
import importlib.machinery
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Checks run against /repo.  The override exists for development only (mutation runs
# against scratch copies of the tree); no registered command sets it.
REPO = os.environ.get("CINFUZZ_REPO", "/repo")

_VT = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]
_ALLOWED = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector",
            "_hypothesis_pytestplugin", "attr", "attrs"}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, _VT)
        return None


def boot():
    sys.dont_write_bytecode = True
    for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.append(_Finder)
    import logging

    logging.disable(logging.WARNING)
    import torch

    torch.set_num_threads(1)
    # oneDNN (torch 2.7.1) computes a wrong nn.Conv3d for some single-precision inputs whose unit
    # dimensions have unusual strides, in torch.nn itself; torch's own kernels are used instead.
    torch.backends.mkldnn.set_flags(False)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import hypothesis  # noqa: F401

    devnull = open(os.devnull, "w")
    err, sys.stderr = sys.stderr, devnull
    try:
        import continual
    finally:
        sys.stderr = err
    here = os.path.realpath(os.path.dirname(continual.__file__))
    assert here == os.path.realpath(os.path.join(REPO, "continual")), here
