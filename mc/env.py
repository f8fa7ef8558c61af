"""Imports gpytoolbox from the tree under test (GPT_REPO, default /repo) in the pure-Python configuration.

The C++ extension cannot be built offline (pybind11 and libigl are absent), so `gpytoolbox_bindings` is
replaced by a placeholder that fails with ImportError for anything but the one name that
dual_contouring imports at module level."""
import os, sys, types, warnings, importlib.abc, importlib.machinery

REPO = os.environ.get("GPT_REPO", "/repo")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
NAME = "gpytoolbox_bindings"


class _Placeholder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path, target=None):
        if fullname == NAME:
            return importlib.machinery.ModuleSpec(fullname, self)

    def exec_module(self, module):
        def _dcsdd_cpp_impl(*a, **k):
            raise ImportError("the C++ extension gpytoolbox_bindings is not built")
        module._dcsdd_cpp_impl = _dcsdd_cpp_impl


sys.meta_path.append(_Placeholder())
warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402
np.seterr(all="ignore")
import gpytoolbox as gpy  # noqa: E402

assert os.path.realpath(gpy.__file__).startswith(os.path.realpath(REPO) + os.sep), gpy.__file__
