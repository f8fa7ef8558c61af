"""A stand-in for the compiled extension.

The extension cannot be built offline, so the checks of C33 play its role: a second copy of the library is
imported with a recording `gpytoolbox_bindings` whose every answer is chosen by the check.  Like the real
pybind11 functions, the stand-in accepts only float64 / int32 / uint8 arrays of the declared kind."""
import contextlib, importlib, sys, types
import numpy as np

NAMES = ("gpytoolbox", "gpytoolbox_bindings", "gpytoolbox_bindings_copyleft")

# argument names in order, with their kinds: D double matrix, I int matrix, d double vector, i int vector,
# B byte matrix, n int, x double, b bool, s string, f callable
SIGS = {
    "_remesh_botsch_cpp_impl": "V:D F:I i:n h:x feature:i feature_edges:I project:b",
    "_swept_volume_impl": "V:D F:I T:D eps:x num_seeds:n verbose:b",
    "_decimate_cpp_impl": "V:D F:I num_faces:n method:n",
    "_upper_envelope_cpp_impl": "V:D T:I D:D",
    "_marching_cubes_cpp_impl": "S:d GV:D nx:n ny:n nz:n isovalue:x",
    "_offset_surface_cpp_impl": "V:D F:I iso:x grid_size:n",
    "_point_mesh_squared_distance_cpp_impl": "V:D F:I P:D",
    "_fast_winding_number_cpp_impl": "V:D F:I Q:D",
    "_hausdorff_distance_cpp_impl": "v1:D f1:I v2:D f2:I",
    "_in_element_aabb_cpp_impl": "Q:D V:D F:I",
    "_ray_mesh_intersect_cpp_impl": "cam_pos:D cam_dir:D V:D F:I",
    "_particle_swarm_cpp_impl": "fun:f lb:d ub:d n_particles:n max_iter:n momentum:x phi:x verbose:b topology:s",
    "_point_cloud_to_mesh_cpp_impl": "P:D N:D screening_weight:x depth:n boundary:s parallel:b verbose:b",
    "_read_obj_cpp_impl": "file:s return_UV:b return_N:b",
    "_write_obj_cpp_impl": "file:s V:D F:I UV:D Ft:I N:D Fn:I",
    "_read_stl_cpp_impl": "file:s",
    "_write_stl_cpp_impl": "file:s V:D F:I binary:b",
    "_read_ply_cpp_impl": "file:s",
    "_write_ply_cpp_impl": "file:s V:D F:I N:D C:B binary:b",
    "_curved_hessian_intrinsic_cpp_impl": "l_sq:D F:I",
    "_dcsdd_cpp_impl": "S:d GV:D nx:n ny:n nz:n isovalue:x outer_iters:n inner_iters:n hermite_update:b mu:x dc_weight:x "
                       "svd_threshold:x new_hermite_pos_weight:x new_face_pos_weight:x new_hermite_normal_weight:x batch_size:n verbose:b",
    "_mesh_union_cpp_impl": "V1:D F1:I V2:D F2:I",
    "_mesh_intersection_cpp_impl": "V1:D F1:I V2:D F2:I",
    "_mesh_difference_cpp_impl": "V1:D F1:I V2:D F2:I",
    "_do_meshes_intersect_cpp_impl": "V1:D F1:I V2:D F2:I",
    "_outside_points_from_rasterization_cpp_impl": "U:D S:d seed:n res:n tol:x narrow_band:b parallel:b force_cpu:b verbose:b",
    "_locally_make_feasible_cpp_impl": "U:D S:d P:D batch:i seed:n n_local_searches:n local_search_iters:n tol:x clamp_value:x parallel:b verbose:b",
    "_fine_tune_point_cloud_iter_cpp_impl": "U:D S:d V:D F:I P:D N:D f:i batch:i max_points_per_sphere:n seed:n n_local_searches:n "
                                            "local_search_iters:n local_search_t:x tol:x clamp_value:x parallel:b verbose:b",
}
CLASSES = {
    "_AABBTree_cpp_impl": ("V:D F:I", {"squared_distance": "P:D"}),
    "_FastWindingNumberBVH_cpp_impl": ("V:D F:I order:n", {"winding_number": "Q:D accuracy_scale:x"}),
    "_RayMeshIntersector_cpp_impl": ("V:D F:I", {"intersect": "cam_pos:D cam_dir:D"}),
}
COPYLEFT = {"_mesh_union_cpp_impl", "_mesh_intersection_cpp_impl", "_mesh_difference_cpp_impl", "_do_meshes_intersect_cpp_impl"}
DT = {"D": np.float64, "d": np.float64, "I": np.int32, "i": np.int32, "B": np.uint8}


def convert(name, sig, a, k):
    spec = [s.split(":") for s in sig.split()]
    if len(a) + len(k) != len(spec) or any(x not in [s for s, _ in spec[len(a):]] for x in k):
        raise TypeError(f"{name}(): incompatible function arguments")
    out = {}
    for j, (arg, kind) in enumerate(spec):
        x = a[j] if j < len(a) else k[arg]
        if kind in DT:
            if not isinstance(x, np.ndarray) or x.dtype != DT[kind] or not (1 <= x.ndim <= 2):
                raise TypeError(f"{name}(): incompatible function arguments: {arg} is {type(x).__name__} {getattr(x, 'dtype', '')}")
            if kind in "di" and x.ndim == 2 and x.shape[1] != 1 and x.size:
                raise TypeError(f"{name}(): incompatible function arguments: {arg} is not a vector")
            x = x.copy()
            if kind in "di":
                x = x.ravel()
            elif x.ndim == 1:
                x = x[:, None]
        elif kind == "n":
            if isinstance(x, (float, np.floating)) or not hasattr(x, "__index__"):
                raise TypeError(f"{name}(): incompatible function arguments: {arg} is {x!r}")
            x = int(x)
        elif kind == "x":
            x = float(x)
        elif kind == "b":
            x = bool(x)
        elif kind == "s":
            if not isinstance(x, str):
                raise TypeError(f"{name}(): incompatible function arguments: {arg} is {x!r}")
        out[arg] = x
    return types.SimpleNamespace(**out)


class Env:
    """The answers of the extension for one case, and everything it was asked."""

    def __init__(self, **answers):
        self.answers, self.calls = answers, []

    def ask(self, name, args):
        if name not in self.answers:
            raise AssertionError(f"unexpected call of {name}")
        self.calls.append((name, args))
        return self.answers[name](args)

    def of(self, name):
        return [a for n, a in self.calls if n == name]


CURRENT = [None]
_SAVED = {}


def _function(name, sig):
    def f(*a, **k):
        return CURRENT[0].ask(name, convert(name, sig, a, k))
    f.__name__ = name
    return f


def _class(name, sig, methods):
    def init(self, *a, **k):
        self.args = convert(name, sig, a, k)
        CURRENT[0].calls.append((name, self.args))
    body = {"__init__": init, "dim": property(lambda self: self.args.V.shape[1])}

    def method(m, s):
        def g(self, *a, **k):
            x = convert(f"{name}.{m}", s, a, k)
            x.made = self.args
            return CURRENT[0].ask(f"{name}.{m}", x)
        return g
    for m, s in methods.items():
        body[m] = method(m, s)
    return type(name, (), body)


def _modules():
    core, cl = types.ModuleType("gpytoolbox_bindings"), types.ModuleType("gpytoolbox_bindings_copyleft")
    for n, s in SIGS.items():
        setattr(cl if n in COPYLEFT else core, n, _function(n, s))
    for n, (s, m) in CLASSES.items():
        setattr(core, n, _class(n, s, m))
    return core, cl


def _take():
    return {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] in NAMES}


@contextlib.contextmanager
def extended(env):
    """the library as it is when the extension is installed, with the answers of `env`"""
    outer = _take()
    try:
        if not _SAVED:
            sys.modules["gpytoolbox_bindings"], sys.modules["gpytoolbox_bindings_copyleft"] = _modules()
            importlib.import_module("gpytoolbox")
            importlib.import_module("gpytoolbox.copyleft")
        else:
            sys.modules.update(_SAVED)
        CURRENT[0] = env
        yield sys.modules["gpytoolbox"]
    finally:
        CURRENT[0] = None
        _SAVED.update(_take())
        sys.modules.update(outer)
