"""C31 Purity: no call changes its arguments or any global state, results do not depend on earlier calls,
on what the caller did to earlier results, or on how the same values are stored."""
import copy, itertools, os, pickle, signal, sys, tempfile
import numpy as np
import scipy.sparse as sp
from ..core import scenario, G, hash8

PROPERTY = "C31"
ASSUMPTIONS = ["random functions are given their own generator",
               "a forked copy of a process that only imported the library stands for a fresh process",
               "results under another storage are compared with a relative tolerance of 1e-9 (summation order may differ)"]

A = lambda *r: np.array(r, float)
I = lambda *r: np.array(r, int)
V3 = lambda: A([0, 0, 0], [1, 0, 0.25], [0, 1, 0], [1, 1.5, 0.5], [2, 0.5, -1])
F3 = lambda: I([0, 1, 2], [2, 1, 3], [1, 4, 3])
VT = lambda: A([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1.5])
TT = lambda: I([0, 1, 2, 3], [1, 2, 3, 4])
FTET = lambda: I([0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2])
V2 = lambda: A([0, 0], [2, 0], [0, 1], [2, 1.5])
F2 = lambda: I([0, 1, 2], [2, 1, 3])
SQ = lambda: A([0, 0], [1, 0], [1, 1], [0, 1])
ESQ = lambda: I([0, 1], [1, 2], [2, 3], [3, 0])
LSQ = lambda: A([1, 1.25, 1.5], [2, 1.5, 1.25])
Q3 = lambda: A([0.25, 0.25, 1], [2, 2, 2], [-1, 0.5, 0.25])
Q2 = lambda: A([0.25, 0.5], [2, 2], [-1, 0.25])
SPD = lambda: sp.csc_matrix(A([4, 1, 0, 0], [1, 5, 2, 0], [0, 2, 6, 1], [0, 0, 1, 3]))
OBJ = "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nvt 1 0\nvt 0 1\nvn 0 0 1\nf 1/1/1 2/2/1 3/3/1\n"


def tree(dim=2, depth=3, graded=True):
    import gpytoolbox as g
    P = A([0.1, 0.2], [0.8, 0.9], [0.15, 0.7], [0.6, 0.1]) if dim == 2 else A([0.1, 0.2, 0.3], [0.8, 0.9, 0.4], [0.2, 0.7, 0.9])
    return g.initialize_quadtree(P, max_depth=depth, min_depth=1, graded=graded, vmin=np.zeros(dim), vmax=np.ones(dim))


def aabb(V, F):
    import gpytoolbox as g
    return g.initialize_aabbtree(V, F=F)


def ser(fname, then):
    """create an object, then use it twice"""
    def run(*a, **k):
        o = getattr(G, fname)(*a[:-1], **k)
        return [then(o, x) for x in a[-1]]
    return run


def mesh_file(fname, *a, **k):
    d = tempfile.mkdtemp(prefix="c31_")
    p = os.path.join(d, "m.obj")
    try:
        if fname == "read":
            with open(p, "w") as f:
                f.write(OBJ)
            return G.read_mesh(p, *a, **k)
        G.write_mesh(p, *a, **k)
        return open(p).read()
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


def traverse(V, F, Q):
    C, W, CH, PAR, D, tri, _ = G.initialize_aabbtree(V, F=F)
    class T:
        def __init__(self):
            self.seen = []
        def traversal_function(self, q, *rest):
            self.seen.append(int(q))
            return True
        def add_to_queue(self, queue, CH, q):
            queue[:0] = CH[q].tolist()
    t = T()
    G.traverse_aabbtree(C, W, CH, tri, None, t.traversal_function, t.add_to_queue)
    return t.seen


CAT = {}


def entry(name, fn, *args, **kw):
    CAT[name] = (fn, args, kw)


def lib(fname, *args, **kw):
    name = kw.pop("_name", fname)
    while name in CAT:
        name += "'"
    CAT[name] = (fname, args, kw)


# every argument is given as a maker so that each run gets fresh, unshared values
K = lambda x: (lambda: copy.deepcopy(x))
for f in ("adjacency_matrix", "boundary_edges", "boundary_loops", "boundary_vertices", "halfedges", "halfedge_edge_map", "non_manifold_edges", "triangle_triangle_adjacency", "dec_d0", "dec_d1"):
    lib(f, F3)
lib("edges", F3, return_boundary_indices=K(True), return_interior_indices=K(True), return_nonmanifold_indices=K(True))
lib("connected_components", F3, return_face_indices=K(True))
for f in ("boundary_faces", "halffaces"):
    lib(f, TT)
lib("faces", TT, return_boundary_indices=K(True), return_interior_indices=K(True), return_nonmanifold_indices=K(True))
for f in ("angle_defect", "barycenters", "cotangent_laplacian", "cotangent_weights", "dec_h0", "dec_h0inv", "dec_h1", "dec_h1inv", "dec_h2", "dec_h2inv", "dihedral_angles", "doublearea",
          "grad", "halfedge_lengths", "halfedge_lengths_squared", "per_face_normals", "per_vertex_normals", "tip_angles"):
    lib(f, V3, F3)
lib("doublearea", V2, F2, signed=K(True))
lib("grad", lambda: A([0], [1], [3]), lambda: I([0, 1], [1, 2]), _name="grad-1d")
lib("volume", VT, TT)
for t in ("voronoi", "barycentric", "full"):
    lib("massmatrix", V3, F3, type=K(t))
    lib("massmatrix_intrinsic", LSQ, F2, type=K(t))
for bc in ("mixedfem_zero_neumann", "hessian"):
    lib("biharmonic_energy", V2 if bc == "hessian" else V3, F2 if bc == "hessian" else F3, bc=K(bc))
lib("biharmonic_energy_intrinsic", LSQ, F2, n=K(4))
for f in ("angle_defect_intrinsic", "cotangent_laplacian_intrinsic", "cotangent_weights_intrinsic", "dec_h0_intrinsic", "dec_h0inv_intrinsic", "dec_h1_intrinsic", "dec_h1inv_intrinsic", "dec_h2_intrinsic", "dec_h2inv_intrinsic",
          "doublearea_intrinsic", "tip_angles_intrinsic"):
    lib(f, LSQ, F2)
lib("grad_intrinsic", LSQ, F2, n=K(4))
lib("linear_elasticity_stiffness", V2, F2)
lib("linear_elasticity", V2, F2, lambda: V2() * 0.1, dt=K(0.1), bb=lambda: I(0, 1), bc=lambda: A([0, 0], [0.1, 0]), fext=lambda: V2() + 1, Ud0=lambda: V2()[::-1].copy())
lib("apply_colormap", lambda: A([0, 0, 0], [100, 50, 10], [255, 200, 100]), lambda: A(0.2, 3, -1, 1))
lib("colormap", K("RdBu"), K(7))
lib("colormap", K("RdBu"), K(0), interpolate=K(False))
lib("colormap", K("Set1"), K(4), interpolate=K(False))
lib("approximate_hausdorff_distance", V3, F3, Q3, lambda: I([0, 1, 2]), use_cpp=K(False))
lib("array_correspondence", lambda: I(3, 1, 2, 7), lambda: I(2, 3, 9))
lib("array_correspondence", F3, lambda: I([2, 1, 3], [0, 1, 2], [5, 5, 5]), axis=K(1))
lib("barycentric_coordinates", Q3, lambda: A([0, 0, 0], [0, 0, 0], [0, 1, 0]), lambda: A([1, 0, 0], [1, 0, 0], [1, 1, 1]), lambda: A([0, 1, 0], [0, 1, 2], [5, 1, 0]))
lib("catmull_rom_spline", lambda: A(0, 0.3, 1, 0.75), V3)
lib("compactly_supported_normal", Q2, n=K(3), center=lambda: A(0.1, 0.2))
for f in ("compactly_supported_normal_kernel", "squared_exponential_kernel"):
    lib(f, lambda: Q2() * 0.3, lambda: SQ()[:3] * 0.4, length=K(0.5), derivatives=K((0, 1)))
for f in ("cone", "cylinder", "torus"):
    lib(f, K(4), K(3))
lib("icosphere", K(1))
lib("edge_indices", K(4), closed=K(True))
lib("regular_circle_polyline", K(5))
lib("regular_cube_mesh", K(3), K(2), K(2))
lib("regular_square_mesh", K(3), K(2))
lib("cut_edges", F3, lambda: I([1, 2], [1, 3]))
lib("edge_edge_distance", *[lambda i=i: V3()[i] for i in range(4)])
lib("triangle_triangle_distance", *[lambda i=i: (V3() + 0.0)[i] for i in (0, 1, 2)], *[lambda i=i: V3()[i] + 2.0 for i in (1, 3, 4)])
lib("minimum_distance", V3, F3, lambda: Q3() + 1, lambda: I([0, 1, 2]))
lib("fd_grad", lambda: I(3, 4), lambda: A(0.5, 0.25))
lib("fd_partial_derivative", lambda: I(3, 4), lambda: A(0.5, 0.25), K(1))
lib("fd_interpolate", lambda: A([0.3, 0.4], [1, 0.5]), lambda: I(4, 4), lambda: A(0.5, 0.5), corner=lambda: A(-0.5, -0.25))
lib("grid_laplacian_eigenfunctions", K(3), lambda: I(4, 4), lambda: A(1, 2))
lib("grid_neighbors", lambda: I(3, 3), order=K(1), include_diagonals=K(True))
lib("fixed_dof_solve", SPD, lambda: A(1, 2, 3, 4), lambda: I(2, 0), lambda: A(5, -1))
entry("fixed_dof_solve_precompute", ser("fixed_dof_solve_precompute", lambda o, b: o.solve(b, b[:2])), SPD, lambda: I(2, 0), lambda: [A(1, 2, 3, 4), A(0, 1, 0, -1)])
lib("min_quad_with_fixed", SPD, c=lambda: A(1, 2, 3, 4), A=lambda: sp.csc_matrix(A([1, 1, 0, 1])), b=lambda: A(2), k=lambda: I(2), y=lambda: A(3))
entry("min_quad_with_fixed_precompute", ser("min_quad_with_fixed_precompute", lambda o, c: o.solve(c=c, b=A(2), y=A(3))), SPD, lambda: sp.csc_matrix(A([1, 1, 0, 1])), lambda: I(2), lambda: [A(1, 2, 3, 4), A(0, 1, 0, -1)])
lib("gaussian_process", lambda: Q2(), lambda: A(1, 2, 3), SQ, sigma_n=K(0.5))
lib("gaussian_process", lambda: Q2(), lambda: A(1, 2, 3), SQ, grad_y_train=lambda: Q2() * 2, X_induced=lambda: A([0, 0], [2, 1]), sigma_n=K(0.5))
entry("gaussian_process_precompute", ser("gaussian_process_precompute", lambda o, T: o.predict(T)), Q2, lambda: A(1, 2, 3), lambda: [SQ(), SQ() + 1])
lib("in_quadtree", lambda: A(0.3, 0.3), lambda: tree()[0], lambda: tree()[1], lambda: tree()[2])
lib("initialize_quadtree", lambda: A([0.1, 0.2], [0.8, 0.9], [0.15, 0.7]), max_depth=K(3), graded=K(True), vmin=lambda: A(0, 0), vmax=lambda: A(1, 1))
lib("initialize_aabbtree", V3, F=F3)
entry("traverse_aabbtree", traverse, V3, F3, Q3)
lib("bad_quad_mesh_from_quadtree", *[lambda i=i: tree()[i] for i in range(3)])
lib("quadtree_children", lambda: tree()[2])
lib("quadtree_boundary", lambda: tree()[2], lambda: tree()[5])
for f in ("quadtree_gradient", "quadtree_laplacian"):
    lib(f, *[lambda i=i: tree()[i] for i in (0, 1, 2, 4, 5)])
for gr in (True, False):
    lib("subdivide_quad", lambda: int(tree()[2].shape[0] - 1), *[lambda i=i: tree()[i] for i in range(6)], graded=K(gr))
lib("linear_blend_skinning", V3, lambda: np.ones((5, 2)) / 2, lambda: np.array([np.eye(3), np.diag([-1.0, -1, 1])]), lambda: A([0, 0, 1], [1, 0, 0]))
lib("marching_squares", lambda: A(-1, 1, 1, -1, -1, 1, 1, 1, -1), lambda: A(*itertools.product([0, 1, 2], [0, 1, 2]))[:, ::-1].copy(), K(3), K(3))
lib("matrix_from_function", K(lambda a, b: (a * b).sum(axis=1)), SQ, Q2)
lib("matrix_from_function", K(lambda a, b: (a * b).sum(axis=1) + 1), SQ, Q2, sparsity_pattern=lambda: [I(0, 1, 3), I(2, 0, 1)])
lib("metropolis_hastings", K(lambda x: float(np.exp(-np.sum(x ** 2)))), K(lambda x: x * 0.9 + 0.1), lambda: A(1, 2), num_samples=K(6), rng=lambda: np.random.default_rng(3))
lib("min_l1_with_fixed", G=lambda: sp.csc_matrix(np.eye(4)), Q=SPD, c=lambda: A(1, 2, 3, 4), k=lambda: I(2), y=lambda: A(3))
lib("normalize_points", V3, center=lambda: A(1, 2, 3))
lib("random_points_on_mesh", V3, F3, K(5), rng=lambda: np.random.default_rng(5), per_element_likelihood=lambda: A(1, 2, 0.5), return_indices=K(True))
lib("random_points_on_mesh", V3, F3, K(5), rng=lambda: np.random.default_rng(5))
lib("ray_box_intersect", lambda: A(0, 0, -3), lambda: A(0.1, 0, 1), lambda: A(0, 0, 0), lambda: A(2, 2, 2))
lib("ray_mesh_intersect", lambda: Q3() * 0.25 - A(0, 0, 3), lambda: A([0.01, 0.02, 1], [0, 0, 1], [0.1, 0, 1]), V3, F3, use_embree=K(False))
lib("ray_polyline_intersect", lambda: A(-1, 0.3), lambda: A(1, 0.1), SQ)
lib("ray_triangle_intersect", lambda: A(0.2, 0.2, -3), lambda: A(0.01, 0, 1), *[lambda i=i: V3()[i] for i in range(3)])
lib("particle_swarm", K(lambda x: float(np.sum((x - 0.3) ** 2))), lambda: A(-1, -1), lambda: A(1, 2), n_particles=K(4), max_iter=K(3), use_cpp=K(False))
entry("read_mesh", mesh_file, K("read"), return_UV=K(True), return_N=K(True))
entry("write_mesh", mesh_file, K("write"), V3, F3, lambda: A([0, 0], [1, 0], [0, 1]), lambda: I([0, 1, 2], [0, 1, 2], [2, 1, 0]), lambda: A([0, 0, 1]), lambda: I([0, 0, 0], [0, 0, 0], [0, 0, 0]))
lib("remove_duplicate_vertices", lambda: V3()[[0, 1, 0, 2, 1]], epsilon=K(1e-3), faces=lambda: I([0, 1, 3], [2, 4, 3]))
lib("remove_unreferenced", V3, lambda: I([0, 1, 4]), return_maps=K(True))
lib("rotation_matrix_from_vectors", lambda: A(1, 2, 3), lambda: A(-3, 1, 1))
lib("rotation_matrix_from_vectors", lambda: A(1, 2), lambda: A(-3, 1))
lib("signed_distance", Q2, SQ, ESQ, use_cpp=K(False))
lib("signed_distance_polygon", Q2, SQ)
lib("squared_distance", Q3, V3, F3, use_cpp=K(False), use_aabb=K(True))
lib("squared_distance", Q3, V3, F3, use_cpp=K(False))
lib("squared_distance", Q2, SQ, ESQ)
lib("squared_distance_to_element", lambda: A(0.3, 0.2, 1), V3, lambda: I(0, 1, 2))
lib("unsigned_distance", Q3, V3, F3, use_cpp=K(False))
lib("stochastic_poisson_surface_reconstruction", lambda: SQ() * 0.5 + 0.25, lambda: A([-1, 0], [0, -1], [1, 0], [0, 1]), gs=lambda: I(11, 11), h=lambda: A(0.15, 0.15), corner=lambda: A(-0.25, -0.25), output_variance=K(True))
for m in ("upsample", "loop"):
    lib("subdivide", V3, F3, method=K(m), iters=K(2), return_matrix=K(True))
lib("subdivide", SQ, ESQ)
lib("winding_number", Q2, SQ, ESQ)


def make(name):
    fn, args, kw = CAT[name]
    return fn, [a() for a in args], {k: a() for k, a in kw.items()}


def call(fn, args, kw):
    import contextlib, io
    seed = np.random.get_state()
    f = getattr(G, fn) if isinstance(fn, str) else fn
    with contextlib.redirect_stdout(io.StringIO()):
        if fn == "particle_swarm":      # draws from the global generator by design
            np.random.seed(7)
            try:
                return f(*args, **kw)
            finally:
                np.random.set_state(seed)
        return f(*args, **kw)


def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, [canon(y) for y in x.ravel()])
        return ("a", x.shape, x.dtype.kind, x.tolist())
    if sp.issparse(x):
        return ("s",) + canon(x.toarray())
    if isinstance(x, (list, tuple)):
        return ("l", [canon(y) for y in x])
    if isinstance(x, (np.generic,)):
        return canon(np.asarray(x))
    if isinstance(x, (int, float, bool)):
        return ("a", (), "f", float(x))
    if isinstance(x, (str, type(None))):
        return x
    return ("o", type(x).__name__)


def same(x, y, tol=1e-9):
    if isinstance(x, tuple) and x and x[0] == "s" and isinstance(y, tuple) and y[0] == "s":
        x, y = x[1:], y[1:]
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "a" and y[0] == "a":
        if tuple(x[1]) != tuple(y[1]):
            return False
        a, b = np.array(x[3]), np.array(y[3])
        if a.dtype.kind in "US" or b.dtype.kind in "US":
            return x[3] == y[3]
        with np.errstate(all="ignore"):
            return bool(np.all((a == b) | (np.isnan(a.astype(float)) & np.isnan(b.astype(float))) | (np.abs(a.astype(float) - b.astype(float)) <= tol * (1 + np.abs(b.astype(float))))))
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "l" and y[0] == "l":
        return len(x[1]) == len(y[1]) and all(same(p, q, tol) for p, q in zip(x[1], y[1]))
    return x == y


def snap(x):
    """exact image of an argument, storage included"""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, x.tobytes(), x.flags.writeable)
    if sp.issparse(x):
        y = x.tocoo()
        return ("s", x.format, x.shape, snap(x.toarray()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, dict):
        return sorted((k, snap(v)) for k, v in x.items())
    return repr(x) if isinstance(x, (int, float, str, bool, type(None), np.generic)) else None


def trash(x):
    """what a caller may do to a result: overwrite everything in it"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                trash(y)
        elif x.size:
            try:
                x[...] = 77
            except ValueError:
                pass
    elif sp.issparse(x):
        if hasattr(x, "data") and isinstance(x.data, np.ndarray):
            x.data[...] = 77
    elif isinstance(x, list):
        for y in x:
            trash(y)
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            trash(y)


def forked(fn):
    """result of fn() in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(0)
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("error", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died")


BASE = {}


def base(name):
    if name not in BASE:
        BASE[name] = forked(lambda: canon(call(*make(name))))
    return BASE[name]


NAMES = list(CAT)


def env():
    st = np.random.get_state()
    return (np.geterr(), (st[0], st[1].tobytes(), st[2]), os.getcwd(), np.get_printoptions()["precision"])


# ------------------------------------------------------------------ arguments
def names_cases(tier):
    for n in NAMES:
        yield [n]


@scenario("arguments", names_cases, "every catalogued call leaves its arguments, the global random generator and the floating-point settings alone")
def arguments(case, ctx):
    name, = case

    def go():
        fn, args, kw = make(name)
        before, e0 = (snap(args), snap(kw)), env()
        call(fn, args, kw)
        after, e1 = (snap(args), snap(kw)), env()
        bad = [f"argument {i}" for i, (x, y) in enumerate(zip(before[0][1], after[0][1])) if x != y] + [f"argument {k}" for (k, x), (_, y) in zip(before[1], after[1]) if x != y]
        return bad, e0 == e1
    st, r = forked(go)
    ctx.transitions += 1
    if st != "ok":
        ctx.fail("crash", f"{name}: {r}")
        return
    ctx.check(not r[0], "argument-changed", f"{name} changed {r[0]}")
    ctx.check(r[1], "global-state", f"{name} changed the global random generator or floating-point settings")


# ------------------------------------------------------------------ histories
@scenario("history", names_cases, "every rotation of the catalogue as one history, each call's result overwritten by the caller before the next one; thorough: also every ordered pair from a fresh process")
def history(case, ctx):
    a, = case
    for n in NAMES:
        base(n)

    def go():
        fn, args, kw = make(a)
        r = call(fn, args, kw)
        trash(r)
        bad = []
        if ctx.tier != "quick":      # every ordered pair in its own process
            for b in NAMES:
                st, x = forked(lambda: canon(call(*make(b))))
                if st != BASE[b][0] or not same(x, BASE[b][1], 0.0):
                    bad.append((b, repr(x)[:120]))
        # and then all calls in one process: a history of the whole catalogue, starting with a
        i = NAMES.index(a)
        for b in NAMES[i:] + NAMES[:i]:
            fn, args, kw = make(b)
            r = call(fn, args, kw)
            if not same(canon(r), BASE[b][1], 0.0):
                bad.append((b + " (long history)", repr(canon(r))[:120]))
            trash(r)
        return bad
    st, r = forked(go)
    ctx.transitions += len(NAMES)
    ctx.extra_states.update(hash8((a, b)) for b in NAMES)
    if st != "ok":
        ctx.fail("crash", f"{a}: {r}")
        return
    ctx.check(not r, "depends-on-history", lambda: f"after {a}: {[x[0] for x in r]}: {r[0][1]}")


# ------------------------------------------------------------------ storage
def rep(x, how):
    if sp.issparse(x):
        return x.tocsr() if how == "csr" else x
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * s + 1 for s in x.shape), 123, x.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in x.shape)] if x.ndim else big
        v[...] = x
        return v
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return x[sl].copy()[sl]
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "transposed":
        return x.T.copy().T
    if how in ("int32", "int64") and x.dtype.kind == "i":
        return x.astype(how)
    return x


HOWS = ["fortran", "strided", "reversed", "readonly", "int32", "csr"]


def rep_cases(tier):
    for n in NAMES:
        for h in HOWS:
            yield [n, h]


@scenario("storage", rep_cases, "every catalogued call with each array argument alone, every pair, and all of them stored differently", nontrivial=lambda c: True)
def storage(case, ctx):
    name, how = case
    want = base(name)
    if want[0] != "ok":
        ctx.fail("crash", f"{name}: {want[1]}")
        return
    fn, args, kw = make(name)
    idx = [("p", i) for i, x in enumerate(args)] + [("k", k) for k in kw]

    def changed(i):
        x = args[i[1]] if i[0] == "p" else kw[i[1]]
        xs = x if isinstance(x, list) else [x]
        return any((isinstance(y, np.ndarray) and y.ndim and (how not in ("int32",) or y.dtype.kind == "i") and how != "csr") or (sp.issparse(y) and how == "csr") for y in xs)
    idx = [i for i in idx if changed(i)]
    subsets = [c for r in range(1, len(idx) + 1) for c in itertools.combinations(idx, r)] if len(idx) <= 3 or ctx.tier != "quick" else [(i,) for i in idx] + [tuple(idx)]
    if len(idx) > 6:
        subsets = [c for r in (1, 2, len(idx)) for c in itertools.combinations(idx, r)]
    for sub in subsets:
        fn, args, kw = make(name)
        for kind, i in sub:
            t = args if kind == "p" else kw
            t[i] = [rep(y, how) for y in t[i]] if isinstance(t[i], list) else rep(t[i], how)
        st, got = forked(lambda: canon(call(fn, args, kw)))
        ctx.transitions += 1
        ctx.check(st == "ok", "storage-error", lambda: f"{name} with {how} arguments {sub}: {got}")
        if st == "ok":
            ctx.check(same(got, want[1]), "storage-result", lambda: f"{name} with {how} arguments {sub}: got {str(got)[:200]}, want {str(want[1])[:200]}")
