"""C38 Leaving out optional arguments: every subset of them, against the documented default values and the documented argument order.

The table below is the documentation (docstrings and displayed signatures), not the code: each entry gives, for one
public function, small calls and, in signature order, each optional argument with the value(s) it is documented to
default to and other values it accepts."""
import contextlib, importlib, io, itertools, json, math, os, tempfile, warnings
import numpy as np
import scipy.sparse as sp
from ..core import scenario
from ..ext import Env, extended
from . import c35
from .c36 import CUBE, TRI as _TRI, make_env

PROPERTY = "C38"
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
ASSUMPTIONS = ["random draws are fixed by seeding the generator both calls draw from",
               "the compiled extension is a recording stand-in that answers a fixed value derived from what it is asked"]

OMIT = object()


class Eq:
    """a documented default that depends on the other arguments"""

    def __init__(self, f, says):
        self.f, self.says = f, says


TABLE = {}


def fn(name, bases, *opts):
    """bases: functions (g) -> list of positional arguments; opts: (name, default or [defaults], alternatives...)"""
    TABLE[name] = (bases, [(o[0], o[1] if isinstance(o[1], list) else [o[1]], list(o[2:])) for o in opts])


A = lambda x: np.array(x, float)
I = lambda x: np.array(x, int)

SQ = A([[0, 0], [1, 0], [1, 1], [0, 1], [.4, .45]])
SQF = I([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]])
TET = A([[0, 0, 0], [1, 0, 0], [.2, .9, 0], [.3, .2, .8]])
TETF = I([[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])
PATCH = np.hstack([SQ, A([[0], [.1], [0], [.2], [.5]])])
THIN = A([[0, 0, 0], [1, 0, 0], [1, 1e-8, 0], [1, -1e-8, 0]])
TRI = I(_TRI)
NEEDLE = A([[0, 0, 0], [1, 0, 0], [1, 1e-8, 0], [1, 0, 1e-8]])
POLY = A([[0, 0], [2, 0], [2.2, 1.1], [.9, .7], [-.1, 1.5]])
POLYE = I([[0, 1], [1, 2], [2, 3], [3, 4], [4, 0]])
TWO = I([[0, 1, 2], [1, 2, 3], [4, 5, 6]])
LOOPS = I([[0, 1, 2], [0, 2, 3], [4, 5, 6]])
ODD = I([[0, 1, 2], [1, 2, 3]])
TETS = I([[0, 1, 2, 3], [1, 2, 3, 4]])


def lsq(V, F):
    return np.stack([((V[F[:, (i + 2) % 3]] - V[F[:, (i + 1) % 3]]) ** 2).sum(1) for i in range(3)], axis=1)


n_of = lambda j: Eq(lambda g, a: int(a[j].max()) + 1, "number of vertices")
intr = [lambda g: [lsq(TET, TETF), TETF], lambda g: [lsq(PATCH, SQF), SQF]]
extr = [lambda g: [TET, TETF], lambda g: [PATCH, SQF], lambda g: [SQ, SQF]]
three = extr[:2]

fn("angle_defect", three + [lambda g: [NEEDLE, TETF]], ("use_small_angle_approx", True, False))
fn("angle_defect_intrinsic", intr + [lambda g: [lsq(NEEDLE, TETF), TETF]], ("n", [None, n_of(1)], 7), ("use_small_angle_approx", True, False))
fn("tip_angles", extr + [lambda g: [NEEDLE, TETF]], ("use_small_angle_approx", True, False))
fn("tip_angles_intrinsic", intr + [lambda g: [lsq(THIN, I([[0, 1, 2]])), I([[0, 1, 2]])]], ("use_small_angle_approx", True, False))
fn("apply_colormap", [lambda g: [g.colormap("RdBu", 10), A([.2, .31, 1.7, .9, 1.2])]],
   ("min", [None, .2], .4), ("max", [None, 1.7], 1.5), ("log", False, True), ("piecewise_linear", False, True))
fn("array_correspondence", [lambda g: [I([[1, 2], [3, 4], [5, 6]]), I([[3, 4], [1, 2], [7, 8]])], lambda g: [I([[1, 2], [3, 4]]), I([[3, 1], [4, 2]])],
                            lambda g: [I([4, 5, 6]), I([6, 4])]], ("axis", None, 0, 1, -1))
fn("biharmonic_energy", three, ("bc", "mixedfem_zero_neumann", "hessian"))
fn("biharmonic_energy_intrinsic", intr, ("n", [None, n_of(1)], 6), ("bc", "mixedfem_zero_neumann"))
fn("boundary_loops", [lambda g: [LOOPS], lambda g: [ODD], lambda g: [SQF]], ("allow_wrong_orientations", True, False))
fn("colormap", [lambda g: ["BuGn", 7], lambda g: ["RdBu", 3], lambda g: ["RdBu", 30]], ("interpolate", True, False))
PTS = A([[0, 0], [.3, -.2], [.5, 1], [.1, .15]])
fn("compactly_supported_normal", [lambda g: [PTS], lambda g: [A([0, .3, .7, -1.2])[:, None]]],
   ("n", 2, 3), ("sigma", 1.0, .5), ("center", [None, Eq(lambda g, a: np.zeros(a[0].shape[1]), "the origin")], Eq(lambda g, a: np.full(a[0].shape[1], .1), "")),
   ("second_derivative", -1, 0))
for k in ("compactly_supported_normal_kernel", "squared_exponential_kernel"):
    fn(k, [lambda g: [PTS, PTS[::-1] * .5 + .05], lambda g: [PTS[:, :1], PTS[::-1, :1] + .05]], ("length", .2, .7), ("scale", 1, 2), ("derivatives", (-1, -1), (0, -1), (0, 0)))
fn("connected_components", [lambda g: [TWO], lambda g: [SQF]], ("return_face_indices", False, True))
fn("cotangent_laplacian_intrinsic", intr, ("n", [None, n_of(1)], 8))
fn("massmatrix_intrinsic", intr, ("n", [None, n_of(1)], 8), ("type", "voronoi", "barycentric", "full"))
fn("massmatrix", extr + [lambda g: [POLY, POLYE]], ("type", "voronoi", "barycentric", "full"))
fn("dec_d0", [lambda g: [TETF], lambda g: [SQF]], ("E", [None, Eq(lambda g, a: g.halfedge_edge_map(a[0], assume_manifold=True)[1], "halfedge_edge_map")], Eq(lambda g, a: g.edges(a[0])[::-1], "")), ("n", [None, n_of(0)], 8))
E2H = Eq(lambda g, a: g.halfedge_edge_map(a[-1], assume_manifold=True)[3], "as returned by halfedge_edge_map")
fn("dec_d1", [lambda g: [TETF], lambda g: [SQF]], ("E_to_he", [None, E2H]))
fn("dec_h0_intrinsic", intr, ("n", [None, n_of(1)], 8))
fn("dec_h0inv_intrinsic", intr, ("n", [None, n_of(1)]))
for k in ("dec_h1", "dec_h1inv"):
    fn(k, three, ("E_to_he", [None, E2H]))
    fn(k + "_intrinsic", intr, ("E_to_he", [None, E2H]))
fn("doublearea", extr + [lambda g: [SQ, SQF[:, ::-1]]] + [lambda g: [POLY, POLYE]], ("signed", False, True))
fn("edge_indices", [lambda g: [3], lambda g: [1]], ("closed", False, True))
for k in ("edges", "faces"):
    fn(k, [lambda g: [SQF], lambda g: [I([[0, 1, 2], [1, 0, 3], [0, 1, 4]])]] if k == "edges" else [lambda g: [TETS], lambda g: [I([[0, 1, 2, 3], [0, 2, 1, 4], [0, 1, 2, 5]])]],
       ("return_boundary_indices", False, True), ("return_interior_indices", False, True), ("return_nonmanifold_indices", False, True))
fn("fd_interpolate", [lambda g: [A([[.2, .3], [.4, .1]]), I([3, 4]), A([.25, .2])]], ("corner", [None, Eq(lambda g, a: np.zeros(2), "the origin")], Eq(lambda g, a: A([-.1, .05]), "")))
fn("fixed_dof_solve", [lambda g: [sp.csr_matrix(A([[4, 1, 0], [1, 3, 1], [0, 1, 5]]))]],
   ("b", [None, Eq(lambda g, a: np.zeros(3), "zero")], Eq(lambda g, a: A([1, 2, 3]), "")), ("k", None, Eq(lambda g, a: I([1]), "")), ("y", None, Eq(lambda g, a: A([2]), "")))
GP = [lambda g: [PTS, A([.1, .4, -.3, .2]), A([[.2, .1], [.6, .3]])]]
fn("gaussian_process", GP, ("kernel", [None, Eq(lambda g, a: g.squared_exponential_kernel, "squared exponential")], Eq(lambda g, a: g.compactly_supported_normal_kernel, "")),
   ("X_induced", None, Eq(lambda g, a: PTS[:2], "")), ("grad_y_train", None, Eq(lambda g, a: PTS * .5, "")), ("verbose", False, True), ("lump_K3", False, True),
   ("compact_kernel", False, True), ("sigma_n", .02, .3))
fn("grad_intrinsic", intr, ("n", [None, n_of(1)], 8))
fn("grid_neighbors", [lambda g: [I([3, 4])], lambda g: [I([3, 2, 3])]], ("order", 1, 2), ("include_diagonals", False, True), ("include_self", False, True), ("output_unique", True, False))
fn("halfedge_edge_map", [lambda g: [SQF], lambda g: [TETF]], ("assume_manifold", True, False))
fn("icosphere", [lambda g: []], ("n", 0, 1))
fn("initialize_aabbtree", [lambda g: [POLY], lambda g: [TET]], ("F", [None, Eq(lambda g, a: np.arange(len(a[0]))[:, None], "points")], Eq(lambda g, a: I([[0, 1], [2, 3]]), "")),
   ("vmin", [None, Eq(lambda g, a: a[0].min(0), "box")], Eq(lambda g, a: a[0].min(0) - 1, "")), ("vmax", [None, Eq(lambda g, a: a[0].max(0), "box")], Eq(lambda g, a: a[0].max(0) + 1, "")))
fn("initialize_quadtree", [lambda g: [PTS], lambda g: [A([[0, 0], [1, 1.]])]], ("max_depth", 8, 3), ("min_depth", 1, 3), ("graded", False, True),
   ("vmin", [None], Eq(lambda g, a: A([-2, -2]), "")), ("vmax", [None], Eq(lambda g, a: A([2, 2]), "")))
U0 = SQ * .1
fn("linear_elasticity", [lambda g: [SQ, SQF, U0]], ("dt", .1, .4), ("bb", None), ("bc", None), ("Ud0", [None, Eq(lambda g, a: 0 * SQ, "zero")], Eq(lambda g, a: SQ * .3, "")),
   ("fext", [None, Eq(lambda g, a: 0 * SQ, "zero")], Eq(lambda g, a: SQ[::-1] * .2, "")), ("K", 1.75, 2.5), ("mu", .0115, .2),
   ("volumes", [None, Eq(lambda g, a: .5 * g.doublearea(SQ, SQF), "areas")], Eq(lambda g, a: A([1, 2, 3, 4]), "")),
   ("mass", [None, Eq(lambda g, a: g.massmatrix(SQ, SQF), "mass matrix")], Eq(lambda g, a: sp.identity(5).tocsr(), "")))
fn("linear_elasticity_stiffness", [lambda g: [SQ, SQF]], ("K", 1.75, 2.5), ("mu", .0115, .2), ("volumes", [None, Eq(lambda g, a: .5 * g.doublearea(SQ, SQF), "areas")]),
   ("mass", [None, Eq(lambda g, a: g.massmatrix(SQ, SQF), "mass matrix")]))
fn("matrix_from_function", [lambda g: [lambda x, y: (x * y).sum(1) + 1., PTS, PTS[:3]]], ("sparse", True, False), ("sparsity_pattern", None, Eq(lambda g, a: [I([0, 1, 1]), I([2, 0, 1])], "")))
fn("metropolis_hastings", [lambda g: [lambda x: math.exp(-float(np.sum(np.abs(x)))), lambda x: x + .5 * np.sin(7 * x + 1), A([.1])]],
   ("num_samples", 100, 7), ("rng", Eq(lambda g, a: np.random.default_rng(5), "given")))
QQ = sp.csc_matrix(A([[4, 1, 0], [1, 3, 1], [0, 1, 5]]))
fn("min_quad_with_fixed", [lambda g: [QQ]], ("c", [None, Eq(lambda g, a: np.zeros(3), "zero")], Eq(lambda g, a: A([1, -2, 3]), "")), ("A", None, Eq(lambda g, a: sp.csc_matrix(A([[1, 1, 1]])), "")),
   ("b", None, Eq(lambda g, a: A([2]), "")), ("k", None, Eq(lambda g, a: I([2]), "")), ("y", None, Eq(lambda g, a: A([1.5]), "")))
fn("normalize_points", [lambda g: [POLY], lambda g: [TET]], ("center", [None, Eq(lambda g, a: np.zeros(a[0].shape[1]), "zero")], Eq(lambda g, a: np.ones(a[0].shape[1]), "")))
fn("particle_swarm", [lambda g: [lambda x: float(((x - .3) ** 2).sum()), A([-1, -1]), A([1, 2])]],
   ("n_particles", 100, 5), ("max_iter", 100, 3), ("momentum", .9, .4), ("phi", .1, .5), ("verbose", False, True), ("topology", "full", "ring"), ("use_cpp", True, False))
fn("per_face_normals", extr + [lambda g: [POLY, POLYE]], ("unit_norm", True, False))
fn("random_points_on_mesh", [lambda g: [TET, TETF, 20], lambda g: [POLY, POLYE, 20]], ("rng", Eq(lambda g, a: np.random.default_rng(5), "given")), ("color", "white"),
   ("per_element_likelihood", [None, Eq(lambda g, a: np.ones(len(a[1])), "uniform")], Eq(lambda g, a: np.arange(len(a[1])) + 1., "")), ("return_indices", False, True))
fn("ray_polyline_intersect", [lambda g: [A([-3, .5]), A([1, 0]), POLY], lambda g: [A([-90, .5]), A([1, 0]), POLY], lambda g: [A([-105, .5]), A([1, 0]), POLY]],
   ("max_distance", 100.0, 2.0), ("EC", [None, Eq(lambda g, a: POLYE, "closed polyline")], Eq(lambda g, a: POLYE[1:3], "")))
fn("ray_triangle_intersect", [lambda g: [A([.2, .2, -1]), A([0, 0, 1.]), TET[0], TET[1], TET[2]], lambda g: [A([.2, .2, -1]), A([0, 0, -1.]), TET[0], TET[1], TET[2]]], ("return_negative", False, True))
fn("regular_cube_mesh", [lambda g: [3]], ("ny", [None, 3], 2), ("nz", [None, Eq(lambda g, a, ny=3: ny, "ny")], 4), ("type", "rotationally-symmetric", "five", "reflectionally-symmetric", "hex"))
fn("regular_square_mesh", [lambda g: [3]], ("ny", [None, 3], 2))
fn("remove_duplicate_vertices", [lambda g: [A([[0, 0], [0, 1e-3], [0, 0], [1, 1]])]], ("epsilon", 0.0, .01), ("faces", None, Eq(lambda g, a: I([[0, 1, 3], [2, 1, 3]]), "")))
fn("remove_unreferenced", [lambda g: [SQ, I([[0, 2, 4]])]], ("return_maps", False, True))
fn("squared_distance", [lambda g: [PTS, POLY], lambda g: [A([[.1, .2, .3], [2, 2, 2]]), TET]], ("F", None, Eq(lambda g, a: I([[0, 1], [2, 3]]), "")), ("use_cpp", False), ("use_aabb", False, True),
   ("C", None), ("W", None), ("CH", None), ("tri_ind", None), ("split_dir", None))
fn("stochastic_poisson_surface_reconstruction", [lambda g: [A([[.2, .5], [.5, .2], [.8, .5], [.5, .8]]), A([[-1, 0], [0, -1], [1, 0], [0, 1]]), I([8, 9]), A([.14, .125]), A([0, 0])]],
   ("output_variance", False, True), ("sigma_n", 0.0, .1), ("sigma", .05, .2), ("solve_subspace_dim", 0, 8), ("verbose", False, True), ("prior_fun", None, Eq(lambda g, a: lambda x: .1 * x, "")))
fn("subdivide", [lambda g: [PATCH, SQF], lambda g: [POLY, POLYE]], ("method", "upsample", "loop"), ("iters", 1, 2), ("return_matrix", False, True))
fn("subdivide_quad", [lambda g: quad(g, 0), lambda g: quad(g, 1)], ("graded", True, False))


def quad(g, which):
    """a leaf of the deepest level (its neighbours are coarser) and a leaf of the first one"""
    T = g.initialize_quadtree(PTS, max_depth=4)
    leaf = [i for i in range(len(T[0])) if T[2][i, 1] == -1]
    return [sorted(leaf, key=lambda i: -T[4][i])[-which], *T]


fn("torus", [lambda g: [5, 4]], ("R", 1.0, 2.0), ("r", .5, .25))


def trav(g):
    C, W, CH, PAR, D, T, S = g.initialize_aabbtree(POLY, POLYE)
    log = []

    def go(q, *a):
        log.append(int(q))
        return True
    return [C, W, CH, T, S, go], log


def bfs(g, a):
    def add(queue, CH, q):
        for c in CH[q]:
            queue.append(c)
    return add


fn("traverse_aabbtree", [lambda g: trav(g)], ("add_to_queue", [None, Eq(bfs, "breadth first")], Eq(lambda g, a: lambda q, CH, i: q.insert(0, CH[i, 0]) or q.insert(0, CH[i, 1]), "")))
# ------------------------------------------------------------------ functions of the compiled extension
GRID3 = np.stack(np.meshgrid(np.linspace(0, 1, 3), np.linspace(0, 1, 3), np.linspace(0, 1, 3), indexing="ij"), -1).reshape(-1, 3, order="F")
SDF3 = np.linalg.norm(GRID3 - .5, axis=1) - .4
EXT = {}


def fx(name, bases, *opts):
    fn(name, bases, *opts)
    EXT[name] = 1


fx("decimate", three, ("face_ratio", .1, .5), ("num_faces", None, 3), ("method", "shortest_edge", "qslim"))
fx("remesh_botsch", three, ("i", 10, 3), ("h", [None], .2), ("project", True, False), ("feature", [Eq(lambda g, a: np.array([], dtype=int), "no feature")], Eq(lambda g, a: I([1]), "")),
   ("feature_edges", None, Eq(lambda g, a: I([[0, 1]]), "")), ("detect_feature_edges", False, True), ("feature_dihedral_threshold", 45.0, 20.0))
fx("lazy_cage", [lambda g: [TET, TETF]], ("grid_size", 50, 20), ("max_iter", 10, 2), ("num_faces", 100, 6), ("force_output", True, False))
fx("marching_cubes", [lambda g: [SDF3, GRID3, 3, 3, 3]], ("isovalue", 0.0, .1))
fx("lazy_cage#touching", [lambda g: [TET, TETF]], ("grid_size", 50), ("max_iter", 10, 2), ("num_faces", 100), ("force_output", True, False))
fx("offset_surface", [lambda g: [TET, TETF, .1]], ("grid_size", 100, 30))
fx("dual_contouring_of_signed_distance_data", [lambda g: [SDF3, GRID3, 3, 3, 3]], ("isovalue", 0.0, .1), ("outer_iters", 100, 5), ("inner_iters", 100, 6), ("batch_size", 200000, 7),
   ("hermite_update", True, False), ("mu", .1, .3), ("dc_weight", .02, .4), ("svd_threshold", .01, .5), ("new_hermite_pos_weight", .2, .6), ("new_face_pos_weight", .2, .7),
   ("new_hermite_normal_weight", .2, .8), ("verbose", False))
fx("mesh_boolean", [lambda g: [TET, TETF, TET + .1, TETF]], ("boolean_type", "union", "intersection", "difference"))
fx("point_cloud_to_mesh", [lambda g: [TET, TET * .5], lambda g: [SQ, SQ * .5]], ("method", "PSR"), ("psr_screening_weight", 10.0, 2.), ("psr_depth", 10, 4), ("psr_outer_boundary_type", "Neumann", "Dirichlet"),
   ("verbose", False))
fx("ray_mesh_intersect", [lambda g: [A([[.3, .3, -1]]), A([[0, 0, 1.]]), TET, TETF]], ("use_embree", True, False), ("C", None), ("W", None), ("CH", None), ("tri_ind", None), ("intersector", None))
fx("signed_distance#3", [lambda g: [GRID3, TET, TETF]], ("use_cpp", True, False), ("cpp_aabb", None, Eq(lambda g, a: g.squared_distance_precompute(TET, TETF), "")),
   ("fwn_bvh", None, Eq(lambda g, a: g.fast_winding_number_precompute(TET, TETF), "")))
fx("unsigned_distance#3", [lambda g: [GRID3, TET, TETF]], ("use_cpp", True, False), ("cpp_aabb", None, Eq(lambda g, a: g.squared_distance_precompute(TET, TETF), "")))
fx("squared_distance#3", [lambda g: [GRID3, TET, TETF]], ("use_cpp", False, True), ("use_aabb", False, True), ("C", None), ("W", None), ("CH", None), ("tri_ind", None), ("split_dir", None),
   ("cpp_aabb", None, Eq(lambda g, a: g.squared_distance_precompute(TET, TETF), "")))
for k in ("fast_winding_number", "winding_number"):
    fx(k, [lambda g: [GRID3, TET, TETF]], ("fwn_bvh", None, Eq(lambda g, a: g.fast_winding_number_precompute(TET, TETF), "")))
fx("signed_distance#2", [lambda g: [PTS, POLY]], ("F", [None, Eq(lambda g, a: POLYE, "closed polyline")], Eq(lambda g, a: POLYE[:4], "")), ("use_cpp", True, False))
fx("unsigned_distance#2", [lambda g: [PTS, POLY]], ("F", [None, Eq(lambda g, a: POLYE, "closed polyline")], Eq(lambda g, a: POLYE[:4], "")), ("use_cpp", True, False))
fx("biharmonic_energy#ext", three, ("bc", "mixedfem_zero_neumann", "hessian", "curved_hessian"))
fx("biharmonic_energy_intrinsic#ext", intr, ("n", [None, n_of(1)]), ("bc", "mixedfem_zero_neumann", "curved_hessian"))
fx("particle_swarm#ext", [lambda g: [lambda x: float(((x - .3) ** 2).sum()), A([-1, -1]), A([1, 2])]],
   ("n_particles", 100, 5), ("max_iter", 100, 3), ("momentum", .9, .4), ("phi", .1, .5), ("verbose", False), ("topology", "full", "ring"), ("use_cpp", True, False))
fx("approximate_hausdorff_distance", [lambda g: [TET, TETF, TET + .2, TETF]], ("use_cpp", True, False))
TRANS = [A([0, 0, 0]), A([1, 0, 0]), A([1, 2, 0])]
ROT = [np.eye(3), A([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.eye(3)]
fx("swept_volume", [lambda g: [TET, TETF]], ("transformations", None, Eq(lambda g, a: [np.eye(4), np.diag([2, 2, 2, 1.])], "")), ("rotations", None, Eq(lambda g, a: ROT, "")),
   ("translations", Eq(lambda g, a: TRANS, "given")), ("scales", [None, Eq(lambda g, a: [1., 1., 1.], "no scaling")], Eq(lambda g, a: [1., 2., .5], "")),
   ("align_rotations_with_velocity", False, True), ("eps", .05, .2), ("num_seeds", 100, 9), ("num_faces", None, 2), ("verbose", False))


def grid2(n):
    return A(list(itertools.product(np.linspace(-1, 2, n), repeat=2)))


up = lambda f: Eq(lambda g, a: f(len(a[0]), a[0].shape[1]), "")
for n in (3, 5):
    fx("reach_for_the_arcs" + "#" * (n == 5) + "5" * (n == 5), [lambda g, n=n: [grid2(n), np.linalg.norm(grid2(n) - .5, axis=1) - .7]],
       ("rng_seed", 3452, 11), ("return_point_cloud", False, True), ("fine_tune_iters", 3, 1), ("batch_size", 10000, 4), ("num_rasterization_spheres", 0, 3), ("screening_weight", 10.0, 2.),
       ("rasterization_resolution", [None, up(lambda n, d: 64 * math.ceil(n ** (1 / d) / 16))], 6), ("max_points_per_sphere", 3, 1),
       ("n_local_searches", [None, up(lambda n, d: math.ceil(2 * n ** (1 / d)))], 4), ("local_search_iters", 20, 2), ("local_search_t", .01, .3), ("tol", 1e-4, .01),
       ("clamp_value", math.inf, .5), ("force_cpu", False, True), ("parallel", False, True), ("verbose", False))
fx("matryoshka", [lambda g: [CUBE, TRI]],
   ("VB", None), ("FB", None), ("optimize", "all", "rigid"),
   ("R", [None], Eq(lambda g, a: ROT[1], "")), ("c", None, Eq(lambda g, a: A([.1, 0, 0]), "")), ("cut_point", None, Eq(lambda g, a: A([0, 0, .1]), "")),
   ("cut_normal", None, Eq(lambda g, a: A([0, 1., 0]), "")), ("a_plus", None), ("a_minus", None), ("n_samples", 200, 20), ("n_particles", 30, 4), ("max_iter", 40, 2),
   ("scale_tol", 1e-3, .1), ("warm_start", False, True), ("verbose", False), ("seed", Eq(lambda g, a: 4, "given")))

fx("matryoshka#own", [lambda g: [CUBE, TRI]], ("VB", Eq(lambda g, a: CUBE, "given")), ("FB", Eq(lambda g, a: TRI, "given")), ("optimize", "all", "rigid"),
   ("R", [None], Eq(lambda g, a: ROT[1], "")), ("c", None, Eq(lambda g, a: A([.1, 0, 0]), "")), ("cut_point", None, Eq(lambda g, a: A([0, 0, .1]), "")),
   ("cut_normal", None, Eq(lambda g, a: A([0, 1., 0]), "")), ("a_plus", None), ("a_minus", None), ("n_samples", 200, 20), ("n_particles", 30), ("max_iter", 40),
   ("scale_tol", 1e-3), ("warm_start", False, True), ("verbose", False), ("seed", Eq(lambda g, a: 4, "given")))


fn("grad", [lambda g: [A([[0], [1], [1.5], [4]])]], ("F", [None, Eq(lambda g, a: I([[0, 1], [1, 2], [2, 3]]), "ordered polyline")]))
NOTHING = sp.csr_array((3, 3))
fn("min_l1_with_fixed", [lambda g: []],
   ("G", [Eq(lambda g, a: sp.csr_array(A([[1, 2, 0], [0, 1, -1]])), "given")]), ("Q", [None, Eq(lambda g, a: NOTHING, "0")], Eq(lambda g, a: sp.csr_array(QQ), "")), ("L", None),
   ("c", [None, Eq(lambda g, a: np.zeros(3), "zero")], Eq(lambda g, a: A([.1, -.2, .05]), "")),
   ("k", Eq(lambda g, a: I([2]), "given")), ("y", Eq(lambda g, a: A([1.5]), "given")),
   ("A", Eq(lambda g, a: sp.csr_array(A([[1, 1, 1]])), "given")), ("b", Eq(lambda g, a: A([[2]]), "given")),
   ("d", 1, 2), ("verbose", False, True), ("params", [None, Eq(lambda g, a: {}, "empty")], Eq(lambda g, a: dict(eps_abs=1e-3, eps_rel=1e-3), "")), ("solver", [None, "scs"]))
RING = A([[math.cos(t), math.sin(t)] for t in 2 * math.pi * np.arange(7) / 7])
FLOW = [("linesearch", [None, True], False), ("min_t", None, .5), ("max_t", None, .9), ("dt", None, .3), ("inside_outside_test", [None, True], False), ("resample", [None, 0], 1),
        ("resample_samples", None, 5), ("feature_detection", [None, "aggressive"], "none"), ("output_sensitive", [None, True], False), ("remesh_iterations", None, 2), ("batch_size", None, 3),
        ("fix_boundary", [None, False], True), ("clamp", [None, math.inf], .3), ("pseudosdf_interior", [None, False], True)]
box = lambda p: np.clip(np.abs(np.asarray(p) - [.1, 0]).max(1) - .45, -.3, .3)
UU = A(list(itertools.product(np.linspace(-1, 1, 4), repeat=2)))
U3 = A(list(itertools.product([-1, 0, .6, 1], repeat=3)))
fx("reach_for_the_spheres", [lambda g: [UU, box, RING, g.edge_indices(7, closed=True)], lambda g: [UU, box, RING, g.edge_indices(7)], lambda g: [UU, box, RING * .6 + [.7, .2], g.edge_indices(7, closed=True)],
                              lambda g: [U3, lambda p: np.abs(np.asarray(p)).max(1) - .5, CUBE - CUBE.mean(0) + .5 * (CUBE[:, :1] > CUBE[:, :1].mean()) * [1, 0, 0], TRI],
                              lambda g: [U3, lambda p: np.abs(np.asarray(p)).max(1) - .5, CUBE - CUBE.mean(0) + .25 * (CUBE[:, :1] > CUBE[:, :1].mean()) * [1, 0, 0], TRI[2:]]],
   ("S", [None, Eq(lambda g, a: a[1](a[0]), "sampled")]), ("return_U", False, True), ("verbose", False, True), ("max_iter", Eq(lambda g, a: 3, "given")), ("tol", None, .1), ("h", None, .3),
   ("min_h", None, .15), *FLOW)


def flowing(g, scale=1., closed=True):
    st = g.ReachForTheSpheresState(V=RING * scale + (1 - scale), F=g.edge_indices(7, closed=closed), sdf=box, U=UU, h=.3, min_h=.1, rng=np.random.default_rng(1))

    def log():
        return freeze([st.V, st.F, st.U, st.h, st.its])
    return [st], log


fx("reach_for_the_spheres_iteration", [lambda g: flowing(g), lambda g: flowing(g, .6), lambda g: flowing(g, .8, False)], ("max_iter", None), ("tol", None, .1), *FLOW, ("verbose", False, True))


def path(suffix):
    return os.path.join(DIR[0], "mesh." + suffix)


def written(suffix):
    def log():
        with open(path(suffix), "rb") as f:
            return f.read().decode("latin1")
    return log


def stored(g, suffix):
    g.write_mesh(path(suffix), TET, TETF, writer="Python", **(dict(UV=SQ[:4], Ft=TETF, N=TET[::-1].copy(), Fn=TETF) if suffix == "obj" else {}))
    return [path(suffix)]


DIR = [None]
fn("write_mesh", [lambda g: ([path("obj"), TET, TETF], written("obj"))], ("UV", None, Eq(lambda g, a: SQ[:4], "")), ("Ft", None), ("N", None, Eq(lambda g, a: TET[::-1].copy(), "")),
   ("Fn", None), ("C", None), ("binary", True, False), ("fmt", [None, "obj"], "stl"), ("writer", [None, "Python"]))
for k in ("stl", "ply"):
    fx("write_mesh#" + k, [lambda g, k=k: [path(k), TET, TETF]], ("UV", None), ("Ft", None), ("N", None), ("Fn", None), ("C", None), ("binary", True, False), ("fmt", [None, k], "obj"),
       ("writer", [None, "C++"]))
fn("read_mesh", [lambda g: stored(g, "obj")], ("fmt", [None, "obj"]), ("return_UV", False, True), ("return_N", False, True), ("return_C", False), ("reader", [None, "Python"]), ("merge_stl", True))
fx("read_mesh#stl", [lambda g: [path("stl")]], ("fmt", [None, "stl"]), ("return_UV", False), ("return_N", False), ("return_C", False), ("reader", [None, "C++"]), ("merge_stl", True, False))
fx("read_mesh#ply", [lambda g: [path("ply")]], ("fmt", [None, "ply"]), ("return_UV", False), ("return_N", False, True), ("return_C", False, True), ("reader", [None, "C++"]), ("merge_stl", True))


def ext_env(name=""):
    tri = np.array([[0, 1, 2]], np.int32)

    def mesh(a):
        return TET + .25, TETF.astype(np.int32)

    def closest(V, F, P):
        D = ((P[:, None] - V[F].mean(1)[None]) ** 2).sum(2)
        j = D.argmin(1)
        return D[np.arange(len(P)), j], j.astype(np.int32), V[F].mean(1)[j]

    env = Env(
        _remesh_botsch_cpp_impl=lambda a: (a.V, a.F),
        _swept_volume_impl=mesh, _offset_surface_cpp_impl=mesh, _marching_cubes_cpp_impl=mesh, _point_cloud_to_mesh_cpp_impl=lambda a: (a.P, np.array([list(range(a.P.shape[1]))], np.int32)),
        _decimate_cpp_impl=lambda a: (a.V, a.F, np.arange(len(a.F), dtype=np.int32), np.arange(len(a.V), dtype=np.int32)),
        _do_meshes_intersect_cpp_impl=lambda a: np.zeros((int(name.endswith("touching")), 2), np.int32),
        _mesh_union_cpp_impl=mesh, _mesh_intersection_cpp_impl=lambda a: (TET + .5, tri), _mesh_difference_cpp_impl=lambda a: (TET - .5, tri),
        _dcsdd_cpp_impl=mesh, _hausdorff_distance_cpp_impl=lambda a: .125,
        _write_stl_cpp_impl=lambda a: 0, _write_ply_cpp_impl=lambda a: 0, _write_obj_cpp_impl=lambda a: 0,
        _read_stl_cpp_impl=lambda a: (0, TET[TETF].reshape(-1, 3), np.arange(12, dtype=np.int32).reshape(4, 3)),
        _read_ply_cpp_impl=lambda a: (0, TET, TETF.astype(np.int32), TET[::-1].copy(), np.full((4, 4), 7, np.uint8)),
        _curved_hessian_intrinsic_cpp_impl=lambda a: sp.identity(int(a.F.max()) + 1).tocsc() * 3.,
        _fast_winding_number_cpp_impl=lambda a: a.Q[:, 0] + .2,
        _particle_swarm_cpp_impl=lambda a: (a.lb, float(a.fun(a.lb))),
        _ray_mesh_intersect_cpp_impl=lambda a: (np.full(len(a.cam_pos), 1.5), np.zeros(len(a.cam_pos), np.int32), np.full((len(a.cam_pos), 3), 1 / 3)),
        _point_mesh_squared_distance_cpp_impl=lambda a: closest(a.V, a.F, a.P))
    if name.startswith("reach_for_the_spheres"):
        return c35.make_env()
    if name.startswith("reach_for"):
        def cloud(a, n):
            return a.U[:n] * .5 + .1
        env.answers["_outside_points_from_rasterization_cpp_impl"] = lambda a: cloud(a, 4)
        env.answers["_locally_make_feasible_cpp_impl"] = lambda a: (cloud(a, 3), cloud(a, 3), np.arange(min(3, len(a.U)), dtype=np.int32))
        env.answers["_fine_tune_point_cloud_iter_cpp_impl"] = lambda a: (cloud(a, 3), cloud(a, 3), np.arange(min(3, len(a.U)), dtype=np.int32))
        return env
    if name.startswith("matryoshka"):
        env = make_env(lambda a: min(((p, float(a.fun(p))) for p in (a.lb + t * (a.ub - a.lb) for t in (.25, .5, .6))), key=lambda x: x[1]))
        return env
    env.answers["_AABBTree_cpp_impl.squared_distance"] = lambda a: closest(a.made.V, a.made.F, a.P)
    env.answers["_FastWindingNumberBVH_cpp_impl.winding_number"] = lambda a: a.Q[:, 0] + .2
    env.answers["_RayMeshIntersector_cpp_impl.intersect"] = lambda a: (np.full(len(a.cam_pos), 1.5), np.zeros(len(a.cam_pos), np.int32), np.full((len(a.cam_pos), 3), 1 / 3))
    return env


# ------------------------------------------------------------------ one call
def freeze(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.kind, x.astype(float).ravel().tolist() if x.dtype.kind in "fiub" else repr(x))
    if sp.issparse(x):
        return ("sparse", x.shape, freeze(np.asarray(x.todense())))
    if isinstance(x, (list, tuple)):
        return ("list", [freeze(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return ("dict", sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (bool, np.bool_)):
        return ("number", float(x))
    if isinstance(x, (int, float, np.number)):
        return ("number", float(x))
    if callable(x):
        return ("callable",)
    return ("value", repr(x))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * (1 + abs(b))
    return a == b


def value(g, v, args, kw=()):
    if not isinstance(v, Eq):
        return v
    others = [k for k in v.f.__code__.co_varnames[2:v.f.__code__.co_argcount] if k in kw and kw[k] is not None]
    return v.f(g, args, **{k: kw[k] for k in others})


def call(ctx, name, base, pos, kw, chatty):
    """the outcome of one call: results, what was printed, what the extension was asked"""
    env = ext_env(name)
    cm = extended(env) if name in EXT else contextlib.nullcontext()
    out = io.StringIO()
    with cm as g, tempfile.TemporaryDirectory(dir=BASE) as d:
        DIR[0] = d
        if g is None:
            import gpytoolbox as g
        f = getattr(g, name.split("#")[0], None)
        if f is None:
            f = getattr(importlib.import_module("gpytoolbox.copyleft"), name.split("#")[0])
        args = base(g)
        log = None
        if isinstance(args, tuple):
            args, log = args
        full = list(args) + [value(g, v, args) for v in pos]
        kws = {k: value(g, v, args, kw) for k, v in kw.items()}
        np.random.seed(3)
        env.calls.clear()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.transitions += 1
            try:
                r = freeze(f(*full, **kws))
            except Exception as e:
                r = ("raised", type(e).__name__)
        if callable(log):
            try:
                log = log()
            except OSError:
                log = None
        asked = [(n, freeze({k: os.path.basename(v) if k == "file" else v for k, v in vars(a).items()})) for n, a in env.calls if "BVH_cpp_impl" not in n.split(".")[-1]]
        return (r, "" if chatty else out.getvalue(), asked, log)


# ------------------------------------------------------------------ exploration
def cases(tier):
    deep = tier != "quick"
    for name, (bases, opts) in TABLE.items():
        if not opts:
            continue
        alts = [i for i, o in enumerate(opts) if o[2]]
        for b in range(len(bases)):
            for m in range((3 if deep else 2) + (len(opts) < 12)):
                for S in itertools.combinations(alts, m):
                    for ch in itertools.product(*[range(len(opts[i][2])) for i in S]):
                        yield [name, b, [[i, c] for i, c in zip(S, ch)]]


@scenario("defaults", cases, "every public function with optional arguments: in every context of up to two (thorough: three) arguments given other values, every "
          "single omitted argument, and all of them, written out as its documented default, by name and by position: the same result, output and requests", nontrivial=lambda c: bool(c[2]))
def defaults(case, ctx):
    name, b, chosen = case
    bases, opts = TABLE[name]
    base = bases[b]
    chosen = dict(chosen)
    given = {opts[i][0]: opts[i][2][c] for i, c in chosen.items()}
    # arguments every call needs: a generator, so that both calls draw the same numbers; a trajectory
    fixed = {o[0]: o[1][0] for o in opts if isinstance(o[1][0], Eq) and o[1][0].says == "given"}
    chatty = "verbose" in given
    want = call(ctx, name, base, [], {**given, **fixed}, chatty)
    left = [i for i in range(len(opts)) if i not in chosen and opts[i][0] not in fixed]
    if not chatty and want[0][0] != "raised" and "verbose" in [o[0] for o in opts]:
        ctx.check(want[1] == "", "quiet", lambda: f"{name} prints {want[1][:80]!r} without being asked to")

    def judge(pos, kw, aspect, how):
        got = call(ctx, name, base, pos, kw, chatty)
        ctx.check(same(list(got), list(want)), aspect, lambda: f"{name}({how}) differs from leaving it out, with {sorted(given)} given: {str(got)[:150]} vs {str(want)[:150]}")
    for i in left:
        for d in opts[i][1]:
            judge([], {**given, **fixed, opts[i][0]: d}, "default", f"{opts[i][0]}={d.says if isinstance(d, Eq) else d!r}")
    for k in (0, -1):
        allof = {opts[i][0]: opts[i][1][k] for i in left}
        if len(left) > 1 and (k == 0 or any(len(opts[i][1]) > 1 for i in left)):
            judge([], {**given, **fixed, **allof}, "default", "every default")
    # by position, in the documented order
    row = [given.get(o[0], fixed.get(o[0], o[1][0])) for o in opts]
    judge(row, {}, "position", "all arguments by position")
    last = max(chosen) if chosen else 0
    if last + 1 < len(row):
        judge(row[:last + 1], {k: v for k, v in fixed.items() if k not in [o[0] for o in opts[:last + 1]]}, "position", "leading arguments by position")
    ctx.state((name, b, want))
    ctx.outcome((name, "raises" if want[0][0] == "raised" else "returns"))


# ------------------------------------------------------------------ what the conic solver is told
SETTINGS = dict(eps_abs=1e-9, eps_rel=1e-9, eps_infeas=1e-9)
GIVEN = dict(eps_abs=1e-6, eps_rel=1e-5, eps_infeas=1e-4, max_iters=5000, scale=.5)


def settings_cases(tier):
    for b in range(3):
        for m in range(len(GIVEN) + 1):
            for S in itertools.combinations(sorted(GIVEN), m):
                for verbose in (False, True):
                    for before in ((), ("eps_abs",), ("eps_infeas", "scale")):
                        yield [b, list(S), verbose, list(before)]


@scenario("solver-settings", settings_cases, "the settings the SCS solver receives, for every subset of settings given, after calls with other settings: the "
          "documented defaults except where given; the given dictionary is left alone", nontrivial=lambda c: bool(c[1]))
def settings(case, ctx):
    import gpytoolbox as g
    import scs
    b, S, verbose, before = case
    one = sp.csr_array(A([[1, 2, 0], [0, 1, -1]]))
    kw = [dict(A=one, b=A([[1], [0]])), dict(G=one, k=I([0]), y=A([1.])), dict(G=sp.csr_array(np.eye(4)), d=2, A=sp.csr_array(A([[1, 1, 0, 1]])), b=A([[1]]))][b]
    told = []
    real = scs.SCS

    class Told(real):
        def __init__(self, *a, **k):
            told.append(k)
            super().__init__(*a, **k)
    scs.SCS = Told
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if before:
                g.min_l1_with_fixed(params={k: GIVEN[k] for k in before}, solver="scs", **kw)
                told.clear()
            P = {k: GIVEN[k] for k in S}
            ctx.transitions += 1
            g.min_l1_with_fixed(params=P if S else None, solver="scs", verbose=verbose, **kw)
    finally:
        scs.SCS = real
    ctx.eq(P, {k: GIVEN[k] for k in S}, "settings-given")
    if not told:        # not asked through the class: nothing to see here
        return
    for t in told:
        ctx.eq({k: t.get(k) for k in {**SETTINGS, **P}}, {**SETTINGS, **P}, "settings")
    ctx.outcome(len(S))


def fork_cases(tier):
    for name in ("random_points_on_mesh", "metropolis_hastings"):
        for b in range(2):
            for seeded in (0, 1):
                for n in (1, 3):
                    yield [name, b, seeded, n]


@scenario("generators", fork_cases, "random functions called without a generator: a new one per call, so forked processes and reseeded global generators do not repeat "
          "each other's draws", nontrivial=lambda c: c[2] == 1)
def generators(case, ctx):
    import gpytoolbox as g
    name, b, seeded, n = case

    def draw():
        if seeded:
            np.random.seed(7)
        if name == "random_points_on_mesh":
            return [np.asarray(g.random_points_on_mesh(*((TET, TETF) if b else (POLY, POLYE)), 4)).tolist() for _ in range(n)]
        # accepted or rejected: 60 coin tosses
        return [np.asarray(g.metropolis_hastings(lambda x: 1. if x[0] % 2 < .5 else .5, lambda x: x + 1, np.zeros(1 + b), num_samples=80)[0]).tolist() for _ in range(n)]
    seen = draw() if n == 3 else []
    for _ in range(3):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "w") as o:
                    o.write(json.dumps(draw()))
            finally:
                os._exit(0)
        os.close(w)
        ctx.transitions += n
        with os.fdopen(r) as i:
            seen += json.loads(i.read() or "[]")
        os.waitpid(pid, 0)
    seen = [repr(x) for x in seen]
    ctx.eq(len(seen), 3 * n + (n if n == 3 else 0), "answers")
    ctx.check(len(set(seen)) == len(seen), "independent", lambda: f"{name} without a generator repeats its draws in {len(seen)} calls of 3 forked processes: {len(set(seen))} different")
