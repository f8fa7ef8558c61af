"""C10 biharmonic and elastic energies on every small mesh."""
import itertools
import numpy as np
from scipy.sparse import csr_matrix, diags
from ..core import scenario, G
from .. import mesh as M, geo, big
from .c08 import dense, ref_grad, voronoi
from .c09 import boundary_verts

PROPERTY = "C10"
ASSUMPTIONS = ["meshes are oriented manifold, non-degenerate and have no unreferenced vertices",
               "the curved Hessian needs the compiled extension and is not explored"]


def clean(c):
    P, F = c
    return M.used(F) == list(range(len(P))) and M.is_manifold(F)


def psd(X):
    w = np.linalg.eigvalsh((X + X.T) / 2)
    return w[0] >= -1e-9 * max(1.0, abs(w[-1]))


def hubs(tier):
    """flat, consistently oriented meshes with interior vertices: every position of the hub(s) on a fine lattice"""
    ring = [(0, 0), (4, 0), (5, 3), (3, 5), (-1, 4)]
    for k in (3, 4, 5):
        R = ring[:k]
        F = [[i, (i + 1) % k, k] for i in range(k)]
        for x, y in itertools.product(range(-1, 11), repeat=2):
            yield [[list(p) for p in R] + [[x / 2, y / 2]], F]
    # two interior vertices
    R = [(0, 0), (6, 0), (7, 4), (3, 6), (-1, 4)]
    F = [[0, 1, 5], [1, 6, 5], [1, 2, 6], [2, 3, 6], [3, 5, 6], [3, 4, 5], [4, 0, 5]]
    r = range(1, 6)
    for a, b, c, d in itertools.product(r, r, r, r):
        if tier == "quick" and (a + b + c + d) % 3:
            continue
        yield [[list(p) for p in R] + [[a, b], [c, d]], F]
    # 4x4 grid with one moved interior vertex
    for dx, dy in itertools.product((-1, 0, 1), repeat=2):
        P = [[4 * i, 4 * j] for j in range(4) for i in range(4)]
        P[5] = [4 + dx, 4 + dy]
        F = []
        for j in range(3):
            for i in range(3):
                a = 4 * j + i
                F += [[a, a + 1, a + 5], [a, a + 5, a + 4]]
        yield [P, F]


def flat_oriented(c):
    P, F = c
    s = [(P[t[1]][0] - P[t[0]][0]) * (P[t[2]][1] - P[t[0]][1]) - (P[t[1]][1] - P[t[0]][1]) * (P[t[2]][0] - P[t[0]][0]) for t in F]
    return all(x > 0 for x in s) or all(x < 0 for x in s)


def cases(tier):
    for c in hubs(tier):
        if flat_oriented(c):
            yield c
    for c in geo.all_meshes(tier):
        if clean(c):
            yield list(c)


@scenario("biharmonic", cases, "mixed biharmonic and Hessian energies against L'M^-1 L and the interior Hessian form",
          nontrivial=lambda c: len(c[1]) > 1)
def biharm(case, ctx):
    P, F = case
    V, Fa = np.array(P, float), np.array(F, int)
    n, m, d = len(P), len(F), len(P[0])
    g = ref_grad(P, F)[:, :, :d] if True else None
    area = np.array([0.5 * geo.dblarea(P, t) for t in F])
    L = np.einsum("fik,fjk,f->ij", g, g, area)
    Mv = voronoi(P, F, n)
    want = L.T @ np.diag(1 / Mv) @ L
    lsq = np.array([[geo.dot(geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]), geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]))
                     for i in range(3)] for t in F], float)
    s = max(1.0, np.abs(want).max())
    for tag, X in (("", G.biharmonic_energy(V, Fa)), ("-named", G.biharmonic_energy(V, Fa, bc="mixedfem_zero_neumann")),
                   ("-intrinsic", G.biharmonic_energy_intrinsic(lsq, Fa)), ("-intrinsic", G.biharmonic_energy_intrinsic(lsq, Fa, n=n))):
        X = dense(X)
        if not ctx.check(X.shape == (n, n), "biharmonic-shape" + tag):
            continue
        ctx.close(X / s, want / s, "biharmonic" + tag, tol=1e-8)
        ctx.close(X / s, X.T / s, "biharmonic-symmetric" + tag, tol=1e-9)
        ctx.check(psd(X / s), "biharmonic-psd" + tag)
        ctx.close(X @ np.ones(n) / s, np.zeros(n), "biharmonic-constants" + tag, tol=1e-8)
    bd = boundary_verts(F)
    ii = [v for v in range(n) if v not in bd]
    want = np.zeros((n, n))
    for v in ii:
        # H[a, b] as a row vector in u
        H = np.einsum("fa,fjb,f->abj", g[:, v, :], g, area)
        want += np.einsum("abi,abj->ij", H, H) / Mv[v]
    s = max(1.0, np.abs(want).max())
    X = dense(G.biharmonic_energy(V, Fa, bc="hessian"))
    ctx.close(X / s, want / s, "hessian", tol=1e-8)
    ctx.check(psd(X / s), "hessian-psd")
    ctx.outcome((n, m, len(ii)))
    if d == 2 and flat_oriented((P, F)):
        lin = np.hstack([np.ones((n, 1)), V])
        ctx.close(X @ lin / s, np.zeros((n, 3)), "hessian-linear", tol=1e-8)


def elast(tier):
    q = tier == "quick"
    base = [c for c in cases("quick") if len(c[0][0]) == 2]
    seen = {}
    for c in base:
        k = (len(c[0]), len(c[1]))
        seen.setdefault(k, []).append(c)
    for k, L in sorted(seen.items()):
        for c in L[:: max(1, len(L) // (10 if q else 60))]:
            yield c
    yield [[[0, 0], [3, 1], [1, 2], [10, 0], [14, 1], [11, 5]], [[0, 1, 2], [3, 4, 5]]]         # two components
    yield [[[0, 0], [3, 1], [1, 2], [10, 0], [7, 9], [11, 5], [-3, 2], [-4, -4], [-8, 0]], [[0, 1, 2], [3, 5, 4], [6, 7, 8]]]


MATS = [(1.75, 0.0115), (1.0, 0.5), (4.0, 2.0), (0.5, 0.75), (2.0, 0.0)]


def stiff(P, F, K, mu, vol):
    n, m = len(P), len(F)
    g = ref_grad(P, F)[:, :, :2]
    S = np.zeros((3, m, 2 * n))
    S[0, :, :n] = g[:, :, 0]
    S[1, :, n:] = g[:, :, 1]
    S[2, :, :n] = g[:, :, 1]
    S[2, :, n:] = g[:, :, 0]
    l = K - 2 / 3 * mu
    C = np.array([[l + 2 * mu, l, 0], [l, l + 2 * mu, 0], [0, 0, mu]])
    Q = np.einsum("aFi,ab,bFj,F->ij", S, C, S, vol)
    return Q, C, S


@scenario("elastic-stiffness", lambda tier: ([c[0], c[1], mt] for c in elast(tier) for mt in range(len(MATS))),
          "linear-elastic stiffness matrix and its parts for every material of the list", nontrivial=lambda c: len(c[1]) > 1)
def stiffness(case, ctx):
    P, F, mt = case
    K, mu = MATS[mt]
    V, Fa = np.array(P, float), np.array(F, int)
    n, m = len(P), len(F)
    area = np.array([0.5 * geo.dblarea(P, t) for t in F])
    vol2 = np.arange(1, m + 1) * 0.5
    mass2 = diags(np.arange(1, n + 1) * 1.0)
    for vol, kw in ((area, {}), (vol2, dict(volumes=vol2)), (area, dict(mass=mass2))):
        Q, C, S = stiff(P, F, K, mu, vol)
        Kx, Cx, sx, Ax, Mx = G.linear_elasticity_stiffness(V, Fa, K=K, mu=mu, **kw)
        s = max(1.0, np.abs(Q).max())
        Kd = dense(Kx)
        if not ctx.check(Kd.shape == (2 * n, 2 * n), "stiffness-shape"):
            return
        ctx.close(Kd / s, Q / s, "stiffness", tol=1e-8)
        ctx.check(psd(Kd / s), "stiffness-psd")
        ctx.close(dense(sx), S.reshape(3 * m, 2 * n), "strain", tol=1e-8)
        ctx.close(dense(Cx), np.kron(C, np.eye(m)), "constitutive")
        ctx.close(dense(Ax), np.diag(np.tile(vol, 3)), "element-volumes")
        mm = np.diag(np.tile(np.arange(1, n + 1) * 1.0 if "mass" in kw else voronoi(P, F, n), 2))
        ctx.close(dense(Mx), mm, "mass", tol=1e-8)
        rigid = np.stack([np.r_[np.ones(n), np.zeros(n)], np.r_[np.zeros(n), np.ones(n)], np.r_[-V[:, 1], V[:, 0]]], axis=1)
        ctx.close(Kd @ rigid / s, np.zeros((2 * n, 3)), "rigid-motions", tol=1e-8)
        if not kw:
            K2 = dense(G.linear_elasticity_stiffness(V, Fa, K=2 * K, mu=2 * mu)[0])
            ctx.close(K2 / s, 2 * Kd / s, "material-scaling", tol=1e-8)
    ctx.outcome((n, m, mt))


def steps(tier):
    for i, (P, F) in enumerate(elast(tier)):
        n = len(P)
        if tier == "quick" and i % 3 and len(F) > 2:
            continue
        for k in range(0, min(n, 3 if n == 3 or tier != "quick" else 2) + 1):
            for j, bb in enumerate(itertools.permutations(range(n), k)):
                if k >= 2 and (i + j) % (5 if tier == "quick" else 2):
                    continue
                yield [P, F, list(bb), (i + j) % len(MATS), (i + j) % 2]


@scenario("elastic-step", steps, "one implicit step with every small set of pinned vertices",
          nontrivial=lambda c: len(c[2]) > 0)
def step(case, ctx):
    P, F, bb, mt, seed = case
    K, mu = MATS[mt]
    V, Fa = np.array(P, float), np.array(F, int)
    n, m = len(P), len(F)
    area = np.array([0.5 * geo.dblarea(P, t) for t in F])
    Q, C, S = stiff(P, F, K, mu, area)
    Mv = np.tile(voronoi(P, F, n), 2)
    zero = np.zeros((n, 2))
    dt = 0.25 if seed else 0.1
    bc = np.array([[0.5 * (v % 3), -0.25 * v] for v in bb]).reshape(-1, 2)
    U0 = np.array([[((3 * i + 1) % 5) / 4, ((2 * i) % 3) / 2] for i in range(n)])
    Ud = np.array([[(i % 2) / 2, ((i + 1) % 3) / 4] for i in range(n)])
    fx = np.array([[0.0, -1.0 * (i % 2)] for i in range(n)])
    base = dict(dt=dt, K=K, mu=mu)
    runs = [("rest", zero, dict(base), zero, zero),
            ("moving", U0, dict(base, Ud0=Ud), Ud, zero),
            ("forced", U0, dict(base, Ud0=Ud, fext=fx), Ud, fx)]
    for tag, u0, kw, ud, f in runs:
        A = np.diag(Mv) + dt ** 2 * Q
        rhs = Mv * (dt ** 2 * f + u0 + dt * ud).ravel(order="F")
        y = zero[:len(bb)] if tag == "rest" else bc
        if bb:
            kw.update(bb=np.array(bb, int), bc=y)
        U, sv = G.linear_elasticity(V, Fa, u0.copy(), **kw)
        U = np.asarray(U).reshape(-1)
        if not ctx.check(U.shape == (2 * n,), "step-shape"):
            return
        k = [v for v in bb] + [v + n for v in bb]
        free = [v for v in range(2 * n) if v not in k]
        w = np.zeros(2 * n)
        w[k] = y.ravel(order="F")
        w[free] = np.linalg.solve(A[np.ix_(free, free)], rhs[free] - A[np.ix_(free, k)] @ w[k])
        ctx.close(U[k], w[k], "pinned")
        ctx.close(U, w, "step-" + tag, tol=1e-7)
        if tag == "rest":
            ctx.close(U, np.zeros(2 * n), "rest-stays")
        sg = np.einsum("ab,bFi,i->aF", C, S, w)
        vm = np.sqrt(np.maximum(sg[0] ** 2 - sg[0] * sg[1] + sg[1] ** 2 + 3 * sg[2] ** 2, 0))
        ctx.close(np.asarray(sv).reshape(-1), vm, "von-mises", tol=1e-6)
    ctx.outcome((n, m, len(bb)))


@scenario("large", lambda tier: [s for s in big.metric(tier) if s[4] == 1 and (tier != "quick" or s[1] < 16)], "the same energies of meshes with hundreds of faces", nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    P, F = big.build(spec)
    biharm([P, F], ctx)
    if spec[5]:
        stiffness([P, F, 1], ctx)
        step([P, F, list(range(0, len(P), 7))[::-1], 3, 1], ctx)
