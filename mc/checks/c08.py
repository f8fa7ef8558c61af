"""C08 gradient, cotangent Laplacian and mass matrices on every small mesh / polyline."""
import itertools, math
import numpy as np
from ..core import scenario, G
from .. import mesh as M, geo, big

PROPERTY = "C08"
ASSUMPTIONS = ["elements are non-degenerate", "for polylines the gradient is the arc-length derivative of each segment"]


def dense(X):
    return np.asarray(X.toarray() if hasattr(X, "toarray") else X, dtype=float)


def ref_grad(P, F):
    """gradient of each hat function per face, (m, n, 3): exact up to one division by |cross|^2"""
    g = np.zeros((len(F), len(P), 3))
    for f, t in enumerate(F):
        p = [geo.to3(P[v]) for v in t]
        u, v = geo.sub(p[1], p[0]), geo.sub(p[2], p[0])
        N = geo.cross3(u, v)
        NN = geo.dot(N, N)
        for i in range(3):
            e = geo.sub(p[(i + 2) % 3], p[(i + 1) % 3])
            c = geo.cross3(N, e)
            g[f, t[i]] += [x / NN for x in c]
    return g


def voronoi(P, F, n):
    w = np.zeros(n)
    for t in F:
        A = 0.5 * geo.dblarea(P, t)
        ct = [geo.cot(P, t, i) for i in range(3)]
        l2 = [geo.dot(geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]), geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]])) for i in range(3)]
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            if ct[i] < 0:
                a = A / 2
            elif ct[j] < 0 or ct[k] < 0:
                a = A / 4
            else:
                a = (ct[j] * l2[j] + ct[k] * l2[k]) / 8
            w[t[i]] += a
    return w


@scenario("triangle-operators", lambda tier: ([P, F] for P, F in geo.all_meshes(tier)),
          "grad, cotangent weights/Laplacian, all mass matrices, extrinsic and intrinsic, on every listed mesh",
          nontrivial=lambda c: len(c[1]) > 1)
def tri_ops(case, ctx):
    P, F = case
    V, Fa = np.array(P, dtype=float), np.array(F, dtype=int)
    n, m, d = len(P), len(F), len(P[0])
    ctx.outcome((n, m, d))
    area = np.array([0.5 * geo.dblarea(P, t) for t in F])
    gref = ref_grad(P, F)
    Gm = dense(G.grad(V, Fa))
    want = np.concatenate([gref[:, :, k] for k in range(d)], axis=0)
    ctx.close(Gm, want, "grad", tol=1e-8)
    # linear functions
    lin = (Gm @ V).reshape(d, m, d)         # component, face, function
    for f, t in enumerate(F):
        u = [np.array(geo.sub(P[t[1]], P[t[0]]), float), np.array(geo.sub(P[t[2]], P[t[0]]), float)]
        for e in u:   # gradient of coordinate j dotted with an edge is the coordinate's difference
            ctx.close(lin[:, f, :].T @ e, e, "grad-linear", tol=1e-8)
    # Dirichlet
    L = dense(G.cotangent_laplacian(V, Fa))
    Lref = np.einsum("fik,fjk,f->ij", gref, gref, area)
    ctx.close(L, Lref, "laplacian", tol=1e-8)
    ctx.check(np.array_equal(L, L.T) or np.allclose(L, L.T, atol=1e-12), "laplacian-symmetric")
    ctx.close(L.sum(axis=1), np.zeros(n), "laplacian-constants", tol=1e-8)
    C = dense(G.cotangent_weights(V, Fa))
    ctx.close(C, [[0.5 * geo.cot(P, t, i) for i in range(3)] for t in F], "cot-weights", tol=1e-8)
    # mass
    masses = {}
    bar, full = np.zeros(n), np.zeros((n, n))
    for f, t in enumerate(F):
        for i in range(3):
            bar[t[i]] += area[f] / 3
            for j in range(3):
                full[t[i], t[j]] += area[f] / (6 if i == j else 12)
    wants = dict(voronoi=np.diag(voronoi(P, F, n)), barycentric=np.diag(bar), full=full)
    for ty, w in wants.items():
        X = dense(G.massmatrix(V, Fa, type=ty))
        ctx.close(X, w, "mass-" + ty, tol=1e-8)
        ctx.close(X.sum(), area.sum(), "mass-total-" + ty, tol=1e-8)
    ctx.close(dense(G.massmatrix(V, Fa)), wants["voronoi"], "mass-default", tol=1e-8)
    # intrinsic
    lsq = np.array([[geo.dot(geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]), geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]))
                     for i in range(3)] for t in F], dtype=float)
    ctx.close(G.halfedge_lengths_squared(V, Fa), lsq, "lsq")
    nr = max(map(max, F)) + 1
    for nn in (n, None):
        k = n if nn else nr
        ctx.close(dense(G.cotangent_laplacian_intrinsic(lsq, Fa, n=nn)), Lref[:k, :k], "laplacian-intrinsic", tol=1e-7)
        for ty, w in wants.items():
            ctx.close(dense(G.massmatrix_intrinsic(lsq, Fa, n=nn, type=ty)), w[:k, :k], "mass-intrinsic-" + ty, tol=1e-7)
        Gi = dense(G.grad_intrinsic(lsq, Fa, n=nn))
        wi = np.zeros((2 * m, k))
        for f, t in enumerate(F):
            p = [np.array(geo.to3(P[v]), float) for v in t]
            x = (p[2] - p[1]) / np.linalg.norm(p[2] - p[1])
            N = np.cross(p[1] - p[0], p[2] - p[0])
            y = np.cross(N / np.linalg.norm(N), x)
            wi[f] = gref[f, :k] @ x
            wi[m + f] = gref[f, :k] @ y
        ctx.close(Gi, wi, "grad-intrinsic", tol=1e-6)
    ctx.close(dense(G.cotangent_weights_intrinsic(lsq, Fa)), C, "cot-weights-intrinsic", tol=1e-8)
    # presentation independence
    F2 = np.array([M.rot(t, 1 + i % 2) for i, t in enumerate(reversed(F))])
    ctx.close(dense(G.cotangent_laplacian(V, F2)), L, "order-laplacian", tol=1e-8)
    for ty, w in wants.items():
        ctx.close(dense(G.massmatrix(V, F2, type=ty)), w, "order-mass-" + ty, tol=1e-8)
    ctx.close(dense(G.grad(V, F2)).reshape(d, m, n), Gm.reshape(d, m, n)[:, ::-1], "order-grad", tol=1e-8)


def lines(tier):
    """every ordered polyline and every segment soup of up to 3 segments without zero-length segments"""
    pts = list(itertools.product(range(3 if tier != "quick" else 2), repeat=2)) + [(3, 1)]
    for n in range(2, 5 if tier != "quick" else 4):
        for P in itertools.product(pts, repeat=n):
            if all(P[i] != P[i + 1] for i in range(n - 1)):
                yield [list(map(list, P)), None]
    P = [[0, 0, 0], [1, 2, 2], [3, 0, 4], [0, 5, 0]]
    for k in range(1, 4):
        for E in itertools.product(list(itertools.permutations(range(4), 2)), repeat=k):
            yield [P, [list(e) for e in E]]
    for n in range(2, 5):
        yield [[[x] for x in (0, 3, 1, 8)[:n]], None]


@scenario("polyline-operators", lines, "gradient and mass of every small polyline / segment list",
          nontrivial=lambda c: len(c[0]) > 2)
def line_ops(case, ctx):
    P, E = case
    V = np.array(P, dtype=float)
    Ea = None if E is None else np.array(E, dtype=int)
    E2 = E or [[i, i + 1] for i in range(len(P) - 1)]
    n, m = len(P), len(E2)
    ln = [math.sqrt(geo.dot(geo.sub(P[b], P[a]), geo.sub(P[b], P[a]))) for a, b in E2]
    w = np.zeros((m, n))
    mass = np.zeros((n, n))
    for k, (a, b) in enumerate(E2):
        w[k, a] -= 1 / ln[k]
        w[k, b] += 1 / ln[k]
        mass[a, a] += ln[k] / 2
        mass[b, b] += ln[k] / 2
    ctx.close(dense(G.grad(V, Ea) if E else G.grad(V)), w, "grad")
    for ty in ("voronoi", "barycentric"):
        ctx.close(dense(G.massmatrix(V, Ea, type=ty)), mass, "mass-" + ty)
    X = dense(G.massmatrix(V, Ea, type="full"))
    ctx.close(X, X.T, "mass-full-symmetric")
    ctx.close(X.sum(), sum(ln), "mass-full-total")
    ctx.outcome(m)


@scenario("large", big.metric, "the same judgement for meshes with hundreds of faces", nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    tri_ops(big.build(spec), ctx)


@scenario("long-polyline", lambda tier: [[n, closed, k] for n in (131, 260, 1030) for closed in (0, 1) for k in (1, 7)], "polylines with hundreds of segments in shuffled order")
def long_polyline(case, ctx):
    n, closed, k = case
    P = [[(i * 5) % 16 - 0.5 * (i % 3), i / 4] for i in range(n)]
    E = [[(i * k) % n, ((i + 1) * k) % n] for i in range(n if closed else n - 1)]
    line_ops([P, E], ctx)
    if k == 1 and not closed:
        line_ops([P, None], ctx)
