"""C20 Grid difference, interpolation, Laplacian eigenfunctions and function matrices on every small grid."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G

PROPERTY = "C20"
ASSUMPTIONS = ["grid nodes are numbered with x fastest, then y, then z", "interpolated points lie inside the grid",
               "eigenfunctions: axis lengths are dyadic, so ties of eigenvalues are exact; any order inside a tie is accepted"]

HS = [(1.0, 1.0, 1.0), (0.5, 2.0, 0.25), (2.0, 0.125, 1.0)]


def grids(tier):
    q = tier == "quick"
    for gs in itertools.product(range(1, 6), repeat=2):
        for k in range(3):
            yield [list(gs), k]
    for gs in itertools.product(range(1, 4 if q else 5), repeat=3):
        for k in range(3):
            if not q or sum(gs) % 3 == k or max(gs) == 3:
                yield [list(gs), k]
    # many nodes, and axes of very different lengths
    for k, gs in enumerate([[19, 8], [8, 19], [130, 2], [2, 270], [24, 23], [7, 6, 5], [5, 8, 9], [2, 3, 130], [11, 2, 24], [10, 9, 8]] +
                           ([] if q else [[40, 37], [700, 2], [3, 600], [17, 11, 9], [2, 16, 40]])):
        yield [gs, k % 3]


def nodes(gs):
    return [tuple(reversed(t)) for t in itertools.product(*[range(n) for n in reversed(gs)])]


def index(gs, p):
    i, s = 0, 1
    for n, x in zip(gs, p):
        i += s * x
        s *= n
    return i


def want_partial(gs, h, d):
    st = [n - (k == d) for k, n in enumerate(gs)]
    M = np.zeros((int(np.prod(st)), int(np.prod(gs))))
    for r, p in enumerate(nodes(st)):
        q = list(p)
        q[d] += 1
        M[r, index(gs, p)] -= 1 / h[d]
        M[r, index(gs, q)] += 1 / h[d]
    return M


@scenario("difference", grids, "staggered partial derivatives and gradient, entry by entry", nontrivial=lambda c: len(set(c[0])) > 1)
def difference(case, ctx):
    gs, k = case
    dim = len(gs)
    h = np.array(HS[k][:dim])
    g = np.array(gs)
    want = []
    for d in range(dim):
        W = want_partial(gs, h, d)
        if gs[d] < 2:
            continue        # there is no difference to take along a one-node axis
        got = G.fd_partial_derivative(g, h, d)
        if ctx.check(got.shape == W.shape, "shape", lambda: f"{d}: {got.shape} {W.shape}"):
            ctx.close(got.toarray(), W, "partial", f"axis {d}", tol=1e-12)
        want.append(W)
    if len(want) == dim:
        Gr = G.fd_grad(g, h)
        ctx.close(Gr.toarray(), np.vstack(want), "gradient", tol=1e-12)
        X = np.array(nodes(gs), float) * h
        for d in range(dim):
            f = X @ np.eye(dim)[d] + 3
            e = np.concatenate([np.full(len(w), float(i == d)) for i, w in enumerate(want)])
            ctx.close(Gr @ f, e, "linear", f"axis {d}", tol=1e-9)
    ctx.outcome(dim)


def inter(tier):
    q = tier == "quick"
    for gs in itertools.product(range(2, 5), repeat=2):
        for k in range(3):
            for c in range(3):
                yield [list(gs), k, c]
    for gs in itertools.product(range(2, 4), repeat=3):
        for k in range(3):
            for c in ((k,) if q else range(3)):
                yield [list(gs), k, c]
    for k, gs in enumerate([[19, 8], [8, 19], [40, 2], [2, 70], [18, 17], [7, 6, 5], [5, 3, 9], [2, 3, 40], [9, 2, 12]] + ([] if q else [[33, 34], [2, 300], [9, 12, 10]])):
        yield [gs, k % 3, (k + 1) % 3]
    yield [[4, 2, 3], 1, 1]
    yield [[2, 4, 3], 2, 2]


@scenario("interpolate", inter, "multilinear interpolation weights at every point of a lattice refining the grid, corners and faces included",
          nontrivial=lambda c: len(set(c[0])) > 1)
def interpolate(case, ctx):
    gs, k, c = case
    dim = len(gs)
    h = np.array(HS[k][:dim])
    corner = [None, np.array([-1.0, 2.0, 0.5][:dim]), np.array([64.0, -8.0, 3.0][:dim])][c]
    sub = 4 if dim == 2 and np.prod(gs) < 50 else 2
    L = [tuple(reversed(t)) for t in itertools.product(*[range((n - 1) * sub + 1) for n in reversed(gs)])]
    P = np.array(L, float) / sub * h + (0 if corner is None else corner)
    want = np.zeros((len(L), int(np.prod(gs))))
    for r, p in enumerate(L):
        for bits in itertools.product((0, 1), repeat=dim):
            w, q = 1.0, []
            for x, b, n in zip(p, bits, gs):
                i, f = divmod(x, sub)
                f /= sub
                w *= f if b else 1 - f
                q.append(i + b)
            if w:
                want[r, index(gs, q)] += w
    g = np.array(gs)
    for kw in ([{}] if corner is None else []) + [dict(corner=np.zeros(dim) if corner is None else corner)]:
        W = G.fd_interpolate(P, g, h, **kw)
        ctx.close(W.toarray(), want, "weights", tol=1e-12)
    for r in (0, len(L) // 2, len(L) - 1):
        ctx.close(G.fd_interpolate(P[r:r + 1], g, h, corner).toarray(), want[r:r + 1], "one-point", tol=1e-12)
    # several points in another order
    ctx.close(G.fd_interpolate(P[::-3], g, h, corner).toarray(), want[::-3], "order", tol=1e-12)
    ctx.outcome(dim)


def modes(tier):
    q = tier == "quick"
    ls2 = [(1, 1), (1, 2), (4, 1), (2, 0.5), (3, 2)]
    for l in ls2:
        for n in range(1, 13 if q else 26):
            yield [list(l), n, [7, 5]]
        yield [list(l), 9, [3, 4]]
    ls3 = [(1, 1, 1), (1, 2, 4), (4, 1, 1), (1, 1, 0.25), (3, 2, 1)]
    for l in ls3:
        for n in list(range(1, 17)) + [27, 40] + ([] if q else [64, 100, 200]):
            yield [list(l), n, [6, 5, 7]]
        yield [list(l), 10, [2, 3, 4]]


@scenario("eigenfunctions", modes, "the lowest Neumann cosine modes, for every mode count", nontrivial=lambda c: c[1] > 1)
def eigenfunctions(case, ctx):
    l, n, gs = case
    dim = len(l)
    Vn = G.grid_laplacian_eigenfunctions(n, np.array(gs), np.array(l, float))
    if not ctx.check(Vn.shape == (int(np.prod(gs)), n), "shape", lambda: Vn.shape):
        return
    # exact list of the lowest eigenvalues
    lf = [Fr(x) for x in l]
    R = Fr(1, 16)
    while True:
        K = [int(math.floor(math.sqrt(R) * float(x))) + 1 for x in lf]
        cand = []
        for N in itertools.product(*[range(k + 1) for k in K]):
            v = sum((Fr(a) / x) ** 2 for a, x in zip(N, lf))
            if v <= R:
                cand.append((v, N))
        if len(cand) >= n:
            break
        R *= 2
    cand.sort()
    X = np.array(nodes(gs), float) / np.maximum(np.array(gs) - 1, 1)
    groups = {}
    for v, N in cand:
        groups.setdefault(v, []).append(N)
    vals = [v for v, _ in cand[:n]]
    left = {v: list(Ns) for v, Ns in groups.items()}
    for s in range(n):
        v = vals[s]
        for N in left[v]:
            f = np.prod(np.cos(np.pi * X * np.array(N)), axis=1)
            if np.allclose(Vn[:, s], f, atol=1e-9):
                left[v].remove(N)
                ctx.compared += 1
                break
        else:
            ctx.fail("mode", f"column {s} is no remaining mode of eigenvalue {v}*pi^2 (candidates {left[v]})")
            return
    ctx.outcome((dim, n))


def functions(tier):
    for n1, n2, dim in itertools.product((1, 2, 3, 4), (1, 2, 3, 5), (1, 2, 3)):
        for f in range(4):
            yield [n1, n2, dim, f]
    for n1, n2 in ((20, 17), (60, 130), (300, 7), (7, 300)):
        for f in range(4):
            yield [n1, n2, 2, f]


FUN = [lambda X, Y: X[:, 0] * 3 + 7 * Y[:, 0] + 1, lambda X, Y: np.maximum(0, X[:, 0] - Y[:, -1]),
       lambda X, Y: (X * np.arange(1, X.shape[1] + 1)).sum(axis=1) - Y.sum(axis=1) ** 2, lambda X, Y: np.zeros(len(X))]


@scenario("function-matrix", functions, "matrices built from asymmetric two-point functions, dense, sparse and on every sparsity pattern of small ones",
          nontrivial=lambda c: c[0] * c[1] > 1)
def function_matrix(case, ctx):
    n1, n2, dim, f = case
    X = np.array([[(3 * i + 2 * d) % 5 for d in range(dim)] for i in range(n1)], float)
    Y = np.array([[(2 * i + d + 1) % 7 for d in range(dim)] for i in range(n2)], float)
    fun = FUN[f]
    want = np.array([[fun(X[i:i + 1], Y[j:j + 1])[0] for j in range(n2)] for i in range(n1)])
    S = G.matrix_from_function(fun, X, Y)
    ctx.check(hasattr(S, "toarray"), "sparse-type")
    ctx.close(S.toarray(), want, "sparse")
    ctx.check(S.nnz == np.count_nonzero(want), "purged-zeros", lambda: f"{S.nnz}")
    Dn = G.matrix_from_function(fun, X, Y, sparse=False)
    ctx.check(isinstance(Dn, np.ndarray), "dense-type")
    ctx.close(Dn, want, "dense")
    want1 = np.array([[fun(X[i:i + 1], X[j:j + 1])[0] for j in range(n1)] for i in range(n1)])
    for B in (X, X.copy()):         # a set against itself: no symmetry is assumed
        ctx.close(G.matrix_from_function(fun, X, B).toarray(), want1, "self-sparse")
        ctx.close(G.matrix_from_function(fun, X, B, sparse=False), want1, "self-dense")
    cells = list(itertools.product(range(n1), range(n2)))
    pats = range(2 ** len(cells)) if len(cells) <= 6 else [0b101101, (1 << len(cells)) - 1, 5 << (len(cells) - 3), 1]
    for m in pats:
        pat = [c for b, c in enumerate(cells) if m >> b & 1]
        if m % 3 == 0:
            pat = pat[::-1]
        I, J = [c[0] for c in pat], [c[1] for c in pat]
        if not pat:
            continue
        W = np.zeros((n1, n2))
        for i, j in pat:
            W[i, j] = want[i, j]
        got = G.matrix_from_function(fun, X, Y, sparsity_pattern=(I, J) if m % 2 else [np.array(I), np.array(J)])
        ctx.close(got.toarray(), W, "pattern", str(pat))
    ctx.outcome((n1, n2))
