"""C29 Kernels, their derivatives, and Gaussian processes against exact formulas on lattices of points and all small training sets."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G

PROPERTY = "C29"
ASSUMPTIONS = ["second derivatives of the piecewise linear and quadratic bumps are judged away from their breakpoints, where they do not exist",
               "Gaussian-process means are compared with a tolerance of 1e-3 of the data size (the library solves iteratively)",
               "with observed gradients, means and covariances stack the value first and then each partial derivative"]


def bspline(n, x):
    """centred cardinal B-spline of degree n (box convolved with itself n times), exact"""
    if n == 0:
        return Fr(1) if abs(x) < Fr(1, 2) else Fr(1, 2) if abs(x) == Fr(1, 2) else Fr(0)
    h = Fr(n + 1, 2)
    return ((h + x) * bspline(n - 1, x + Fr(1, 2)) + (h - x) * bspline(n - 1, x - Fr(1, 2))) / n


CACHE = {}


def B(n, x, d=0):
    k = (n, x, d)
    if k not in CACHE:
        CACHE[k] = bspline(n, x) if d == 0 else B(n - 1, x + Fr(1, 2), d - 1) - B(n - 1, x - Fr(1, 2), d - 1)
    return CACHE[k]


# ------------------------------------------------------------------ kernels
SIG = [Fr(1), Fr(1, 4), Fr(2)]


def bump_cases(tier):
    step = 4 if tier == "quick" else 8
    for n in (1, 2, 3, 4):
        for s in range(3):
            for dim in (1, 2, 3):
                for c in (0, 1):
                    pts = [Fr(i, step) for i in range(-3 * step, 3 * step + 1)]
                    if dim == 2:
                        pts = [Fr(i, 2) for i in range(-6, 7)]
                    if dim == 3:
                        pts = [Fr(i, 2) for i in range(-4, 5, 2 if tier == "quick" else 1)] + [Fr(1, 2), Fr(3, 2)]
                    yield [n, s, dim, c, [str(p) for p in pts]]


@scenario("bump", bump_cases, "compact bump and its second derivatives at every lattice point including all breakpoints, 1-3 dimensions", nontrivial=lambda c: c[2] > 1)
def bump(case, ctx):
    n, si, dim, ci, pts = case
    sg = SIG[si]
    cen = [Fr(0)] * dim if ci == 0 else [Fr(1, 2), Fr(-3), Fr(8)][:dim]
    pts = [Fr(p) for p in pts]
    P = list(itertools.product(pts, repeat=dim))
    X = np.array([[float(c + sg * p) for p, c in zip(q, cen)] for q in P])
    kw = {} if ci == 0 else dict(center=np.array([float(c) for c in cen]))
    if si:
        kw["sigma"] = float(sg)
    if n != 2:
        kw["n"] = n
    want = [float(math.prod(B(n, x) for x in q) / sg ** dim) for q in P]
    ctx.close(np.asarray(G.compactly_supported_normal(X.copy(), **kw)), want, "value", f"n={n} dim={dim} sigma={sg}", tol=1e-12)
    if dim == 1:
        ctx.close(np.asarray(G.compactly_supported_normal(X[:, 0].copy(), **kw)), want, "flat-input", tol=1e-12)
    ctx.extra_states.update(hash((n, si, ci, q)) for q in P)
    for d in range(dim):
        keep = [i for i, q in enumerate(P) if n > 2 or (n == 2 and abs(q[d]) not in (Fr(1, 2), Fr(3, 2))) or (n == 1 and abs(q[d]) not in (0, 1))]
        want = [float(math.prod(B(n, x, 2 if (e == d and n > 1) else 0) if not (n == 1 and e == d) else Fr(0) for e, x in enumerate(P[i])) / sg ** (dim + 2)) for i in keep]
        ctx.close(np.asarray(G.compactly_supported_normal(X[keep], second_derivative=d, **kw)), want, "second-derivative", f"n={n} dim={dim} axis {d}", tol=1e-11)


def deriv_pairs(dim):
    return list(itertools.product(range(-1, dim), repeat=2))


def kernel_cases(tier):
    for which in (0, 1):
        for dim in (1, 2, 3):
            for le in range(4):
                for pr in deriv_pairs(dim):
                    for off in (0, 1):
                        yield [which, dim, le, list(pr), off]


def se(r, l, scale, i, j):
    K = scale * math.exp(-0.5 * sum(x * x for x in r) / l ** 2)
    g = 1 / l ** 2
    if i < 0 and j < 0:
        return K
    if i < 0 or j < 0:
        d = max(i, j)
        return (-g if i >= 0 else g) * r[d] * K
    return ((g if i == j else 0) - g * g * r[i] * r[j]) * K


def compact(r, l, scale, i, j):
    v = Fr(scale)
    for d, x in enumerate(r):
        t = Fr(x) / Fr(l)
        k = (i == d) + (j == d)
        v = v * B(3, t, k) / Fr(l) ** (1 + k) * (-1 if j == d else 1)
    return float(v)


@scenario("kernel", kernel_cases, "both covariance kernels and every derivative pair at all lattice displacements, constant and per-point lengths", nontrivial=lambda c: max(c[3]) >= 0)
def kernel(case, ctx):
    which, dim, le, (i, j), off = case
    R = list(itertools.product([x / 4 for x in (range(-10, 11) if dim == 1 else (-8, -4, -3, -1, 0, 2, 4, 6, 8) if dim == 2 else (-6, -4, 0, 1, 4))], repeat=dim))
    base = np.array([[0.5, -3, 8][:dim]]) * off
    X2 = base + np.array([[(k % 5) * 0.25] * dim for k in range(len(R))]) * off
    X1 = X2 + np.array(R)
    scale = (1, 0.5, 2, 4)[le]
    lens = [0.5] * len(R) if le == 0 else [1.0] * len(R) if le == 1 else [2.0] * len(R) if le == 2 else [(0.5, 1.0, 2.0)[k % 3] for k in range(len(R))]
    length = np.array(lens) if le == 3 else lens[0]
    f, ref = ((G.squared_exponential_kernel, se), (G.compactly_supported_normal_kernel, compact))[which]
    kw = dict(length=length)
    if le:
        kw["scale"] = scale
    if (i, j) != (-1, -1):
        kw["derivatives"] = (i, j) if off else np.array([i, j])
    want = [ref(r, l, scale, i, j) for r, l in zip(R, lens)]
    ctx.close(np.asarray(f(X1, X2, **kw)), want, "kernel", f"{('SE', 'compact')[which]} dim={dim} derivatives {(i, j)}", tol=1e-11)
    # symmetry: swapping the points swaps the roles of the derivatives
    kw["derivatives"] = (j, i)
    ctx.close(np.asarray(f(X2, X1, **kw)), want, "symmetry", tol=1e-11)
    if dim == 1 and i < 1 and j < 1 and le != 3:
        kw["derivatives"] = (i, j)
        ctx.close(np.asarray(f(X1[:, 0], X2[:, 0], **kw)), want, "flat-input", tol=1e-11)
    ctx.extra_states.update(hash((which, le, i, j, r)) for r in R)


# ------------------------------------------------------------------ Gaussian processes
PTS = {1: [(0,), (0.75,), (-1.5,), (3,)], 2: [(0, 0), (1, 0), (0.5, -1), (0, 2.5)]}
KERNELS = ["default", "se", "compact"]


def gp_cases(tier):
    q = tier == "quick"
    for dim in (1, 2):
        for o in (1, 2, 3):
            for tr in itertools.combinations(range(4), o):
                for ind in [None] + ([list(s) for m in (1, 2) for s in itertools.combinations(range(4), m)] if o < 3 or not q else [[0, 3]]):
                    for grad in (0, 1):
                        for k in range(3):
                            for lump in ((0, 1) if ind is None else (0,)):
                                for cs in ((0, 1) if k == 2 else (0,)):
                                    yield [dim, list(tr), ind, grad, k, lump, cs, 0.5]
    if not q:
        for dim in (1, 2):
            for tr in itertools.permutations(range(4), 3):
                for grad in (0, 1):
                    for k in range(3):
                        yield [dim, list(tr), None, grad, k, 0, 0, 0.25]
                        yield [dim, list(tr), [3, 0, 1], grad, k, 0, 0, 1.0]


def kfun(k):
    if k == 0:
        return None, lambda r, i, j: se(r, 0.2, 1.0, i, j)
    if k == 1:
        return (lambda X1, X2, derivatives=(-1, -1): np.asarray(G.squared_exponential_kernel(X1, X2, length=1.0, scale=2.0, derivatives=derivatives))), lambda r, i, j: se(r, 1.0, 2.0, i, j)
    return (lambda X1, X2, derivatives=(-1, -1): np.asarray(G.compactly_supported_normal_kernel(X1, X2, length=1.0, scale=2.0, derivatives=derivatives))), lambda r, i, j: compact(r, 1.0, 2, i, j)


def gram(ref, A, Bm, grad):
    dim = A.shape[1]
    ds = range(-1, dim if grad else 0)
    return np.vstack([np.hstack([np.array([[ref((a - b).tolist(), i, j) for b in Bm] for a in A]) for j in ds]) for i in ds])


@scenario("gaussian_process", gp_cases, "every training set of up to 3 lattice points x inducing points x gradients x kernel x options; predictions at three test sets in every order of two, mean only or full",
          nontrivial=lambda c: c[2] is not None or c[3] > 0)
def gaussian_process(case, ctx):
    dim, tr, ind, grad, k, lump, cs, sig = case
    X = np.array([PTS[dim][i] for i in tr], float)
    y = np.array([1.0, -2.0, 0.5][:len(tr)])
    Gy = np.array([[0.5, -1], [1, 0.25], [-2, 1]])[:len(tr), :dim]
    ker, ref = kfun(k)
    Z = None if ind is None else np.array([PTS[dim][i] for i in ind], float)
    kw = dict(sigma_n=sig)
    if ker is not None:
        kw["kernel"] = ker
    if Z is not None:
        kw["X_induced"] = Z
    if grad:
        kw["grad_y_train"] = Gy
    if lump:
        kw["lump_K3"] = True
    if cs:
        kw["compact_kernel"] = True
    yy = np.concatenate([y, Gy.flatten("F")]) if grad else y

    def expected(T):
        K2, K1 = gram(ref, X, T, grad), gram(ref, T, T, grad)
        if Z is None:
            K3 = gram(ref, X, X, grad)
            if lump:
                K3 = np.diag(K3.sum(axis=1))
            M = K3 + sig ** 2 * np.eye(len(K3))
            if np.linalg.eigvalsh(M)[0] < 1e-3:
                return None
            return K2.T @ np.linalg.solve(M, yy), K1 - K2.T @ np.linalg.solve(M, K2)
        Kmm, Kmn, Km2 = gram(ref, Z, Z, grad), gram(ref, Z, X, grad), gram(ref, Z, T, grad)
        S = Kmm + Kmn @ Kmn.T / sig ** 2
        if np.linalg.cond(Kmm) > 1e4:
            return None
        return Km2.T @ np.linalg.solve(S, Kmn @ yy) / sig ** 2, K1 - Km2.T @ np.linalg.solve(Kmm, Km2) + Km2.T @ np.linalg.solve(S, Km2)

    tests = [np.array([PTS[dim][i] for i in s], float) + d for s, d in (([0, 1], 0.0), ([2], 0.25), ([3, 1, 0], -0.125))]
    want = [expected(T) for T in tests]
    if any(w is None for w in want):
        ctx.outcome("ill-conditioned: not judged")
        return

    def judge(r, i, only, aspect):
        ctx.check(isinstance(r, tuple) and len(r) == 2, aspect + "-outputs")
        m, C = r
        ctx.close(np.asarray(m), want[i][0], aspect + "-mean", f"test set {i}", tol=1e-3)
        if only:
            ctx.check(C is None, aspect + "-mean-only")
        else:
            ctx.close(np.asarray(C.todense()) if hasattr(C, "todense") else np.asarray(C), want[i][1], aspect + "-covariance", f"test set {i}", tol=1e-6)

    i0 = len(tr) % 3
    judge(G.gaussian_process(X, y, tests[i0], **kw), i0, False, "direct")
    for a, b in itertools.permutations(range(3), 2):
        pre = G.gaussian_process_precompute(X.copy(), y.copy(), **kw)
        for t, i in enumerate((a, b, a)):
            only = bool((a + b + t) % 2)
            ctx.transitions += 1
            judge(pre.predict(tests[i].copy(), mean_only=True) if only else pre.predict(tests[i].copy()), i, only, "precomputed")
    ctx.outcome((dim, len(tr), ind is None, grad, k, lump, cs))


def large_cases(tier):
    for dim, n in ((1, 20), (1, 70), (2, 36), (2, 80)) + (() if tier == "quick" else ((1, 140), (1, 270), (2, 160), (2, 280))):
        for grad in (0, 1) if n < 100 else (0,):
            for ind in (0, 1):
                for k in (1, 2):
                    for cs in (0, 1) if k == 2 else (0,):
                        yield [dim, n, grad, ind, k, cs]


@scenario("large", large_cases, "many training and test points", nontrivial=lambda c: True)
def large(case, ctx):
    dim, n, grad, ind, k, cs = case
    w = max(2, round(n ** 0.5))
    X = np.array([[0.75 * i] for i in range(n)] if dim == 1 else [[0.75 * (i % w), 0.75 * (i // w)] for i in range(n)])
    step = next(s for s in (7, 11, 13) if n % s)
    X = X[[i * step % n for i in range(n)]]
    y = np.array([(i * 5) % 7 - 3.0 for i in range(n)])
    Gy = np.array([[(i * 3 + d) % 5 - 2.0 for d in range(dim)] for i in range(n)])
    T = np.concatenate([X[::3] + 0.25, X[1::9], [[100.0] * dim]] + ([X - 0.125, X[::2] + 0.5] if dim == 1 else []))
    ker, ref = kfun(k)
    Z = np.array([[2.25 * i] for i in range(n // 3)] if dim == 1 else [[2.25 * i, 2.25 * j] for i in range(1 + w // 3) for j in range(1 + w // 3)]) if ind else None
    sig = 1.0
    kw = dict(sigma_n=sig, kernel=ker)
    if ind:
        kw["X_induced"] = Z
    if grad:
        kw["grad_y_train"] = Gy
    if cs:
        kw["compact_kernel"] = True
    yy = np.concatenate([y, Gy.flatten("F")]) if grad else y
    K2, K1 = gram(ref, X, T, grad), gram(ref, T, T, grad)
    if ind:
        Kmm, Kmn, Km2 = gram(ref, Z, Z, grad), gram(ref, Z, X, grad), gram(ref, Z, T, grad)
        S = Kmm + Kmn @ Kmn.T / sig ** 2
        if np.linalg.cond(Kmm) > 1e4:
            ctx.outcome("ill-conditioned: not judged")
            return
        want = Km2.T @ np.linalg.solve(S, Kmn @ yy) / sig ** 2, K1 - Km2.T @ np.linalg.solve(Kmm, Km2) + Km2.T @ np.linalg.solve(S, Km2)
    else:
        M = gram(ref, X, X, grad) + sig ** 2 * np.eye(len(yy))
        want = K2.T @ np.linalg.solve(M, yy), K1 - K2.T @ np.linalg.solve(M, K2)
    den = lambda C: np.asarray(C.todense()) if hasattr(C, "todense") else np.asarray(C)
    m, C = G.gaussian_process(X.copy(), y.copy(), T.copy(), **kw)
    ctx.close(np.asarray(m), want[0], "direct-mean", tol=2e-3)
    ctx.close(den(C), want[1], "direct-covariance", tol=1e-6)
    pre = G.gaussian_process_precompute(X.copy(), y.copy(), **kw)
    h = len(T) // 2
    for part in (slice(0, None), slice(0, h), slice(h, None)):
        idx = np.arange(len(T))[part]
        idx = np.concatenate([idx + b * len(T) for b in range(dim + 1 if grad else 1)])
        m, C = pre.predict(T[part].copy())
        ctx.close(np.asarray(m), want[0][idx], "precomputed-mean", tol=2e-3)
        ctx.close(den(C), want[1][np.ix_(idx, idx)], "precomputed-covariance", tol=1e-6)
        ctx.transitions += 1
    ctx.outcome((dim, n > 50, grad, ind, k, cs))
