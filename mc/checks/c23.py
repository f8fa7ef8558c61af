"""C23 Equality-constrained quadratic minimisation and linear solves with fixed unknowns: every small problem, option shape and history."""
import itertools
from fractions import Fraction as Fr
import numpy as np
import scipy.sparse as sp
from ..core import scenario, G

PROPERTY = "C23"
ASSUMPTIONS = ["only problems whose exact (rational) optimality system is nonsingular are judged", "matrices are given as sparse csr/csc matrices and "
               "fixed indices as distinct integers, as documented", "optional vectors are all one-dimensional or all two-dimensional with the same number of columns"]


def solve_exact(M, R):
    """M X = R over the rationals, or None if M is singular"""
    n = len(M)
    A = [[Fr(x) for x in M[i]] + [Fr(x) for x in R[i]] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c]), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [row[n:] for row in A]


def reference(n, Q, A, k, symmetric=True):
    """exact solution operator of the problem: function of (c, b, y) column vectors; None if singular"""
    k = k or []
    A = A or []
    m = len(A)
    free = [i for i in range(n) if i not in k]
    if symmetric:
        Q = [[Fr(Q[i][j] + Q[j][i], 2) for j in range(n)] for i in range(n)]
    nf = len(free)
    N = nf + m
    M = [[Q[i][j] for j in free] + [A[r][i] for r in range(m)] for i in free] + [[A[r][j] for j in free] + [0] * m for r in range(m)]
    inv = solve_exact(M, [[int(i == j) for j in range(N)] for i in range(N)]) if N else []
    if inv is None:
        return None

    inv = np.array([[float(x) for x in r] for r in inv]).reshape(N, N)
    Qf, Af = np.array([[float(x) for x in r] for r in Q]), np.array(A, float).reshape(m, n)

    def f(c, b, y):
        y = np.array(y, float)
        rhs = np.concatenate([-np.array(c, float)[free] - Qf[np.ix_(free, k)] @ y, np.array(b, float) - Af[:, k] @ y])
        u = np.full(n, np.nan)
        u[free] = (inv @ rhs)[:nf]
        u[k] = y
        return u
    return f


def ordered_subsets(n, full=True):
    for o in range(n + 1):
        for s in itertools.permutations(range(n), o):
            yield list(s)


def sym(n, e):
    M = [[0] * n for _ in range(n)]
    for (i, j), x in zip(itertools.combinations_with_replacement(range(n), 2), e):
        M[i][j] = M[j][i] = x
    return M


ROWS = {1: [[[1]], [[2]]], 2: [[[1, 0]], [[1, -1]], [[1, 2]], [[0, 2]], [[1, 1], [0, 1]]],
        3: [[[1, 0, 0]], [[1, -1, 0]], [[1, 1, 1]], [[0, 2, 1]], [[1, 0, 1], [0, 1, -1]], [[1, 1, 0], [0, 1, 1]]]}


def problems(tier):
    q = tier == "quick"
    for n in (1, 2, 3):
        alph = {1: (-2, 1, 3), 2: (-1, 0, 1, 2), 3: (-1, 0, 2) if q else (-1, 0, 1, 2)}[n]
        for t, e in enumerate(itertools.product(alph, repeat=n * (n + 1) // 2)):
            Q = sym(n, e)
            for s, k in enumerate([None] + list(ordered_subsets(n))):
                for r, A in enumerate([None] + ROWS[n]):
                    if q and n == 3 and (t + s + r) % 7:
                        continue
                    yield [n, Q, k, A, (t + s + r) % 3]
    # non-symmetric quadratic forms (documented: symmetrised)
    for t, e in enumerate(itertools.product((-1, 0, 1, 2), repeat=4)):
        for k in [None] + list(ordered_subsets(2)):
            for A in (None, [[1, 2]]):
                yield [2, [[e[0], e[1]], [e[2], e[3]]], k, A, t % 3]
    # longer chains: every ordered subset of fixed entries
    for n in (4, 5):
        L = [[(3 + i if i == j else -1 - (i + j) % 2 if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)]
        for k in ordered_subsets(n):
            for A in (None, [[1] + [0] * (n - 2) + [-2]], [[1] * n]):
                if n < 5 or not q or sum((i + 1) * x for i, x in enumerate(k)) % 5 == 0:
                    yield [n, L, k, A, len(k) % 3]


C0, B0, Y0 = (1, -2, 3, 5, -4), (2, -1, 3), (3, 0, -2, 1, 7)


def value(kind, base, n, scal, shift):
    """(what is passed, list of columns it means)"""
    if kind == "none":
        return None, None
    if kind == "scalar":
        return scal, scal
    col = [base[(i + shift) % len(base)] for i in range(n)]
    return np.array(col, dtype=float), [col]


def combos(m, o):
    """all (kinds of c, b, y, p)"""
    for p in (0, 1, 2):
        ks = ("none", "scalar", "array")
        for kc in ks:
            for kb in (ks if m else ("none",)):
                for ky in (ks if o else ("none",)):
                    has = "array" in (kc, kb, ky)
                    if (p > 0) == has or (p == 0 and has):
                        yield kc, kb, ky, p


def make(kind, base, n, p, scal, t):
    if kind == "none":
        return None, [[0] * n] * max(p, 1)
    if kind == "scalar":
        return scal, [[scal] * n] * max(p, 1)
    cols = [[base[(i + t + 2 * j) % len(base)] for i in range(n)] for j in range(max(p, 1))]
    a = np.array(cols, dtype=float).T
    return (a[:, 0].copy() if p == 0 else a), cols


def judge(ctx, got, ref, n, p, C, B, Y, aspect):
    want = np.array([ref(C[j], B[j], Y[j]) for j in range(max(p, 1))]).T.reshape((n,) if p == 0 else (n, p))
    ctx.close(got, want, aspect, f"p={p} c={C} b={B} y={Y}", tol=1e-8)


@scenario("minimise", problems, "every small symmetric form x ordered fixed subset x constraint rows, all shapes of c, b, y in one solve history per case",
          nontrivial=lambda c: bool(c[2]) or bool(c[3]))
def minimise(case, ctx):
    n, Q, k, A, rot = case
    ref = reference(n, Q, A, k)
    ctx.outcome(("solvable", ref is not None, n, len(k or []), len(A or [])))
    if ref is None:
        return
    fmt = (sp.csr_matrix, sp.csc_matrix)[rot % 2]
    mk = lambda: (fmt(np.array(Q, float)), None if A is None else sp.csr_matrix(np.array(A, float)), None if k is None else np.array(k, dtype=int))
    Qs, As, ks = mk()
    pre = G.min_quad_with_fixed_precompute(Qs, As, ks)
    # the caller reuses its arrays afterwards
    Qs.data[:] = 77.
    if As is not None:
        As.data[:] = -55.
    if ks is not None:
        ks[:] = 0
    m, o = len(A or []), len(k or [])
    L = list(combos(m, o))
    for t, (kc, kb, ky, p) in enumerate(L):
        if ctx.tier == "quick" and n == 3 and len(L) > 27 and (t + rot) % 3:
            continue
        c, C = make(kc, C0, n, p, 2., t)
        b, B = make(kb, B0, m, p, -3., t)
        y, Y = make(ky, Y0, o, p, 1.5, t)
        u = pre.solve(c, b, y)
        ctx.transitions += 1
        judge(ctx, u, ref, n, p, C, B, Y, "precomputed")
        if (t + rot) % 9 == 0 or n < 3:
            Q2, A2, k2 = mk()
            kw = {a: v for a, v in zip("cAbky", (c, A2, b, k2, y)) if v is not None}
            judge(ctx, G.min_quad_with_fixed(Q2, **kw), ref, n, p, C, B, Y, "direct")


def systems(tier):
    q = tier == "quick"
    for n in (1, 2, 3):
        alph = {1: (-2, 1, 3), 2: (-1, 0, 1, 2), 3: (-1, 0, 1)}[n]
        for t, e in enumerate(itertools.product(alph, repeat=n * n)):
            for s, k in enumerate([None] + list(ordered_subsets(n))):
                if n == 3 and (q and (t + 2 * s) % 23):
                    continue
                yield [n, [list(e[i * n:(i + 1) * n]) for i in range(n)], k, (t + s) % 3]
    for n in (4, 5):
        L = [[(3 + i if i == j else -1 - (i + 2 * j) % 3 if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)]
        for k in ordered_subsets(n):
            yield [n, L, k, len(k) % 3]


@scenario("fixed_dof", systems, "every small non-symmetric system x ordered fixed subset, all shapes of b, y in one solve history per case",
          nontrivial=lambda c: bool(c[2]))
def fixed_dof(case, ctx):
    n, A, k, rot = case
    ref = reference(n, A, None, k, symmetric=False)
    ctx.outcome(("solvable", ref is not None, n, len(k or [])))
    if ref is None:
        return
    mk = lambda: (sp.csc_matrix(np.array(A, float)), None if k is None else np.array(k, dtype=int))
    As, ks = mk()
    pre = G.fixed_dof_solve_precompute(As, ks)
    As.data[:] = 77.
    if ks is not None:
        ks[:] = 0
    o = len(k or [])
    for t, (kc, _, ky, p) in enumerate(combos(0, o)):
        if kc == "scalar":
            continue
        b, B = make(kc, C0, n, p, 2., t)
        y, Y = make(ky, Y0, o, p, 1.5, t)
        N = [[-x for x in col] for col in B]
        judge(ctx, pre.solve(b, y), ref, n, p, N, [[]] * max(p, 1), Y, "precomputed")
        ctx.transitions += 1
        if (t + rot) % 5 == 0 or n < 3:
            A2, k2 = mk()
            judge(ctx, G.fixed_dof_solve(A2, b, k2, y), ref, n, p, N, [[]] * max(p, 1), Y, "direct")


def larges(tier):
    """[unknowns, pattern, how many are fixed, constraint rows, columns of the right-hand side]"""
    for n in (20, 70, 150, 300) if tier == "quick" else (20, 70, 150, 300, 700, 1100):
        for pat in ("chain", "arrow", "grid"):
            for o in (0, 1, n // 3, n - 3):
                for m in (0, 1, 3) if o < n - 3 else (0, 2):
                    yield [n, pat, o, m, (0, 1, 5)[(n // 10 + o + m) % 3]]


@scenario("large", larges, "problems with many unknowns, many fixed entries and several columns against the dense optimality system")
def large(case, ctx):
    n, pat, o, m, p = case
    Q = np.zeros((n, n))
    for i in range(n):
        Q[i, i] = 8 + i % 5
        for j in {"chain": (i - 1,), "arrow": (0,), "grid": (i - 1, i - 7)}[pat]:
            if 0 <= j < i:
                Q[i, j] = Q[j, i] = (-1 - (i + j) % 2) / (1 if pat != "arrow" else 16)
    step = next(s for s in (7, 11, 13, 17) if n % s)
    k = [(3 + i * step) % n for i in range(o)]
    free = [i for i in range(n) if i not in set(k)]
    A = np.zeros((m, n))
    for r in range(m):
        A[r, free[r::m]] = 1 + r
        A[r, r::4] += 0.5
    P = max(p, 1)
    c = np.array([[C0[(i + 2 * j) % 5] + i % 3 for j in range(P)] for i in range(n)], float)
    b = np.array([[B0[(i + j) % 3] for j in range(P)] for i in range(m)], float).reshape(m, P)
    y = np.array([[Y0[(i + j) % 5] + i % 4 for j in range(P)] for i in range(o)], float).reshape(o, P)

    def dense(M, c, A, b):
        f, rows = free, len(A)
        K = np.block([[M[np.ix_(f, f)], A[:, f].T], [A[:, f], np.zeros((rows, rows))]])
        rhs = np.concatenate([-c[f] - M[np.ix_(f, k)] @ y, b - A[:, k] @ y])
        u = np.zeros((n, P))
        u[f] = np.linalg.solve(K, rhs)[:len(f)]
        u[k] = y
        return u if p else u[:, 0]
    sq = lambda a: (a if p else a[:, 0]).copy() if a.size else None
    ka = np.array(k, dtype=int) if o else None
    want = dense(Q, c, A, b)
    Qs, As = sp.csr_matrix(Q), sp.csr_matrix(A) if m else None
    ctx.close(G.min_quad_with_fixed(Qs, c=sq(c), A=As, b=sq(b), k=ka, y=sq(y)), want, "direct", tol=1e-8)
    pre = G.min_quad_with_fixed_precompute(Qs, As, ka)
    ctx.close(pre.solve(sq(c), sq(b), sq(y)), want, "precomputed", tol=1e-8)
    ctx.close(pre.solve(sq(2 * c), sq(b), sq(y)), dense(Q, 2 * c, A, b), "precomputed", "another c", tol=1e-8)
    N = Q + np.triu(np.full((n, n), 0.25 / n), 1)
    none = np.zeros((0, n))
    want = dense(N, -c, none, np.zeros((0, P)))
    Ns = sp.csc_matrix(N)
    ctx.close(G.fixed_dof_solve(Ns, sq(c), ka, sq(y)), want, "fixed_dof", tol=1e-8)
    ctx.close(G.fixed_dof_solve_precompute(Ns, ka).solve(sq(c), sq(y)), want, "fixed_dof-precomputed", tol=1e-8)
    ctx.outcome((n > 256, pat, o > 0, m, p))
