"""C24 L1 / group-sparse minimisation against an enumeration of all sign patterns, on every small problem and option combination."""
import contextlib, itertools, sys
import numpy as np
import scipy.sparse as sp
from .. import fakemosek
from ..core import scenario, G as gp

PROPERTY = "C24"
ASSUMPTIONS = ["the pure-Python SCS solver is used (MOSEK is not installed)", "only problems that are bounded below and whose constraints are consistent are judged",
               "an error raised instead of an answer is accepted once per problem class below the stated rate: the solver may report that it did not converge",
               "a prefactorisation is square and means Q = L L^T (both solvers use it that way)"]
TOL = 1e-6


def objective(Gm, Q, c, d, u):
    v = (Gm @ u).reshape(-1, d)
    return np.sum(np.sqrt(np.sum(v * v, axis=1))) + 0.5 * u @ Q @ u + c @ u


def best_l1(n, Gm, Q, c, K, z):
    """smallest objective over the stationary points of every sign pattern of Gu (constraints K u = z)"""
    m = len(Gm)
    best = np.inf
    for pat in itertools.product((-1, 0, 1), repeat=m):
        s = np.array(pat, float)
        C = np.vstack([K, Gm[s == 0]])
        r = np.concatenate([z, np.zeros(int(np.sum(s == 0)))])
        M = np.block([[Q, C.T], [C, np.zeros((len(C), len(C)))]])
        rhs = np.concatenate([-c - Gm.T @ s, r])
        x = np.linalg.lstsq(M, rhs, rcond=None)[0]
        u = x[:n]
        if len(K) and np.max(np.abs(K @ u - z)) > 1e-9:
            continue
        best = min(best, objective(Gm, Q, c, 1, u))
    return best


QS = {1: [None, [[2]]], 2: [None, [[2, 1], [1, 2]], [[1, -1], [-1, 1]], [[3, 0], [0, 1]]],
      3: [None, [[2, 1, 0], [1, 2, 1], [0, 1, 2]], [[1, -1, 0], [-1, 2, -1], [0, -1, 1]]]}
GS = {1: [None, [[2]], [[1], [-3]]], 2: [None, [[1, -1]], [[2, 0], [0, 1]], [[1, 1], [1, -1], [0, 2]]],
      3: [None, [[1, -1, 0], [0, 1, -1]], [[1, 0, 0], [0, 2, 0], [0, 0, 3]], [[0, 0, 0], [0, 0, 0]]]}
CS = {1: [None, [0.5], [-3]], 2: [None, [0.5, -0.25], [-2, 3]], 3: [None, [0.5, -0.25, 0.125], [-2, 3, 1]]}
FIX = {1: [None], 2: [None, ([0], [2]), ([1], [-1])], 3: [None, ([0], [2]), ([2, 0], [1, -1]), ([1], [0.5])]}
CON = {1: [None, ([[2]], [[1]])], 2: [None, ([[1, 1]], [[1]]), ([[1, -2]], [[3]])], 3: [None, ([[1, 1, 1]], [[1]]), ([[1, 0, -1], [0, 1, 2]], [[0], [2]]), ([[0, 2, 1]], [[-1]])]}


def problems(tier):
    for n in (1, 2, 3):
        for q, g, c, f, a in itertools.product(*[range(len(T[n])) for T in (QS, GS, CS, FIX, CON)]):
            yield [n, q, g, c, f, a, 1]
    if tier == "thorough":
        for n in (2, 3):
            for sc in (2, 4):
                for q, g, c, f, a in itertools.product(*[range(len(T[n])) for T in (QS, GS, CS, FIX, CON)]):
                    yield [n, q, g, c, f, a, sc]


def bounded(n, Q, Gm, c, K):
    """is |Gu| + u'Qu/2 + c'u bounded below on K u = 0 directions?  Sufficient condition, by directions with Qu = 0, Ku = 0."""
    M = np.vstack([Q, K])
    _, s, Vt = np.linalg.svd(M)
    N = Vt[np.sum(s > 1e-9):].T
    if N.shape[1] == 0:
        return True
    # need |G N t|_1 > |c'N t| for all t (with some margin), or both zero
    if N.shape[1] == 1:
        t = N[:, 0]
        return np.sum(np.abs(Gm @ t)) > abs(c @ t) + 1e-3
    # extreme directions of the l1 ball: those where rank-1 less rows vanish
    if np.linalg.matrix_rank(Gm @ N) < N.shape[1]:
        return False
    GN = Gm @ N
    for Z in itertools.combinations(range(len(GN)), N.shape[1] - 1):
        _, s, Vt = np.linalg.svd(GN[list(Z)])
        if np.sum(s > 1e-9) < N.shape[1] - 1:
            continue
        t = Vt[-1]
        if np.sum(np.abs(GN @ t)) <= abs(c @ N @ t) + 1e-3:
            return False
    return True


def unpack(case):
    n, q, g, c, f, a, sc = case
    Q = QS[n][q]
    Gm = GS[n][g]
    cc = CS[n][c]
    k = FIX[n][f]
    A = CON[n][a]
    K, z = [], []
    if A is not None:
        K += A[0]
        z += [r[0] * sc for r in A[1]]
    if k is not None:
        K += [[int(j == i) for j in range(n)] for i in k[0]]
        z += [y * sc for y in k[1]]
    K, z = np.array(K, float).reshape(-1, n), np.array(z, float)
    return n, Q, Gm, cc, k, A, K, z, sc


def consistent(K, z):
    if not len(K):
        return True
    return np.linalg.matrix_rank(np.c_[K, z]) == np.linalg.matrix_rank(K) == len(K)


def call(ctx, kw):
    for _ in range(3):
        try:
            return gp.min_l1_with_fixed(**kw)
        except ValueError as e:
            err = e
    ctx.check(False, "no-answer", lambda: f"{err}")


def judge(ctx, u, n, Gm, Q, c, d, K, z, best, aspect):
    if not ctx.check(isinstance(u, np.ndarray) and u.shape == (n,) and np.all(np.isfinite(u)), aspect + "-shape", lambda: repr(u)):
        return
    if len(K):
        ctx.check(np.max(np.abs(K @ u - z)) < TOL, aspect + "-feasible", lambda: f"{u} {K @ u - z}")
    f = objective(Gm, Q, c, d, u)
    if best is not None:
        ctx.check(f <= best + TOL * (1 + abs(best)), aspect + "-optimal", lambda: f"objective {f} at {u}, attainable {best}")
    # no feasible point of a lattice of displacements is better
    if len(K):
        _, s, Vt = np.linalg.svd(K)
        N = Vt[np.sum(s > 1e-9):].T
    else:
        N = np.eye(n)
    low = min((objective(Gm, Q, c, d, u + t * (N @ np.array(D, float))) for D in itertools.product((-2, -1, 0, 1, 2), repeat=N.shape[1]) if any(D)
               for t in (0.01, 0.1, 0.5)), default=np.inf)
    ctx.check(f <= low + 1e-7 * (1 + abs(f)), aspect + "-improvable", lambda: f"objective {f} at {u}, nearby {low}")


@scenario("l1", problems, "every combination of quadratic form (as Q, as L, none), norm matrix, linear term, fixed entries and constraints", nontrivial=lambda c: c[4] > 0 or c[5] > 0)
def l1(case, ctx):
    n, Q, Gm, cc, k, A, K, z, sc = unpack(case)
    Gd = np.eye(n) if Gm is None else np.array(Gm, float)
    Qd = np.zeros((n, n)) if Q is None else np.array(Q, float)
    cd = np.zeros(n) if cc is None else np.array(cc, float)
    if not consistent(K, z) or not bounded(n, Qd, Gd, cd, K):
        ctx.outcome("not judged")
        return
    kw = {}
    if Gm is not None:
        kw["G"] = sp.csr_array(Gd)
    if cc is not None:
        kw["c"] = cd.copy()
    if k is not None:
        kw["k"], kw["y"] = np.array(k[0]), np.array(k[1], float) * sc
    if A is not None:
        kw["A"], kw["b"] = np.array(A[0], float), np.array(A[1], float) * sc
    if Q is not None:
        kw["Q"] = sp.csr_array(Qd)
    if not any(x in kw for x in ("G", "Q", "c", "A")) and k is not None and max(k[0]) != n - 1 or not kw:
        ctx.outcome("size not given")
        return
    best = best_l1(n, Gd, Qd, cd, K, z)
    u = call(ctx, dict(kw, solver="scs" if case[1] % 2 else None))
    if u is not None:
        judge(ctx, u, n, Gd, Qd, cd, 1, K, z, best, "l1")
    ctx.outcome((n, Q is not None, len(K)))
    if Q is not None and np.linalg.eigvalsh(Qd)[0] > 1e-6:
        kw2 = dict(kw, L=sp.csr_array(np.linalg.cholesky(Qd)))
        del kw2["Q"]
        u = call(ctx, kw2)
        if u is not None:
            judge(ctx, u, n, Gd, Qd, cd, 1, K, z, best, "l1-factored")
    if Q is not None and case[2] == 0:
        # without a sparse term: the quadratic solver's answer
        M = np.block([[Qd, K.T], [K, np.zeros((len(K), len(K)))]])
        if np.linalg.matrix_rank(M) == len(M):
            u = call(ctx, dict(kw, G=sp.csr_array((n, n))))
            if u is not None:
                ctx.close(u, np.linalg.solve(M, np.concatenate([-cd, z]))[:n], "quadratic", tol=1e-5)


def groups(tier):
    for d, n, ng in [(2, 2, 2), (2, 3, 3), (3, 3, 2), (2, 4, 1)] + ([(4, 4, 1), (3, 3, 3)] if tier == "thorough" else []):
        for g in range(ng):
            for q in range(3):
                for c in range(3):
                    for f in range(3):
                        for a in range(3):
                            yield [d, n, g, q, c, f, a]


def gmatrix(d, n, g):
    if n == d and g == 0 or (d, n) == (2, 4):
        return None
    if g == 0 and n == 3:
        return np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0]], float)
    rng = [[(i * 3 + j * (g + 2) + i * j) % 4 - 1 for j in range(n)] for i in range(d * 2)]
    return np.array(rng, float)


@scenario("group", groups, "norms of groups of adjacent entries: every combination of options", nontrivial=lambda c: c[5] > 0 or c[6] > 0)
def group(case, ctx):
    d, n, g, q, c, f, a = case
    Gm = gmatrix(d, n, g)
    Gd = np.eye(n) if Gm is None else Gm
    Qd = [np.zeros((n, n)), 2 * np.eye(n) + np.eye(n, k=1) + np.eye(n, k=-1), np.diag(np.arange(n, dtype=float))][q]
    cd = [np.zeros(n), 0.25 * np.array([1, -1, 0.5, 2])[:n], np.array([-2., 3, 1, -1])[:n]][c]
    K, z, kw = [], [], {}
    if f:
        kw["k"] = np.array([[0], [n - 1, 0]][f - 1][:max(1, n - 2)])
        kw["y"] = np.array([1.5, -1])[:len(kw["k"])]
        K += [[int(j == i) for j in range(n)] for i in kw["k"]]
        z += list(kw["y"])
    if a:
        kw["A"] = np.array([[[1] * n], [[2 if j % 2 else -1 for j in range(n)]]][a - 1], float)
        kw["b"] = np.array([[2.]])
        K += kw["A"].tolist()
        z += [2.]
    K, z = np.array(K, float).reshape(-1, n), np.array(z, float)
    # bounded: group norm >= l1/sqrt(d); ask for a margin
    if not consistent(K, z) or not bounded(n, Qd, Gd / np.sqrt(d), cd, K) or len(K) >= n:
        ctx.outcome("not judged")
        return
    if Gm is not None:
        kw["G"] = sp.csr_array(Gm)
    if q:
        kw["Q"] = sp.csr_array(Qd)
    if c or not any(x in kw for x in "GQA"):
        kw["c"] = cd.copy()
    u = call(ctx, dict(kw, d=d))
    ctx.outcome((d, n, q, len(K)))
    if u is not None:
        judge(ctx, u, n, Gd, Qd, cd, d, K, z, None, "group")


# ------------------------------------------------------------------ the other solver, behind a stand-in for its API
@contextlib.contextmanager
def with_mosek(m):
    old = sys.modules.get("mosek", 0)
    sys.modules["mosek"] = m
    try:
        yield m
    except fakemosek.NotModelled:
        pass
    finally:
        if old == 0:
            sys.modules.pop("mosek", None)
        else:
            sys.modules["mosek"] = old


def mosek_cases(tier):
    q = tier == "quick"
    for i, p in enumerate(problems(tier)):
        if not q or p[0] < 3 or (p[2] + p[3] + p[4] + p[5]) % 2 == 0:
            yield ["l1", p]
    for p in groups(tier):
        yield ["group", p]


@scenario("mosek", mosek_cases, "the conic program handed to MOSEK (recorded by a stand-in for its API and solved) has the same optimum, for every combination of "
          "options; the form given as Q and as L", nontrivial=lambda c: c[0] == "group")
def mosek(case, ctx):
    kind, p = case
    kw = {}
    if kind == "l1":
        n, Q, Gm, cc, k, A, K, z, sc = unpack(p)
        d = 1
        Gd = np.eye(n) if Gm is None else np.array(Gm, float)
        Qd = np.zeros((n, n)) if Q is None else np.array(Q, float)
        cd = np.zeros(n) if cc is None else np.array(cc, float)
        if Gm is not None:
            kw["G"] = sp.csr_array(Gd)
        if cc is not None:
            kw["c"] = cd.copy()
        if k is not None:
            kw["k"], kw["y"] = np.array(k[0]), np.array(k[1], float) * sc
        if A is not None:
            kw["A"], kw["b"] = np.array(A[0], float), np.array(A[1], float) * sc
        ok = consistent(K, z) and bounded(n, Qd, Gd, cd, K)
        has = Q is not None
    else:
        d, n, g, q, c, f, a = p
        Gm = gmatrix(d, n, g)
        Gd = np.eye(n) if Gm is None else Gm
        Qd = [np.zeros((n, n)), 2 * np.eye(n) + np.eye(n, k=1) + np.eye(n, k=-1), np.diag(np.arange(n, dtype=float) + 1)][q]
        cd = [np.zeros(n), 0.25 * np.array([1, -1, 0.5, 2])[:n], np.array([-2., 3, 1, -1])[:n]][c]
        K, z = [], []
        if f:
            kw["k"] = np.array([[0], [n - 1, 0]][f - 1][:max(1, n - 2)])
            kw["y"] = np.array([1.5, -1])[:len(kw["k"])]
            K += [[int(j == i) for j in range(n)] for i in kw["k"]]
            z += list(kw["y"])
        if a:
            kw["A"] = np.array([[[1] * n], [[2 if j % 2 else -1 for j in range(n)]]][a - 1], float)
            kw["b"] = np.array([[2.]])
            K += kw["A"].tolist()
            z += [2.]
        K, z = np.array(K, float).reshape(-1, n), np.array(z, float)
        ok = consistent(K, z) and bounded(n, Qd, Gd / np.sqrt(d), cd, K) and len(K) < n
        if Gm is not None:
            kw["G"] = sp.csr_array(Gm)
        if c:
            kw["c"] = cd.copy()
        kw["d"] = d
        has = q > 0
    if has and np.linalg.eigvalsh(Qd)[0] < 1e-6 or not ok:      # semidefinite factors: MOSEK's own business
        ctx.outcome("not judged")
        return
    if not has and not any(x in kw for x in "GcA"):
        ctx.outcome("size not given")
        return
    best = best_l1(n, Gd, Qd, cd, K, z) if d == 1 else None
    for form in (("Q", "L") if has else ("",)):
        args = dict(kw)
        if form == "Q":
            args["Q"] = sp.csr_array(Qd)
        if form == "L":
            args["L"] = sp.csr_array(np.linalg.cholesky(Qd))
        params = [("MSK_DPAR_INTPNT_CO_TOL_REL_GAP", "1.0e-9"), ("MSK_IPAR_NUM_THREADS", "1")]
        u = None
        with with_mosek(fakemosek.make()) as m:
            ctx.transitions += 1
            u = call(ctx, dict(args, solver="mosek" if p[1] % 2 else None, params=params if p[2] % 2 else None))
            if u is None:
                continue
            ctx.check(len(m.tasks) >= 1, "mosek-used", "no task was made")
            ctx.eq(m.params, params if p[2] % 2 else [], "mosek-params")
        if u is None:
            continue
        judge(ctx, u, n, Gd, Qd, cd, d, K, z, best, "mosek")
        ctx.outcome((kind, n, d, form, len(K)))


FALL = [dict(G=[[1, -1], [0, 2]], L=[[1, 0], [.5, 1]], k=[0], y=[2.]), dict(A=[[1, 2]], b=[[1.]]), dict(A=[[1, 1, 1, 2]], b=[[1.]], d=2),
        dict(Q=[[2, 1], [1, 2]], c=[.5, -.25])]


def fall_cases(tier):
    q = tier == "quick"
    for i, kw in enumerate(FALL):
        for code in fakemosek.LICENSE + fakemosek.OTHER:
            for at in range(80):
                if not q or at < 6 or code in ("err_license_server", "err_space"):
                    for solver in (None, "mosek"):
                        yield [i, code, at, solver]
        for status in ("unknown", "prim_feas", "dual_feas", "prim_infeas_cer", "dual_infeas_cer", "prim_illposed_cer"):
            for solver in (None, "mosek"):
                yield [i, status, -1, solver]
        for solver in (None, "mosek", "scs", "none"):
            yield [i, "missing", -2, solver]


@scenario("fallback", fall_cases, "every MOSEK error at every API call, every unsuccessful solution status, and no MOSEK at all: licensing problems fall back on SCS unless "
          "MOSEK was asked for, other errors reach the caller, and no answer is returned that was not optimal", nontrivial=lambda c: c[2] >= 0)
def fallback(case, ctx):
    i, code, at, solver = case
    kw = {k: v if k == "d" else np.array(v) if k in "kyAbc" else sp.csr_array(np.array(v, float)) for k, v in FALL[i].items()}
    if at >= 0 and solver != "scs":
        probe = fakemosek.make()
        with with_mosek(probe):
            gp.min_l1_with_fixed(**kw, solver="mosek")
        if at >= len(probe.calls):
            return
    ref = gp.min_l1_with_fixed(**kw, solver="scs")
    r = None
    m = None if at == -2 else fakemosek.make((at, code)) if at >= 0 else fakemosek.make(status=code)
    with with_mosek(m):
        ctx.transitions += 1
        try:
            r = ("answer", gp.min_l1_with_fixed(**kw, solver=solver))
        except Exception as e:
            r = ("raised", e)
    if r is None:
        return
    ctx.outcome((code, r[0], solver))
    if code == "missing":
        want = {None: "answer", "scs": "answer", "mosek": ModuleNotFoundError, "none": ValueError}[solver]
    elif at < 0:
        want = ValueError
    else:
        want = "answer" if code in fakemosek.LICENSE and solver is None else m.Error
    if want == "answer":
        if ctx.check(r[0] == "answer", "falls-back", lambda: f"{r[1]!r}"):
            ctx.close(r[1], ref, "fallback-answer", tol=1e-7)
    elif ctx.check(r[0] == "raised" and isinstance(r[1], want), "error-reaches", lambda: f"{r}"):
        if at >= 0:
            ctx.check(r[1].errno == m.rescode[code], "error-kept", lambda: f"{r[1]!r}")
