"""C04 index surgery on every small array."""
import itertools
import numpy as np
from ..core import scenario, G

PROPERTY = "C04"
ASSUMPTIONS = ["merge tolerance is judged only on inputs whose points are either well within or well beyond the tolerance",
               "the order of kept vertices and which of several equal rows is reported are free choices"]


# ------------------------------------------------------------------ remove_unreferenced
def cases_unref(tier):
    q = tier == "quick"
    for nv in range(1, 5):
        for k in (1, 2, 3, 4):
            for m in range(0, 4):
                if k * m > (6 if q else 8):
                    continue
                lo = -1
                if (nv + 1) ** (k * m) > (5000 if q else 70000):
                    continue
                for flat in itertools.product(range(lo, nv), repeat=k * m):
                    yield [nv, k, list(flat)]


@scenario("remove_unreferenced", cases_unref, "every index array (with -1 markers) over up to 4 vertices, with and without positions",
          nontrivial=lambda c: len(c[2]) > 1)
def remove_unref(case, ctx):
    nv, k, flat = case
    judge_unref(ctx, nv, np.array(flat, dtype=int).reshape(-1, k), flat)


def judge_unref(ctx, nv, F, flat):
    used = sorted({x for x in flat if x >= 0})
    has_neg = -1 in flat
    for withV in (True, False):
        if not withV and not flat:
            n = 0
        V = np.stack([10.0 + np.arange(nv), -np.arange(nv)], axis=1) if withV else None
        n = nv if withV else (max(flat) + 1 if flat else 0)
        V2, F2, I, J = G.remove_unreferenced(V, F, return_maps=True)
        V3, F3 = G.remove_unreferenced(V, F)
        F2 = np.asarray(F2)
        ctx.check(F2.shape == F.shape and np.array_equal(F2, F3), "shape", lambda: f"{F2.tolist()} {np.asarray(F3).tolist()}")
        ctx.outcome((len(used), has_neg))
        I, J = np.asarray(I), np.asarray(J)
        ctx.check(sorted(int(j) for j in J) == used, "J", lambda: f"J={J} used={used}")
        if withV:
            ctx.check(np.asarray(V2).shape == (len(used), 2) and np.array_equal(V2, V[J]) and np.array_equal(V2, V3), "newV", lambda: f"{V2}")
        else:
            ctx.check(V2 is None and V3 is None, "newV-None")
        if F.size:
            back = np.where(F2 < 0, -1, np.append(J, -1)[F2])
            ctx.check(np.array_equal(back, F), "denotation", lambda: f"F={F.tolist()} F2={F2.tolist()} J={J}")
            ctx.check(sorted({int(x) for x in F2.ravel() if x >= 0}) == list(range(len(used))), "all-referenced")
        ctx.check(I.shape == ((n + 1,) if has_neg else (n,)), "I-length", lambda: f"I={I} n={n}")
        if F.size and I.ndim == 1 and len(I):
            ctx.check(np.array_equal(I[F], F2), "I-map", lambda: f"I={I} F={F.tolist()} F2={F2.tolist()}")
        unused = np.setdiff1d(np.arange(min(n, len(I))), used)
        ctx.check(np.all(I[unused] == -1), "I-unused")


# ------------------------------------------------------------------ remove_duplicate_vertices
def cases_dup(tier):
    q = tier == "quick"
    A1 = [0.0, -0.0, 1.0, -1.5]
    for n in range(1, 5):
        for p in itertools.product(range(len(A1)), repeat=n):
            yield [1, [[A1[i]] for i in p]]
    A2 = [[0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [-0.0, 0.0], [1.0, 1.0]]
    for n in range(1, 5 if q else 6):
        for p in itertools.product(range(len(A2)), repeat=n):
            yield [2, [A2[i] for i in p]]
    A3 = [[0.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]]
    for n in range(1, 5):
        for p in itertools.product(range(3), repeat=n):
            yield [3, [A3[i] for i in p]]


@scenario("remove_duplicates", cases_dup, "every point list up to 4-5 rows over a duplicate-rich alphabet", nontrivial=lambda c: len(c[1]) > 1)
def dups(case, ctx):
    dim, rows = case
    V = np.array(rows)
    check_dups(ctx, V, 0.0, {tuple(x + 0.0 for x in r) for r in rows})
    if dim == 2:
        # tolerance: perturb each point by a tiny multiple of eps that never crosses a rounding boundary
        eps = 0.25
        pert = np.array([[((i * 5) % 3 - 1) * 0.0625 * eps, ((i * 7) % 3 - 1) * 0.0625 * eps] for i in range(len(rows))])
        check_dups(ctx, V + pert, eps, {tuple(x + 0.0 for x in r) for r in rows})


def cases_tol(tier):
    """points on a lattice of a quarter of the tolerance, on both sides of zero"""
    R = range(-9, 10)
    for e in (1.0, 0.125, 1e-3):
        for n in (2, 3) if tier != "quick" else (2,):
            for p in itertools.product(R, repeat=n):
                yield [e, [[k] for k in p]]
        for p in itertools.product(range(-7, 8, 2), repeat=4):
            yield [e, [list(p[:2]), list(p[2:])]]
        for a, b, c in itertools.product((-9, -6, -4, -2, 2, 5), repeat=3):
            yield [e, [[a, b, c], [a + 3, b, c], [a, b + 5, c], [a, b, c - 6], [a, b, c]]]


@scenario("tolerance", cases_tol, "remove_duplicate_vertices with a tolerance: equal points become one, points farther apart than the tolerance in some coordinate "
          "never do, and every index leads to its point", nontrivial=lambda c: any(x < 0 for r in c[1] for x in r))
def tolerance(case, ctx):
    e, rows = case
    V = np.array(rows) * (e / 4)
    SV, I, J = [np.asarray(x) for x in G.remove_duplicate_vertices(V, epsilon=e)]
    ctx.check(I.shape == (len(SV),) and np.array_equal(V[I], SV), "tol-SVI", str(I))
    if not ctx.check(J.shape == (len(V),) and J.min() >= 0 and J.max() < len(SV), "tol-SVJ", str(J)):
        return
    for a, b in itertools.combinations(range(len(V)), 2):
        far = max(abs(x - y) for x, y in zip(rows[a], rows[b]))
        ctx.check(far <= 4 or J[a] != J[b], "tol-merged", lambda: f"{V[a]} and {V[b]}")
        ctx.check(far > 0 or J[a] == J[b], "tol-kept", lambda: f"{V[a]}")
    ctx.check(np.abs(SV[J] - V).max() <= e * (1 + 1e-12), "tol-moved")
    ctx.eq(sorted(set(J.tolist())), list(range(len(SV))), "tol-onto")
    ctx.outcome((len(V), len(SV)))


def check_dups(ctx, V, eps, classes):
    n = len(V)
    SV, SVI, SVJ = G.remove_duplicate_vertices(V, epsilon=eps) if eps else G.remove_duplicate_vertices(V)
    SV, SVI, SVJ = np.asarray(SV), np.asarray(SVI), np.asarray(SVJ)
    tag = "eps-" if eps else ""
    ctx.outcome((len(SV), n))
    ctx.check(len(SV) == len(classes), tag + "count", lambda: f"{V.tolist()} -> {SV.tolist()}")
    ctx.check(SVI.shape == (len(SV),) and np.array_equal(V[SVI], SV), tag + "SVI", lambda: f"{SVI}")
    ok = ctx.check(SVJ.shape == (n,) and np.all((SVJ >= 0) & (SVJ < len(SV))) and np.max(np.abs(SV[SVJ] - V)) <= eps, tag + "SVJ", lambda: f"{SVJ}")
    if not ok:
        return
    for k in (1, 2, 3):
        F = np.array([[(i + j * j) % n for j in range(k)] for i in range(n)])
        r = G.remove_duplicate_vertices(V, epsilon=eps, faces=F)
        ctx.check(len(r) == 4 and np.asarray(r[3]).shape == F.shape and np.max(np.abs(np.asarray(r[0])[r[3]] - V[F])) <= eps, tag + "faces", lambda: f"{r[3]}")


# ------------------------------------------------------------------ array_correspondence
def cases_corr(tier):
    q = tier == "quick"
    for a in range(0, 4):
        for b in range(0, 4):
            for p in itertools.product(range(3), repeat=a + b):
                yield ["flat", list(p[:a]), list(p[a:])]
    R = [[0, 0], [0, 1], [1, 0], [1, 1]]
    for a in range(0, 4 if q else 5):
        for b in range(0, 4):
            for p in itertools.product(range(4), repeat=a + b):
                yield ["rows", [R[i] for i in p[:a]], [R[i] for i in p[a:]]]


@scenario("array_correspondence", cases_corr, "every pair of small arrays, by element, row and column, int/float", nontrivial=lambda c: bool(c[1] and c[2]))
def corr(case, ctx):
    kind, A, B = case
    if kind == "flat":
        if not A and not B:
            return
        variants = [(np.array(A, dtype=int), np.array(B, dtype=int), {}), (np.array(A, dtype=float), np.array(B, dtype=float), {}),
                    (np.array(A, dtype=int), np.array(B, dtype=int), dict(axis=0)),
                    (np.array([f"s{x}" for x in A], dtype="U2"), np.array([f"s{x}" for x in B], dtype="U2"), {})]
        if len(A) % 2 == 0:
            variants.append((np.array(A, dtype=int).reshape(-1, 2), np.array(B, dtype=int), {}))
        if len(B) % 2 == 0 and len(A) > 0:
            variants.append((np.array(A, dtype=int).reshape(1, -1), np.array(B, dtype=int).reshape(2, -1), dict(axis=None)))
        a, b = A, B
    else:
        Aa, Ba = np.array(A, dtype=int).reshape(-1, 2), np.array(B, dtype=int).reshape(-1, 2)
        variants = [(Aa, Ba, dict(axis=0)), (Aa, Ba, dict(axis=-2)), (Aa.T, Ba.T, dict(axis=1)), (Aa.T, Ba.T, dict(axis=-1)),
                    (Aa.astype(float), Ba.astype(float), dict(axis=0))]
        a, b = A, B
    for Av, Bv, kw in variants:
        f = np.asarray(G.array_correspondence(Av, Bv, **kw))
        ctx.outcome((kind, tuple(f < 0)))
        if not ctx.check(f.shape == (len(a),), "shape", lambda: f"{Av.tolist()} {Bv.tolist()} {kw}: {f}"):
            continue
        for i, x in enumerate(a):
            j = int(f[i])
            if x in b:
                ctx.check(0 <= j < len(b) and b[j] == x, "match", lambda: f"{Av.tolist()} {Bv.tolist()} {kw}: {f}")
            else:
                ctx.check(j == -1, "no-match", lambda: f"{Av.tolist()} {Bv.tolist()} {kw}: {f}")


# ------------------------------------------------------------------ beyond the small scope
def cases_large(tier):
    for n in (130, 260, 1030) if tier == "quick" else (130, 260, 1030, 2050, 9001):
        for s in (1, 31, 257):
            if n * s < 270000:
                for k in (7, 11):
                    yield [n, s, k]


@scenario("large", cases_large, "the same operations on hundreds of rows, labels and values that exceed 8 and 16 bits and whose products exceed 32 bits",
          nontrivial=lambda c: c[1] > 1)
def large(case, ctx):
    n, s, k = case
    flat = [((i * k * k) % n) * s for i in range(0, 2 * n) if i % 5]
    flat = flat[:len(flat) // 6 * 6]
    for neg in (False, True):
        f = [-1 if neg and i % 17 == 3 else x for i, x in enumerate(flat)]
        for w in (1, 2, 3):
            for dt in (np.int64, np.int32):
                judge_unref(ctx, n * s, np.array(f, dtype=dt).reshape(-1, w), f)
    for dim in (1, 2, 3):
        rows = [[float((i * k + d * d * (i % 7)) % (n // 3)) * s for d in range(dim)] for i in range(n)]
        V = np.array(rows)
        check_dups(ctx, V, 0.0, {tuple(r) for r in rows})
        check_dups(ctx, V + 0.0625 * ((np.arange(n) * k) % 3 - 1)[:, None], 0.5, {tuple(r) for r in rows})
    for dt in (np.int64, np.int32, float):
        for sg in (1, -1):
            A = [((i * k) % n) * s * sg for i in range(n)]
            B = [((i * k * k + 1) % n) * s for i in range(0, n, 2)] + [-((i * k * k + 2) % n) * s for i in range(1, n, 2)]
            judge_corr(ctx, G.array_correspondence(np.array(A, dtype=dt), np.array(B, dtype=dt)), A, B)
            A = [(a, (a * k + i % 3) % (n * s)) for i, a in enumerate(A)]
            B = [A[(i * k) % n] if i % 3 else A[(i * k) % n][::-1] for i in range(n - 5)]
            judge_corr(ctx, G.array_correspondence(np.array(A, dtype=dt), np.array(B, dtype=dt), axis=0), A, B)
            judge_corr(ctx, G.array_correspondence(np.array(A, dtype=dt).T, np.array(B, dtype=dt).T, axis=1), A, B)


def judge_corr(ctx, f, A, B):
    f = np.asarray(f)
    ok = set(B)
    if ctx.check(f.shape == (len(A),), "large-shape"):
        bad = [i for i, a in enumerate(A) if not (0 <= f[i] < len(B) and B[f[i]] == a if a in ok else f[i] == -1)]
        ctx.check(not bad, "large-correspondence", lambda: f"{A[bad[0]]} -> {f[bad[0]]}")
