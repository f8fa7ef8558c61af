"""C30 Splines, skinning, rotations, normalisation and colour maps on all small inputs."""
import itertools, json, math, os
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G

PROPERTY = "C30"
ASSUMPTIONS = ["the colour table is compared with a stored copy of the ColorBrewer schemes",
               "a colour-map value exactly half-way between two colours may take either of them",
               "a cloud whose points all coincide has no scale and is not normalised"]


# ------------------------------------------------------------------ splines
def spline_cases(tier):
    q = tier == "quick"
    for n, A in ((2, [-2, 0, 1, 5]), (3, [-2, 0, 1, 5]), (4, [-1, 0, 2] if q else [-2, 0, 1, 5]), (5, [0, 1] if q else [-1, 0, 2]), (6, [0, 3] if q else [0, 3])):
        for P in itertools.product(A, repeat=n):
            for dim in (1, 2, 3):
                yield [list(P), dim]
    for n in (18, 70, 140) if q else (18, 70, 140, 300, 600):
        for dim in (1, 2, 3):
            yield [[(i * i * 3 + i) % 11 - 4 for i in range(n)], dim]


def cr(P, t):
    """uniform Catmull-Rom: tangents are central differences inside and one-sided differences at the ends"""
    n = len(P) - 1
    b = min(int(t * n), n - 1)
    s = t * n - b
    tan = lambda i: P[1] - P[0] if i == 0 else P[n] - P[n - 1] if i == n else (P[i + 1] - P[i - 1]) / Fr(2)
    h = lambda s: 2 * s ** 3 - 3 * s ** 2 + 1
    return h(s) * P[b] + (s ** 3 - 2 * s ** 2 + s) * tan(b) + (1 - h(s)) * P[b + 1] + (s ** 3 - s ** 2) * tan(b + 1)


@scenario("spline", spline_cases, "all control polygons of 2-6 lattice points, 1-3 dimensions; sampled at all knots and quarter parameters, in three query orders", nontrivial=lambda c: len(set(c[0])) > 1)
def spline(case, ctx):
    P, dim = case
    n = len(P)
    Q = np.array([[P[i], P[(i + 1) % n] * 2 + i, -P[i] + 3 * (i % 2)][:dim] for i in range(n)], float)
    Qx = [[Fr(int(x)) for x in r] for r in Q.tolist()]
    T = [Fr(k, 4 * (n - 1)) for k in range(4 * (n - 1) + 1)] + [Fr(1, 3), Fr(7, 8)]
    want = [[float(cr([r[d] for r in Qx], t)) for d in range(dim)] for t in T]
    Tf = np.array([float(t) for t in T])
    ctx.close(G.catmull_rom_spline(Tf.copy(), Q.copy()), want, "curve", f"control points {Q.tolist()}", tol=1e-9)
    perm = [(5 * i + 3) % len(T) for i in range(len(T))] + [len(T) - 3, 0]
    ctx.close(G.catmull_rom_spline(Tf[perm], Q.copy()), [want[i] for i in perm], "query-order", tol=1e-9)
    for i in (0, len(T) - 3, 2):
        ctx.close(G.catmull_rom_spline(Tf[[i]], Q.copy()), [want[i]], "single-query", tol=1e-9)
    if n < 4:
        ctx.close(G.catmull_rom_spline(Tf, Q.astype(int)), want, "integer-points", tol=1e-9)


# ------------------------------------------------------------------ skinning
RS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[2, 1, 0], [0, 1, -1], [3, 0, 1]]]
TS = [[0, 0, 0], [1, -2, 3], [0.5, 0, -1]]
VS = [[0, 0, 0], [1, 2, -3], [-1, 0.5, 4]]


def lbs_cases(tier):
    q = tier == "quick"
    W = [0, 1, 0.5] if q else [0, 1, 0.5, -1]
    for m in (1, 2, 3):
        for n in (1, 2, 3):
            if m * n > (4 if q else 6):
                continue
            for w in itertools.product(W, repeat=m * n):
                for k in range(5 if m < 3 or not q else 2):
                    yield [n, m, list(w), k]
    for n, m in ((40, 2), (3, 20), (150, 5), (300, 3), (20, 70), (1100, 1)):
        yield [n, m, [((i * 7) % 5 - 1) / 4 for i in range(n * m)], n % 5]


@scenario("skinning", lbs_cases, "all weight matrices of a small alphabet x handle transforms", nontrivial=lambda c: c[1] > 1)
def skinning(case, ctx):
    n, m, w, k = case
    V = np.array(VS[:n] if n < 4 else [[i % 9, (i * i) % 5 - 2, i / 4] for i in range(n)], float)
    Ws = np.array(w, float).reshape(n, m)
    hs = [((k + 2 * i) % 5, (k + i) % 3) for i in range(m)]
    Rs = [np.array(RS[a], float) for a, _ in hs]
    Ts = [np.array(TS[b], float) for _, b in hs]
    want = [[sum(Ws[i, j] * (sum(Rs[j][d, e] * V[i, e] for e in range(3)) + Ts[j][d]) for j in range(m)) for d in range(3)] for i in range(n)]
    ctx.close(G.linear_blend_skinning(V.copy(), Ws.copy(), np.array(Rs), np.array(Ts)), want, "skinning", f"weights {Ws.tolist()}", tol=1e-12)
    ctx.close(G.linear_blend_skinning(V.copy(), Ws.copy(), Rs, Ts), want, "skinning-list", tol=1e-12)
    V2 = np.array(([[1, 2, -3], [0, 5, 7], [2, 2, 2]] * n)[:n])
    want = [[sum(Ws[i, j] * (sum(Rs[j][d, e] * V2[i, e] for e in range(3)) + Ts[j][d]) for j in range(m)) for d in range(3)] for i in range(n)]
    ctx.close(G.linear_blend_skinning(V2, Ws, np.array(Rs), np.array(Ts)), want, "integer-vertices", tol=1e-12)


# ------------------------------------------------------------------ rotations
def rot_cases(tier):
    q = tier == "quick"
    for d, r in ((2, 4 if q else 9), (3, 2 if q else 3)):
        for u in itertools.product(range(-r, r + 1), repeat=d):
            if any(u):
                yield [list(u), r]


@scenario("rotation", rot_cases, "every ordered pair of lattice vectors in 2D and 3D, plus scaled, opposite and almost (anti)parallel partners", nontrivial=lambda c: True)
def rotation(case, ctx):
    u, r = case
    d = len(u)
    L = [list(v) for v in itertools.product(range(-r, r + 1), repeat=d) if any(v)]
    for s in (-1, 1):
        for k in (3, 7, 0.1, 1e-3, 1e6):
            L.append([s * k * x for x in u])
        for e in (1e-3, 1e-6, 1e-9, 1e-12, 1e-16):
            for i in range(d):
                L.append([s * 3 * x + (e if j == i else 0) for j, x in enumerate(u)])
    a = np.array(u, float)
    ah = a / np.linalg.norm(a)
    for v in L:
        b = np.array(v, float)
        R = np.asarray(G.rotation_matrix_from_vectors(a.copy(), b.copy()))
        ctx.extra_states.add(hash((tuple(u), tuple(v))))
        if not ctx.eq(R.shape, (d, d), "shape"):
            return
        msg = f"{u} -> {v}"
        ctx.close(R @ ah, b / np.linalg.norm(b), "maps-direction", msg, tol=2e-7)
        ctx.close(R @ R.T, np.eye(d), "orthogonal", msg, tol=2e-7)
        det = R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0] if d == 2 else float(np.dot(R[0], np.cross(R[1], R[2])))
        ctx.check(abs(det - 1) < 1e-6, "proper", lambda: f"{msg}: determinant {det}")
        if d == 3:      # the rotation by the smallest angle: its axis is perpendicular to both vectors
            c = float(np.dot(ah, b / np.linalg.norm(b)))
            ctx.check(abs((np.trace(R) - 1) / 2 - c) < 1e-6, "smallest-angle", lambda: f"{msg}: trace {np.trace(R)}, cosine {c}")
        ctx.outcome((d, bool(det > 0)))


# ------------------------------------------------------------------ normalisation
def norm_cases(tier):
    q = tier == "quick"
    for dim, A, N in ((1, [-3, 0, 1, 2.5], 4), (2, [-3, 0, 1, 2.5], 3), (2, [0, 1, -1], 4 if not q else 3), (3, [0, 1, -3], 2), (3, [-2, 5], 3), (3, [0, 1, -3] if not q else [1], 3)):
        pts = list(itertools.product(A, repeat=dim))
        for n in range(2, N + 1):
            if q and len(pts) ** n > 20000:
                continue
            for P in itertools.combinations(pts, n):
                yield [dim, [list(p) for p in P]]


@scenario("normalize", norm_cases, "all clouds of 2-4 lattice points in 1-3D, with and without a centre, both point orders", nontrivial=lambda c: len(c[1]) > 2)
def normalize(case, ctx):
    dim, P = case
    cen = [0.5, -3, 8][:dim]
    for rev in (0, 1):
        V = np.array(P[::-1] if rev else P, float)
        lo, hi = V.min(axis=0), V.max(axis=0)
        s = 1 / (hi - lo).max()
        for c in (None, cen):
            W = V.copy()
            U = G.normalize_points(W) if c is None else G.normalize_points(W, center=np.array(c))
            ctx.close(U, (V - (lo + hi) / 2) * s + (0 if c is None else np.array(c)), "normalized", f"{V.tolist()} center {c}", tol=1e-12)
            ctx.check(np.array_equal(W, V) and (W is not U), "input-kept", f"{V.tolist()}")
    if all(float(x).is_integer() for p in P for x in p):
        V = np.array(P, int)
        U = G.normalize_points(V.copy())
        lo, hi = V.min(axis=0), V.max(axis=0)
        ctx.close(U, (V - (lo + hi) / 2) / (hi - lo).max(), "integer-input", tol=1e-12)


# ------------------------------------------------------------------ colour maps
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "brewer.json")))


def cm_cases(tier):
    for name in TABLE:
        for n in list(range(0, 15)) + ([20, 41, 60] if tier == "quick" else list(range(15, 130)) + [256, 400]):
            yield [name, n]


@scenario("colormap", cm_cases, "every colour map x every number of colours, discrete and interpolated, and again after the caller overwrote a result", nontrivial=lambda c: c[1] > 1)
def colormap(case, ctx):
    name, n = case
    T = TABLE[name]
    raw = T[-1]
    for rep in range(2):
        if n == 0 or n <= len(T):
            C = G.colormap(name, n, interpolate=False)
            ctx.close(C, raw if n == 0 else T[n - 1], "discrete", f"{name} {n} (call {rep})", tol=0)
            C[:] = -7.0
        else:
            ctx.raises(lambda: G.colormap(name, n, interpolate=False), "too-many", f"{name} {n}")
        if n >= 1:
            C = G.colormap(name, n, interpolate=True) if rep else G.colormap(name, n)
            if not ctx.eq(np.shape(C), (n, 3), "shape"):
                return
            ctx.check(bool((C >= 0).all() and (C <= 255).all()), "valid-color", lambda: f"{name} {n}: range {C.min()} .. {C.max()}")
            from scipy.interpolate import CubicSpline
            f = CubicSpline(np.linspace(0, 1, len(raw)), np.array(raw, float))
            ctx.close(C, np.clip(f(np.linspace(0, 1, n)), 0, 255), "cubic", f"{name} {n}", tol=1e-8)
            if n > 1 and (n - 1) % (len(raw) - 1) == 0:
                ctx.close(C[::(n - 1) // (len(raw) - 1)], raw, "passes-through", f"{name} {n}", tol=1e-8)
            ctx.close(C[0], raw[0], "first", tol=1e-8)
            C[:] = 300.0
        else:
            ctx.raises(lambda: G.colormap(name, n), "no-colors")
    ctx.raises(lambda: G.colormap(name + "x", max(n, 1), interpolate=False), "unknown-name")
    ctx.raises(lambda: G.colormap(name + "x", max(n, 1)), "unknown-name")


CS = [[[10, 20, 30]], [[0, 0, 0], [255, 100, 7]], [[0, 0, 0], [100, 50, 10], [255, 200, 100]], [[5, 0, 0], [0, 5, 0], [0, 0, 5], [9, 9, 9]], [[0, 0, 0], [10, 0, 0], [20, 0, 0], [30, 0, 0], [40, 0, 0]]]
FV = [-2.0, 0.0, 0.3, 1.0, 1.75, 5.0, 1000.0]


def ac_cases(tier):
    q = tier == "quick"
    for c in range(len(CS)):
        for log in (0, 1):
            for pl in (0, 1):
                for mn, mx in ((None, None), (0.5, None), (None, 3.0), (0.5, 3.0), (1.0, 1.0), (0.3, 5.0), (-1.0, 2.0), (0.1, 0.7)):
                    for n in (1, 2) if q else (1, 2, 3):
                        for f in itertools.product(FV, repeat=n):
                            yield [c, log, pl, mn, mx, list(f)]


def positions(case):
    """position of each value on the colour axis, in units of colours, or None when undefined"""
    c, log, pl, mn, mx, f = case
    n = len(CS[c])
    eps = np.finfo(float).eps
    lo = min(f) if mn is None else mn
    hi = max(f) if mx is None else mx
    if log:
        lo, hi = max(lo, eps), max(hi, eps)
    if lo > hi:
        return None
    out = []
    for x in f:
        x = min(max(x, lo), hi)
        if lo == hi:
            out.append(None)
        elif log:
            out.append((math.log2(x) - math.log2(lo)) / (math.log2(hi) - math.log2(lo)) * (n - 1))
        else:
            out.append((x - lo) / (hi - lo) * (n - 1))
    return out, lo, hi


@scenario("apply_colormap", ac_cases, "all value vectors of a small alphabet x colour maps x ranges x log x linear", nontrivial=lambda c: c[0] > 0 and len(c[5]) > 1)
def apply_colormap(case, ctx):
    c, log, pl, mn, mx, f = case
    C = np.array(CS[c], float)
    n = len(C)
    kw = {}
    if mn is not None:
        kw["min"] = mn
    if mx is not None:
        kw["max"] = mx
    if log:
        kw["log"] = True
    if pl:
        kw["piecewise_linear"] = True
    p = positions(case)
    if p is None:
        ctx.outcome("empty range")
        if n > 1:
            ctx.raises(lambda: G.apply_colormap(C, np.array(f), **kw), "empty-range")
        return
    for K in (C, C.astype(int)):
        R = np.asarray(G.apply_colormap(K, np.array(f), **kw))
        if not ctx.eq(R.shape, (len(f), 3), "shape"):
            return
        for i, t in enumerate(p[0]):
            got = R[i].tolist()
            msg = f"value {f[i]} of {f} min={mn} max={mx} log={log} linear={pl}: got {got}"
            if n == 1:
                ctx.check(got == C[0].tolist(), "single-color", msg)
            elif t is None:      # an empty interval has no scale: any valid colour of the map
                ctx.check(any(got == r for r in C.tolist()), "constant-values", msg)
            elif pl:
                b = min(int(t), n - 2)
                ws = [C[b] + (t - b) * (C[b + 1] - C[b])]
                if log:      # linear in the value or in its logarithm between log-spaced knots
                    xs = [2 ** (math.log2(p[1]) + k * (math.log2(p[2]) - math.log2(p[1])) / (n - 1)) for k in (b, b + 1)]
                    x = min(max(f[i], p[1]), p[2])
                    ws.append(C[b] + (x - xs[0]) / (xs[1] - xs[0]) * (C[b + 1] - C[b]))
                ctx.check(any(bool((np.abs(np.array(got) - w) <= 0.5 + 1e-5).all()) for w in ws), "linear", lambda: msg + f", want {ws}")
            elif log:
                # colours are placed log-uniformly; the nearest one, on the value or the log axis, is taken
                xs = [2 ** (math.log2(p[1]) + k * (math.log2(p[2]) - math.log2(p[1])) / (n - 1)) for k in range(n)]
                x = min(max(f[i], p[1]), p[2])
                dist = [abs(x - y) for y in xs]
                ok = [C[k].tolist() for k in range(n) if dist[k] <= min(dist) + 1e-9 * (1 + abs(x)) or abs(k - t) <= 0.5 + 1e-9]
                ctx.check(got in ok, "nearest-log", lambda: msg + f", want one of {ok}")
            else:
                ok = [C[k].tolist() for k in range(n) if abs(k - t) <= 0.5 + 1e-9]
                ctx.check(got in ok, "nearest", lambda: msg + f", want one of {ok}")
    ctx.outcome((n, log, pl))
