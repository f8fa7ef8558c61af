"""C33 The Python layer around the compiled extension: what it asks, and what it does with every answer.

The extension itself cannot be built here; it is replaced by an environment whose answers are enumerated
(mc/ext.py).  Judged is what a caller can observe: the geometry handed to the extension, in meaning, and the
result, given the answer."""
import contextlib, importlib, io, itertools, math, sys, warnings
import numpy as np
from ..core import scenario, stored, G
from ..ext import Env, extended
from .. import mesh as M

PROPERTY = "C33"
ASSUMPTIONS = ["the compiled extension is replaced by an enumerated environment that type-checks its arguments like pybind11 and answers "
               "by plain reference code or with every listed outcome; the extension's own algorithms are not judged (C32)"]
A = lambda *r: np.array(r, float)
I = lambda *r: np.array(r, int)


def call(ctx, env, name, *a, **k):
    with extended(env) as g:
        ctx.transitions += 1
        f = g.__dict__.get(name) if "." not in name else None
        if f is None:
            import importlib
            f = getattr(importlib.import_module("gpytoolbox.copyleft"), name.split(".")[-1]) if "." in name else getattr(g, name)
        if G.how:
            a, k = [stored(x, G.how) for x in a], {n: stored(x, G.how) for n, x in k.items()}
        return f(*a, **k)


def tris(P, F):
    """the oriented triangles of a mesh by position"""
    out = []
    for t in np.asarray(F).tolist():
        t = [tuple(np.asarray(P)[i].tolist()) for i in t]
        r = t.index(min(t))
        out.append(tuple(t[r:] + t[:r]))
    return sorted(out)


POS = [(0, 0, 0), (3, 0, 1), (0, 4, 0), (1, 1, 5), (-2, 1, 1), (2, -3, 2), (4, 4, 4), (-1, -1, -2), (5, 0, -3)]
CUBEP = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
CUBE = [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]]
TET = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
FAN = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]]                 # one interior vertex
STRIP = [[0, 1, 2], [2, 1, 3], [2, 3, 4], [4, 3, 5]]
THREE = [[0, 1, 2], [1, 0, 3], [0, 1, 4]]                          # a non-manifold edge
MESHES = {"tet": (POS, TET), "fan": (POS, FAN), "strip": (POS, STRIP), "cube": (CUBEP, CUBE), "three": (POS, THREE),
          "octa": ([(1, 0, 0), (-1, 0, 0), (0, 2, 0), (0, -1, 0), (0, 0, 1), (0, 0, -3)],
                   [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])}


def mesh_of(name, variant=0):
    P, F = MESHES[name]
    n = max(map(max, F)) + 1
    P = [P[i] for i in range(n)]
    if variant == 1:     # renumber vertices backwards, rotate faces
        return [P[n - 1 - i] for i in range(n)], [[n - 1 - x for x in t[1:] + t[:1]] for t in F]
    if variant == 2:     # interleave
        perm = list(range(0, n, 2)) + list(range(1, n, 2))
        inv = {o: i for i, o in enumerate(perm)}
        return [P[o] for o in perm], [[inv[x] for x in t] for t in F[::-1]]
    return P, F


def edges_of(F):
    return sorted(M.edge_incidence(F))


# ------------------------------------------------------------------ remeshing
def remesh_cases(tier):
    q = tier == "quick"
    for name in MESHES:
        for var in range(3):
            P, F = mesh_of(name, var)
            n = len(P)
            E = edges_of(F)
            feats = [[]] + [[i] for i in range(n)] + [list(t) for t in itertools.permutations(range(n), 2)] + [[1, 1], [2, 0, 2]]
            if not q:
                feats += [list(t) for t in itertools.permutations(range(n), 3)][:: 1 if n < 7 else 3]
            fes = [None, []] + [[list(e)] for e in E] + [[list(E[0]), list(E[-1])], [list(E[-1][::-1]), list(E[0])], [list(E[1]), list(E[1])[::-1]]]
            for k, f in enumerate(feats):
                for j, fe in enumerate(fes if not q or k < 3 else fes[k % 3::3]):
                    yield [name, var, f, fe, (k + j) % 2, None]
            for th in (5.0, 45.0, 60.0, 89.0, 91.0, 100.0, 135.0, 150.0, 179.0):
                for f in ([], [n - 1, 0]):
                    for fe in (None, [list(E[0])], [list(E[-1])[::-1], list(E[0])]):
                        yield [name, var, f, fe, 0, th]


def normal(P, t):
    a, b, c = [np.array(P[i], float) for i in t]
    x = np.cross(b - a, c - a)
    return x / np.linalg.norm(x)


@scenario("remesh", remesh_cases, "remesh_botsch: what reaches the remesher is the same mesh with feature, then boundary vertices first, and the same "
          "feature edges; non-manifold input is refused", nontrivial=lambda c: bool(c[2]) or bool(c[3]) or c[5] is not None)
def remesh(case, ctx):
    name, var, feat, fe, hflag, th = case
    P, F = mesh_of(name, var)
    V, Fa = np.array(P, float), np.array(F, [np.int64, np.int32][var % 2])
    answer = (A([9, 9, 9]), np.zeros((0, 3), np.int32))
    env = Env(_remesh_botsch_cpp_impl=lambda a: answer)
    kw = dict(i=3 + var, project=bool(len(feat) % 2))
    if hflag:
        kw["h"] = 0.375
    if feat:
        kw["feature"] = np.array(feat, int)
    if fe is not None:
        kw["feature_edges"] = np.array(fe, int).reshape(-1, 2)
    if th is not None:
        kw.update(detect_feature_edges=True, feature_dihedral_threshold=th)
    inc = M.edge_incidence(F)
    if any(len(x) > 2 for x in inc.values()):
        if th is None:
            ctx.raises(lambda: call(ctx, env, "remesh_botsch", V, Fa, **kw), "non-manifold", "a mesh with a three-sided edge", exc=ValueError)
            ctx.eq(len(env.calls), 0, "non-manifold-asked")
        ctx.outcome("refused")
        return
    got = call(ctx, env, "remesh_botsch", V, Fa, **kw)
    if not ctx.eq(len(env.calls), 1, "asked"):
        return
    a = env.calls[0][1]
    ctx.check(got[0] is answer[0] or np.array_equal(got[0], answer[0]), "answer-vertices", str(got[0]))
    ctx.check(got[1] is answer[1] or np.array_equal(got[1], answer[1]), "answer-faces", str(got[1]))
    rows = [tuple(r) for r in a.V.tolist()]
    pos = [tuple(map(float, p)) for p in P]
    if not ctx.eq(sorted(rows), sorted(pos), "vertices"):
        return
    uniq = list(dict.fromkeys(feat))
    bnd = {v for e, x in inc.items() if len(x) == 1 for v in e}
    k = len(uniq)
    nb = len(bnd - set(uniq))
    ctx.eq(rows[:k], [pos[i] for i in uniq], "feature-order", "features first, in the given order")
    ctx.eq(sorted(rows[k:k + nb]), sorted(pos[i] for i in bnd - set(uniq)), "boundary-second")
    ctx.eq(tris(a.V, a.F), tris(V, F), "same-mesh")
    ctx.eq(sorted(a.feature.tolist()), list(range(k + nb)), "feature-list")
    want = {tuple(sorted((pos[x], pos[y]))) for x, y in (fe or [])}
    if th is not None:
        for e, x in inc.items():
            if len(x) == 2:
                c = float(np.clip(normal(P, F[x[0][0]]) @ normal(P, F[x[1][0]]), -1, 1))
                if math.degrees(math.acos(c)) > th:
                    want.add(tuple(sorted((pos[e[0]], pos[e[1]]))))
    ok = all(0 <= i < len(rows) for i in a.feature_edges.ravel().tolist()) and (a.feature_edges.size == 0 or a.feature_edges.shape[1] == 2)
    if ctx.check(ok, "feature-edge-range", str(a.feature_edges.tolist())):
        ctx.eq({tuple(sorted((rows[x], rows[y]))) for x, y in a.feature_edges.reshape(-1, 2).tolist()}, want, "feature-edges")
    ctx.eq((a.i, a.project), (kw["i"], kw["project"]), "parameters")
    if hflag:
        ctx.eq(a.h, 0.375, "h")
    else:
        L = lambda e: float(np.linalg.norm(np.subtract(P[e[0]], P[e[1]])))
        he = [L(h) for t in F for h in M.hes(t)]
        ed = [L(e) for e in inc]
        ctx.check(any(abs(a.h - np.mean(x)) < 1e-12 for x in (he, ed)), "h-default", lambda: f"{a.h} {np.mean(he)} {np.mean(ed)}")
    ctx.outcome((name, len(want)))


# ------------------------------------------------------------------ swept volumes
ROTS = [np.eye(3), A([0, -1, 0], [1, 0, 0], [0, 0, 1]), A([0, 0, 1], [1, 0, 0], [0, 1, 0]), A([-1, 0, 0], [0, 1, 0], [0, 0, -1])]


def swept_cases(tier):
    q = tier == "quick"
    pts = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (-1, 0, 3)] if q else [(0, 0, 0), (1, 0, 0), (0, 2, 0), (-1, 0, 3), (1, 1, 1), (-2, 0, 0)]
    for n in (2, 3) if q else (2, 3, 4):
        for T in itertools.product(pts, repeat=n):
            if any(a == b for a, b in zip(T, T[1:])):
                continue
            T = [list(t) for t in T]
            for mode in ("plain", "align", "rot", "rotalign"):
                for sc in (0, 1):
                    if n == 4 and sc:
                        continue
                    yield [T, mode, sc]
            if n == 2:
                yield [T, "matrices", 0]
                yield [T, "matrices+", 1]
    # an axis-aligned walk through all six directions, forwards and backwards
    D = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    for w in itertools.permutations(D, 3):
        T = [[0, 0, 0]]
        for d in w:
            T.append([x + 2 * y for x, y in zip(T[-1], d)])
        yield [T, "align", 0]


@scenario("swept", swept_cases, "swept_volume: the trajectory handed over is scale*rotation and translation per keyframe; velocity alignment gives proper "
          "rotations whose first axis follows the motion; explicit transformations take precedence; decimation of the result",
          nontrivial=lambda c: c[1] != "plain" or c[2])
def swept(case, ctx):
    T, mode, sc = case
    n = len(T)
    V, F = A(*POS[:4]), np.array(TET)
    U, Gf = A([1, 2, 3], [4, 5, 6], [7, 8, 0]), np.array([[0, 1, 2]], np.int32)
    env = Env(_swept_volume_impl=lambda a: (U, Gf),
              _decimate_cpp_impl=lambda a: (a.V + 1, a.F[:, ::-1], np.array([0], np.int32), np.array([0, 1, 2], np.int32)))
    kw = {}
    scales = [1.0, 0.5, 2.0, 3.0][:n]
    R = [ROTS[(i + 1) % 4] for i in range(n)]
    if mode.startswith("matrices"):
        mats = []
        for i in range(n):
            m = np.eye(4); m[:3, :3] = (2 + i) * R[i]; m[:3, 3] = T[i]
            mats.append(m)
        kw["transformations"] = [m.copy() for m in mats]
        if mode == "matrices+":
            kw.update(translations=[np.array(t, float) + 7 for t in T], scales=scales, align_rotations_with_velocity=True)
    else:
        kw["translations"] = [np.array(t, [float, int][sc]) for t in T]
        if mode.startswith("rot"):
            kw["rotations"] = [r.copy() for r in R]
        if mode.endswith("align"):
            kw["align_rotations_with_velocity"] = True
        if sc:
            kw["scales"] = scales
    nf = None if (n + sc) % 2 else 5
    got = call(ctx, env, "swept_volume", V, F, eps=0.125, num_seeds=7, num_faces=nf, **kw)
    a = env.of("_swept_volume_impl")
    if not ctx.eq(len(a), 1, "asked"):
        return
    a = a[0]
    ctx.check(np.array_equal(a.V, V) and np.array_equal(a.F, F), "mesh")
    ctx.eq((a.eps, a.num_seeds, a.verbose), (0.125, 7, False), "parameters")
    if not ctx.eq(a.T.shape, (4 * n, 4), "shape"):
        return
    m = a.T.reshape(n, 4, 4)
    if mode.startswith("matrices"):
        ctx.close(m, np.array(mats), "matrices", mode)
    else:
        ctx.close(m[:, :3, 3], np.array(T, float), "translation")
        ctx.close(m[:, 3, :], np.tile([0, 0, 0, 1.0], (n, 1)), "last-row")
        S = np.array(scales if sc else [1.0] * n)
        Q = m[:, :3, :3] / S[:, None, None]
        if mode == "align":
            X = np.array(T, float)
            for i in range(n):
                if not ctx.check(np.all(np.isfinite(Q[i])) and np.allclose(Q[i] @ Q[i].T, np.eye(3), atol=1e-9) and np.linalg.det(Q[i]) > 0,
                                 "proper-rotation", lambda: f"keyframe {i}: {Q[i].tolist()}"):
                    continue
                v = X[min(i + 1, n - 1)] - X[max(i - 1, 0)]
                if np.any(v):
                    ctx.close(Q[i][:, 0], v / np.linalg.norm(v), "aligned", f"keyframe {i}", tol=1e-7)
        else:
            ctx.close(Q, np.array(R if mode.startswith("rot") else [np.eye(3)] * n), "rotation")
    d = env.of("_decimate_cpp_impl")
    if nf is None:
        ctx.eq(len(d), 0, "no-decimation")
        ctx.check(np.array_equal(got[0], U) and np.array_equal(got[1], Gf), "answer")
    elif ctx.eq(len(d), 1, "decimation"):
        ctx.eq(d[0].num_faces, 5, "decimation-target")
        ctx.check(np.array_equal(d[0].V, U) and np.array_equal(d[0].F, Gf), "decimated-mesh")
        ctx.check(np.array_equal(got[0], U + 1) and np.array_equal(got[1], Gf[:, ::-1]), "answer")
    ctx.eq(len(got), 2, "two-results")
    ctx.outcome(mode)


# ------------------------------------------------------------------ decimation
def decimate_cases(tier):
    for m in range(1, 13 if tier == "quick" else 41):
        for r in (0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0, None):
            for nf in (None, 0, 1, m):
                for meth in (None, "shortest_edge", "qslim", "nearest"):
                    yield [m, r, nf, meth]


@scenario("decimate", decimate_cases, "decimate: target count from ratio or number, the method, the four results in documented order", nontrivial=lambda c: c[0] > 1)
def decimate(case, ctx):
    m, r, nf, meth = case
    V = np.arange(3 * (m + 2), dtype=float).reshape(-1, 3)
    F = np.array([[i, i + 1, i + 2] for i in range(m)])
    ans = (A([1, 1, 1]), np.array([[0, 0, 0]], np.int32), np.array([3], np.int32), np.array([4, 5], np.int32))
    env = Env(_decimate_cpp_impl=lambda a: ans)
    kw = {k: v for k, v in (("face_ratio", r), ("num_faces", nf), ("method", meth)) if v is not None}
    if meth == "nearest":
        ctx.raises(lambda: call(ctx, env, "decimate", V, F, **kw), "invalid-method")
        return
    got = call(ctx, env, "decimate", V, F, **kw)
    ctx.check(len(got) == 4 and all(np.array_equal(x, y) for x, y in zip(got, ans)), "answer")
    a = env.calls[0][1]
    ctx.check(np.array_equal(a.V, V) and np.array_equal(a.F, F), "mesh")
    ctx.eq(a.method, 1 if meth == "qslim" else 0, "method")
    ratio = 0.1 if r is None else r
    if nf is not None:
        ctx.eq(a.num_faces, nf, "number")
    elif ratio in (0.25, 0.5, 0.75, 1.0):
        ctx.eq(a.num_faces, math.floor(ratio * m), "ratio")
    else:
        ctx.check(abs(a.num_faces - ratio * m) < 1 + 1e-9 and a.num_faces <= ratio * m + 1e-9, "ratio", f"{a.num_faces}")
    ctx.outcome(meth)


# ------------------------------------------------------------------ cages
def cage_cases(tier):
    for k in range(1, 8 if tier == "quick" else 13):
        for bits in itertools.product((0, 1), repeat=k):
            for force in (0, 1):
                yield [list(bits), force]


@scenario("cage", cage_cases, "lazy_cage under every sequence of intersection answers: the tightest cage found free of intersections is returned, never "
          "another one; None only without any and without force_output; the offsets halve towards the tightest", nontrivial=lambda c: len(set(c[0])) > 1)
def cage(case, ctx):
    bits, force = case
    k = len(bits)
    V = A([0, 0, 0], [6, 0, 0], [0, 2, 0], [0, 0, 1])
    F = np.array(TET)
    it = iter(bits)
    tag = lambda d: A([d, 0, 0], [d, 1, 0], [d, 0, 1])
    tri = np.array([[0, 1, 2]], np.int32)
    env = Env(_offset_surface_cpp_impl=lambda a: (tag(a.iso), tri),
              _decimate_cpp_impl=lambda a: (a.V + [0, 10, 0], a.F, np.array([0], np.int32), np.array([0, 1, 2], np.int32)),
              _mesh_union_cpp_impl=lambda a: (a.V1 + [0, 0, 100], a.F1),
              _do_meshes_intersect_cpp_impl=lambda a: np.array([[0, 0]], np.int32) if next(it) else np.zeros((0, 2), np.int32))
    U, Gf = call(ctx, env, "copyleft.lazy_cage", V, F, grid_size=9, max_iter=k, num_faces=17, force_output=bool(force))
    offs = [a.iso for a in env.of("_offset_surface_cpp_impl")]
    if not ctx.eq(len(offs), k, "iterations"):
        return
    for a in env.of("_offset_surface_cpp_impl"):
        ctx.check(np.array_equal(a.V, V) and np.array_equal(a.F, F) and a.grid_size == 9, "offset-of-input")
    for a in env.of("_decimate_cpp_impl"):
        ctx.eq(a.num_faces, 17, "cage-size")
    for a, d in zip(env.of("_do_meshes_intersect_cpp_impl"), offs):
        w = tag(d) + [0, 10, 100]
        c = [(a.V1, a.F1, a.V2, a.F2), (a.V2, a.F2, a.V1, a.F1)]
        ctx.check(any(np.array_equal(x[0], w) and np.array_equal(x[2], V) and np.array_equal(x[3], F) for x in c), "cage-against-input")
    lo, hi, best = 0.0, 3.0, None
    for d, b in zip(offs, bits):
        ctx.check(abs(d - (lo + hi) / 2) < 1e-12, "bisection", lambda: f"{offs} {bits}")
        if b:
            lo = d
        else:
            hi = best = d
    if best is None and not force:
        ctx.check(U is None and Gf is None, "none", str(U))
    elif best is not None:
        ctx.check(U is not None and np.array_equal(U, tag(best) + [0, 10, 100]) and np.array_equal(Gf, tri), "tightest-free", lambda: f"{best} {U}")
    else:
        ctx.check(U is not None and any(np.array_equal(U, tag(d) + [0, 10, 100]) for d in offs) and np.array_equal(Gf, tri), "forced", str(U))
    ctx.outcome((best is None, force))


# ------------------------------------------------------------------ booleans and intersection
@scenario("booleans", lambda tier: [[op, dt] for op in ("union", "intersection", "difference", "minus", "subtraction", None) for dt in range(4)] +
          [["intersect", k] for k in range(4)],
          "mesh_boolean: every documented name reaches its operation with the operands in order; do_meshes_intersect: both answers")
def booleans(case, ctx):
    op, dt = case
    fd, idt = [(float, np.int64), (np.float32, np.int32), (float, np.int32), (int, np.int64)][dt]
    V1, F1 = np.array(POS[:4]).astype(fd), np.array(TET, idt)
    V2, F2 = np.array(POS[1:5]).astype(fd), np.array(TET, idt)[::-1]
    if op == "intersect":
        for ans in ([], [[0, 1]], [[3, 2]]):
            env = Env(_do_meshes_intersect_cpp_impl=lambda a: np.array(ans, np.int32).reshape(-1, 2))
            b, pair = call(ctx, env, "copyleft.do_meshes_intersect", V1, F1, V2, F2)
            a = env.calls[0][1]
            ctx.check(np.array_equal(a.V1, V1) and np.array_equal(a.F1, F1) and np.array_equal(a.V2, V2) and np.array_equal(a.F2, F2), "operands")
            ctx.eq(bool(b), bool(ans), "intersect")
            if ans:
                ctx.eq(np.array(pair).reshape(-1, 2).tolist(), ans, "pair")
        ctx.outcome(op)
        return
    want = {None: "union", "minus": "difference", "subtraction": "difference"}.get(op, op)
    env = Env(**{f"_mesh_{o}_cpp_impl": (lambda o: lambda a: (A([len(o), 0, 0]), np.array([[0, 0, 0]], np.int32)))(o) for o in ("union", "intersection", "difference")})
    got = call(ctx, env, "copyleft.mesh_boolean", V1, F1, V2, F2, **({} if op is None else dict(boolean_type=op)))
    ctx.eq([c[0] for c in env.calls], [f"_mesh_{want}_cpp_impl"], "operation", str(op))
    a = env.calls[0][1]
    ctx.check(np.array_equal(a.V1, V1) and np.array_equal(a.F1, F1) and np.array_equal(a.V2, V2) and np.array_equal(a.F2, F2), "operands")
    ctx.check(np.array_equal(got[0], A([len(want), 0, 0])), "answer")
    ctx.outcome(op)


# ------------------------------------------------------------------ closest points, winding numbers, signed distances
def closest_ref(p, X):
    """closest point of the convex hull of 1, 2 or 3 points (rows of X) to p"""
    best = None
    k = len(X)
    for s in range(1, k + 1):
        for S in itertools.combinations(range(k), s):
            B = X[list(S)]
            D = (B[1:] - B[0]).T
            w = np.linalg.lstsq(D, p - B[0], rcond=None)[0] if s > 1 else np.zeros(0)
            lam = np.concatenate([[1 - w.sum()], w])
            if np.all(lam >= -1e-12):
                c = lam @ B
                d = float((p - c) @ (p - c))
                if best is None or d < best[0] - 1e-14:
                    best = (d, c)
    return best


def sqd_env(order):
    """point_mesh_squared_distance by brute force; `order`: ties go to the first or to the last element"""
    def f(a):
        D, J, C = [], [], []
        for p in a.P:
            best = None
            for j, t in list(enumerate(a.F.tolist()))[::order]:
                d, c = closest_ref(p, a.V[t])
                if best is None or d < best[0] - 1e-12:
                    best = (d, j, c)
            D.append(best[0]); J.append(best[1]); C.append(best[2])
        return np.array(D), np.array(J, np.int32), np.array(C)
    return f


def solid_angle(q, V, F):
    w = 0.0
    for t in F.tolist():
        a, b, c = V[t] - q
        la, lb, lc = map(np.linalg.norm, (a, b, c))
        w += 2 * math.atan2(float(np.dot(a, np.cross(b, c))), la * lb * lc + a @ b * lc + b @ c * la + c @ a * lb)
    return w / (4 * math.pi)


SHAPES = {
    "points2": ([(0, 0), (2, 0), (1, 2)], None), "points3": ([(0, 0, 0), (2, 0, 1), (1, 2, 0)], None),
    "points3i": ([(0, 0, 0), (2, 0, 1), (1, 2, 0)], [[2], [0], [1]]),
    "segs2": ([(0, 0), (2, 0), (2, 2), (0, 1)], [[0, 1], [1, 2], [2, 3], [3, 0]]),
    "segs2b": ([(0, 0), (2, 0), (2, 2), (0, 1)], [[2, 1], [0, 3]]),
    "segs3": ([(0, 0, 0), (2, 0, 1), (2, 2, 0)], [[0, 1], [2, 1]]),
    "segs0": ([(0, 0), (0, 0), (2, 1)], [[0, 1], [1, 2]]),
    "tris2": ([(0, 0), (2, 0), (0, 2), (2, 2)], [[0, 1, 2], [3, 2, 1]]),
    "tris3": ([(0, 0, 0), (2, 0, 0), (0, 2, 0), (2, 2, 1)], [[0, 1, 2], [3, 2, 1]]),
    "cube": (CUBEP, CUBE), "tet": (POS[:4], TET),
}


def closest_cases(tier):
    for s, (P, F) in SHAPES.items():
        dim = len(P[0])
        for fn in ("squared_distance", "unsigned_distance", "signed_distance"):
            if fn != "squared_distance" and (F is None or (dim == 2 and len(F[0]) != 2)):
                if not (F is None and dim == 2):
                    continue
            if fn == "signed_distance" and not (s in ("cube", "tet") or s == "segs2" or (F is None and dim == 2)):
                continue
            for pre in (0, 1):
                for order in (1, -1):
                    yield [s, fn, pre, order]


@scenario("closest", closest_cases, "squared/unsigned/signed distance through the extension, built afresh or from a precomputed tree: indices, barycentric "
          "coordinates and signs agree with the geometry at every point of a lattice", nontrivial=lambda c: c[1] != "squared_distance")
def closest(case, ctx):
    s, fn, pre, order = case
    P, F = SHAPES[s]
    V = np.array(P, float)
    dim = V.shape[1]
    Fa = None if F is None else np.array(F, [np.int64, np.int32][pre])
    r = [x / 2 for x in range(-2, 8)] if dim == 2 else [-1, 0.25, 0.5, 1.0, 2.5]
    Q = np.array(list(itertools.product(r, repeat=dim)), float)
    if fn == "signed_distance":      # away from the surface itself
        ref = closed_F(V, Fa)
        Q = np.array([x for x in Q if min(closest_ref(x, V[t])[0] for t in ref.tolist()) > 1e-9])
    f = sqd_env(order)
    env = Env(_point_mesh_squared_distance_cpp_impl=f,
              _fast_winding_number_cpp_impl=lambda a: np.array([solid_angle(x, a.V, a.F) for x in a.Q]))
    env.answers["_AABBTree_cpp_impl.squared_distance"] = lambda a: f(_with(a))
    env.answers["_FastWindingNumberBVH_cpp_impl.winding_number"] = lambda a: np.array([solid_angle(x, a.made.V, a.made.F) for x in a.Q])
    elem = Fa if Fa is not None else (closed_F(V, None) if fn != "squared_distance" else np.arange(len(V))[:, None])
    kw = {}
    if pre:
        kw["cpp_aabb"] = call(ctx, env, "squared_distance_precompute", V, elem if fn == "squared_distance" or Fa is not None else None)
        ctx.eq(kw["cpp_aabb"].dim, dim, "tree-dim")
        if fn == "signed_distance" and dim == 3:
            kw["fwn_bvh"] = call(ctx, env, "fast_winding_number_precompute", V, Fa)
    if fn == "squared_distance":
        kw["use_cpp"] = True
    d, J, lam = call(ctx, env, fn, Q, V, *([] if Fa is None else [Fa]), **kw)
    used = {c[0] for c in env.calls}
    if pre:
        ctx.check("_point_mesh_squared_distance_cpp_impl" not in used and "_fast_winding_number_cpp_impl" not in used, "precomputed-ignored", str(used))
    if not ctx.check(np.shape(d) == (len(Q),) and np.shape(J) == (len(Q),) and np.shape(lam) == (len(Q), elem.shape[1]), "shapes",
                     lambda: f"{np.shape(d)} {np.shape(J)} {np.shape(lam)}"):
        return
    for i, q in enumerate(Q):
        best = min(closest_ref(q, V[t])[0] for t in elem.tolist())
        v = best if fn == "squared_distance" else math.sqrt(best)
        if fn == "signed_distance":
            inside = (abs(wind2(q, V, elem)) if dim == 2 else solid_angle(q, V, Fa)) > 0.5
            v = -v if inside else v
        ctx.check(abs(d[i] - v) < 1e-9, "distance", lambda: f"{q.tolist()}: {d[i]}, want {v}")
        j = int(J[i])
        if not ctx.check(0 <= j < len(elem), "index", f"{j}"):
            continue
        here = lam[i] @ V[elem[j]]
        ctx.check(np.all(np.isfinite(lam[i])) and np.all(lam[i] > -1e-9) and abs(lam[i].sum() - 1) < 1e-9 and
                  abs((q - here) @ (q - here) - best) < 1e-8, "barycentric", lambda: f"{q.tolist()} element {j}: {lam[i].tolist()}")
    ctx.outcome((fn, pre))


class _with:
    def __init__(self, a):
        self.V, self.F, self.P = a.made.V, a.made.F, a.P


def closed_F(V, F):
    if F is not None:
        return F
    n = len(V)
    return np.array([[i, (i + 1) % n] for i in range(n)])


def wind2(q, V, E):
    s = 0.0
    for i, j in E.tolist():
        a, b = V[i] - q, V[j] - q
        s += math.atan2(a[0] * b[1] - a[1] * b[0], a @ b)
    return s / (2 * math.pi)


# ------------------------------------------------------------------ pass-through wrappers
def forms(x, k):
    """the same values stored in another way"""
    if x.dtype.kind == "f":
        return [x, np.asfortranarray(x), x.astype(np.float32), np.concatenate([x, x], axis=0)[::2][:0].reshape(0, *x.shape[1:]) if 0 else x.copy()[::1]][k]
    return [x, x.astype(np.int32), np.asfortranarray(x), x.astype(np.uint16)][k]


WRAPS = {
    "upper_envelope": lambda v, f, t, d, s, g: (("V", v), ("T", t), ("D", d)),
    "offset_surface": lambda v, f, t, d, s, g: (("V", v), ("F", f)),
    "in_element_aabb": lambda v, f, t, d, s, g: (("Q", g), ("V", v), ("F", t)),
    "fast_winding_number": lambda v, f, t, d, s, g: (("Q", g), ("V", v), ("F", f)),
    "winding_number": lambda v, f, t, d, s, g: (("Q", g), ("V", v), ("F", f)),
    "approximate_hausdorff_distance": lambda v, f, t, d, s, g: (("v1", v), ("f1", f), ("v2", g), ("f2", f[::-1])),
    "marching_cubes": lambda v, f, t, d, s, g: (("S", s), ("GV", g)),
    "ray_mesh_intersect": lambda v, f, t, d, s, g: (("cam_pos", g), ("cam_dir", g[::-1]), ("V", v), ("F", f)),
}


@scenario("wrappers", lambda tier: [[n, k, j, p] for n in WRAPS for k in range(4) for j in range(4) for p in range(2)],
          "thin wrappers: every array reaches the extension in its documented role whatever its storage, and the answer comes back unchanged, also "
          "through the precomputed objects", nontrivial=lambda c: c[1] or c[2])
def wrappers(case, ctx):
    name, k, j, pre = case
    v, f, t = A(*POS[:4]), np.array(TET), np.array([[0, 1, 2, 3], [1, 0, 2, 3]])
    d = A([0.25, 0.75], [0.5, 0.5], [1, 0], [0, 1])
    s = np.arange(8) / 4 - 1
    g = A(*CUBEP) / 2
    args = WRAPS[name](v, f, t, d, s, g)
    arr = [forms(x, k if x.dtype.kind == "f" else j) for _n, x in args]
    before = [x.copy() for x in arr]
    ans3 = (A([1, 2, 3]), np.array([[0, 0, 0]], np.int32), np.array([[True, False]]))
    vec = np.arange(8) / 8
    rays = (np.arange(8) / 2, np.arange(8, dtype=np.int32) - 1, np.arange(24).reshape(8, 3) / 24)
    answers = {"upper_envelope": ans3, "offset_surface": ans3[:2], "in_element_aabb": rays[1], "fast_winding_number": vec, "winding_number": vec,
               "approximate_hausdorff_distance": 0.625, "marching_cubes": ans3[:2], "ray_mesh_intersect": rays}
    ans = answers[name]
    ext = {"winding_number": "_fast_winding_number_cpp_impl", "approximate_hausdorff_distance": "_hausdorff_distance_cpp_impl"}.get(name, f"_{name}_cpp_impl")
    env = Env(**{ext: lambda a: ans})
    kw, more = {}, ()
    if name == "marching_cubes":
        more, kw = (2, np.int64(2), 2), dict(isovalue=0.375)
    if name == "offset_surface":
        more, kw = (0.75,), dict(grid_size=12)
    if pre:
        if name in ("fast_winding_number", "winding_number"):
            ext = "_FastWindingNumberBVH_cpp_impl.winding_number"
            kw["fwn_bvh"] = call(ctx, env, "fast_winding_number_precompute", arr[1], arr[2], order=1)
            ctx.eq((kw["fwn_bvh"].order, kw["fwn_bvh"].V.tolist(), kw["fwn_bvh"].F.tolist()), (1, v.tolist(), f.tolist()), "precompute-properties")
        elif name == "ray_mesh_intersect":
            ext = "_RayMeshIntersector_cpp_impl.intersect"
            kw["intersector"] = call(ctx, env, "ray_mesh_intersect_precompute", arr[2], arr[3])
            ctx.eq((kw["intersector"].V.tolist(), kw["intersector"].F.tolist()), (v.tolist(), f.tolist()), "precompute-properties")
        elif name == "marching_cubes":
            kw.pop("isovalue")
        else:
            return
        env.answers[ext] = lambda a: ans
    got = call(ctx, env, name, *arr, *more, **kw)
    a = env.of(ext)
    if not ctx.eq(len(a), 1, "asked", name):
        return
    a = a[0]
    for (n, x), b, y in zip(args, before, arr):
        ctx.check(np.array_equal(b, y), "argument-changed", n)
        src = getattr(a, n, None)
        if src is None:
            src = getattr(a.made, n)
        ctx.check(src.shape == x.shape and np.array_equal(src, x), "role", lambda: f"{name} {n}: {src.tolist()}")
    if name == "marching_cubes":
        ctx.eq((a.nx, a.ny, a.nz, a.isovalue), (2, 2, 2, 0.0 if pre else 0.375), "parameters")
    if name == "offset_surface":
        ctx.eq((a.iso, a.grid_size), (0.75, 12), "parameters")
    same = lambda x, y: np.array_equal(np.asarray(x), np.asarray(y))
    ctx.check(len(got) == len(ans) and all(same(x, y) for x, y in zip(got, ans)) if isinstance(ans, tuple) else same(got, ans), "answer", str(got))
    ctx.outcome(name)


@scenario("precompute", lambda tier: [[dim, c, F] for dim in (2, 3, 4) for c in ("tree", "bvh", "rays") for F in (0, 1, 2, 3, 4)],
          "precomputed query objects: default elements (closed polyline in 2D, points in 3D), one-row queries, refusal of what is not a 3D triangle mesh")
def precompute(case, ctx):
    dim, cls, w = case
    V = np.array([p[:dim] for p in [(0, 0, 0, 1), (2, 0, 1, 0), (1, 2, 0, 0), (0, 1, 3, 2)]], float)
    F = None if w == 0 else np.array([list(range(i, i + w)) for i in range(5 - w)]) % 4
    ans = np.array([0.5])
    env = Env(**{"_FastWindingNumberBVH_cpp_impl.winding_number": lambda a: ans,
                 "_RayMeshIntersector_cpp_impl.intersect": lambda a: (ans, ans, ans),
                 "_AABBTree_cpp_impl.squared_distance": lambda a: (ans, ans, ans)})
    if cls == "tree":
        if dim == 4:
            return
        o = call(ctx, env, "squared_distance_precompute", V, *([] if F is None else [F]))
        a = env.of("_AABBTree_cpp_impl")[0]
        want = F.tolist() if F is not None else ([[0, 1], [1, 2], [2, 3], [3, 0]] if dim == 2 else [[0], [1], [2], [3]])
        ctx.eq((a.V.tolist(), sorted(map(tuple, a.F.tolist()))), (V.tolist(), sorted(map(tuple, want))), "elements")
        ctx.eq((o.V.tolist(), o.F.tolist(), o.dim), (V.tolist(), a.F.tolist(), dim), "properties")
        for q in (V[0], V[:1], V[0].astype(int), np.asfortranarray(V[:3])):
            with extended(env):
                ctx.transitions += 1
                o.squared_distance(q)
            ctx.eq(env.calls[-1][1].P.tolist(), np.atleast_2d(q).astype(float).tolist(), "query")
        ctx.outcome(("tree", w))
        return
    if F is None:
        return
    name = {"bvh": "fast_winding_number_precompute", "rays": "ray_mesh_intersect_precompute"}[cls]
    if dim != 3 or w != 3:
        ctx.raises(lambda: call(ctx, env, name, V, F), "refusal", f"dim {dim}, {w} columns", exc=ValueError)
        return
    for order in (0, 1, 2, None) if cls == "bvh" else (None,):
        o = call(ctx, env, name, V, F, **({} if order is None else dict(order=order)))
        if cls == "bvh":
            ctx.eq((o.order, env.calls[-1][1].order), (2 if order is None else order,) * 2, "order")
        for q in (V[0], V[:1], V[:2].astype(int)):
            with extended(env):
                ctx.transitions += 1
                o.winding_number(q) if cls == "bvh" else o.intersect(q, q + 1)
            x = env.calls[-1][1]
            ctx.eq((x.Q if cls == "bvh" else x.cam_pos).tolist(), np.atleast_2d(q).astype(float).tolist(), "query")
            if cls == "rays":
                ctx.eq(x.cam_dir.tolist(), (np.atleast_2d(q) + 1).astype(float).tolist(), "directions")
    ctx.outcome(cls)


# ------------------------------------------------------------------ dual contouring
def dc_cases(tier):
    for n in itertools.product((1, 2, 3), repeat=3):
        for gcols in (2, 3, 4):
            for ds in (-1, 0, 1):
                yield [list(n), gcols, ds, {}]
    for kw in ({"outer_iters": -1}, {"inner_iters": -1}, {"batch_size": 0}, {"batch_size": -3}, {"outer_iters": 0, "inner_iters": 0, "batch_size": 1},
               {"isovalue": 0.5}, {"hermite_update": False}, {"mu": 0.25}, {"dc_weight": 0.125}, {"svd_threshold": 0.5}, {"new_hermite_pos_weight": 0.75},
               {"new_face_pos_weight": 0.875}, {"new_hermite_normal_weight": 0.375}, {"verbose": True}):
        yield [[2, 3, 2], 3, 0, kw]


@scenario("dual-contouring", dc_cases, "dual contouring: inconsistent grids and parameters are refused before any work, consistent ones handed over unchanged",
          nontrivial=lambda c: bool(c[3]))
def dual(case, ctx):
    n, gc, ds, kw = case
    N = n[0] * n[1] * n[2]
    GV = np.arange(N * gc).reshape(N, gc)
    S = np.arange(N + ds) / 2
    ans = (A([1, 2, 3]), np.array([[0, 1, 2, 3]], np.int32))
    env = Env(_dcsdd_cpp_impl=lambda a: ans)
    bad = min(n) < 2 or gc != 3 or ds != 0 or any(kw.get(x, 0) < 0 for x in ("outer_iters", "inner_iters")) or kw.get("batch_size", 1) <= 0
    run = lambda: call(ctx, env, "dual_contouring_of_signed_distance_data", S, GV, *n, **kw)
    if bad:
        ctx.raises(run, "refusal", str(case), exc=ValueError)
        ctx.eq(len(env.calls), 0, "asked-anyway")
        ctx.outcome("refused")
        return
    got = run()
    ctx.check(np.array_equal(got[0], ans[0]) and np.array_equal(got[1], ans[1]), "answer")
    a = env.calls[0][1]
    ctx.eq((a.S.tolist(), a.GV.tolist()), (S.tolist(), GV.tolist()), "grid")
    want = dict(nx=n[0], ny=n[1], nz=n[2], isovalue=0.0, outer_iters=100, inner_iters=100, hermite_update=True, mu=0.1, dc_weight=0.02, svd_threshold=0.01,
                new_hermite_pos_weight=0.2, new_face_pos_weight=0.2, new_hermite_normal_weight=0.2, batch_size=200000, verbose=False)
    want.update(kw)
    ctx.eq({k: getattr(a, k) for k in want}, want, "parameters")
    ctx.outcome("asked")


# ------------------------------------------------------------------ point clouds to meshes
def pc_cases(tier):
    for dim in (1, 2, 3, 4):
        for n in (0, 1, 2, 5):
            yield [dim, n, 0, 10, 10.0, None]
    for dim in (2, 3):
        for depth in list(range(-1, 16)) + [100]:
            for w in (-1.0, 0.0, 0.5, 10.0):
                yield [dim, 3, 0, depth, w, ["Neumann", "Dirichlet"][depth % 2]]
        yield [dim, 3, 1, 8, 1.0, None]
        yield [dim, 3, 2, 8, 1.0, None]
        yield [dim, 3, 3, 8, 1.0, None]


@scenario("point-cloud", pc_cases, "point_cloud_to_mesh: unusable clouds and parameters are refused, depth is limited to what the solver supports, the rest is handed over",
          nontrivial=lambda c: c[3] != 10)
def point_cloud(case, ctx):
    dim, n, broken, depth, w, bc = case
    P = (np.arange(n * dim).reshape(n, dim) * 0.5)
    N = P[::-1] + 1
    if broken == 1:
        N = N[:-1]
    ans = (A([1, 2, 3]), np.array([[0, 1, 2]], np.int32))
    env = Env(_point_cloud_to_mesh_cpp_impl=lambda a: ans)
    kw = dict(psr_depth=depth, psr_screening_weight=w)
    if bc:
        kw["psr_outer_boundary_type"] = bc
    if broken == 2:
        kw["method"] = "BPA"
    if broken == 3:
        P = None
    bad = broken or dim not in (2, 3) or n < 2 or depth <= 0 or w < 0
    run = lambda: call(ctx, env, "point_cloud_to_mesh", P, N, **kw)
    if bad:
        ctx.raises(run, "refusal", str(case))
        ctx.eq(len(env.calls), 0, "asked-anyway")
        ctx.outcome("refused")
        return
    got = run()
    ctx.check(np.array_equal(got[0], ans[0]) and np.array_equal(got[1], ans[1]), "answer")
    a = env.calls[0][1]
    ctx.eq((a.P.tolist(), a.N.tolist()), (P.tolist(), N.tolist()), "cloud")
    ctx.eq((a.screening_weight, a.depth, a.boundary.lower(), a.verbose), (w, min(12, depth), (bc or "Neumann").lower(), False), "parameters")
    ctx.outcome("asked")


# ------------------------------------------------------------------ files
FILES = {"obj": ("_read_obj_cpp_impl", "_write_obj_cpp_impl"), "stl": ("_read_stl_cpp_impl", "_write_stl_cpp_impl"), "ply": ("_read_ply_cpp_impl", "_write_ply_cpp_impl")}
VF = (A([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]), np.array([[0, 1, 2], [0, 2, 3]]))


def file_cases(tier):
    codes = {"obj": [0, -5, -7, -8, -1, -11, -12, 3], "stl": [0, -1, -2, -3, -4, -5], "ply": [0, -1, 1, -5]}
    for fmt in FILES:
        for way in ("ext", "EXT", "fmt", ".fmt"):
            for err in codes[fmt]:
                for flags in itertools.product((0, 1), repeat=3):
                    if (fmt != "obj" and flags[0]) or (fmt != "ply" and flags[2]) or (fmt == "stl" and flags[1]):
                        continue
                    yield ["read", fmt, way, err, list(flags)]
                for flags in itertools.product((0, 1), repeat=3):
                    if fmt == "stl" and (flags[0] or flags[1]):
                        continue
                    if fmt == "ply" and flags[1]:
                        continue
                    yield ["write", fmt, way, err, list(flags)]
    for fmt in ("off", "", "txt", "3ds"):
        yield ["read", fmt, "ext", 0, [0, 0, 0]]
        yield ["write", fmt, "fmt", 0, [0, 0, 0]]


@scenario("files", file_cases, "read_mesh/write_mesh through the extension: every error code is reported, every requested piece is passed and returned in "
          "documented order, the format comes from the argument before the file name", nontrivial=lambda c: c[3] != 0)
def files(case, ctx):
    op, fmt, way, err, flags = case
    name = {"ext": f"dir.stl/x.{fmt}", "EXT": f"x.{fmt.upper()}", "fmt": "x.obj" if fmt != "obj" else "x.stl", ".fmt": "noext"}[way]
    kw = {} if way in ("ext", "EXT") else dict(fmt=fmt if way == "fmt" else "." + fmt.upper())
    V, F = VF
    UV, Ft = A([0, 0], [1, 0], [0, 1]), np.array([[0, 1, 2], [2, 1, 0]])
    N, Fn = A([0, 0, 1], [0, 1, 0]), np.array([[0, 0, 1], [1, 1, 0]])
    soup = V[F].reshape(-1, 3)
    Cc = np.array([[1, 2, 3, 4], [5, 6, 7, 8], [9, 10, 11, 12], [250, 251, 252, 255]])
    i32 = lambda x: x.astype(np.int32)
    E = np.zeros((0, 0))
    if fmt not in FILES:
        env = Env()
        ctx.raises(lambda: call(ctx, env, "read_mesh", name) if op == "read" else call(ctx, env, "write_mesh", name, V, F, **kw), "unsupported", fmt)
        return
    rd, wr = FILES[fmt]
    if op == "read":
        uv, n, c = flags
        env = Env(_read_obj_cpp_impl=lambda a: (err, V, i32(F), UV if a.return_UV else E, i32(Ft) if a.return_UV else i32(E), N if a.return_N else E, i32(Fn) if a.return_N else i32(E)),
                  _read_stl_cpp_impl=lambda a: (err, soup, np.arange(len(soup), dtype=np.int32).reshape(-1, 3)),
                  _read_ply_cpp_impl=lambda a: (err, V, i32(F), N, Cc.astype(np.uint8)))
        for k, on in (("return_UV", uv), ("return_N", n), ("return_C", c)):
            if on:
                kw[k] = True
        run = lambda: call(ctx, env, "read_mesh", name, **kw)
        if err != 0:
            ctx.raises(run, "error-ignored", f"{fmt} code {err}")
            ctx.outcome((fmt, err))
            return
        got = run()
        ctx.eq([x[0] for x in env.calls], [rd], "reader")
        ctx.eq(env.calls[0][1].file, name, "file")
        want = [V, F] + ([UV, Ft] if uv else []) + ([N, Fn if fmt == "obj" else None] if n else []) + ([Cc] if c else [])
        if not ctx.eq(len(got), len(want), "results"):
            return
        if fmt == "stl":
            ctx.eq(tris(got[0], got[1]), tris(V, F), "mesh")
            ctx.eq(sorted(map(tuple, np.asarray(got[0]).tolist())), sorted(map(tuple, V.tolist())), "merged")
            g2 = call(ctx, env, "read_mesh", name, merge_stl=False, **kw)
            ctx.check(np.array_equal(g2[0], soup) and np.array_equal(np.ravel(g2[1]), np.arange(6)), "unmerged")
        else:
            for x, y in zip(got, want):
                ctx.check(x is None if y is None else (x is not None and np.array_equal(x, y)), "piece", lambda: f"{x} want {y}")
    else:
        env = Env(**{wr: lambda a: err})
        if fmt == "obj":
            uv, ft, n = flags
            kw.update({k: v for k, v, on in (("UV", UV, uv), ("Ft", Ft, uv and ft), ("N", N, n), ("Fn", Fn, n and ft)) if on})
        elif fmt == "ply":
            n, _x, c = flags
            kw.update({k: v for k, v, on in (("N", V, n), ("C", Cc, c)) if on})
        binary = not flags[2]
        if fmt != "obj":
            kw["binary"] = binary
        run = lambda: call(ctx, env, "write_mesh", name, V, F, **kw)
        if err != 0:
            ctx.raises(run, "error-ignored", f"{fmt} code {err}")
            ctx.outcome((fmt, err, "w"))
            return
        run()
        ctx.eq([x[0] for x in env.calls], [wr], "writer")
        a = env.calls[0][1]
        ctx.eq((a.file, a.V.tolist(), a.F.tolist()), (name, V.tolist(), F.tolist()), "mesh")
        for k in ("UV", "Ft", "N", "Fn", "C"):
            if hasattr(a, k):
                x = getattr(a, k)
                ctx.check(np.array_equal(x, kw[k]) if k in kw else x.shape[0] == 0, "piece", lambda: f"{k} {x.tolist()}")
        if fmt != "obj":
            ctx.eq(a.binary, binary, "binary")
    ctx.outcome((op, fmt))


@scenario("file-engines", lambda tier: [[op, e] for op in ("read", "write") for e in ("C++", "Python", None, "Fortran")] + [["colors", k] for k in range(6)],
          "the requested reader/writer is the one used (the extension by default when present); colours must be RGBA per vertex or per face")
def engines(case, ctx):
    import os, tempfile
    op, e = case
    V, F = VF
    if op == "colors":
        shape = [(4, 4), (2, 4), (3, 4), (4, 3), (1, 4), (2, 3)][e]
        C = np.arange(shape[0] * shape[1]).reshape(shape)
        env = Env(_write_ply_cpp_impl=lambda a: 0)
        run = lambda: call(ctx, env, "write_mesh", "x.ply", V, F, C=C)
        if shape in ((4, 4), (2, 4)):
            run()
            ctx.eq(env.calls[0][1].C.tolist(), C.tolist(), "colors")
        else:
            ctx.raises(run, "bad-colors", str(shape))
        ctx.outcome(("colors", shape))
        return
    env = Env(_read_obj_cpp_impl=lambda a: (0, V + 1, F.astype(np.int32), np.zeros((0, 0)), np.zeros((0, 0), np.int32), np.zeros((0, 0)), np.zeros((0, 0), np.int32)),
              _write_obj_cpp_impl=lambda a: 0)
    d = tempfile.mkdtemp(prefix="c33_")
    p = os.path.join(d, "x.obj")
    try:
        if op == "read":
            with open(p, "w") as f:
                f.write("".join("v %g %g %g\n" % tuple(v) for v in V) + "".join("f %d %d %d\n" % tuple(t + 1) for t in F))
            run = lambda: call(ctx, env, "read_mesh", p, reader=e)
        else:
            run = lambda: call(ctx, env, "write_mesh", p, V, F, writer=e)
        if e == "Fortran":
            ctx.raises(run, "unknown-engine")
            return
        got = run()
        cpp = e != "Python"
        ctx.eq(len(env.calls), int(cpp), "engine")
        if op == "read":
            ctx.check(np.array_equal(got[0], V + 1 if cpp else V), "engine-result")
        else:
            ctx.eq(os.path.exists(p), not cpp, "engine-file")
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)
    ctx.outcome((op, e))


# ------------------------------------------------------------------ curved Hessian, particle swarm
@scenario("curved-hessian", lambda tier: [[n, s, w] for n in (None, 4, 5, 7) for s in range(3) for w in range(2)],
          "biharmonic energy with curved_hessian: the energy of the extension, padded to the requested number of vertices")
def curved(case, ctx):
    import scipy.sparse as sp
    n, s, ex = case
    F = np.array(TET, [np.int64, np.int32][s % 2])
    P = np.array(POS[:4], float) + s
    Q = np.arange(16.0).reshape(4, 4) + 1
    Q = Q + Q.T
    env = Env(_curved_hessian_intrinsic_cpp_impl=lambda a: [sp.csc_matrix, sp.csr_matrix, sp.coo_matrix][s](Q))
    L = np.array([[sum((P[h[0]] - P[h[1]]) ** 2) for h in M.hes(t)] for t in TET])
    if ex:
        if n is not None:
            return
        got = call(ctx, env, "biharmonic_energy", P, F, bc="curved_hessian")
    else:
        got = call(ctx, env, "biharmonic_energy_intrinsic", L, F, n=n, bc="curved_hessian")
    k = 4 if n is None else n
    W = np.zeros((k, k)); W[:4, :4] = Q
    ctx.close(got.toarray(), W, "energy", tol=1e-14)
    ctx.close(env.calls[0][1].l_sq, L, "lengths")
    ctx.eq(env.calls[0][1].F.tolist(), TET, "faces")
    ctx.outcome(n)


@scenario("swarm", lambda tier: [[d, r, t, c] for d in (1, 2, 3) for r in range(5) for t in ("full", "ring", None) for c in range(2)],
          "particle_swarm with the extension: objective, box and parameters are handed over, objectives may return any scalar shape")
def swarm(case, ctx):
    d, r, topo, cpp = case
    lb, ub = -np.arange(1, d + 1), np.arange(1, d + 1) * 2
    if r % 2:
        lb, ub = lb.tolist(), ub.astype(float)
    form = [lambda x: float(x), lambda x: np.array([x]), lambda x: np.array([[x]]), lambda x: np.float32(x), lambda x: int(x)][r]
    pts = [np.array(p, float) for p in itertools.product((-1, 0, 2), repeat=d)]
    seen = []
    env = Env(_particle_swarm_cpp_impl=lambda a: (seen.extend(a.fun(p) for p in pts), (pts[-1], 4.5))[1])
    kw = dict(n_particles=7, max_iter=3, momentum=0.5, phi=0.25, verbose=False)
    if topo:
        kw["topology"] = topo
    if not cpp:
        kw["use_cpp"] = False
        np.random.seed(3)
    got = call(ctx, env, "particle_swarm", lambda x: form(np.sum(np.asarray(x) ** 2)), lb, ub, **kw)
    if not cpp:
        ctx.eq(len(env.calls), 0, "asked-anyway")
        ctx.check(np.all(got[0] >= np.array(lb)) and np.all(got[0] <= np.array(ub)), "box")
        return
    ctx.check(np.array_equal(got[0], pts[-1]) and got[1] == 4.5, "answer")
    a = env.calls[0][1]
    ctx.check(all(isinstance(x, float) for x in seen) and seen == [float(np.sum(p ** 2)) for p in pts], "objective", str(seen[:3]))
    ctx.eq((a.lb.tolist(), a.ub.tolist()), (np.array(lb, float).tolist(), np.array(ub, float).tolist()), "box")
    ctx.eq((a.n_particles, a.max_iter, a.momentum, a.phi, a.verbose, a.topology), (7, 3, 0.5, 0.25, False, topo or "full"), "parameters")
    ctx.outcome((d, topo))


# ------------------------------------------------------------------ reach for the arcs
def arcs_cases(tier):
    for dim in (2, 3):
        for signs in ("mixed", "pos", "neg"):
            for rp, rn in itertools.product((0, 1, 3), repeat=2):           # points found by rasterization outside positive / negative spheres
                for feas in (0, 1, 4):                                      # feasible points (each side)
                    for mesh in ((1,), (0,), (1, 0), (0, 1), (1, 1, 0)):     # does the reconstruction produce a mesh? (last answer repeats)
                        for ft in ((4,), (1,), (0,), (4, 1)):               # points left by fine tuning
                            if tier == "quick" and (rp == 3) != (feas == 4) and rp != rn:
                                continue
                            yield [dim, signs, [rp, rn], feas, list(mesh), list(ft), 2]
    for dim in (2, 3):
        for it in (0, 1, 3):
            yield [dim, "mixed", [3, 3], 4, [1], [4], it]


@scenario("arcs", arcs_cases, "reach_for_the_arcs under every combination of answers (nothing rasterized, no or few feasible points, empty reconstructions): "
          "always a mesh, possibly empty, in the input's coordinates; positive and negative samples keep their own indices", nontrivial=lambda c: c[1] == "mixed")
def arcs(case, ctx):
    dim, signs, ras, feas, meshes, ft, iters = case
    k = 3
    unit = np.array(list(itertools.product(range(k), repeat=dim)), float) / (k - 1)
    res = []
    for scale, shift in ((1.0, 0.0), (4.0, -3.0)):
        U = unit * scale + shift
        S = (np.arange(len(U)) % 5 - 2 + 0.25) * 0.125 * scale
        S = {"mixed": S, "pos": np.abs(S), "neg": -np.abs(S)}[signs]
        npos = S >= 0
        m_it, f_it = itertools.chain(meshes, itertools.repeat(meshes[-1])), itertools.chain(ft, itertools.repeat(ft[-1]))
        clouds = np.linspace(0.1, 0.9, 4 * dim).reshape(4, dim)

        def side(a):
            """which samples the extension was given: rows of the normalized sample set"""
            idx = [int(np.argmin(np.sum((unit - u) ** 2, axis=1))) for u in a.U]
            ctx.check(np.allclose(unit[idx], a.U, atol=1e-12), "normalized", lambda: a.U.tolist())
            return idx

        def ras_fn(a):
            idx = side(a)
            ctx.check(np.all(a.S >= 0) and np.allclose(a.S, np.abs(S[idx]) / scale, atol=1e-12), "radii", lambda: a.S.tolist())
            ctx.check(len(set(npos[idx].tolist())) == 1, "one-sign")
            ctx.check(a.res >= 2 and a.res % 2 == 0, "resolution", a.res)
            n = ras[0] if npos[idx[0]] else ras[1]
            return clouds[:n].copy() if n else np.zeros((0, dim))

        def feas_fn(a):
            idx = side(a)
            ctx.check(np.allclose(a.S, S[idx] / scale, atol=1e-12), "values", lambda: a.S.tolist())
            ctx.check(sorted(set(a.batch.tolist())) == sorted(a.batch.tolist()) and set(a.batch.tolist()) == set(range(len(idx))), "batch", lambda: a.batch.tolist())
            ctx.check(abs(a.clamp_value * scale - 2.0 * scale) < 1e-12, "clamp", a.clamp_value)
            f = np.arange(min(feas, len(idx)), dtype=np.int32)
            n = np.full((len(f), dim), 1.0 if npos[idx[0]] else -1.0)
            return clouds[:len(f)].copy(), n, f

        def fine_fn(a):
            side(a)
            ctx.check(len(a.U) == len(U) and np.allclose(a.S, S / scale, atol=1e-12), "values")
            ctx.check(len(a.P) == len(a.N) == len(a.f), "cloud-lengths")
            if not fine_fn.seen:
                for fi, n in zip(a.f.tolist(), a.N):
                    ctx.check(bool(npos[fi]) == (n[0] > 0), "sample-indices", lambda: f"{a.f.tolist()} {a.N[:, 0].tolist()}")
            fine_fn.seen = True
            m = next(f_it)
            return clouds[:m].copy(), np.ones((m, dim)), np.arange(m, dtype=np.int32)
        fine_fn.seen = False

        def mesh_fn(a):
            ctx.check(len(a.P) >= 2, "reconstruct-few")
            ctx.eq(a.screening_weight, 7.0, "screening")
            if next(m_it):
                return np.eye(dim) / 2, np.arange(dim, dtype=np.int32)[None, :]
            return np.zeros((0, dim)), np.zeros((0, dim), np.int32)
        env = Env(_outside_points_from_rasterization_cpp_impl=ras_fn, _locally_make_feasible_cpp_impl=feas_fn,
                  _fine_tune_point_cloud_iter_cpp_impl=fine_fn, _point_cloud_to_mesh_cpp_impl=mesh_fn)
        before = (U.copy(), S.copy())
        V, F, P, N = call(ctx, env, "reach_for_the_arcs", U, S, return_point_cloud=True, fine_tune_iters=iters, screening_weight=7.0,
                          clamp_value=2.0 * scale, rasterization_resolution=[5, 6][len(ft) % 2])
        ctx.check(np.array_equal(U, before[0]) and np.array_equal(S, before[1]), "argument-changed")
        ctx.check(len(env.of("_fine_tune_point_cloud_iter_cpp_impl")) <= iters, "iterations")
        nmesh = len(np.atleast_2d(V)) if np.size(V) else 0
        ctx.check(np.shape(F)[0] == (1 if nmesh else 0), "faces", str(np.shape(F)))
        if nmesh:
            ctx.close(V, np.eye(dim) / 2 * scale + shift, "mesh-frame", tol=1e-12)
        if P is not None and np.size(P):
            rows = (clouds * scale + shift)[None, :, :]
            ctx.check(np.ndim(P) == 2 and np.all(np.min(np.max(np.abs(np.asarray(P)[:, None, :] - rows), axis=2), axis=1) < 1e-9), "cloud-frame",
                      lambda: np.asarray(P).tolist())
            ctx.eq(len(P), len(N), "normals")
        res.append((nmesh, 0 if P is None else int(np.size(P))))
    ctx.eq(res[0], res[1], "scale-dependent")
    ctx.outcome(res[0])


SETTINGS = dict(rng_seed=[0, 3452], fine_tune_iters=[0, 1, 2], batch_size=[0, 1, 3, 8, 9, 10, 1000], num_rasterization_spheres=[0, 1, 3, 8, 1000],
                screening_weight=[0.5], rasterization_resolution=[2, 6, 64], max_points_per_sphere=[1, 2], n_local_searches=[1, 5], local_search_iters=[1, 7],
                local_search_t=[0.25], tol=[0.0, 0.125], clamp_value=[0.5, np.inf], force_cpu=[True, False], parallel=[True, False], verbose=[True], return_point_cloud=[False])


def settings_cases(tier):
    for dim in (2, 3):
        for signs in ("mixed", "pos", "neg"):
            yield [dim, signs, {}]
            for k, v in SETTINGS.items():
                for x in v:
                    yield [dim, signs, {k: repr(x)}]
            keys = list(SETTINGS)
            for i, j in itertools.combinations(range(len(keys)), 2):
                for x, y in itertools.product(SETTINGS[keys[i]], SETTINGS[keys[j]]) if tier == "thorough" else [(SETTINGS[keys[i]][(i + j) % len(SETTINGS[keys[i]])], SETTINGS[keys[j]][(i * j) % len(SETTINGS[keys[j]])])]:
                    yield [dim, signs, {keys[i]: repr(x), keys[j]: repr(y)}]


@scenario("arcs-settings", settings_cases, "every setting and pair of settings of reach_for_the_arcs reaches each step it is documented for: batches and "
          "rasterized spheres within their bounds, the same seed repeats the run", nontrivial=lambda c: len(c[2]) > 1)
def arcs_settings(case, ctx):
    dim, signs, given = case
    kw = {k: np.inf if v == "inf" else eval(v, {}) for k, v in given.items()}
    U = np.array(list(itertools.product(range(3), repeat=dim)), float)[::1 if dim == 2 else 2] / 2
    n = len(U)
    S = (np.arange(n) % 5 - 2 + 0.25) * 0.125
    S = {"mixed": S, "pos": np.abs(S), "neg": -np.abs(S)}[signs]
    want = dict(screening_weight=10.0, rasterization_resolution=64, max_points_per_sphere=3, n_local_searches=int(np.ceil(2 * n ** (1 / dim))), local_search_iters=20,
                local_search_t=0.01, tol=1e-4, clamp_value=np.inf, force_cpu=False, parallel=False, batch_size=10000, num_rasterization_spheres=0, fine_tune_iters=3)
    want.update(kw)
    clouds = np.linspace(0.1, 0.9, 4 * dim).reshape(4, dim)
    runs = []
    for _ in range(2):
        env = Env(_outside_points_from_rasterization_cpp_impl=lambda a: clouds[:3].copy(),
                  _locally_make_feasible_cpp_impl=lambda a: (clouds[:2].copy(), np.ones((2, dim)), np.arange(2, dtype=np.int32)),
                  _fine_tune_point_cloud_iter_cpp_impl=lambda a: (clouds.copy(), np.ones((4, dim)), np.arange(4, dtype=np.int32)),
                  _point_cloud_to_mesh_cpp_impl=lambda a: (np.eye(dim) / 2, np.arange(dim, dtype=np.int32)[None, :]))
        with contextlib.redirect_stdout(io.StringIO()):
            out = call(ctx, env, "reach_for_the_arcs", U, S, **{**dict(return_point_cloud=True), **kw})
        runs.append((env, out))
    env, out = runs[0]
    ctx.eq(len(out), 4 if kw.get("return_point_cloud", True) else 2, "outputs")
    flat = lambda e: [(m, [(k, np.asarray(v).tolist()) for k, v in vars(a).items()]) for m, a in e.calls]
    ctx.check(flat(env) == flat(runs[1][0]), "seed-repeats")
    sides = [int((S >= 0).sum()), int((S < 0).sum())]
    sides = [x for x in sides if x]
    row = {tuple(u): s for u, s in zip(U.tolist(), S.tolist())}
    ras, feas, fine, mesh = (env.of(m) for m in ("_outside_points_from_rasterization_cpp_impl", "_locally_make_feasible_cpp_impl",
                                                 "_fine_tune_point_cloud_iter_cpp_impl", "_point_cloud_to_mesh_cpp_impl"))
    ctx.eq([len(ras), len(feas), len(fine), len(mesh)], [len(sides), len(sides), want["fine_tune_iters"], want["fine_tune_iters"] + 1], "steps")
    for a, m in zip(ras, sides):
        got = [tuple(u) for u in a.U.tolist()]
        most = want["num_rasterization_spheres"] or m
        ctx.check(0 < len(got) <= min(most, m) and len(set(got)) == len(got) and (most < m or len(got) == m), "sphere-number", lambda: f"{len(got)} of {m}, at most {most}")
        ctx.check(all(u in row and abs(abs(row[u]) - s) < 1e-12 for u, s in zip(got, a.S.tolist())), "spheres", lambda: str(got))
        ctx.eq((a.res, a.tol, a.parallel, a.force_cpu), tuple(want[k] for k in ("rasterization_resolution", "tol", "parallel", "force_cpu")), "rasterization-settings")
    for a, m in list(zip(feas, sides)) + [(a, n) for a in fine]:
        bs = want["batch_size"]
        b = a.batch.tolist()
        ctx.check(all(0 <= i < m for i in b), "batch-range", lambda: f"{b} of {m}")
        ctx.check((len(b) == bs) if 0 < bs < m else sorted(b) == list(range(m)), "batch-size", lambda: f"{b} of {m}, {bs}")
        ctx.eq((a.n_local_searches, a.local_search_iters, a.tol, a.clamp_value, a.parallel),
               tuple(want[k] for k in ("n_local_searches", "local_search_iters", "tol", "clamp_value", "parallel")), "search-settings")
    for a in fine:
        ctx.eq((a.max_points_per_sphere, a.local_search_t), (want["max_points_per_sphere"], want["local_search_t"]), "fine-settings")
    for a in mesh:
        ctx.eq(a.screening_weight, float(want["screening_weight"]), "screening")
    ctx.outcome((len(feas), len(fine)))


# ------------------------------------------------------------------ the extension is not there
def _absent():
    V, F = VF
    X = A([0.2, 0.1, 0.3], [0.5, -1, 2])
    T = dict(S=np.linspace(-1, 1, 8), GV=A(*itertools.product((0, 1), repeat=3)))
    SD = A([1, 2, 3, 4])[0]
    return {
        "remesh_botsch": lambda g: g.remesh_botsch(V, F), "swept_volume": lambda g: g.swept_volume(V, F, translations=A([0, 0, 0], [1, 0, 0])),
        "decimate": lambda g: g.decimate(V, F), "upper_envelope": lambda g: g.upper_envelope(V, np.array([[0, 1, 2, 3]]), np.ones((4, 2))),
        "marching_cubes": lambda g: g.marching_cubes(T["S"], T["GV"], 2, 2, 2, 0.0), "offset_surface": lambda g: g.offset_surface(V, F, 0.1, 10),
        "squared_distance": lambda g: g.squared_distance(X, V, F, use_cpp=True), "unsigned_distance": lambda g: g.unsigned_distance(X, V, F, use_cpp=True),
        "squared_distance_precompute": lambda g: g.squared_distance_precompute(V, F), "fast_winding_number": lambda g: g.fast_winding_number(X, V, F),
        "fast_winding_number_precompute": lambda g: g.fast_winding_number_precompute(V, F), "ray_mesh_intersect_precompute": lambda g: g.ray_mesh_intersect_precompute(V, F),
        "in_element_aabb": lambda g: g.in_element_aabb(X, V, np.array([[0, 1, 2, 3]])), "approximate_hausdorff_distance": lambda g: g.approximate_hausdorff_distance(V, F, V + 1, F, use_cpp=True),
        "ray_mesh_intersect": lambda g: g.ray_mesh_intersect(X, X + 1, V, F, use_embree=True), "point_cloud_to_mesh": lambda g: g.point_cloud_to_mesh(V, V),
        "read_stl": lambda g: g.read_mesh("x.stl"), "read_ply": lambda g: g.read_mesh("x.ply"), "read_obj": lambda g: g.read_mesh("x.obj", reader="C++"),
        "write_stl": lambda g: g.write_mesh("x.stl", V, F), "write_ply": lambda g: g.write_mesh("x.ply", V, F), "write_obj": lambda g: g.write_mesh("x.obj", V, F, writer="C++"),
        "mesh_boolean": lambda g: importlib.import_module("gpytoolbox.copyleft").mesh_boolean(V, F, V + 1, F),
        "do_meshes_intersect": lambda g: importlib.import_module("gpytoolbox.copyleft").do_meshes_intersect(V, F, V + 1, F),
        "lazy_cage": lambda g: importlib.import_module("gpytoolbox.copyleft").lazy_cage(V, F),
        "reach_for_the_arcs": lambda g: g.reach_for_the_arcs(V, SD),
    }


ABSENT = _absent()


@scenario("absent", lambda tier: [[n, k] for n in ABSENT for k in range(2)], "without the extension, every function that needs it says so with an ImportError, touches no file and "
          "gives no result; and works again once the extension answers")
def absent(case, ctx):
    import os, tempfile
    name, k = case
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="c33_")
    try:
        os.chdir(d)
        for ext in ("stl", "ply", "obj"):
            open("x." + ext, "w").close()
        if k:
            with extended(Env()) as g:        # loaded with the extension, whose functions then disappear
                mods = [sys.modules["gpytoolbox_bindings"], sys.modules["gpytoolbox_bindings_copyleft"]]
                gone = [(m, n, getattr(m, n)) for m in mods for n in dir(m) if n.startswith("_") and n.endswith("_impl")]
                try:
                    for m, n, _f in gone:
                        delattr(m, n)
                    err = outcome_of(ABSENT[name], g)
                finally:
                    for m, n, f in gone:
                        setattr(m, n, f)
        else:
            err = outcome_of(ABSENT[name], G)
        kind = Exception if name.endswith("_obj") else ImportError       # an explicitly requested OBJ engine: any refusal
        ctx.check(isinstance(err, kind), "absent-" + ("late" if k else "never"), lambda: f"{name}: {err!r}")
        ctx.check(sorted(os.listdir(d)) == ["x.obj", "x.ply", "x.stl"] and all(os.path.getsize(f) == 0 for f in os.listdir(d)), "absent-files")
    finally:
        os.chdir(old)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    ctx.outcome(name)


def outcome_of(f, g):
    try:
        return f(g)
    except Exception as e:
        return e
