"""C09 lengths, areas, angles, normals, volumes: exact geometry on every small simplex and mesh."""
import itertools, math
import numpy as np
from ..core import scenario, G
from .. import mesh as M, geo, big

PROPERTY = "C09"
ASSUMPTIONS = ["angles, unit normals and defects are judged on non-degenerate faces only",
               "vertex normals are judged where the area-weighted sum is not zero; defects where the vertex is referenced"]


def norm(v):
    return math.sqrt(geo.dot(v, v))


def angle(P, t, i):
    o = P[t[i]]
    u, v = geo.sub(P[t[(i + 1) % 3]], o), geo.sub(P[t[(i + 2) % 3]], o)
    return math.atan2(math.sqrt(max(geo.dot(u, u) * geo.dot(v, v) - geo.dot(u, v) ** 2, 0)), geo.dot(u, v))


def boundary_verts(F):
    return {v for e, L in M.edge_incidence(F).items() if len(L) == 1 for v in e}


def check_mesh(P, F, ctx, scale=1.0, shift=0.0):
    V, Fa = np.array(P, dtype=float) * scale + shift, np.array(F, dtype=int)
    n, m, d = len(P), len(F), len(P[0])
    # the exact quantities of the unscaled integer mesh; scale is a power of two
    e = lambda t, i: geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]])
    lsq = np.array([[geo.dot(e(t, i), e(t, i)) for i in range(3)] for t in F], float)
    ctx.close(G.halfedge_lengths_squared(V, Fa) / scale ** 2, lsq, "lengths-squared")
    ctx.close(G.halfedge_lengths(V, Fa) / scale, np.sqrt(lsq), "lengths")
    dbl = np.array([geo.dblarea(P, t) for t in F])
    deg = dbl == 0
    tol = 1e-6 if deg.any() else 1e-9
    for sg in (False, True):
        got = G.doublearea(V, Fa, signed=sg) / scale ** 2
        if sg and d == 2:
            w = [(P[t[1]][0] - P[t[0]][0]) * (P[t[2]][1] - P[t[0]][1]) - (P[t[1]][1] - P[t[0]][1]) * (P[t[2]][0] - P[t[0]][0]) for t in F]
            ctx.close(got, w, "signed-area")
        else:
            ctx.close(got, dbl, "area", tol=tol)
    ctx.close(G.doublearea_intrinsic(lsq * scale ** 2, Fa) / scale ** 2, dbl, "area-intrinsic", tol=tol)
    bc = np.array([[sum(P[v][k] for v in t) / 3 for k in range(d)] for t in F])
    ctx.close((G.barycenters(V, Fa) - shift) / scale, bc, "barycenter")
    if deg.any():
        return
    ang = np.array([[angle(P, t, i) for i in range(3)] for t in F])
    for approx in (True, False):
        A = G.tip_angles(V, Fa, use_small_angle_approx=approx)
        ctx.close(A, ang, "tip-angle", tol=1e-7)
        ctx.close(np.sum(A, axis=1), np.full(m, math.pi), "tip-angle-sum", tol=1e-7)
        ctx.close(G.tip_angles_intrinsic(lsq * scale ** 2, Fa, use_small_angle_approx=approx), ang, "tip-angle-intrinsic", tol=1e-7)
    ctx.close(G.tip_angles(V, Fa), ang, "tip-angle-default", tol=1e-7)
    nrm = np.array([geo.cross3(geo.sub(geo.to3(P[t[1]]), geo.to3(P[t[0]])), geo.sub(geo.to3(P[t[2]]), geo.to3(P[t[0]]))) for t in F], float)
    if d == 3:
        ctx.close(G.per_face_normals(V, Fa, unit_norm=False) / scale ** 2, nrm, "face-normal")
        ctx.close(G.per_face_normals(V, Fa), nrm / dbl[:, None], "unit-face-normal")
        ctx.close(G.per_face_normals(V, Fa, unit_norm=True), nrm / dbl[:, None], "unit-face-normal")
        # area-weighted unit normals = plain cross products
        s = [[0, 0, 0] for _ in range(n)]
        for f, t in enumerate(F):
            for v in t:
                s[v] = [a + b for a, b in zip(s[v], nrm[f])]
        N = G.per_vertex_normals(V, Fa)
        if ctx.check(N.shape == (n, 3), "vertex-normal-shape"):
            for v in range(n):
                if norm(s[v]) > 0:
                    ctx.close(N[v], [x / norm(s[v]) for x in s[v]], "vertex-normal")
    if M.is_manifold(F):
        bd = boundary_verts(F)
        k = np.full(n, 2 * math.pi)
        for f, t in enumerate(F):
            for i in range(3):
                k[t[i]] -= ang[f, i]
        used = M.used(F)
        for v in bd:
            k[v] = 0
        for K in (G.angle_defect(V, Fa), G.angle_defect(V, Fa, use_small_angle_approx=False),
                  G.angle_defect_intrinsic(lsq * scale ** 2, Fa, n=n), G.angle_defect_intrinsic(lsq * scale ** 2, Fa)):
            if ctx.check(len(K) in (n, max(used) + 1), "defect-shape", lambda: K.shape):
                ctx.close(K[used], k[used], "defect", tol=1e-7)
                if not bd:
                    chi = len(used) - len(M.edge_incidence(F)) + m
                    ctx.close(np.sum(K[used]), 2 * math.pi * chi, "gauss-bonnet", tol=1e-7)
        if d == 3:
            th = G.dihedral_angles(V, Fa)
            w = np.full((m, 3), np.nan)
            for L in M.edge_incidence(F).values():
                if len(L) == 2:
                    (f, i, _), (g, j, _) = L
                    c = geo.cross3(nrm[f], nrm[g])
                    w[f, i] = w[g, j] = math.atan2(norm(c), geo.dot(nrm[f], nrm[g]))
            ctx.close(th, w, "dihedral", tol=1e-7)


def tri_cases(tier):
    q = tier == "quick"
    for P in itertools.product(itertools.product(range(3), repeat=2), repeat=3):      # degenerate ones included
        yield [list(map(list, P)), [[0, 1, 2]]]
    pts = list(itertools.product(range(2), repeat=3)) + [(2, 0, 1)] + ([] if q else [(0, 2, 1), (2, 2, 2)])
    for P in itertools.product(pts, repeat=3):
        yield [list(map(list, P)), [[0, 1, 2]]]
    yield from geo.hinges(tier)
    yield from geo.tabled(tier)


@scenario("triangle-geometry", tri_cases, "every triangle on a grid, every hinge, every catalogued mesh",
          nontrivial=lambda c: geo.nondegenerate(*c))
def tri_geo(case, ctx):
    check_mesh(case[0], case[1], ctx)
    ctx.outcome((len(case[0]), len(case[1]), len(case[0][0])))


SCALES = [2.0 ** k for k in (-30, -16, -14, -13, -10, -3, 4, 12)]


def scaled(tier):
    base = [c for c in geo.tabled("quick") if len(c[1]) <= (2 if tier == "quick" else 4)]
    base += [c for i, c in enumerate(geo.single_triangles("quick")) if tier != "quick" or i % 7 == 0]
    for P, F in base:
        for s in SCALES:
            yield [P, F, s, 0.0]
        yield [P, F, 1.0, 1024.0]
        yield [P, F, 0.25, -96.0]


@scenario("scale-and-translation", scaled, "the same quantities on meshes scaled by powers of two and translated exactly")
def scale(case, ctx):
    P, F, s, t = case
    check_mesh(P, F, ctx, s, t)
    ctx.outcome((s, t))


def lines(tier):
    pts2 = list(itertools.product(range(3), repeat=2))
    for n in (2, 3):
        for P in itertools.product(pts2, repeat=n):
            yield [list(map(list, P)), None]
    P = [[0, 0], [3, 4], [1, -2], [-5, 5]]
    es = list(itertools.permutations(range(4), 2))
    for k in (1, 2, 3):
        for E in itertools.product(es, repeat=k):
            yield [P, [list(e) for e in E]]
    P = [[0, 0, 1], [3, 4, 1], [1, -2, 0]]
    for E in itertools.product(list(itertools.permutations(range(3), 2)), repeat=2):
        yield [P, [list(e) for e in E]]


@scenario("polyline-geometry", lines, "lengths, barycenters, edge normals, vertex normals of every small polyline")
def line_geo(case, ctx):
    P, E = case
    V = np.array(P, float)
    E2 = E or [[i, i + 1] for i in range(len(P) - 1)]
    Ea = np.array(E2, int)
    d = len(P[0])
    ev = [geo.sub(P[b], P[a]) for a, b in E2]
    ln = [norm(e) for e in ev]
    ctx.close(G.doublearea(V, None if E is None else Ea), [2 * x for x in ln], "length")
    ctx.close(G.doublearea(V, Ea), [2 * x for x in ln], "length")
    ctx.close(G.barycenters(V, Ea), [[(P[a][k] + P[b][k]) / 2 for k in range(d)] for a, b in E2], "barycenter")
    ctx.outcome((len(P), len(E2)))
    if d == 2:
        N = [[e[1], -e[0]] for e in ev]
        ctx.close(G.per_face_normals(V, Ea, unit_norm=False), N, "edge-normal")
        if min(ln) > 0:
            ctx.close(G.per_face_normals(V, Ea), [[x / l for x in v] for v, l in zip(N, ln)], "unit-edge-normal")
            s = [[0, 0] for _ in P]
            for (a, b), v in zip(E2, N):
                for k in (a, b):
                    s[k] = [x + y for x, y in zip(s[k], v)]
            got = G.per_vertex_normals(V, Ea)
            for k, v in enumerate(s):
                if norm(v) > 0:
                    ctx.close(got[k], [x / norm(v) for x in v], "vertex-normal")


def tets(tier):
    pts = list(itertools.product(range(2), repeat=3))
    for P in itertools.product(pts, repeat=4):
        yield [list(map(list, P)), [[0, 1, 2, 3]]]
    P = [[0, 0, 0], [3, 0, 1], [0, 4, 0], [1, 1, 5], [-2, 1, -3]]
    T = list(itertools.permutations(range(5), 4))
    for t in T:
        yield [P, [list(t)]]
    for a, b in itertools.product(T[:: 7 if tier == "quick" else 1], T):
        yield [P, [list(a), list(b)]]


@scenario("tet-volume", tets, "signed volume and barycenter of every tet on the unit cube's corners, pairs in every vertex order")
def tet_vol(case, ctx):
    P, T = case
    w = []
    for t in T:
        a, b, c, d = (P[v] for v in t)
        w.append(geo.dot(geo.sub(b, a), geo.cross3(geo.sub(c, a), geo.sub(d, a))) / 6)
    ctx.close(G.volume(np.array(P, float), np.array(T, int)), w, "volume")
    ctx.close(G.barycenters(np.array(P, float), np.array(T, int)), [[sum(P[v][k] for v in t) / 4 for k in range(3)] for t in T], "barycenter")
    ctx.outcome(tuple(x > 0 for x in w))


def needles(tier):
    K = 2 ** 20
    for a, b in itertools.product(range(-3, 4), repeat=2):
        if b:
            for r in range(3):
                for d in (2, 3):
                    yield [K, a, b, r, d]


@scenario("needle-angles", needles, "tip angles of needle triangles: the tiny angle to full relative precision")
def needle(case, ctx):
    K, a, b, r, d = case
    P = [(0, 0, 0), (K, 0, 0), (K + a, b if d == 2 else 0, b if d == 3 else 0)]
    t = [(i + r) % 3 for i in range(3)]
    want = [angle(P, t, i) for i in range(3)]
    V, F = np.array(P, float)[:, :d], np.array([t])
    lsq = np.array([[geo.dot(geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]]), geo.sub(P[t[(i + 2) % 3]], P[t[(i + 1) % 3]])) for i in range(3)]], float)
    for name, A in (("tip-angle", G.tip_angles(V, F)), ("tip-angle", G.tip_angles(V, F, use_small_angle_approx=True)),
                    ("tip-angle-intrinsic", G.tip_angles_intrinsic(lsq, F)),
                    ("tip-angle-intrinsic", G.tip_angles_intrinsic(lsq, F, use_small_angle_approx=True))):
        if ctx.check(np.shape(A) == (1, 3), name):
            for i in range(3):
                ctx.check(abs(A[0, i] - want[i]) <= 1e-6 * want[i], name, lambda: f"corner {i}: {A[0, i]} want {want[i]}")
    # without the small-angle formula: what the law of cosines resolves
    for A in (G.tip_angles(V, F, use_small_angle_approx=False), G.tip_angles_intrinsic(lsq, F, use_small_angle_approx=False)):
        for i in range(3):
            ctx.check(abs(A[0, i] - want[i]) <= min(1e-7, 1e-13 / min(want)), "tip-angle-exact", lambda: f"corner {i}: {A[0, i]} want {want[i]}")
    ctx.outcome((a > 0, b > 0))


@scenario("large", big.metric, "the same judgement for meshes with hundreds of faces", nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    P, F = big.build(spec)
    check_mesh(P, F, ctx)


@scenario("many", lambda tier: [[n, k] for n in (131, 260, 1030) for k in (1, 7)], "polylines and tet lists with hundreds of elements in shuffled order")
def many(case, ctx):
    n, k = case
    P = [[(i * 5) % 16 - 0.5 * (i % 3), i / 4] for i in range(n)]
    E = [[(i * k) % n, ((i + 1) * k) % n] for i in range(n - 1)]
    line_geo([P, E], ctx)
    P = [[(i * 5) % 16 - 0.5 * (i % 3), i / 4, (i * i) % 11] for i in range(n)]
    tet_vol([P, [[(i * k) % n, (i * 3 + 1) % n, (i * 5 + 2) % n, (i * 7 + 3) % n] for i in range(n)]], ctx)
