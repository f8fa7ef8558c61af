"""C17 Rays against boxes, triangles, polylines and meshes, compared with exact integer intersection tests."""
import itertools
import math
from fractions import Fraction as Fr
import numpy as np
from .. import big
from ..core import scenario, G
from .. import dist as D

PROPERTY = "C17"
ASSUMPTIONS = ["hits exactly on an edge/vertex of a triangle, or that only touch a box, are judged only where every quantity is a power "
               "of two (no rounding); otherwise hit and miss are both accepted", "polyline rays start off the polyline",
               "a segment collinear with the ray counts as hit at its nearer end", "max_distance is judged for unit directions"]
TOL = 1e-9


def pow2(x):
    x = abs(int(x))
    return x & (x - 1) == 0


# ---------------------------------------------------------------- boxes
def box_ref(o, d, lo, hi):
    """(t_in, strict) of the closed box, exact; None if missed; strict: an open interval of t is inside in every dimension"""
    t0, t1 = Fr(0), None
    touch = False
    for a, v, l, h in zip(o, d, lo, hi):
        if v == 0:
            if a < l or a > h:
                return None
            touch |= a in (l, h)
        else:
            x, y = sorted((Fr(l - a) / v, Fr(h - a) / v))
            t0 = max(t0, x)
            t1 = y if t1 is None else min(t1, y)
    if t1 is not None and t1 < t0:
        return None
    return t0, not touch and (t1 is None or t1 > t0)


def boxes(tier):
    q = tier == "quick"
    for dim in (2, 3):
        ex = (1, 2) if dim == 3 and q else (0, 1, 2)
        for w in itertools.product(ex, repeat=dim):
            for s in (0, -10):
                yield [dim, list(w), s]


@scenario("box", boxes, "one box, every lattice origin and direction")
def box(case, ctx):
    dim, w, s = case
    sc = 2.0 ** s
    q = ctx.tier == "quick"
    lo, hi = [0] * dim, [2 * x for x in w]         # doubled: the centre stays an integer
    if dim == 2:
        O = list(itertools.product(range(-2, 7), repeat=2))
        Ds = [d for d in itertools.product(range(-3, 4), repeat=2) if any(d)]
    else:
        r = (-2, 0, 1, 2, 5) if q else range(-2, 6)
        O = list(itertools.product(r, repeat=3))
        Ds = [d for d in itertools.product((-3, -1, 0, 1, 2) if q else range(-3, 4), repeat=3) if any(d)]
        if q:
            Ds = Ds[::2]
    flat = 0 in w
    c, W = np.array(w, float) * sc, np.array(hi, float) * sc
    hits = 0
    for o in O:
        oa = np.array(o, float) * sc
        for d in Ds:
            exact = all(pow2(x) for x in d)
            if flat and not exact:
                continue
            want = box_ref(o, d, lo, hi)
            if want is not None and not want[1] and not exact:
                continue
            r, x = G.ray_box_intersect(oa, np.array(d, float) * (1 if (o[0] + d[0]) % 2 else 0.25), c, W)
            if not ctx.check(bool(r) == (want is not None), "hit-flag", lambda: f"o {o} d {d} box {hi}: {r}, want {want}"):
                continue
            if want is None:
                ctx.check(np.any(np.isinf(x)), "miss-marker", lambda: f"o {o} d {d} box {hi}: {x}")
            else:
                hits += 1
                p = [float(a + want[0] * v) for a, v in zip(o, d)]
                ctx.close(x / sc, p, "hit-point", f"o {o} d {d} box {hi}", tol=TOL)
    ctx.outcome((dim, hits > 0, flat))


# ---------------------------------------------------------------- triangles
def tri_ref(o, d, T):
    """None (the line misses or is parallel) or (t, barycentric, strictly inside?, exactly representable?)"""
    a, b, c = T
    n = D.cross(D.sub(b, a), D.sub(c, a))
    det = D.dot(n, d)
    if det == 0:
        return None
    # t = n.(a-o)/det ; p*det integer
    tn = D.dot(n, D.sub(a, o))
    p = [x * det + tn * v for x, v in zip(o, d)]
    N = D.dot(n, n)
    lam = []
    for x, y in ((b, c), (c, a), (a, b)):
        w = [pi - xi * det for pi, xi in zip(p, x)]
        lam.append(Fr(D.dot(D.cross(D.sub(y, x), w), n), N * det))
    if min(lam) < 0:
        return None
    return Fr(tn, det), [float(x) for x in lam], min(lam) > 0, pow2(det) and pow2(N)


DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(1, 2, 0), (0, -1, 2), (3, 1, -1), (-2, 1, 1), (1, -3, 2), (-1, -2, -3)]


def tris(tier):
    q = tier == "quick"
    g = list(itertools.product((0, 2), repeat=3)) + [(1, 1, 0), (4, 0, 2)]
    for k, (a, b, c) in enumerate(itertools.permutations(g, 3)):
        if D.cross(D.sub(b, a), D.sub(c, a)) == (0, 0, 0):
            continue
        if q and not (a < b and a < c):
            continue
        for s in (0, -14) if not q or k % 4 == 0 else (0,):
            yield [[list(a), list(b), list(c)], s]


@scenario("triangle", tris, "one triangle, every lattice origin and direction, with and without negative hits")
def triangle(case, ctx):
    T, s = case
    sc = 2.0 ** s
    T = [tuple(p) for p in T]
    V = [np.array(p, float) * sc for p in T]
    O = list(itertools.product((-1, 0, 1, 2, 3), repeat=3))
    if ctx.tier == "quick":
        O = O[::2]
    hits = 0
    for i, o in enumerate(O):
        oa = np.array(o, float) * sc
        for j, d in enumerate(DIRS):
            if ctx.tier == "quick" and (i + j) % 4:
                continue
            want = tri_ref(o, d, T)
            if want is not None and not want[2] and not want[3]:
                continue
            neg = (i + j // 4) % 2 == 0
            kw = dict(return_negative=True) if neg else {}
            t, r, x = G.ray_triangle_intersect(oa, np.array(d, float) * sc, *V, **kw)
            hit = want is not None and (neg or want[0] >= 0)
            if not ctx.check(bool(r) == hit, "hit-flag", lambda: f"o {o} d {d} {kw}: {r}, want {want}"):
                continue
            if hit:
                hits += 1
                ctx.close(float(t), float(want[0]), "t", f"o {o} d {d}", tol=TOL)
                ctx.close(np.asarray(x) / sc, [float(a + want[0] * v) for a, v in zip(o, d)], "hit-point", f"o {o} d {d}", tol=TOL)
            else:
                ctx.check(np.isinf(t) and np.any(np.isinf(x)), "miss-marker", lambda: f"o {o} d {d}: {t} {x}")
    ctx.outcome(hits > 0)


# ---------------------------------------------------------------- meshes
CUBE = ([(x, y, z) for x in (0, 2) for y in (0, 2) for z in (0, 2)],
        [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)])
OCTA = ([(2, 0, 0), (-2, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 2), (0, 0, -2)],
        [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)])
LAYERS = ([(x, y, z) for z in (0, 1, 3) for x, y in ((0, 0), (4, 0), (0, 4))], [(0, 1, 2), (5, 4, 3), (6, 7, 8)])
SQUARE = ([(0, 0, 1), (2, 0, 1), (0, 2, 1), (2, 2, 1)], [(0, 1, 3), (0, 3, 2)])
MIX = ([(0, 0, 0), (3, 1, 0), (1, 3, 1), (2, 2, 4), (-1, 0, 3), (5, 5, 5)], [(0, 1, 2), (1, 3, 2), (0, 2, 4), (3, 4, 5)])
MESHES = dict(cube=CUBE, octahedron=OCTA, layers=LAYERS, square=SQUARE, mix=MIX)


def mesh_cases(tier):
    tris5 = list(itertools.combinations(range(5), 3))
    for name in MESHES:
        for rot in range(len(MESHES[name][1])):
            for s in (0, -12):
                yield [name, rot, s]
    P = [[0, 0, 0], [4, 0, 0], [0, 4, 1], [1, 1, 4], [3, 2, 2]]
    for n in (1, 2, 3):
        for F in itertools.combinations(tris5, n):
            if n < 3 or tier != "quick" or sum(map(sum, F)) % 2 == 0:
                yield [[P, [list(f) for f in F]], 0, 0]


@scenario("mesh", mesh_cases, "every lattice ray against meshes in every rotation of the face order", nontrivial=lambda c: c[0] != "square")
def mesh(case, ctx):
    name, rot, s = case
    P, F = MESHES[name] if isinstance(name, str) else name
    F = list(F[rot:]) + list(F[:rot])
    sc = 2.0 ** s
    T = [[tuple(P[i]) for i in f] for f in F]
    O = list(itertools.product((-1, 0, 1, 2, 3), repeat=3))
    O = O[rot % 2::2]
    q = ctx.tier == "quick"
    rays = [(o, d) for i, o in enumerate(O) for j, d in enumerate(DIRS) if (i + j + rot) % (8 if q else 2) == 0]
    oa, da = np.array([r[0] for r in rays], float) * sc, np.array([r[1] for r in rays], float) * sc
    V, Fa = np.array(P, float) * sc, np.array(F, int)
    runs = [{}]
    C, W, CH, _, _, tri, _ = G.initialize_aabbtree(V, Fa)
    runs.append(dict(C=C, W=W, CH=CH, tri_ind=tri))
    for kw in runs:
        judge_mesh(ctx, rays, T, G.ray_mesh_intersect(oa, da, V, Fa, use_embree=False, **kw), str(name)[:10])


def judge_mesh(ctx, rays, T, out, tag):
    ts, ids, lam = out
    if not ctx.check(len(ts) == len(ids) == len(rays) and np.shape(lam) == (len(rays), 3), "shapes"):
        return
    hits = 0
    for r, (o, d) in enumerate(rays):
        must, may = [], []
        for k, t in enumerate(T):
            h = tri_ref(o, d, t)
            if h is not None and h[0] >= 0:
                may.append((float(h[0]), k, h[1]))
                if h[2] or (h[3] and all(pow2(x) for x in d)):
                    must.append(float(h[0]))
        t = float(ts[r])
        first = min(must) if must else np.inf
        ok = [m for m in may if abs(m[0] - t) <= TOL * (1 + t)] if np.isfinite(t) else []
        msg = lambda: f"o {o} d {d}: t {t} id {ids[r]} must {first} may {may}"
        if np.isinf(t):
            if ctx.check(not must, "missed", msg):
                ctx.check(ids[r] == -1 and not np.any(lam[r]), "miss-marker", msg)
            continue
        hits += 1
        if not ctx.check(t <= first + TOL * (1 + first) if np.isfinite(first) else True, "not-first", msg):
            continue
        if not ctx.check(bool(ok), "false-hit", msg):
            continue
        hit = [m for m in ok if m[1] == ids[r]]
        if ctx.check(bool(hit), "element", msg):
            ctx.close(lam[r], hit[0][2], "barycentric", f"o {o} d {d}", tol=1e-8)
    ctx.outcome((tag, hits > 0))


def larges(tier):
    """[surface, number of rays]: many elements with few rays, few elements with many rays"""
    for spec in big.metric(tier):
        if not spec[5]:
            yield [spec, 14 if tier == "quick" else 60]
    for n in (150, 300, 1100) if tier == "quick" else (150, 300, 1100, 4200):
        yield [["grid", 2, 1, 1, 1, 0], n]
        yield [["torus", 3, 3, 2, 1, 0], n]


@scenario("large", larges, "many elements, many rays, with and without a given tree")
def large(case, ctx):
    spec, n = case
    P, F = big.build(spec)
    P = [tuple(int(64 * x) for x in p) for p in P]
    T = [[P[i] for i in f] for f in F]
    lo, hi = [min(p[k] for p in P) for k in range(3)], [max(p[k] for p in P) for k in range(3)]
    frac = lambda r, k, a: int(lo[k] - 32 + (hi[k] - lo[k] + 64) * (r * a % 1))
    rays = []
    for r in range(1, n + 1):      # origins around the box, aimed at points inside it
        o = [frac(r, k, a) for k, a in enumerate((0.7548776662466927, 0.5698402909980532, 0.3247179572447460))]
        if r % 4:
            o[r % 3] = (lo[r % 3] - 77) if r % 2 else (hi[r % 3] + 91)
        c = [frac(r, k, a) for k, a in enumerate((0.8191725133961645, 0.6710436067037893, 0.5497004779019703))]
        d = D.sub(c, o)
        if any(d):
            rays.append((tuple(o), tuple(int(x) for x in d)))
    oa, da = np.array([r[0] for r in rays], float) / 64, np.array([r[1] for r in rays], float) / 64
    V, Fa = np.array(P, float) / 64, np.array(F, int)
    C, W, CH, _, _, tri, _ = G.initialize_aabbtree(V, Fa)
    for kw in ({}, dict(C=C, W=W, CH=CH, tri_ind=tri)):
        judge_mesh(ctx, rays, T, G.ray_mesh_intersect(oa, da, V, Fa, use_embree=False, **kw), f"{len(F) > 256} {n > 256}")


# ---------------------------------------------------------------- polylines
def seg_ref(o, d, a, b):
    """parameter of the first point of the closed segment on the ray (t > 0 assumed by the caller), or None"""
    e = (b[0] - a[0], b[1] - a[1])
    w = (a[0] - o[0], a[1] - o[1])
    det = d[0] * e[1] - d[1] * e[0]
    dd = d[0] ** 2 + d[1] ** 2
    if det == 0:
        if d[1] * w[0] - d[0] * w[1] != 0:
            return None
        t = [Fr(w[0] * d[0] + w[1] * d[1], dd), Fr((b[0] - o[0]) * d[0] + (b[1] - o[1]) * d[1], dd)]
        t = [x for x in t if x >= 0]
        return min(t) if t else None
    t = Fr(w[0] * e[1] - w[1] * e[0], det)
    u = Fr(w[0] * d[1] - w[1] * d[0], det)
    return t if t >= 0 and 0 <= u <= 1 else None


def poly_cases(tier):
    q = tier == "quick"
    g = [(0, 0), (2, 0), (0, 2), (2, 2), (3, 1)]
    for n in (3, 4):
        for P in itertools.permutations(g, n):
            if P[0] == min(P) or not q:
                yield [[list(p) for p in P], None]
    es = list(itertools.permutations(range(4), 2))
    P = [[0, 0], [3, 0], [1, 2], [3, 3]]
    for n in (1, 2, 3):
        for E in itertools.product(es, repeat=n):
            if n < 3 or not q or (E[0] < E[1] and sum(E[2]) % 2):
                yield [P, [list(e) for e in E]]
    yield [[[-2, 0], [0, 0], [2, 0], [4, 0]], [[2, 3], [1, 2], [0, 1]]]


@scenario("polyline", poly_cases, "every lattice ray against closed and explicit polylines", nontrivial=lambda c: c[1] is None or len(c[1]) > 1)
def polyline(case, ctx):
    P, E = case
    V = np.array(P, float)
    n = len(P)
    E2 = [[i, (i + 1) % n] for i in range(n)] if E is None else E
    O = list(itertools.product(range(-1, 5), repeat=2)) + [(0.5, 1.5), (1.5, 0.5)]
    Ds = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1), (1, 2), (-2, 1), (2, -1), (1, -3), (-1, -2), (3, 4), (0, 4), (-0.5, 0)]
    q = ctx.tier == "quick"
    hits = 0
    for i, o in enumerate(O):
        if any(D.pt_seg(o, P[a], P[b]) == 0 for a, b in E2):
            continue
        for j, d in enumerate(Ds):
            if q and (i + j) % 3:
                continue
            f = tuple(Fr(x) for x in o), tuple(Fr(x) for x in d)
            ts = [seg_ref(*f, P[a], P[b]) for a, b in E2]
            fin = [t for t in ts if t is not None]
            want = min(fin) if fin else None
            x, nr, ind = G.ray_polyline_intersect(np.array(o, float), np.array(d, float), V, **({} if E is None else dict(EC=np.array(E))))
            judge_polyline(ctx, P, E2, o, d, ts, want, x, nr, ind)
            hits += want is not None
            if (i + j) % 4 == 0 and abs(d[0]) + abs(d[1]) == 1 and 0 in d:   # a unit direction: distance = parameter
                for md in (0.75, 2.5):
                    w2 = want if want is not None and want < md else None
                    x, nr, ind = G.ray_polyline_intersect(np.array(o, float), np.array(d, float), V, max_distance=md, EC=np.array(E2))
                    judge_polyline(ctx, P, E2, o, d, ts, w2, x, nr, ind)
    ctx.outcome((n, hits > 0))


def long_cases(tier):
    for n in (70, 140, 300) if tier == "quick" else (70, 140, 300, 1100):
        for kind in ("spiral", "comb", "shuffled"):
            yield [kind, n]


@scenario("long-polyline", long_cases, "polylines of many segments")
def long_polyline(case, ctx):
    kind, n = case
    P = [(t, (0, 9, 5)[t % 3] + t % 5) for t in range(n)] if kind != "spiral" else \
        [(round(t ** 0.8 * math.cos(t / 4) * 16) / 16, round(t ** 0.8 * math.sin(t / 4) * 16) / 16) for t in range(n)]
    E = None if kind != "shuffled" else [[j, (j + 1) % n][::1 if j % 3 else -1] for j in (i * 7 % n for i in range(n))] if n % 7 else [[i, i + 1] for i in range(n - 2, -1, -1)]
    E2 = [[i, (i + 1) % n] for i in range(n)] if E is None else E
    V = np.array(P, float)
    fP = [tuple(Fr(x) for x in p) for p in P]
    for i, o in enumerate([(-1, 2.5), (n / 2 + 0.25, 4.5), (n + 3, 1), (n / 4, -3.5), (0.5, 30)]):
        if any(D.pt_seg(o, P[a], P[b]) == 0 for a, b in E2):
            continue
        for d in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (3, -1), (-4, 1), (-1, -2)):
            f = tuple(Fr(x) for x in o), tuple(Fr(x) for x in d)
            ts = [seg_ref(*f, fP[a], fP[b]) for a, b in E2]
            fin = [t for t in ts if t is not None]
            want = min(fin) if fin else None
            x, nr, ind = G.ray_polyline_intersect(np.array(o, float), np.array(d, float), V, max_distance=1e6, **({} if E is None else dict(EC=np.array(E))))
            judge_polyline(ctx, P, E2, o, d, ts, want, x, nr, ind)
            ctx.outcome((kind, want is not None))


def judge_polyline(ctx, P, E2, o, d, ts, want, x, nr, ind):
    msg = f"o {o} d {d}"
    if want is None:
        ctx.check(ind == -1 and np.all(np.isinf(x)) and not np.any(nr), "miss-marker", lambda: f"{msg}: {x} {nr} {ind}")
        return
    p = [float(a + want * b) for a, b in zip(o, d)]
    if not ctx.check(0 <= ind < len(E2), "missed", lambda: f"{msg}: want hit at {p}, got {x} {ind}"):
        return
    ctx.close(np.asarray(x).reshape(-1), p, "hit-point", msg, tol=TOL)
    ctx.check(ts[ind] is not None and ts[ind] == want, "element", lambda: f"{msg}: element {ind}, parameters {ts}")
    a, b = P[E2[ind][0]], P[E2[ind][1]]
    e = np.array([-(b[1] - a[1]), b[0] - a[0]], float)
    ctx.close(np.asarray(nr).reshape(-1), e / np.linalg.norm(e), "normal", msg, tol=TOL)
