"""C15 Point-to-element and point-to-mesh distances against the exact minimum."""
import itertools
import numpy as np
from .. import big
from ..core import scenario, G
from .. import dist as D

PROPERTY = "C15"
ASSUMPTIONS = ["triangles are queried in 3D (the library asserts it)", "ties between elements may be resolved either way; the index "
               "must attain the minimum", "coordinates are dyadic, so the reference distance is exact up to one division"]
TOL = 1e-9


def lattice(lo, hi, dim, half=True):
    r = [x / 2 for x in range(2 * lo, 2 * hi + 1)] if half else range(lo, hi + 1)
    return [tuple(p) for p in itertools.product(r, repeat=dim)]


def check_one(ctx, q, E, d, lmb, aspect=""):
    """squared distance d and weights lmb of the query q to the element E (list of corner tuples)"""
    want = D.pt_elem(tuple(q), E)
    ctx.close(float(d), want, "distance" + aspect, f"{q} to {E}", tol=TOL)
    lmb = np.asarray(lmb, float).reshape(-1)
    if not ctx.check(lmb.shape == (len(E),), "lmb-shape" + aspect, lambda: lmb.shape):
        return
    ctx.check(np.all(lmb >= -1e-9) and np.all(lmb <= 1 + 1e-9), "lmb-range" + aspect, lambda: f"{q} to {E}: {lmb}")
    ctx.close(lmb.sum(), 1.0, "lmb-sum" + aspect, f"{q} to {E}", tol=TOL)
    x = lmb @ np.array(E, float)
    ctx.close(float(np.sum((x - np.array(q)) ** 2)), want, "lmb-attains" + aspect, f"{q} to {E} lmb {lmb}", tol=1e-8)


# a case: element; all queries of the lattice inside it.  [dim, corners, scale exponent, query spread]
def elements(tier):
    q = tier == "quick"
    for dim in (2, 3):
        g = list(itertools.product(range(3 if dim == 2 else 2), repeat=dim))
        if dim == 3:
            g += [(2, 1, 0), (1, 3, 2)]
        for a in g[:4] if q else g:
            yield [dim, [a], 0]
        for a, b in itertools.product(g, repeat=2):
            for s in (0, -20, 20) if not q else ((0, -20) if a < b else (0,)):
                yield [dim, [a, b], s]
    g = list(itertools.product((0, 1, 3) if not q else (0, 2), repeat=3)) + [(1, 0, 0), (1, 1, 0), (1, 1, 1), (3, 1, 2)]
    g = sorted(set(g))
    for a, b, c in itertools.product(g, repeat=3):
        if q and not (a <= b and a <= c):
            continue
        yield [3, [a, b, c], 0]
    for a, b, c in itertools.combinations(g, 3):
        for s in (-12, 12):
            if not q or s < 0 or c == g[-1]:
                yield [3, [a, b, c], s]


@scenario("element", lambda t: (json_case(c) for c in elements(t)), "one element, every query of a surrounding half-integer lattice",
          nontrivial=lambda c: len(c[1]) > 1)
def element(case, ctx):
    dim, E, s = case
    sc = 2.0 ** s
    E = [tuple(x * sc for x in p) for p in E]
    # the element sits in the middle of a longer vertex list, so its indices are not 0..s-1
    V = np.array([[99.0] * dim] + list(map(list, reversed(E))) + [[-99.0] * dim])
    el = np.arange(len(E), 0, -1)
    if dim == 2:
        Q = lattice(-1, 3, 2)
    elif len(E) == 3:
        Q = (lattice(-1, 3, 3, half=False) if ctx.tier != "quick" else lattice(0, 2, 3, half=False) if s else
             [p for p in lattice(-1, 3, 3, half=False) if sum(p) % 2 == 0 or p in E]) + [(0.5, 0.5, 0), (1.5, 0.5, 0.5), (0.5, 1.5, 1), (1.5, 1.5, 1.5), (0.25, 0.5, 2.5), (40, -30, 7)]
    else:
        Q = lattice(-1, 2, 3, half=False) + [(0.5, 0.5, 0), (0.5, 0.25, 0.5), (30, -40, 5)]
    for q in Q:
        p = np.array(q, float) * sc
        d, lmb = G.squared_distance_to_element(p, V, el)
        check_one(ctx, tuple(p), E, d, lmb) if sc == 1 else scaled(ctx, p, E, d, lmb, sc)
    ctx.outcome((dim, len(E), len(set(E))))


def scaled(ctx, p, E, d, lmb, sc):
    """distances of scaled elements are compared after undoing the scale (exactly: a power of two)"""
    check_one(ctx, tuple(p / sc), [tuple(x / sc for x in c) for c in E], d / sc ** 2, lmb, "-scaled")


def json_case(c):
    return [c[0], [list(p) for p in c[1]], c[2]]


def meshes(tier):
    q = tier == "quick"
    P2 = [(0, 0), (2, 0), (1, 2), (3, 3), (0, 3)]
    g = [(0, 0), (1, 0), (0, 1), (2, 2)]
    for n in (1, 2, 3, 4):
        for P in itertools.product(g, repeat=n):
            if n < 4 or not q or P[0] <= P[1] <= P[2]:
                yield [[list(p) for p in P], None]
    es = list(itertools.permutations(range(4), 2)) + [(1, 1)]
    for n in (1, 2, 3):
        for E in itertools.product(es, repeat=n):
            if n < 3 or not q or E[0] <= E[1] <= E[2]:
                yield [[list(p) for p in P2[:4]], [list(e) for e in E]]
    P3 = [(0, 0, 0), (2, 0, 1), (0, 2, 0), (1, 1, 2), (3, -1, 1)]
    for n in (1, 2, 3, 4):
        for P in itertools.combinations_with_replacement(P3, n):
            yield [[list(p) for p in P], None]
    es = list(itertools.combinations(range(5), 2))
    for n in (1, 2, 3):
        for E in itertools.combinations(es, n):
            yield [[list(p) for p in P3], [list(e) for e in E]]
    ts = list(itertools.combinations(range(5), 3)) + [(2, 1, 0), (0, 0, 1), (2, 2, 2)]
    for n in (1, 2, 3, 4):
        for F in (itertools.product(ts, repeat=n) if n < 3 else itertools.combinations(ts[::2] if q else ts, n)):
            yield [[list(p) for p in P3], [list(t) for t in F]]


@scenario("mesh", meshes, "clouds, polylines, meshes: brute force, fresh tree, given tree, batched and single queries",
          nontrivial=lambda c: len(c[1] or c[0]) > 1)
def mesh(case, ctx):
    P, F = case
    V = np.array(P, float)
    dim = V.shape[1]
    Fa = None if F is None else np.array(F, int)
    els = [[tuple(P[i])] for i in range(len(P))] if F is None else [[tuple(P[i]) for i in t] for t in F]
    Q = lattice(-1, 4, 2, half=False) + [(0.5, 0.5), (1.5, 1), (-0.5, 2.5), (1, 0.25)] if dim == 2 else \
        lattice(0, 2, 3, half=False)[::1 if len(els) < 3 or ctx.tier != "quick" else 2] + [(-1, 0, 0.5), (4, 3, 2), (0.5, 0.5, 0.5), (1.5, -2, 0), (1, 1, -3), (2.5, -0.5, 1)]
    Qa = np.array(Q, float)
    want = [min(D.pt_elem(q, E) for E in els) for q in Q]
    C, W, CH, _, _, tri, split = G.initialize_aabbtree(V, Fa)
    trees = dict(C=C, W=W, CH=CH, tri_ind=tri, split_dir=split)
    runs = [("brute", {}), ("tree", dict(use_aabb=True)), ("given-tree", dict(use_aabb=True, **trees)),
            ("partial-tree", dict(use_aabb=True, C=C, W=W, CH=CH))]
    for name, kw in runs:
        d, I, L = G.squared_distance(Qa, V, Fa, **kw)
        if not ctx.check(d.shape == (len(Q),) and I.shape == (len(Q),) and L.shape == (len(Q), len(els[0])), "shapes", name):
            continue
        ctx.close(d, want, "distance-" + name, tol=TOL)
        for j, q in enumerate(Q):
            if not ctx.check(0 <= I[j] < len(els), "index-" + name, lambda: I[j]):
                continue
            if name in ("brute", "tree"):
                E = els[I[j]]
                ctx.close(D.pt_elem(q, E), want[j], "index-attains-" + name, f"{q}: element {I[j]}", tol=TOL)
                check_one(ctx, q, E, d[j], L[j], "-" + name)
    # one query at a time, as a flat vector and as a row
    for j in (0, 3, len(Q) - 1):
        for kw in ({}, dict(use_aabb=True)):
            for p in (Qa[j], Qa[j:j + 1]):
                d, I, L = G.squared_distance(p, V, Fa, **kw)
                ctx.close(d, [want[j]], "single-query", tol=TOL)
    if F is not None:
        d, I, L = G.unsigned_distance(Qa, V, Fa, use_cpp=False)
        ctx.close(d, np.sqrt(want), "unsigned", tol=TOL)
        ctx.check(all(abs(D.pt_elem(q, els[i]) - w) <= TOL * (1 + w) for q, i, w in zip(Q, I, want)), "unsigned-index")
    elif dim == 2 and len(P) > 1:
        els2 = [[tuple(P[i]), tuple(P[(i + 1) % len(P)])] for i in range(len(P))]
        d, I, L = G.unsigned_distance(Qa, V, use_cpp=False)
        for j, q in enumerate(Q):
            w = min(D.pt_elem(q, E) for E in els2)
            ctx.close(d[j], w ** 0.5, "closed-polyline", tol=TOL)
            ctx.close(D.pt_elem(q, els2[I[j]]), w, "closed-polyline-index", tol=TOL)
    ctx.outcome((dim, len(els[0]), len(els)))


def scaled_meshes(tier):
    for case in meshes(tier):
        if case[1] is not None and len(case[1]) >= 2:
            for s, sh in ((-16, 0), (14, 0), (0, 4096)):
                if tier != "quick" or hash_pick(case, 3):
                    yield case + [s, sh]


def hash_pick(case, k):
    return sum(map(sum, case[1])) % k == 0


@scenario("mesh-scaled", scaled_meshes, "the same meshes scaled by powers of two and far from the origin: brute force and tree")
def mesh_scaled(case, ctx):
    P, F, s, sh = case
    sc = 2.0 ** s
    V = np.array(P, float) * sc + sh
    dim = V.shape[1]
    Fa = np.array(F, int)
    els = [[tuple(P[i]) for i in t] for t in F]
    Q = [(0,) * dim, (1,) * dim, (2,) * dim, (-1, 3, 1)[:dim], (0.5, 1.5, -2)[:dim], (60, -50, 30)[:dim]]
    want = [min(D.pt_elem(q, E) for E in els) for q in Q]
    Qa = np.array(Q, float) * sc + sh
    for kw in ({}, dict(use_aabb=True)):
        d, I, L = G.squared_distance(Qa, V, Fa, **kw)
        ctx.close(d / sc ** 2, want, "distance", tol=1e-7 if sh == 0 else 1e-6)


def larges(tier):
    """[surface or polyline or cloud, queries]: many elements with few queries, few elements with many queries"""
    q = tier == "quick"
    for spec in big.metric("quick"):
        if not spec[5]:
            yield ["surface", spec, 12 if q else 60]
    for n in (140, 300, 520) if q else (140, 300, 520, 1100):
        for kind in ("polyline", "cloud", "closed"):
            for dim in (2, 3):
                yield [kind, [n, dim], 20 if q else 100]
    for nq in (150, 300, 1100) if q else (150, 300, 1100, 4200):
        yield ["surface", ["grid", 2, 1, 1, 1, 0], nq]
        yield ["polyline", [4, 2], nq]
        yield ["cloud", [3, 3], nq]
        yield ["closed", [5, 2], nq]


@scenario("large", larges, "many elements, many queries: brute force and tree")
def large(case, ctx):
    kind, spec, nq = case
    if kind == "surface":
        P, F = big.build(spec)
    else:
        n, dim = spec
        P = [[round(64 * x) / 64 for x in (t ** 0.75 * np.cos(t), t ** 0.75 * np.sin(t), t % 7 / 2)[:dim]] for t in range(n)]
        F = None if kind != "polyline" else [[t * 7 % n, (t * 7 + 1 + t % 2) % n] for t in range(n - 1)]
    V = np.array(P, float)
    dim = V.shape[1]
    Fa = None if F is None else np.array(F, int)
    lo, hi = V.min(axis=0) - 1, V.max(axis=0) + 1
    t = np.arange(1, nq + 1)
    Qa = np.stack([lo[k] + (hi[k] - lo[k]) * np.round((t * a % 1) * 256) / 256 for k, a in enumerate((0.7548776662466927, 0.5698402909980532, 0.3247179572447460)[:dim])], axis=1)
    els = [[tuple(P[i]) for i in e] for e in F] if F is not None else [[tuple(p)] for p in P]
    if kind == "closed":
        els = [[tuple(P[i]), tuple(P[(i + 1) % len(P)])] for i in range(len(P))]
        if dim == 3:
            return
        runs = [("closed-polyline", lambda: G.unsigned_distance(Qa, V, use_cpp=False))]
    else:
        C, W, CH, _, _, tri, split = G.initialize_aabbtree(V, Fa)
        runs = [("brute", lambda: G.squared_distance(Qa, V, Fa)), ("tree", lambda: G.squared_distance(Qa, V, Fa, use_aabb=True)),
                ("given-tree", lambda: G.squared_distance(Qa, V, Fa, use_aabb=True, C=C, W=W, CH=CH, tri_ind=tri, split_dir=split))]
    all_ = [[D.pt_elem(tuple(q), E) for E in els] for q in Qa.tolist()]
    for name, run in runs:
        d, I, L = run()
        if not ctx.check(d.shape == (nq,) and I.shape == (nq,), "shapes-" + name):
            continue
        if name == "closed-polyline":
            d = d ** 2
        for j in range(nq):
            w = min(all_[j])
            ctx.close(d[j], w, "distance-" + name, tol=TOL)
            if name != "given-tree" and ctx.check(0 <= I[j] < len(els), "index-" + name):
                ctx.close(all_[j][int(I[j])], w, "index-attains-" + name, tol=TOL)
                if name in ("brute", "tree"):
                    x = np.asarray(L[j]).reshape(-1) @ np.array(els[int(I[j])], float)
                    ctx.close(float(np.sum((x - Qa[j]) ** 2)), w, "lmb-attains-" + name, tol=1e-8)
    ctx.outcome((kind, len(els) > 256, nq > 256))


def bary_cases(tier):
    g = list(itertools.product(range(3), repeat=2))
    for t in itertools.permutations(g, 3):
        if tier != "quick" or t[0] < t[1]:
            yield [2, [list(p) for p in t]]
    g = list(itertools.product((0, 1), repeat=3)) + [(2, 0, 1), (1, 3, 2)]
    for t in itertools.permutations(g, 3):
        yield [3, [list(p) for p in t]]


@scenario("barycentric", bary_cases, "barycentric coordinates of every lattice point with respect to every non-degenerate triangle")
def barycentric(case, ctx):
    dim, T = case
    a, b, c = (D.to3(p) for p in T)
    n = D.cross(D.sub(b, a), D.sub(c, a))
    N = D.dot(n, n)
    if N == 0:
        return
    Q = lattice(-1, 3, 2) if dim == 2 else lattice(-1, 2, 3, half=False)
    want = []
    for q in Q:
        p = D.to3(q)
        want.append([D.dot(D.cross(D.sub(y, x), D.sub(p, x)), n) / N for x, y in ((b, c), (c, a), (a, b))])
    want = np.array(want)
    Qa = np.array(Q, float)
    m = len(Q)
    A = [np.array(p, float) for p in T]
    rep = [np.tile(x, (m, 1)) for x in A]
    got = G.barycentric_coordinates(Qa, *rep)
    ctx.close(got, want, "values", tol=TOL)
    proj = Qa if dim == 2 else Qa - np.array([D.dot(D.sub(q, a), n) / N for q in Q])[:, None] * np.array(n, float)
    ctx.close(got @ np.array(A), proj, "projection", tol=TOL)
    for j in (0, 5, m - 1):
        ctx.close(G.barycentric_coordinates(Qa[j], *A), want[j:j + 1], "single", tol=TOL)
    # row-wise different triangles
    k = 3
    perm = [[A[(i + j) % 3] for i in range(m)] for j in range(k)]
    got = G.barycentric_coordinates(Qa, *[np.array(x) for x in perm])
    ctx.close(got, np.array([np.roll(want[i], -(i % 3)) for i in range(m)]), "rowwise", tol=TOL)
