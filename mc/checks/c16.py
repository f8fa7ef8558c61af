"""C16 Segment-segment, triangle-triangle, mesh-mesh and sampled Hausdorff distances against exact minima."""
import itertools
import numpy as np
from .. import big
from ..core import scenario, G
from .. import dist as D

PROPERTY = "C16"
ASSUMPTIONS = ["triangles are non-degenerate in the triangle-pair and mesh scenarios", "coordinates are integers times a power of two, "
               "so intersection and region decisions of the reference are exact"]
TOL = 1e-7     # on distances: sqrt of a difference of doubles


def close_d(ctx, got, want2, aspect, msg, sc=1.0):
    """got: distance; want2: exact squared distance of the unscaled problem"""
    g = float(got) / sc
    ctx.compared += 1
    if not (abs(g - want2 ** 0.5) <= TOL):
        ctx.fail(aspect, f"{msg}: got {g}, want {want2 ** 0.5}")


def segment_pairs(tier):
    q = tier == "quick"
    g = list(itertools.product((0, 1), repeat=3)) + [(2, 0, 1), (3, 3, 3)] + ([] if q else [(2, 2, 0), (-1, 1, 4), (2, 1, 1)])
    firsts = [(a, b) for a in g for b in g] if not q else [(g[0], b) for b in g] + [(g[1], b) for b in g] + [(g[9], b) for b in g]
    for a, b in firsts:
        yield [list(a), list(b), [list(p) for p in g], 0]
    for a, b in firsts[::1 if not q else 3]:
        for s in (-20, 20):
            yield [list(a), list(b), [list(p) for p in g], s]


@scenario("segments", segment_pairs, "a fixed segment against every (also degenerate) segment of a small grid, both argument orders",
          nontrivial=lambda c: c[0] != c[1])
def segments(case, ctx):
    a, b, g, s = case
    sc = 2.0 ** s
    A, B = np.array(a) * sc, np.array(b) * sc
    for c, d in itertools.product(g, repeat=2):
        want = D.seg_seg(a, b, c, d)
        C_, D_ = np.array(c) * sc, np.array(d) * sc
        for k, args in enumerate(((A, B, C_, D_), (C_, D_, A, B))):
            with np.errstate(all="ignore"):
                r = G.edge_edge_distance(*args)
            dd, X, Y = r
            msg = f"{a}-{b} vs {c}-{d} order {k}"
            close_d(ctx, dd, want, "distance", msg, sc)
            X, Y = np.asarray(X) / sc, np.asarray(Y) / sc
            close_d(ctx, np.linalg.norm(X - Y), want, "points-attain", msg)
            s1, s2 = ((a, b), (c, d)) if k == 0 else ((c, d), (a, b))
            ctx.check(D.pt_seg(tuple(X), *s1) < 1e-12 and D.pt_seg(tuple(Y), *s2) < 1e-12, "points-on-segments", msg)
        ctx.outcome(("zero" if want == 0 else "pos", a == b, c == d))


def tri_cases(tier):
    q = tier == "quick"
    S = [((0, 0, 0), (2, 0, 0), (0, 2, 0)), ((0, 0, 0), (2, 1, 0), (1, 2, 2)), ((1, 1, 1), (0, 2, 0), (2, 0, 2)),
         ((0, 0, 1), (0, 2, 1), (0, 1, 2))]
    g = list(itertools.product((0, 1, 2), repeat=3))
    if q:
        g = [p for p in g if sum(p) % 2 == 0 or p == (1, 1, 1)] + [(4, 1, 0)]
    else:
        g += [(4, 1, 0), (1, 1, -3)]
    # one case: fixed triangle, first corner of the other; inside, every pair of further corners
    for k, t in enumerate(S if not q else S[:3]):
        for i in range(len(g)):
            yield [[list(p) for p in t], i, [list(p) for p in g], 0]
    # large triangle under small ones: the closest pair lies in the interior of a face
    big = [[-6, -6, 0], [7, -5, 0], [0, 8, 1]]
    for i in range(len(g)):
        yield [big, i, [[x, y, z + 2] for x, y, z in g], 0]
        yield [big, i, [list(p) for p in g], -14 if i % 2 else -26]
        yield [big, i, [[x, y, z + 2] for x, y, z in g], (-14, -26, 20)[i % 3]]


@scenario("triangles", tri_cases, "a fixed triangle against every triangle of a small grid, both argument orders")
def triangles(case, ctx):
    S, i, g, s = case
    sc = 2.0 ** s
    Sa = [np.array(p, float) * sc for p in S]
    S = [tuple(p) for p in S]
    zero = pos = 0
    for j, k in itertools.combinations(range(i + 1, len(g)), 2):
        T = [tuple(g[i]), tuple(g[j]), tuple(g[k])]
        n = D.cross(D.sub(T[1], T[0]), D.sub(T[2], T[0]))
        if n == (0, 0, 0):
            continue
        want = D.tri_tri(S, T)
        Ta = [np.array(p, float) * sc for p in T]
        r = (j + k) % 3
        Ta = Ta[r:] + Ta[:r]
        if (j * 7 + k) % 2:
            Ta = [Ta[0], Ta[2], Ta[1]]
        orders = [Sa + Ta, Ta + Sa] if s == 0 or (j + k) % 2 else [Ta + Sa]
        for m, args in enumerate(orders):
            got = G.triangle_triangle_distance(*args)
            got = got[0] if isinstance(got, tuple) else got
            close_d(ctx, got, want, "distance", f"{S} vs {[tuple(p / sc) for p in Ta]} order {m}", sc)
        zero += want == 0
        pos += want > 0
    ctx.outcome((zero > 0, pos > 0))


MESHES = {
    "tri": ([(0, 0, 0), (2, 0, 0), (0, 2, 0)], [(0, 1, 2)]),
    "hinge": ([(0, 0, 0), (2, 0, 0), (0, 2, 0), (2, 2, 1)], [(0, 1, 2), (1, 3, 2)]),
    "tet": ([(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)], [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]),
    "far-pair": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (5, 5, 5), (6, 5, 5), (5, 6, 5)], [(0, 1, 2), (3, 4, 5)]),
    "strip": ([(0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0), (0, 2, 0), (1, 2, 1)], [(0, 1, 2), (1, 3, 2), (2, 3, 4), (3, 5, 4)]),
    "three": ([(0, 0, 3), (1, 0, 3), (0, 1, 3), (4, 0, 0), (4, 1, 0), (4, 0, 1), (-3, -3, -3), (-3, -2, -3), (-2, -3, -3)],
              [(0, 1, 2), (3, 4, 5), (6, 7, 8)]),
    "unreferenced": ([(9, 9, 9), (0, 0, 0), (2, 0, 0), (0, 2, 1)], [(1, 2, 3)]),
}


def mesh_pairs(tier):
    q = tier == "quick"
    sh = (0, 1, 3) if q else (-2, 0, 1, 3)
    names = list(MESHES)
    for i, a in enumerate(names):
        for b in names[i:]:
            for d in itertools.product(sh, repeat=3):
                yield [a, b, list(d)]


def placed(name, d):
    P, F = MESHES[name]
    return [tuple(x + y for x, y in zip(p, d)) for p in P], [tuple(f) for f in F]


@scenario("meshes", mesh_pairs, "minimum and sampled Hausdorff distance of every pair of catalogue meshes at every lattice offset",
          nontrivial=lambda c: c[0] != c[1] or any(c[2]))
def meshes(case, ctx):
    a, b, d = case
    P1, F1 = placed(a, (0, 0, 0))
    P2, F2 = placed(b, d)
    A, B = (np.array(P1, float), np.array(F1)), (np.array(P2, float), np.array(F2))
    tri = lambda P, F: [[P[i] for i in t] for t in F]
    T1, T2 = tri(P1, F1), tri(P2, F2)
    want = min(D.tri_tri(s, t) for s in T1 for t in T2)
    close_d(ctx, G.minimum_distance(*A, *B), want, "minimum", "")
    close_d(ctx, G.minimum_distance(*B, *A), want, "minimum", "swapped")
    close_d(ctx, G.minimum_distance(A[0], A[1][::-1], B[0], B[1][::-1]), want, "minimum", "reversed face order")
    hd = max(max(min(D.pt_tri(p, *t) for t in T2) for p in P1), max(min(D.pt_tri(p, *t) for t in T1) for p in P2))
    for k, (X, Y) in enumerate(((A, B), (B, A))):
        close_d(ctx, G.approximate_hausdorff_distance(*X, *Y, use_cpp=False), hd, "hausdorff", f"order {k}")
    if a == b and not any(d) and a != "unreferenced":
        ctx.eq(hd, 0, "reference", "identical meshes")
    ctx.outcome((want == 0, hd == 0))


def larges(tier):
    """two catalogues: a surface of many elements against a small mesh (every ordering), and two moderately large surfaces"""
    for spec in big.metric(tier):
        if not spec[5]:
            for name in ("tri", "three") if tier == "quick" else MESHES:
                for d in ((3, 2, 9), (1, 4, 1)):
                    yield [spec, name, list(d)]
    for a, b in ((["torus", 6, 5, 1, 1, 0], ["grid", 5, 6, 7, 2, 0]), (["two", 4, 4, 5, 1, 0], ["grid", 6, 4, 7, 1, 0])):
        for d in ((0, 0, 4), (2, 1, 1)) if tier == "quick" else ((0, 0, 4), (2, 1, 1), (9, 0, 0), (-3, -4, 12)):
            yield [a, b, list(d)]


@scenario("large", larges, "minimum and sampled Hausdorff distance of surfaces of many elements")
def large(case, ctx):
    a, b, d = case
    P1, F1 = big.build(a)
    P1 = [tuple(p) for p in P1]
    P2, F2 = placed(b, d) if isinstance(b, str) else big.build(b)
    P2 = [tuple(p) if isinstance(b, str) else tuple(x + y for x, y in zip(p, d)) for p in P2]
    A, B = (np.array(P1, float), np.array(F1)), (np.array(P2, float), np.array(F2))
    tri = lambda P, F: [[P[i] for i in t] for t in F]
    T1, T2 = tri(P1, F1), tri(P2, F2)
    want = np.inf
    boxes = [[(min(p[k] for p in t), max(p[k] for p in t)) for k in range(3)] for t in T2]
    for s in T1:
        bs = [(min(p[k] for p in s), max(p[k] for p in s)) for k in range(3)]
        for t, bt in zip(T2, boxes):
            low = sum(max(x[0] - y[1], y[0] - x[1], 0) ** 2 for x, y in zip(bs, bt))
            if low < want:
                want = min(want, float(D.tri_tri(s, t)))
    close_d(ctx, G.minimum_distance(*A, *B), want, "minimum", "")
    close_d(ctx, G.minimum_distance(*B, *A), want, "minimum", "swapped")
    hd = max(max(min(D.pt_tri(p, *t) for t in T2) for p in P1), max(min(D.pt_tri(p, *t) for t in T1) for p in P2))
    for k, (X, Y) in enumerate(((A, B), (B, A))):
        close_d(ctx, G.approximate_hausdorff_distance(*X, *Y, use_cpp=False), hd, "hausdorff", f"order {k}")
    ctx.outcome((len(F1) > 256, want == 0))


def polylines(tier):
    g = [(0, 0), (1, 0), (0, 1), (2, 1), (3, 3)]
    chains = [c for n in (2, 3) for c in itertools.permutations(g, n)]
    if tier == "quick":
        chains = chains[::2]
    for a, b in itertools.product(chains, repeat=2):
        yield [[list(p) for p in a], [list(p) for p in b]]


@scenario("polylines", polylines, "sampled Hausdorff distance of pairs of open polylines in the plane", nontrivial=lambda c: c[0] != c[1])
def hausdorff2d(case, ctx):
    a, b = case
    ea, eb = [[i, i + 1] for i in range(len(a) - 1)], [[i, i + 1] for i in range(len(b) - 1)]
    one = lambda P, Q, E: max(min(D.pt_seg(p, Q[i], Q[j]) for i, j in E) for p in P)
    want = max(one(a, b, eb), one(b, a, ea))
    A, B = (np.array(a, float), np.array(ea)), (np.array(b, float), np.array(eb))
    for kw in ({}, dict(use_cpp=False)):
        close_d(ctx, G.approximate_hausdorff_distance(*A, *B, **kw), want, "hausdorff", str(kw))
    ctx.outcome(want == 0)
