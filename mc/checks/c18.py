"""C18 Signed distances and winding numbers of every small polygon at every lattice point."""
import itertools
import math
import numpy as np
from ..core import scenario, G
from .. import dist as D

PROPERTY = "C18"
ASSUMPTIONS = ["query points on the curve are judged for the magnitude only", "signed_distance takes its sign from the winding number: it is judged "
               "negative inside counter-clockwise polygons (signed_distance_polygon: either orientation)"]
XS, YS = (0, 2, 3), (0, 1, 3)
GRID = [(x, y) for x in XS for y in YS]
QUERY = [(x / 2, y / 2) for x in range(-2, 9) for y in range(-2, 9)]


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on_seg(p, a, b):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    if orient(a, b, c) != orient(a, b, d) and orient(c, d, a) != orient(c, d, b):
        return True
    return on_seg(c, a, b) or on_seg(d, a, b) or on_seg(a, c, d) or on_seg(b, c, d)


def simple(P):
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = P[j], P[(j + 1) % n]
            if j == i + 1:
                if on_seg(d, a, b) or on_seg(a, c, d):
                    return False
            elif (j + 1) % n == i:
                if on_seg(c, a, b) or on_seg(b, c, d):
                    return False
            elif meet(a, b, c, d):
                return False
    return True


def area2(P):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(P, P[1:] + P[:1]))


def winding(p, E):
    """signed crossings of the upward-right ray by the directed segments E (p off the curve), exact"""
    w = 0
    for a, b in E:
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if b[1] > a[1] and o > 0:
                w += 1
            elif b[1] < a[1] and o < 0:
                w -= 1
    return w


def loop(P):
    return list(zip(P, P[1:] + P[:1]))


def polygons(tier):
    q = tier == "quick"
    for n in (3, 4, 5) + (() if q else (6, 7)):
        k = 0
        for first in range(len(GRID) - 2):
            for rest in itertools.permutations(GRID[first + 1:], n - 1):
                P = [GRID[first]] + list(rest)
                if simple(P):
                    k += 1
                    # every polygon, its start rotating with k; some with repeated vertices
                    r = k % n
                    if n >= 5 and q and k % 3 or n == 7 and k % 2:
                        continue
                    yield [[list(p) for p in P[r:] + P[:r]], (k // n) % 4]


@scenario("polygon", polygons, "signed and unsigned distance of every simple polygon (either orientation, any start, with duplicated vertices) at every half-lattice point")
def polygon(case, ctx):
    P, dup = case
    P = [tuple(p) for p in P]
    ccw = area2(P) > 0
    V = list(P)
    if dup == 1:
        V = V + [V[0]]             # closing vertex repeated
    elif dup == 2:
        V = V + [V[-1], V[-1]]     # last vertex repeated
    elif dup == 3:
        V = V[:2] + [V[1]] + V[2:]
    E = loop(P)
    Q = QUERY
    Qa = np.array(Q)
    d2 = [min(D.pt_seg(p, a, b) for a, b in E) for p in Q]
    ins = [d2[i] != 0 and winding(p, E) != 0 for i, p in enumerate(Q)]
    want = np.array([-(x ** 0.5) if s else x ** 0.5 for x, s in zip(d2, ins)])
    Va = np.array(V, float)
    ctx.close(G.signed_distance_polygon(Qa, Va), want, "signed_distance_polygon", "", tol=1e-9)
    ctx.close(G.signed_distance_polygon(Qa[7:8], Va), want[7:8], "one-point", "", tol=1e-9)
    ctx.outcome((len(P), ccw, dup, sum(ins) > 0))
    if len(P) > 4 and ctx.tier == "quick" and P[0] != min(P):
        return
    sub = slice(None) if len(P) < 5 else slice(0, None, 5)
    S = Qa[sub]
    u, I, L = G.unsigned_distance(S, Va, use_cpp=False)
    ctx.close(u, np.abs(want[sub]), "unsigned", "", tol=1e-9)
    if ccw:
        for kw in ({}, dict(F=G.edge_indices(len(V), closed=True))):
            s, I, L = G.signed_distance(S, Va, use_cpp=False, **kw)
            ctx.close(np.abs(s), np.abs(want[sub]), "signed_distance-magnitude", "", tol=1e-9)
            off = np.array(d2)[sub] != 0
            ctx.close(s[off], want[sub][off], "signed_distance", "", tol=1e-9)
            n = len(V)
            ctx.check(all(abs(D.pt_seg(tuple(p), V[i], V[(i + 1) % n]) - w * w) < 1e-9 for p, i, w in zip(S, I, want[sub])), "index")


def curves(tier):
    q = tier == "quick"
    g = [(0, 0), (2, 0), (0, 3), (3, 3), (1, 1), (2, 2)]
    loops = []
    for n in (3, 4, 5) if not q else (3, 4):
        for P in itertools.permutations(g, n):
            if P[0] == min(P):
                loops.append([list(p) for p in P])
    for P in loops:
        yield [P]
    for i, (A, B) in enumerate(itertools.product(loops[:60], repeat=2)):
        if not q or i % 3 == 0:
            yield [A, B]
    # the same loop twice, and back and forth
    for P in loops[:40]:
        yield [P, P]
        yield [P, P[::-1]]
        yield [P, P, P]


@scenario("winding", curves, "winding number of every (also self-crossing) closed curve collection", nontrivial=lambda c: len(c) > 1 or len(c[0]) > 3)
def wind(case, ctx):
    loops = [[tuple(p) for p in P] for P in case]
    E = [e for P in loops for e in loop(P)]
    Q = [p for p in QUERY if all(D.pt_seg(p, a, b) > 0 for a, b in E)]
    Q += [(0.25, 0.1), (1.75, 0.75), (100, -77), (2.25, 2.5)]
    Q = [p for p in Q if all(D.pt_seg(p, a, b) > 0 for a, b in E)]
    V, F, off = [], [], 0
    for P in loops:
        V += P
        F += [[off + i, off + (i + 1) % len(P)] for i in range(len(P))]
        off += len(P)
    V, F, Qa = np.array(V, float), np.array(F), np.array(Q)
    want = [winding(p, E) for p in Q]
    ctx.close(G.winding_number(Qa, V, F), want, "winding", tol=1e-9)
    ctx.close(G.winding_number(Qa, V, F[:, ::-1]), [-w for w in want], "reversed", tol=1e-9)
    ctx.close(G.winding_number(Qa * 2.0 ** -20 + 64, V * 2.0 ** -20 + 64, F[::-1]), want, "scaled-reordered", tol=1e-9)
    # where the curve winds counter-clockwise, however often, is inside
    some = [i for i, w in enumerate(want) if w >= 0]
    if some:
        got, I, _ = G.signed_distance(Qa[some], V, F, use_cpp=False)
        d2 = [min(D.pt_seg(Q[i], a, b) for a, b in E) for i in some]
        ctx.close(got, [d ** 0.5 * (-1 if want[i] else 1) for i, d in zip(some, d2)], "signed_distance-many", tol=1e-9)
    ctx.outcome((len(loops), min(want), max(want)))


def larges(tier):
    for n in (70, 140, 300) if tier == "quick" else (70, 140, 300, 1100):
        for kind in ("comb", "star", "spiral"):
            for back in (0, 1):
                yield [kind, n, back, 90 if tier == "quick" else 400]
    for nq in (300, 1100) if tier == "quick" else (300, 1100, 4200):
        for back in (0, 1):
            yield ["star", 10, back, nq]


def long_loop(kind, n):
    """a simple counter-clockwise polygon of n (even) dyadic vertices"""
    h = n // 2
    r16 = lambda x: round(x * 64) / 64
    if kind == "comb":
        return [(float(i), -3.0 - i % 3) for i in range(h)] + [(float(i), (0.5, 7.0, 2.25)[i % 3]) for i in range(h - 1, -1, -1)]
    if kind == "star":
        return [(r16((3 + n / 16 * (i % 2)) * math.cos(2 * math.pi * i / n)), r16((3 + n / 16 * (i % 2)) * math.sin(2 * math.pi * i / n))) for i in range(n)]
    arm = lambda i, s: (r16((2 + s + i / 8) * math.cos(i / 6)), r16((2 + s + i / 8) * math.sin(i / 6)))
    return [arm(i, 1) for i in range(h)] + [arm(i, 0) for i in range(h - 1, -1, -1)]


@scenario("large", larges, "polygons of many vertices, many query points: signed and unsigned distance, winding number")
def large(case, ctx):
    kind, n, back, nq = case
    P = long_loop(kind, n)
    if area2(P) < 0:
        P = P[::-1]
    assert n > 400 or simple(P), case
    if back:
        P = P[::-1]
    E = loop(P)
    lo, hi = [min(p[k] for p in P) - 1 for k in (0, 1)], [max(p[k] for p in P) + 1 for k in (0, 1)]
    Q = [tuple(round((lo[k] + (hi[k] - lo[k]) * (j * a % 1)) * 512) / 512 for k, a in enumerate((0.7548776662466927, 0.5698402909980532))) for j in range(1, nq + 1)]
    d2 = [[D.pt_seg(p, a, b) for a, b in E] for p in Q]
    Q, d2 = [q for q, d in zip(Q, d2) if min(d) > 0], [d for d in d2 if min(d) > 0]
    wind_ = [winding(p, E) for p in Q]
    d = np.array([min(x) ** 0.5 for x in d2])
    want = np.where(np.array(wind_) != 0, -d, d)
    Qa, Va = np.array(Q), np.array(P, float)
    F = np.array([[i, (i + 1) % len(P)] for i in range(len(P))])
    ctx.close(G.signed_distance_polygon(Qa, Va), want, "signed_distance_polygon", "", tol=1e-9)
    k = 7 if math.gcd(7, len(P)) == 1 else 11
    perm = [i * k % len(P) for i in range(len(P))]
    ctx.close(G.winding_number(Qa, Va, F), wind_, "winding", tol=1e-7)
    ctx.close(G.winding_number(Qa, Va, F[perm]), wind_, "winding-reordered", tol=1e-7)
    u, I, L = G.unsigned_distance(Qa, Va, use_cpp=False)
    ctx.close(u, d, "unsigned", "", tol=1e-9)
    if not back:
        for kw in ({}, dict(F=F)):
            s, I, L = G.signed_distance(Qa, Va, use_cpp=False, **kw)
            ctx.close(s, want, "signed_distance", "", tol=1e-9)
            ctx.check(all(abs(d2[j][int(I[j])] - min(d2[j])) < 1e-9 for j in range(len(Q))), "index")
    ctx.outcome((kind, len(P) > 256, len(Q) > 256, min(wind_), max(wind_)))
