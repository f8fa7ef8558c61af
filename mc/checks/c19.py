"""C19 Marching squares on every small assignment of grid values."""
import itertools
import math
from collections import Counter
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G

PROPERTY = "C19"
ASSUMPTIONS = ["grid values are listed with the x index fastest (reshape order 'F'), as the library reads them",
               "a value of exactly zero counts as non-positive; crossings that fall on the same grid node are one vertex, and a segment "
               "between two such crossings disappears", "either resolution of an ambiguous (saddle) cell is accepted",
               "a curve that shrinks to one grid node may leave that node as an unused vertex"]


def fields(tier):
    q = tier == "quick"
    for nx, ny, vals in [(2, 2, (-2, -1, 0, 1, 3)), (3, 2, (-2, -1, 1, 3)), (2, 3, (-2, -1, 1, 3)), (3, 2, (-1, 0, 2)), (2, 3, (-1, 0, 2)),
                         (2, 4, (-1, 0, 1)), (3, 3, (-1, 2)), (3, 3, (-1, 0, 1)), (4, 3, (-1, 1)), (3, 4, (-2, 1)), (5, 2, (-1, 0, 1))] + \
            ([] if q else [(4, 2, (-2, -1, 0, 1)), (2, 5, (-2, 0, 1)), (3, 3, (-2, -1, 1)), (4, 4, (-1, 1)), (5, 3, (-1, 3))]):
        for k, S in enumerate(itertools.product(vals, repeat=nx * ny)):
            if q and nx * ny >= 9 and len(vals) == 3 and k % 2:
                continue
            if q and nx * ny >= 12 and k % 2:
                continue
            yield [nx, ny, list(S), k % 4]


PLACES = [((0, 0), (1, 1)), ((-1, 2), (2, 0.5)), ((16, -4), (0.25, 3)), ((0, 0), (2.0 ** -12, 2.0 ** -12))]


@scenario("field", fields, "every field over a value alphabet on every small grid shape", nontrivial=lambda c: min(c[2]) <= 0 < max(c[2]))
def field(case, ctx):
    judge(ctx, *case)


def larges(tier):
    for nx, ny in ((17, 9), (9, 17), (20, 21), (2, 140), (300, 2), (33, 29)) if tier == "quick" else ((17, 9), (9, 17), (20, 21), (2, 140), (300, 2), (33, 29), (60, 61), (1100, 3), (3, 1100)):
        for k in range(6 if nx * ny < 800 else 3):
            yield [nx, ny, k]


@scenario("large", larges, "fields on grids of many nodes")
def large(case, ctx):
    nx, ny, k = case
    f = [lambda x, y: 20 * math.sin(x * 0.9 + 0.2) * math.cos(y * 0.8) + 5, lambda x, y: min(nx, ny) ** 2 / 5 - (x - nx / 2) ** 2 - (y - ny / 2.2) ** 2 * 0.7,
         lambda x, y: 9 * math.sin(0.31 * x + 0.17 * y) - 2, lambda x, y: 7 - (3 * x + 5 * y) % 13, lambda x, y: x + y - (nx + ny) / 2.3,
         lambda x, y: 12 * math.cos(math.hypot(x - nx / 3, y) * 1.1)][k]
    S = [round(f(x, y)) or (1 if k % 2 else -1) for y in range(ny) for x in range(nx)]
    judge(ctx, nx, ny, S, k % 4)


def judge(ctx, nx, ny, S, pl):
    (cx, cy), (hx, hy) = PLACES[pl]
    ix = lambda i, j: i + nx * j
    GV = np.array([(cx + i * hx, cy + j * hy) for j in range(ny) for i in range(nx)], float)
    Sa = np.array(S, float)
    if pl % 2:
        Sa = Sa[:, None] if False else Sa
    V, E = G.marching_squares(Sa, GV, nx, ny)
    V, E = np.asarray(V, float).reshape(-1, 2), np.asarray(E, int).reshape(-1, 2)
    pos = lambda i, j: S[ix(i, j)] > 0
    # exact crossings, in index space
    cross = {}
    for i in range(nx):
        for j in range(ny):
            for di, dj in ((1, 0), (0, 1)):
                if i + di < nx and j + dj < ny and pos(i, j) != pos(i + di, j + dj):
                    a, b = S[ix(i, j)], S[ix(i + di, j + dj)]
                    t = Fr(a, a - b)
                    cross[(i, j, di)] = (i + t * di, j + t * dj)
    points = set(cross.values())
    # map the output vertices to exact crossings
    near = {(round(float(x) * 1e5), round(float(y) * 1e5)): (x, y) for x, y in points}
    name = []
    for v in V:
        p = ((v[0] - cx) / hx, (v[1] - cy) / hy)
        k = near.get((round(p[0] * 1e5), round(p[1] * 1e5)))
        if not ctx.check(k is not None and abs(float(k[0]) - p[0]) < 1e-9 and abs(float(k[1]) - p[1]) < 1e-9, "vertex-position",
                         lambda: f"{p} is no crossing"):
            return
        name.append(k)
    ctx.check(len(set(name)) == len(name), "duplicate-vertex", lambda: V.tolist())
    ctx.check(len(E) == 0 or (E.min() >= 0 and E.max() < len(V)), "edge-index")
    used = {int(x) for e in E for x in e}
    segs = Counter((name[a], name[b]) for a, b in E)
    # the segments every cell must contribute
    saddles, must, touched = [], Counter(), set()
    for i in range(nx - 1):
        for j in range(ny - 1):
            sides = [(i, j, 1), (i + 1, j, 0), (i, j + 1, 1), (i, j, 0)]      # bottom right top left
            corner = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]          # corner k lies between side k-1 and side k
            cs = [k for k in range(4) if sides[k] in cross]
            P = [cross.get(s) for s in sides]

            def seg(a, b, plus):
                """segment between sides a and b, directed with the positive corner `plus` on its right"""
                p, q = P[a], P[b]
                if p == q:
                    return None
                o = (q[0] - p[0]) * (plus[1] - p[1]) - (q[1] - p[1]) * (plus[0] - p[0])
                return (p, q) if o < 0 else (q, p)
            if len(cs) == 2:
                plus = next(c for c in corner if pos(*c))
                s = seg(cs[0], cs[1], plus)
                if s:
                    must[s] += 1
            elif len(cs) == 4:
                opts = []
                for cut in (0, 1):       # cut off corners 0 and 2, or 1 and 3
                    L = []
                    for k in (cut, cut + 2):
                        a, b = (k - 1) % 4, k
                        if P[a] == P[b]:
                            continue
                        c = corner[k]
                        if pos(*c):
                            s = seg(a, b, c)
                        else:
                            s = seg(a, b, c)
                            s = (s[1], s[0])
                        L.append(s)
                    opts.append(Counter(L))
                saddles.append(opts)

    def fits(rest, k):
        if k == len(saddles):
            return not rest
        for o in saddles[k]:
            if all(rest[s] >= n for s, n in o.items()):
                r = Counter(rest)
                r.subtract(o)
                if fits(+r, k + 1):
                    return True
        return False
    rest = Counter(segs)
    rest.subtract(must)
    ok = min(rest.values(), default=0) >= 0 and fits(+rest, 0)
    f = lambda c: [tuple(map(str, p + q)) for p, q in c]
    ctx.check(ok, "segments", lambda: f"got {f(segs.elements())}, every two-crossing cell wants {f(must.elements())}, saddles {len(saddles)}")
    # vertices: exactly the crossings of the grid edges that separate (those left without a segment may be dropped)
    need = {p for s in segs for p in s}
    ctx.check({name[u] for u in used} == need, "used")
    for p in points:
        if p not in set(name):
            ctx.check(not any(p in s for s in must), "missing-crossing", lambda: str(p))
    if ok and not any(v == 0 for v in S):
        # every crossing has one segment per cell on either side of its grid edge
        deg = Counter(p for s in segs.elements() for p in s)
        for (i, j, di), p in cross.items():
            cells = sum(0 <= c < n - 1 for c, n in (((j - 1, ny), (j, ny)) if di else ((i - 1, nx), (i, nx))))
            ctx.check(deg[p] == cells, "continuation", lambda: f"{p}: {deg[p]} of {cells}")
        ctx.check(len(used) == len(V), "unused-vertex")
    ctx.outcome((nx, ny, len(V), len(E)))
