"""Positions for small meshes and exact integer geometry."""
import itertools, math
from . import mesh as M


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def to3(p):
    return list(p) + [0] * (3 - len(p))


def cross_sq(P, t):
    """|cross|^2 (4 area^2), exact"""
    u, v = sub(to3(P[t[1]]), to3(P[t[0]])), sub(to3(P[t[2]]), to3(P[t[0]]))
    c = cross3(u, v)
    return dot(c, c)


def dblarea(P, t):
    return math.sqrt(cross_sq(P, t))


def nondegenerate(P, F):
    return all(cross_sq(P, t) > 0 for t in F)


def cot(P, t, i):
    """cotangent at corner i"""
    o = P[t[i]]
    u, v = sub(P[t[(i + 1) % 3]], o), sub(P[t[(i + 2) % 3]], o)
    return dot(u, v) / dblarea(P, t)


# fixed position tables: index -> grid point; generic enough that no three listed points used by a face coincide
TABLES = [
    [(0, 0), (4, 0), (1, 3), (5, 4), (-2, 2), (2, -3), (7, 1), (-3, -3), (3, 7)],
    [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 3), (-1, 2), (2, 4)],
    [(0, 0, 0), (3, 0, 1), (0, 4, 0), (1, 1, 5), (-2, 1, 1), (2, -3, 2), (4, 4, 4), (-1, -1, -2), (5, 0, -3)],
    [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 1, 0)],
]


def single_triangles(tier):
    """every ordered non-degenerate triangle with the first corner at the origin region of a small grid"""
    g2 = range(3) if tier == "quick" else range(4)
    P2 = list(itertools.product(g2, repeat=2))
    for a, b, c in itertools.permutations(P2, 3):
        if cross_sq([a, b, c], (0, 1, 2)):
            yield [list(map(list, (a, b, c))), [[0, 1, 2]]]
    P3 = list(itertools.product(range(2), repeat=3)) + ([] if tier == "quick" else [(2, 0, 1), (0, 2, 2), (2, 2, 1)])
    for a, b, c in itertools.permutations(P3, 3):
        if cross_sq([a, b, c], (0, 1, 2)):
            yield [list(map(list, (a, b, c))), [[0, 1, 2]]]


def hinges(tier):
    """two triangles sharing edge (0,1): every position of both opposite vertices on a grid, 2D and 3D"""
    r = range(-1, 3)
    pts = list(itertools.product(r, repeat=2))
    F = [[0, 1, 2], [1, 0, 3]]
    for c in pts:
        for d in pts:
            P = [(0, 0), (2, 1), c, d]
            if c != d and nondegenerate(P, F):
                yield [list(map(list, P)), F]
    pts = list(itertools.product((-1, 0, 2), repeat=3))
    for c in pts[:: 1 if tier != "quick" else 2]:
        for d in pts:
            P = [(0, 0, 0), (1, 2, 0), c, d]
            if c != d and nondegenerate(P, F):
                yield [list(map(list, P)), F]


def tabled(tier, kmax=None):
    q = tier == "quick"
    Fs = list(M.grow(6, 5 if q else 8)) + list(M.grow(7, 4 if q else 6)) + list(M.CLOSED.values()) + list(M.STRIPS.values())
    for F in Fs:
        for V in M.relabel_variants(F, 9):
            for k, T in enumerate(TABLES):
                n = max(map(max, V)) + 1
                P = [list(p) for p in T[:n]]
                if nondegenerate(P, V):
                    yield [P, V]
        for k, T in enumerate(TABLES[:2] if q else TABLES):
            W = [[8 - x for x in t] for t in F]       # unreferenced vertices and other positions
            if nondegenerate(T, W):
                yield [[list(p) for p in T], W]


def all_meshes(tier):
    yield from single_triangles(tier)
    yield from hinges(tier)
    yield from tabled(tier)
