"""Exact point/segment/triangle distances: integer decisions, one final division. Inputs are tuples of ints
(or of dyadic floats, on which every product used here is exact)."""
import math


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def to3(p):
    return tuple(p) + (0,) * (3 - len(p))


def pt_pt(p, q):
    d = sub(p, q)
    return dot(d, d)


def pt_seg(p, s, e):
    d, w = sub(e, s), sub(p, s)
    L, a = dot(d, d), dot(w, d)
    if L == 0 or a <= 0:
        return dot(w, w)
    if a >= L:
        return pt_pt(p, e)
    return (dot(w, w) * L - a * a) / L


def in_prism(p, a, b, c, n):
    return dot(cross(sub(b, a), sub(p, a)), n) >= 0 and dot(cross(sub(c, b), sub(p, b)), n) >= 0 \
        and dot(cross(sub(a, c), sub(p, c)), n) >= 0


def pt_tri(p, a, b, c):
    n = cross(sub(b, a), sub(c, a))
    N = dot(n, n)
    if N and in_prism(p, a, b, c, n):
        return dot(sub(p, a), n) ** 2 / N
    return min(pt_seg(p, a, b), pt_seg(p, b, c), pt_seg(p, c, a))


def pt_elem(p, E):
    if len(E) == 1:
        return pt_pt(p, E[0])
    if len(E) == 2:
        return pt_seg(p, *E)
    return pt_tri(to3(p), *map(to3, E))


def seg_seg(p, q, r, s):
    best = min(pt_seg(p, r, s), pt_seg(q, r, s), pt_seg(r, p, q), pt_seg(s, p, q))
    A, B, T = sub(q, p), sub(s, r), sub(r, p)
    n = cross(A, B)
    N = dot(n, n)
    if N:
        t, u = dot(cross(T, B), n), dot(cross(T, A), n)
        if 0 <= t <= N and 0 <= u <= N:
            return min(best, dot(T, n) ** 2 / N)
    return best


def pierces(p, q, a, b, c):
    """the open segment crosses the triangle's plane inside the (closed) triangle"""
    n = cross(sub(b, a), sub(c, a))
    s, t = dot(sub(p, a), n), dot(sub(q, a), n)
    if not (s < 0 < t or t < 0 < s):
        return False
    d = sub(q, p)
    v = [dot(d, cross(sub(x, p), sub(y, p))) for x, y in ((a, b), (b, c), (c, a))]
    return all(x >= 0 for x in v) or all(x <= 0 for x in v)


def tri_tri(S, T):
    for X, Y in ((S, T), (T, S)):
        for i in range(3):
            if pierces(X[i], X[(i + 1) % 3], *Y):
                return 0
    best = min(pt_tri(p, *T) for p in S)
    best = min(best, min(pt_tri(p, *S) for p in T))
    for i in range(3):
        for j in range(3):
            if best == 0:
                return 0
            best = min(best, seg_seg(S[i], S[(i + 1) % 3], T[j], T[(j + 1) % 3]))
    return best
