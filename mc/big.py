"""Meshes beyond the small scope: many elements and far-apart labels, the same reference models judge them.

Every size class that a table of 8, 16 or 32 bit indices, a product key or a batch would distinguish is met by
an instance; within an instance nothing is sampled."""
import math
import numpy as np


def grid(a, b, holes=()):
    F = []
    for i in range(a):
        for j in range(b):
            if (i, j) in holes:
                continue
            p = i * (b + 1) + j
            q = p + b + 1
            F += [[p, q, q + 1], [p, q + 1, p + 1]] if (i + j) % 2 else [[p, q, p + 1], [q, q + 1, p + 1]]
    V = [[x, y, 0.25 * math.sin(1.3 * x) * math.cos(0.9 * y)] for x in range(a + 1) for y in range(b + 1)]
    return np.array(V, float), F


def torus(a, b):
    F = []
    for i in range(a):
        for j in range(b):
            p, q, r, s = i * b + j, (i + 1) % a * b + j, (i + 1) % a * b + (j + 1) % b, i * b + (j + 1) % b
            F += [[p, q, r], [p, r, s]]
    V = [[(3 + math.cos(2 * math.pi * j / b)) * math.cos(2 * math.pi * i / a), (3 + math.cos(2 * math.pi * j / b)) * math.sin(2 * math.pi * i / a),
          math.sin(2 * math.pi * j / b)] for i in range(a) for j in range(b)]
    return np.array(V, float), F


def specks(a, b):
    """a * b disjoint triangles"""
    V, F = [], []
    for i in range(a):
        for j in range(b):
            V += [[2 * i, 2 * j, 0.25 * i], [2 * i + 1, 2 * j, 0.5], [2 * i, 2 * j + 1.5, 0.25 * j]]
            F.append([len(V) - 3, len(V) - 2, len(V) - 1])
    return np.array(V, float), F


def surface(spec):
    """spec = [kind, a, b, shuffle, stretch]: labels i -> (i * shuffle mod n) * stretch, faces and corners permuted likewise"""
    kind, a, b, k, s = spec
    V, F = torus(a, b) if kind == "torus" else specks(a, b) if kind == "specks" else grid(a, b, () if kind == "grid" else {(i, j) for i in range(1, a - 1, 3) for j in range(1, b - 1, 3)})
    if kind == "two":
        W, H = torus(a, b)
        F = F + [[x + len(V) for x in t] for t in H]
        V = np.concatenate([V, W + [0, 0, 9.0]])
    n, m = len(V), len(F)
    while math.gcd(k, n) > 1 or math.gcd(k, m) > 1:
        k += 1
    new = [(i * k) % n for i in range(n)]
    P = np.full(((n - 1) * s + 1, 3), 0.0)
    P[:] = V[0] + [0, 0, -5.0]
    for i in range(n):
        P[new[i] * s] = V[i]
    G = [[new[x] * s for x in F[(j * k) % m]] for j in range(m)]
    G = [t[j % 3:] + t[:j % 3] if k > 1 else t for j, t in enumerate(G)]
    return P, G


def surfaces(tier):
    """more than 2^7, 2^8, 2^9 and 2^10 elements; labels beyond 2^15 and 2^16"""
    for kind, a, b in (("grid", 7, 9), ("torus", 12, 11), ("holes", 13, 16), ("torus", 16, 17), ("two", 9, 11), ("grid", 24, 22)):
        for k, s in ((1, 1), (7, 1), (11, 97)):
            yield [kind, a, b, k, s]
    yield ["specks", 17, 16, 7, 1]
    yield ["grid", 600, 1, 1, 1]      # a strip: loops, paths and chains of more than 1000 elements
    yield ["torus", 400, 3, 7, 1]
    yield ["specks", 13, 11, 1, 3]
    if tier != "quick":
        for kind, a, b in (("grid", 36, 36), ("torus", 40, 33), ("holes", 46, 48), ("two", 30, 31)):
            for k, s in ((13, 1), (17, 29), (1, 61)):
                yield [kind, a, b, k, s]


HUGE = ["torus", 105, 106, 13, 1]      # more than 2^14 faces, 2^15 edges, 2^16 halfedges


HUGER = ["torus", 167, 175, 17, 1]     # more than 2^15 faces, 2^16 edges, 2^17 halfedges


STRETCH = (257, 8209, 32768, 32779, 70001)      # 32768: products of two labels agree modulo 2^32


def stretched(F, s):
    return [[x * s + (s > 1) for x in t] for t in F]


def metric(tier):
    """meshes with positions for judges whose reference is quadratic: [kind, a, b, shuffle, stretch, flat]"""
    for spec in (["grid", 7, 9, 7, 3, 0], ["torus", 12, 11, 1, 1, 0], ["holes", 10, 13, 11, 1, 0], ["holes", 10, 13, 13, 1, 1], ["torus", 16, 17, 11, 1, 0], ["grid", 16, 17, 7, 1, 1]):
        yield spec
    if tier != "quick":
        for spec in (["two", 12, 13, 7, 1, 0], ["grid", 24, 22, 13, 1, 0], ["grid", 22, 24, 17, 1, 1], ["torus", 24, 22, 5, 1, 0], ["holes", 25, 22, 7, 1, 1]):
            yield spec


def build(spec):
    V, F = surface(spec[:5])
    V = [[round(x * 64) / 64 for x in (p[:2] if spec[5] else p)] for p in V.tolist()]
    return V, F
