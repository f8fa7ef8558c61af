"""Small-scope enumerators of meshes and the plain-Python reference combinatorics used by many checks."""
import itertools, functools, json, os


def rot(t, r):
    return list(t[r:]) + list(t[:r])


def oriented_triangles(n):
    out = []
    for a, b, c in itertools.combinations(range(n), 3):
        out.append((a, b, c)); out.append((a, c, b))
    return out


def hes(t):
    """Halfedges of a triangle by the documented convention: opposite corner 0, 1, 2."""
    return [(t[1], t[2]), (t[2], t[0]), (t[0], t[1])]


def edge_incidence(F):
    """undirected edge -> list of (face, local, directed halfedge)"""
    d = {}
    for f, t in enumerate(F):
        for i, h in enumerate(hes(t)):
            d.setdefault((min(h), max(h)), []).append((f, i, h))
    return d


def is_edge_manifold(F):
    return all(len(v) <= 2 for v in edge_incidence(F).values())


def is_oriented(F):
    """edge-manifold and the two halfedges of every interior edge are opposite"""
    for v in edge_incidence(F).values():
        if len(v) > 2:
            return False
        if len(v) == 2 and v[0][2] == v[1][2]:
            return False
    return True


def vertex_fans(F, v):
    """Partition of the faces at v into edge-connected fans."""
    inc = [f for f, t in enumerate(F) if v in t]
    par = {f: f for f in inc}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for e, L in edge_incidence(F).items():
        if v in e:
            for a in L[1:]:
                par[find(a[0])] = find(L[0][0])
    return len({find(f) for f in inc})


def is_manifold(F):
    """oriented edge-manifold whose vertices have a single fan"""
    return is_oriented(F) and all(vertex_fans(F, v) == 1 for v in {x for t in F for x in t})


def complexes(nv, kmin, kmax, pred=None, canonical=False):
    """All sets of k distinct oriented triangles on nv labelled vertices (as lists, lexicographic)."""
    T = oriented_triangles(nv)
    seen = set()
    for k in range(kmin, kmax + 1):
        for S in itertools.combinations(T, k):
            if canonical:
                c = canon(S, nv)
                if c in seen:
                    continue
                seen.add(c)
            F = [list(t) for t in S]
            if pred is None or pred(F):
                yield F


@functools.lru_cache(None)
def _perms(n):
    return list(itertools.permutations(range(n)))


def canon(S, nv):
    best = None
    for p in _perms(nv):
        c = tuple(sorted(min((p[a], p[b], p[c]), (p[b], p[c], p[a]), (p[c], p[a], p[b])) for a, b, c in S))
        if best is None or c < best:
            best = c
    return best


def relabel_variants(F, nv):
    """A few fixed re-presentations of the same mesh: other first corners, reversed face order, relabelling."""
    yield [list(t) for t in F]
    yield [rot(list(t), (i + 1) % 3) for i, t in enumerate(F)]
    yield [rot(list(t), (2 * i + 2) % 3) for i, t in enumerate(reversed(F))]


@functools.lru_cache(None)
def _data():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "grow.json")) as f:
        return json.load(f)


def grow(nv, kmax):
    """All classes with up to kmax faces on up to nv vertices, from the committed catalogue (tools/gen_meshes.py)."""
    d = _data()
    assert kmax <= d["bounds"][str(nv)] or nv <= 5, (nv, kmax)
    return [[list(t) for t in F] for F in d["meshes"][str(nv)] if len(F) <= kmax]


def grow_compute(nv, kmax):
    """Relabelling classes of oriented, edge-manifold meshes that grow face by face; all sizes 1..kmax.
    Vertex-manifoldness is not hereditary, so growth uses edge-manifold orientedness and filters at the end."""
    T = oriented_triangles(nv)
    level = {canon(((0, 1, 2),), nv)}
    out = []
    for k in range(1, kmax + 1):
        out += [[list(t) for t in c] for c in sorted(level) if is_manifold(c)]
        nxt = set()
        if k < kmax:
            for c in level:
                s = set(c)
                for t in T:
                    m = min(t, (t[1], t[2], t[0]), (t[2], t[0], t[1]))
                    if m in s:
                        continue
                    S = list(c) + [m]
                    if is_oriented(S):
                        nxt.add(canon(S, nv))
        level = nxt
    return out


CLOSED = {
    "tet": [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]],
    "octa": [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]],
    # 7-vertex torus (Moebius-Csaszar)
    "torus7": [[i % 7, (i + 1) % 7, (i + 3) % 7] for i in range(7)] + [[i % 7, (i + 3) % 7, (i + 2) % 7] for i in range(7)],
}
STRIPS = {
    # annulus with 3+3 vertices, hexagonal fan (closed star of an interior vertex)
    "annulus": [[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [2, 0, 3], [2, 3, 5]],
    "fan4": [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]],
    "fan6": [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 6], [0, 6, 1]],
    "square2": [[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [3, 4, 7], [3, 7, 6], [4, 5, 8], [4, 8, 7]],
}


def used(F):
    return sorted({x for t in F for x in t})
