"""C03 tetrahedral face tables against plain incidence counting."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import big

PROPERTY = "C03"
ASSUMPTIONS = ["interior faces are compared as undirected triples; boundary faces up to rotation of their corners"]


def outward(t):
    """faces of tet (a,b,c,d), each oriented outward for a positively oriented tet, opposite corner 0..3"""
    a, b, c, d = t
    return [(b, c, d), (d, c, a), (d, a, b), (b, a, c)]


def rc(t):
    i = t.index(min(t))
    return tuple(t[i:]) + tuple(t[:i])


def parity_orders(vs):
    return list(itertools.permutations(vs))


def cases(tier):
    q = tier == "quick"
    for p in itertools.permutations(range(4)):
        yield [list(p)]
    T5 = list(itertools.combinations(range(5), 4))
    for a, b in itertools.combinations(T5, 2):
        for p in itertools.permutations(a):
            for r in itertools.permutations(b):
                yield [list(p), list(r)]
    flip = lambda t: [t[1], t[0], t[2], t[3]]
    cyc = lambda t: [t[2], t[3], t[0], t[1]]
    T6 = list(itertools.combinations(range(6), 4))
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        for S in itertools.combinations(T6, k):
            pats = itertools.product((0, 1), repeat=k) if k <= 3 else [(0,) * k, (1,) * k, (0, 1, 0, 1)]
            for pat in pats:
                yield [flip(t) if b else cyc(t) for t, b in zip(S, pat)]
    T7 = [t for t in itertools.combinations(range(7), 4)]
    for S in itertools.combinations(T7, 2):
        yield [list(t) for t in S]
    for apex in range(3, 3 + (4 if q else 6)):   # k tets around one shared face: non-manifold faces
        yield [[0, 1, 2, v] for v in range(3, apex + 1)]
    # a face of three tets next to an ordinary interior face, under every relabelling of the corners
    for k, p in enumerate(itertools.permutations(range(6 if q else 7))):
        a, b, c, x, y, z = p[:6]
        yield [[a, b, c, x], [b, a, c, y], [a, b, c, z], [a, b, x, y if len(p) == 6 or k % 2 else p[6]]]


@scenario("tables", cases, "halffaces/faces/boundary_faces of every small tet list", nontrivial=lambda T: len(T) > 1)
def tables(T, ctx):
    judge_tables(T, np.array(T, dtype=int), ctx)


def cases_large(tier):
    for a in (2, 3, 4) if tier == "quick" else (2, 3, 4, 6):
        for s in (1, 97, 8209):
            yield ["cube", a, s]
    for s in big.STRETCH:
        for k in range(1, 4):
            for j in range(20):
                yield ["few", [[(x * (j + 1) + y) % 7 for x in (0, 1, 2, 3)] for y in range(k)], s]


@scenario("large", cases_large, "the same tables for hundreds of tets, and for labels far apart, as 32 and 64 bit integers", nontrivial=lambda c: c[2] > 1)
def large(case, ctx):
    kind, a, s = case
    if kind == "cube":
        from itertools import permutations
        step = (1, a + 1, (a + 1) ** 2)
        T = []
        for c in itertools.product(range(a), repeat=3):
            o = sum(x * y for x, y in zip(c, step))
            for p in permutations(step):      # the six tets of a cell around its diagonal
                t = [o, o + p[0], o + p[0] + p[1], o + sum(step)]
                T.append(t if p in (step, step[1:] + step[:1], step[2:] + step[:2]) else [t[1], t[0], t[2], t[3]])
        T = T[::-1]
    else:
        T = [t for t in a if len(set(t)) == 4]
        if not T:
            return
    T = big.stretched(T, s)
    for dt in (np.int64, np.int32):
        judge_tables(T, np.array(T, dtype=dt), ctx)


def judge_tables(T, Ta, ctx):
    hf = np.asarray(G.halffaces(Ta))
    if ctx.check(hf.shape == (len(T), 4, 3), "halffaces-shape"):
        for t, rows in zip(T, hf.tolist()):
            # every face once, outward for its tet (opposite corner i in column i)
            ctx.check([rc(tuple(r)) for r in rows] == [rc(f) for f in outward(t)], "halffaces", lambda: f"{t}: {rows}")
    inc = {}
    for k, t in enumerate(T):
        for f in outward(t):
            inc.setdefault(tuple(sorted(f)), []).append(f)
    bd = {u for u, L in inc.items() if len(L) == 1}
    nm = {u for u, L in inc.items() if len(L) > 2}
    it = set(inc) - bd
    ctx.outcome((len(bd), len(it), len(nm)))
    for flags in itertools.product([False, True], repeat=3):
        r = G.faces(Ta, return_boundary_indices=flags[0], return_interior_indices=flags[1], return_nonmanifold_indices=flags[2])
        r = list(r) if any(flags) else [r]
        ctx.check(len(r) == 1 + sum(flags), "faces-arity")
        Fl = [tuple(int(x) for x in row) for row in np.asarray(r[0])]
        und = [tuple(sorted(f)) for f in Fl]
        ctx.check(len(set(und)) == len(und) and set(und) == set(inc), "faces-set", lambda: f"{Fl}")
        for f, u in zip(Fl, und):
            if u in bd:
                ctx.check(rc(f) == rc(inc[u][0]), "faces-boundary-orientation", lambda: f"{f} vs {inc[u]}")
        k = 1
        for flag, name, want in zip(flags, ("boundary", "interior", "nonmanifold"), (bd, it, nm)):
            if flag:
                idx = [int(i) for i in np.asarray(r[k]).ravel()]
                k += 1
                ok = all(0 <= i < len(Fl) for i in idx) and len(set(idx)) == len(idx)
                ctx.check(ok and {und[i] for i in idx} == want, f"faces-{name}-indices", lambda: f"{Fl} {idx} want {sorted(want)}")
    bF = [tuple(int(x) for x in row) for row in np.asarray(G.boundary_faces(Ta)).reshape(-1, 3)]
    ctx.check(sorted(map(rc, bF)) == sorted(rc(inc[u][0]) for u in bd), "boundary_faces", lambda: f"{bF}")


# consistently oriented tetrahedralisations with positions: closed outward surface enclosing the volume
PTS = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 2), (2, 2, -1), (-1, 2, 2)]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def vol6(P, t):
    o = P[t[0]]
    d = [[P[t[i]][k] - o[k] for k in range(3)] for i in (1, 2, 3)]
    return det3(*d)


def cases_closed(tier):
    T = []
    for t in itertools.combinations(range(len(PTS)), 4):
        v = vol6(PTS, t)
        if v:
            T.append(list(t) if v > 0 else [t[1], t[0], t[2], t[3]])
    for k in (1, 2, 3):
        for S in itertools.combinations(T, k):
            inc = {}
            for t in S:
                for f in outward(t):
                    inc.setdefault(tuple(sorted(f)), []).append(rc(f))
            if all(len(L) == 1 or (len(L) == 2 and rc(L[0][::-1]) == L[1]) for L in inc.values()):
                yield [list(t) for t in S]


@scenario("closed", cases_closed, "boundary surface is closed, outward and encloses the tets' volume", nontrivial=lambda T: len(T) > 1)
def closed(T, ctx):
    bF = np.asarray(G.boundary_faces(np.array(T, dtype=int))).tolist()
    he = {}
    for a, b, c in bF:
        for h in ((a, b), (b, c), (c, a)):
            he[h] = he.get(h, 0) + 1
    ctx.check(all(he.get((b, a), 0) == n for (a, b), n in he.items()), "closed", lambda: f"{bF}")
    v = sum(det3(PTS[a], PTS[b], PTS[c]) for a, b, c in bF)
    ctx.eq(v, sum(vol6(PTS, t) for t in T), "enclosed-volume")


def cases_grid(tier):
    m = 3 if tier == "quick" else 4
    for n in itertools.product(range(2, m + 1), repeat=3):
        for ty in ("rotationally-symmetric", "reflectionally-symmetric", "hex"):
            if ty != "hex":
                yield [list(n), ty]


@scenario("cube", cases_grid, "regular cube meshes: boundary closed with the right area and count")
def cube(case, ctx):
    n, ty = case
    V, T = G.regular_cube_mesh(n[0], n[1], n[2], type=ty)
    T = np.asarray(T)
    bF = np.asarray(G.boundary_faces(T)).tolist()
    he = {}
    for a, b, c in bF:
        for h in ((a, b), (b, c), (c, a)):
            he[h] = he.get(h, 0) + 1
    ctx.check(all(he.get((b, a), 0) == n for (a, b), n in he.items()), "cube-closed")
    vol = sum(det3(*V[[a, b, c]].tolist()) for a, b, c in bF) / 6
    ctx.close(abs(vol), 1.0, "cube-volume")
    Fs, b, i, nm = G.faces(T, return_boundary_indices=True, return_interior_indices=True, return_nonmanifold_indices=True)
    ctx.eq(4 * len(T), len(b) + 2 * len(i), "cube-count")
    ctx.eq(len(nm), 0, "cube-nonmanifold")
