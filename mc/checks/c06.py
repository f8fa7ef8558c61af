"""C06 subdivision: exact reference per step, and composition over iterations."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G
from .. import mesh as M
from .. import big

PROPERTY = "C06"
ASSUMPTIONS = ["where the whole matrix is compared every vertex is referenced, and no two faces have the same three corners when iterating; for Loop every interior vertex has valence at least 3",
               "numbering of the new vertices and face order are free choices (old vertices keep their indices)"]


def meshes(tier):
    q = tier == "quick"
    for F in M.grow(6, 5 if q else 8):
        yield F
        yield [M.rot(t, 1 + i % 2) for i, t in enumerate(F)][::-1]
        yield [t[::-1] for t in F]
    for F in M.grow(7, 4 if q else 6):
        yield F
    for F in M.complexes(5, 1, 3 if q else 5, M.is_manifold):
        if len(M.used(F)) == max(M.used(F)) + 1:
            yield F
    for F in list(M.CLOSED.values()) + list(M.STRIPS.values()):
        yield F


def compact(F):
    u = {v: i for i, v in enumerate(M.used(F))}
    return [[u[v] for v in t] for t in F]


def cases(tier):
    for F in meshes(tier):
        F = compact(F)
        for method in ("upsample", "loop"):
            if method == "loop" and not loop_ok(F):
                continue
            pillow = len({tuple(sorted(t)) for t in F}) < len(F)
            for it in (0, 1) if pillow else (0, 1, 2) if len(F) > 4 or tier == "quick" else (0, 1, 2, 3):
                yield [F, method, it]


def loop_ok(F):
    inc = M.edge_incidence(F)
    bd = {v for e, L in inc.items() if len(L) == 1 for v in e}
    val = {}
    for e in inc:
        for v in e:
            val[v] = val.get(v, 0) + 1
    return all(val[v] >= 3 for v in val if v not in bd)


def stencils(F, n, method):
    """old vertex -> row, edge -> row (dicts old index -> Fraction)"""
    inc = M.edge_incidence(F)
    if method == "upsample":
        return {v: {v: Fr(1)} for v in range(n)}, {e: {e[0]: Fr(1, 2), e[1]: Fr(1, 2)} for e in inc}
    bnd = {}
    nb = {}
    for e, L in inc.items():
        for v, w in (e, e[::-1]):
            nb.setdefault(v, set()).add(w)
            if len(L) == 1:
                bnd.setdefault(v, set()).add(w)
    old, new = {}, {}
    for v in range(n):
        if v in bnd:
            old[v] = {v: Fr(3, 4)}
            for w in bnd[v]:
                old[v][w] = Fr(1, 8)
        else:
            k = len(nb[v])
            b = Fr(3, 16) if k == 3 else Fr(3, 8) / k
            old[v] = {w: b for w in nb[v]}
            old[v][v] = 1 - k * b
    for e, L in inc.items():
        if len(L) == 1:
            new[e] = {e[0]: Fr(1, 2), e[1]: Fr(1, 2)}
        else:
            new[e] = {e[0]: Fr(3, 8), e[1]: Fr(3, 8)}
            for f, i, _h in L:
                o = F[f][i]
                new[e][o] = new[e].get(o, 0) + Fr(1, 8)
    return old, new


def rc(t):
    i = t.index(min(t))
    return tuple(t[i:]) + tuple(t[:i])


def check_step(ctx, F, n, method, V, Vu, Fu, S, tag):
    """one subdivision step of F (n vertices) produced (Vu, Fu, S)"""
    inc = M.edge_incidence(F)
    Fu = [[int(x) for x in t] for t in np.asarray(Fu)]
    nn = n + len(inc)
    if not ctx.check(len(Fu) == 4 * len(F) and {x for t in Fu for x in t} == set(range(nn)), tag + "counts", lambda: f"{Fu}"):
        return False
    nbr = {}
    for t in Fu:
        for a in t:
            for b in t:
                if a >= n and b < n:
                    nbr.setdefault(a, set()).add(b)
    den = {v: v for v in range(n)}
    for x in range(n, nn):
        e = tuple(sorted(nbr.get(x, ())))
        if not ctx.check(len(e) == 2 and e in inc, tag + "edge-vertex", lambda: f"vertex {x}: {e}"):
            return False
        den[x] = e
    ctx.check(len(set(den.values())) == nn, tag + "one-vertex-per-edge")
    want = set()
    ek = lambda a, b: (min(a, b), max(a, b))
    inv = {v: k for k, v in den.items()}
    for a, b, c in F:
        ab, bc, ca = inv.get(ek(a, b)), inv.get(ek(b, c)), inv.get(ek(c, a))
        if None in (ab, bc, ca):
            return False
        want |= {rc((a, ab, ca)), rc((ab, b, bc)), rc((ca, bc, c)), rc((ca, ab, bc))}
    ctx.check({rc(t) for t in Fu} == want, tag + "faces", lambda: f"{Fu}")
    old, new = stencils(F, n, method)
    W = np.zeros((nn, n))
    for x in range(nn):
        for c, w in (old[x] if x < n else new[den[x]]).items():
            W[x, c] = float(w)
    if S is not None:
        ctx.close(S.toarray(), W, tag + "matrix")
    if V is not None:
        ctx.close(Vu, W @ V, tag + "positions")
    return True


@scenario("mesh", cases, "each step against exact stencils; n iterations == n single steps; matrix maps old to new; V optional",
          nontrivial=lambda c: c[2] > 0)
def mesh(case, ctx):
    F0, method, iters = case
    n0 = max(map(max, F0)) + 1
    Fa = np.array(F0, dtype=int)
    V0 = np.array([[i * i % 7, (3 * i) % 5, i] for i in range(n0)], dtype=float)
    Vn, Fn, Sn = G.subdivide(V0, Fa, method=method, iters=iters, return_matrix=True)
    V1, F1 = G.subdivide(V0, Fa, method=method, iters=iters)
    V2, F2, S2 = G.subdivide(None, Fa, method=method, iters=iters, return_matrix=True)
    V3, F3 = G.subdivide(None, Fa, method=method, iters=iters)
    ctx.check(V2 is None and V3 is None, "V-None")
    for Fx in (F1, F2, F3):
        ctx.check(np.array_equal(Fx, Fn), "faces-independent-of-options")
    ctx.close(V1, Vn, "positions-independent-of-options")
    ctx.close(S2.toarray(), Sn.toarray(), "matrix-independent-of-positions")
    ctx.close(Sn @ V0, Vn, "matrix-maps-positions")
    ctx.close(np.asarray(Sn.sum(axis=1)).ravel(), np.ones(Sn.shape[0]), "rows-sum-to-one")
    ctx.outcome((method, iters, Vn.shape[0]))
    if iters == 0:
        ctx.check(np.array_equal(Fn, Fa), "iters0")
        ctx.close(Vn, V0, "iters0-V")
        return
    V, F = V0, Fa
    S = np.eye(n0)
    for k in range(iters):
        Vk, Fk, Sk = G.subdivide(V, F, method=method, return_matrix=True)
        if not check_step(ctx, [[int(x) for x in t] for t in F], V.shape[0], method, V, Vk, Fk, Sk, f"{method}-"):
            return
        S = Sk.toarray() @ S
        V, F = np.asarray(Vk), np.asarray(Fk)
    ctx.check(np.array_equal(F, Fn), "composition-faces")
    ctx.close(V, Vn, "composition-positions")
    ctx.close(S, Sn.toarray(), "composition-matrix")


def poly_cases(tier):
    for n in (2, 3, 4):
        segs = [(a, b) for a in range(n) for b in range(n) if a != b]
        for m in range(1, 4 if n < 4 else 3):
            for S in itertools.permutations(segs, m) if n < 4 else itertools.combinations(segs, m):
                u = {v for s in S for v in s}
                if u == set(range(n)):
                    for it in (0, 1, 2):
                        yield [[list(s) for s in S], it]
    for n in range(2, 6):
        for closed in (0, 1):
            if n > 2 or not closed:
                for it in (1, 3):
                    yield [[[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if closed else []), it]


@scenario("polyline", poly_cases, "polylines: each segment split at its exact midpoint, orientation kept", nontrivial=lambda c: c[1] > 0)
def polyline(case, ctx):
    E0, iters = case
    n0 = max(map(max, E0)) + 1
    Ea = np.array(E0, dtype=int)
    V0 = np.array([[i * i % 7, (3 * i) % 5] for i in range(n0)], dtype=float)
    Vn, En, Sn = G.subdivide(V0, Ea, iters=iters, return_matrix=True)
    for Vin in (V0, None):
        r = G.subdivide(Vin, Ea, iters=iters)
        ctx.check(np.array_equal(r[1], En), "poly-options")
        ctx.check((r[0] is None) == (Vin is None), "poly-V-None")
        r = G.subdivide(Vin, Ea, iters=iters, return_matrix=True, method="upsample")
        ctx.close(r[2].toarray(), Sn.toarray(), "poly-matrix-options")
    ctx.close(Sn @ V0, Vn, "poly-matrix")
    V, E = V0, Ea
    for k in range(iters):
        Vk, Ek, Sk = G.subdivide(V, E, return_matrix=True)
        n, m = V.shape[0], E.shape[0]
        Ek = np.asarray(Ek)
        ctx.check(Vk.shape[0] == n + m and Ek.shape == (2 * m, 2) and np.array_equal(Vk[:n], V), "poly-counts")
        mids = set()
        out = {}
        for a, b in Ek.tolist():
            if a < n:
                out.setdefault(b, [None, None])[0] = a
            else:
                out.setdefault(a, [None, None])[1] = b
        ctx.check(sorted(map(tuple, out.values()), key=str) == sorted(map(tuple, E.tolist()), key=str) and len(out) == m, "poly-split", lambda: f"{E.tolist()} -> {Ek.tolist()}")
        for x, (a, b) in out.items():
            if a is not None and b is not None and n <= x < n + m:
                ctx.close(Vk[x], 0.5 * (V[a] + V[b]), "poly-midpoint")
        ctx.close(Sk @ V, Vk, "poly-step-matrix")
        ctx.close(np.asarray(Sk.sum(axis=1)).ravel(), np.ones(n + m), "poly-rowsum")
        V, E = np.asarray(Vk), Ek
    ctx.check(np.array_equal(E, En), "poly-composition")
    ctx.close(V, Vn, "poly-composition-V")


def extra_cases(tier):
    base = [F for F in M.grow(5, 3)] + [M.CLOSED[k] for k in sorted(M.CLOSED)][:2] + [[[0, 1], [1, 2]], [[1, 0]]]
    for F in base:
        F = compact(F) if len(F[0]) == 3 else F
        for where in ("end", "start", "middle"):
            for k in (1, 2):
                for method in ("upsample", "loop"):
                    if method == "loop" and (len(F[0]) == 2 or not loop_ok(F)):
                        continue
                    for it in (0, 1, 2):
                        if it < 2 or len({tuple(sorted(t)) for t in F}) == len(F):
                            yield [F, where, k, method, it]


@scenario("unreferenced", extra_cases, "vertices used by no face, at the end, the start or in the middle of the list, change neither the refined faces nor the matrix relation",
          nontrivial=lambda c: c[4] > 0)
def unreferenced(case, ctx):
    F0, where, k, method, it = case
    n0 = max(map(max, F0)) + 1
    V0 = np.array([[2.0 ** i, 3.0 ** i, i * i % 5] for i in range(n0)])
    at = {"end": n0, "start": 0, "middle": n0 // 2}[where]
    mp = [i if i < at else i + k for i in range(n0)]
    F = np.array([[mp[v] for v in t] for t in F0], int)
    V = np.full((n0 + k, 3), -7.0)
    V[mp] = V0
    W, G0 = G.subdivide(V0, np.array(F0, int), method=method, iters=it)
    corners = lambda P, T: sorted(sorted(tuple(np.round(P[int(v)], 9)) for v in t) for t in np.asarray(T))
    for mat in (True, False):
        r = G.subdivide(V, F, method=method, iters=it, return_matrix=mat)
        Vu, Fu = np.asarray(r[0]), np.asarray(r[1])
        if not ctx.check(Vu.shape[0] == W.shape[0] + k and Fu.shape == G0.shape and Fu.max() < Vu.shape[0], "unreferenced-counts", lambda: (Vu.shape, Fu.shape)):
            return
        ctx.check(corners(Vu, Fu) == corners(W, G0), "unreferenced-faces", lambda: Fu)
        if method == "upsample":
            ctx.close(Vu[:n0 + k], V, "unreferenced-old-positions")
        if mat and ctx.check(r[2].shape == (Vu.shape[0], n0 + k), "unreferenced-matrix-shape", lambda: r[2].shape):
            ctx.close(r[2] @ V, Vu, "unreferenced-matrix")
    ctx.outcome((method, it, where))


def cases_large(tier):
    for spec in big.surfaces("quick"):
        if spec[4] == 1 and (tier != "quick" or spec[1] < 20):
            for method in ("upsample", "loop"):
                for it in (1, 2) if spec[1] * spec[2] < 100 else (1,):
                    yield [spec, method, it]
    for s in (257, 8209):
        for name in ("tet", "octa", "fan6", "annulus"):
            for method in ("upsample", "loop"):
                yield [[name, s], method, 1]


@scenario("large", cases_large, "the same judgement for meshes with hundreds of faces, and for labels far apart (32 and 64 bit)", nontrivial=lambda c: c[2] > 1)
def large(case, ctx):
    spec, method, it = case
    if len(spec) > 2:
        return mesh([big.surface(spec)[1], method, it], ctx)
    F0, s = M.CLOSED.get(spec[0]) or M.STRIPS[spec[0]], spec[1]
    n0 = max(map(max, F0)) + 1
    V0 = np.array([[2.0 ** i, 3.0 ** i, i * i % 5] for i in range(n0)])
    W, G0 = G.subdivide(V0, np.array(F0, int), method=method, iters=it)
    V = np.full(((n0 - 1) * s + 2, 3), -7.0)
    V[np.arange(n0) * s + 1] = V0
    corners = lambda P, T: sorted(sorted(tuple(np.round(P[int(v)], 9)) for v in t) for t in np.asarray(T))
    for dt in (np.int64, np.int32):
        Vu, Fu = G.subdivide(V, np.array(big.stretched(F0, s), dtype=dt), method=method, iters=it)
        if ctx.check(np.shape(Fu) == np.shape(G0) and np.min(Fu) >= 0 and np.max(Fu) < len(Vu), "large-counts", lambda: f"{np.shape(Vu)}"):
            ctx.check(corners(Vu, Fu) == corners(W, G0), "large-labels", lambda: f"{np.asarray(Fu)[:5]}")
    ctx.outcome((spec[0], s))


@scenario("long-polyline", lambda tier: [[n, closed, k] for n in (131, 260, 1030) for closed in (0, 1) for k in (1, 7)], "polylines with hundreds of segments in shuffled order")
def long_polyline(case, ctx):
    n, closed, k = case
    E = [[(i * k) % n, ((i + 1) * k) % n] for i in range(n if closed else n - 1)]
    polyline([E[k - 1:] + E[:k - 1], 1], ctx)
