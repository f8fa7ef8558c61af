"""C02 adjacency, components, face adjacency and boundary loops against plain graph search."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import mesh as M
from .. import big
from .c01 import cases_complexes, cases_labels

PROPERTY = "C02"
ASSUMPTIONS = ["triangle-triangle adjacency is required on consistently oriented edge-manifold meshes",
               "boundary loops are required where every boundary vertex has exactly two boundary edges",
               "component labels are compared up to renaming; the loops' starting vertices and order are free"]


def components(n, edges):
    u = sorted({x for e in edges for x in e}) if n > 20000 else range(n)
    if len(u) < n:
        k = {x: i for i, x in enumerate(u)}
        lab = np.arange(n)
        lab[u] = np.array(u)[components(len(u), [(k[a], k[b]) for a, b in edges])]
        return lab
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for a, b in edges:
        par[find(a)] = find(b)
    return [find(i) for i in range(n)]


def same_partition(a, b):
    if len(a) > 20000:      # labels far apart: the same, in arrays
        a, b = np.asarray(a, dtype=np.int64), np.asarray(b, dtype=np.int64)
        distinct = lambda x: 1 + int(np.count_nonzero(np.diff(np.sort(x))))
        return len(a) == len(b) and distinct(a * (b.max() + 1) + b) == distinct(a) == distinct(b)
    return len(a) == len(b) and len(set(zip(a, b))) == len(set(a)) == len(set(b))


@scenario("graph", cases_complexes, "adjacency matrix, vertex/face components, face adjacency", nontrivial=lambda F: len(F) > 1)
def graph(F, ctx):
    judge_graph(F, int, ctx)


@scenario("large", lambda tier: [*big.surfaces(tier), big.HUGE, big.HUGER], "adjacency, components, face adjacency and loops of meshes with hundreds of elements and far-apart labels",
          nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    F = big.surface(spec)[1]
    for dt in (np.int64, np.int32):
        judge_graph(F, dt, ctx)
        judge_loops(F, dt, ctx)


@scenario("labels", cases_labels, "the same for small complexes whose labels lie far apart, as 32 and 64 bit integers", nontrivial=lambda c: len(c[1]) > 1)
def labels(case, ctx):
    F = big.stretched(case[1], case[0])
    for dt in (np.int64, np.int32):
        judge_graph(F, dt, ctx)
        if M.is_edge_manifold(F) and simple_boundary(F)[0]:
            judge_loops(F, dt, ctx)


def judge_adjacency(ctx, A, n, edges, tag):
    if n < 200:
        want = np.zeros((n, n))
        for a, b in edges:
            want[a, b] = want[b, a] = 1
        return ctx.close(A.toarray(), want, tag)
    A = A.tocoo()
    got = {(int(i), int(j)): float(x) for i, j, x in zip(A.row, A.col, A.data) if x}
    ctx.check(A.shape == (n, n) and len(got) == len([x for x in A.data if x]) and got == {p: 1.0 for a, b in edges for p in ((a, b), (b, a))}, tag)


def judge_graph(F, dt, ctx):
    Fa = np.array(F, dtype=dt)
    inc = M.edge_incidence(F)
    n = max(max(t) for t in F) + 1
    judge_adjacency(ctx, G.adjacency_matrix(Fa), n, inc, "adjacency")
    E = np.array(sorted(inc), dtype=dt)
    judge_adjacency(ctx, G.adjacency_matrix(E), n, inc, "adjacency-from-edges")
    ref = components(n, inc)
    C = np.asarray(G.connected_components(Fa)).tolist()
    ctx.check(same_partition(C, ref), "components", lambda: f"{C} vs {ref}")
    C2, CF = G.connected_components(Fa, return_face_indices=True)
    ctx.check(same_partition(np.asarray(C2).tolist(), ref), "components-2")
    CF = [int(c) for c in CF]
    ctx.check(len(CF) == len(F) and all(CF[f] == int(C2[v]) for f, t in enumerate(F) for v in t), "face-components", lambda: f"{C2} {CF}")
    ctx.outcome((len(set(ref)) if n < 20000 else -1, len(inc)))
    if M.is_oriented(F):
        TT, TTi = G.triangle_triangle_adjacency(Fa)
        wTT = [[-1] * 3 for _ in F]
        wTi = [[-1] * 3 for _ in F]
        for L in inc.values():
            if len(L) == 2:
                (f, i, _), (g, j, _) = L
                wTT[f][i], wTi[f][i], wTT[g][j], wTi[g][j] = g, j, f, i
        ctx.eq(np.asarray(TT).tolist(), wTT, "TT")
        ctx.eq(np.asarray(TTi).tolist(), wTi, "TTi")


def simple_boundary(F):
    inc = M.edge_incidence(F)
    deg = {}
    for L in inc.values():
        if len(L) == 1:
            a, b = L[0][2]
            deg.setdefault(a, [0, 0])[0] += 1
            deg.setdefault(b, [0, 0])[1] += 1
    return all(sum(d) == 2 for d in deg.values()), all(d == [1, 1] for d in deg.values())


def cases_loops(tier):
    for F in cases_complexes(tier):
        if M.is_edge_manifold(F) and simple_boundary(F)[0]:
            yield F
    q = tier == "quick"
    for F in M.grow(6, 5 if q else 7):
        if simple_boundary(F)[0]:
            yield F
            yield [t[::-1] for t in F]
    for F in M.grow(7, 4 if q else 5):
        if simple_boundary(F)[0]:
            yield F


def cyc(l):
    i = l.index(min(l))
    return tuple(l[i:] + l[:i])


@scenario("loops", cases_loops, "boundary loops cover the boundary once, in order", nontrivial=lambda F: len(F) > 1)
def loops(F, ctx):
    judge_loops(F, int, ctx)


def judge_loops(F, dt, ctx):
    inc = M.edge_incidence(F)
    bd = {e: L[0][2] for e, L in inc.items() if len(L) == 1}
    oriented = simple_boundary(F)[1]
    for allow in ((True, False) if oriented else (True,)):
        L = [[int(v) for v in l] for l in G.boundary_loops(np.array(F, dtype=dt), allow_wrong_orientations=allow)]
        ctx.outcome(tuple(sorted(map(len, L))))
        tot = []
        for l in L:
            ctx.check(len(set(l)) == len(l) >= 3, "loop-simple", lambda: f"{L}")
            tot += [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]
        ctx.check(sorted((min(e), max(e)) for e in tot) == sorted(bd), "loops-cover", lambda: f"{L} vs {sorted(bd)}")
        if oriented:
            ctx.check(sorted(tot) == sorted(bd.values()), "loops-orientation", lambda: f"{L} vs {sorted(bd.values())}")
    if oriented:
        L = [[int(v) for v in l] for l in G.boundary_loops(np.array(F, dtype=dt))]
        ctx.check(sorted(map(cyc, L)) == sorted(cyc(l) for l in ref_loops(bd)), "loops-default", lambda: f"{L}")


def ref_loops(bd):
    nxt = dict(bd.values())
    out = []
    while nxt:
        s = min(nxt)
        l = [s]
        v = nxt.pop(s)
        while v != s:
            l.append(v)
            v = nxt.pop(v)
        out.append(l)
    return out


@scenario("edge_graphs", lambda tier: ([list(e) for e in S] for n in (3, 4) for k in range(1, 7 if n == 4 else 4)
                                       for S in itertools.combinations(list(itertools.combinations(range(n), 2)), k)),
          "adjacency of every small edge list in every direction pattern")
def edge_graphs(E, ctx):
    n = max(map(max, E)) + 1
    want = np.zeros((n, n))
    for a, b in E:
        want[a, b] = want[b, a] = 1
    for flip in itertools.product((False, True), repeat=len(E)):
        L = [e[::-1] if f else e for e, f in zip(E, flip)]
        ctx.close(G.adjacency_matrix(np.array(L, dtype=int)).toarray(), want, "adjacency-edge-list")


@scenario("empty", lambda tier: [[2], [3]], "empty inputs give empty results")
def empty(case, ctx):
    F = np.zeros((0, case[0]), dtype=int)
    if case[0] == 3:
        C, CF = G.connected_components(F, return_face_indices=True)
        ctx.check(len(C) == 0 and len(CF) == 0, "empty-components")


@scenario("empty", lambda t: [2, 3], "a face or edge list without rows has the empty adjacency matrix")
def empty(k, ctx):
    A = G.adjacency_matrix(np.zeros((0, k), dtype=int))
    ctx.check(A.shape == (0, 0), "adjacency-empty", lambda: A.shape)
