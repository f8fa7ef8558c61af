"""C01 edge/halfedge tables: every small oriented triangle complex against plain incidence counting."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import mesh as M
from .. import big

PROPERTY = "C01"
ASSUMPTIONS = ["the manifold variant of the edge map is only required on consistently oriented edge-manifold meshes",
               "the order of edges in the table is a free choice"]


def cases_complexes(tier):
    q = tier == "quick"
    yield from M.complexes(4, 1, 4 if q else 6)
    for F in M.complexes(5, 1, 3 if q else 4):
        yield F
    if not q:
        yield from M.complexes(6, 1, 3)
    for F in M.complexes(5, 2, 2):   # every corner rotation and face order of two faces
        for r in itertools.product(range(3), repeat=2):
            if r != (0, 0):
                yield [M.rot(F[0], r[0]), M.rot(F[1], r[1])]
                yield [M.rot(F[1], r[1]), M.rot(F[0], r[0])]
    for F in M.complexes(5, 1, 1):   # vertex labels far apart
        yield [[3 * x + 2 for x in F[0]]]
    named = list(M.CLOSED.values()) + list(M.STRIPS.values())
    for F in named:
        for V in M.relabel_variants(F, 9):
            yield V
        for i in range(len(F)):
            yield F[:i] + F[i + 1:]
            yield F[:i] + [F[i][::-1]] + F[i + 1:]
    for F in M.grow(6, 4 if q else 6):
        yield F
    for F in named[:2]:                       # duplicated face: every edge of it becomes non-manifold
        yield F + [F[0]]
    yield [[0, 1, 2], [0, 1, 2]]
    yield [[0, 1, 2], [1, 2, 0], [2, 1, 0]]


def edge_rows(E):
    return [tuple(int(x) for x in r) for r in np.asarray(E).reshape(-1, 2)]


@scenario("tables", cases_complexes, "edges(), halfedges(), halfedge_edge_map(), boundary/non-manifold tables on every small complex",
          nontrivial=lambda F: len(F) > 1)
def tables(F, ctx):
    judge_tables(F, np.array(F, dtype=int), ctx)


@scenario("large", lambda tier: [*big.surfaces(tier), big.HUGE, big.HUGER], "the same tables of meshes with hundreds of elements and far-apart labels", nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    F = big.surface(spec)[1]
    for dt in (np.int64, np.int32):
        judge_tables(F, np.array(F, dtype=dt), ctx)


def cases_labels(tier):
    for s in big.STRETCH:
        for F in M.complexes(4, 1, 2 if tier == "quick" else 3):
            yield [s, F]
        for F in list(M.CLOSED.values()) + list(M.STRIPS.values()) + list(M.grow(6, 3)) + [[[0, 1, 2], [1, 0, 3], [0, 1, 4]]]:
            yield [s, F]


@scenario("labels", cases_labels, "the same tables of small complexes whose labels lie far apart, as 32 and 64 bit integers", nontrivial=lambda c: len(c[1]) > 1)
def labels(case, ctx):
    F = big.stretched(case[1], case[0])
    for dt in (np.int64, np.int32):
        judge_tables(F, np.array(F, dtype=dt), ctx)


def judge_tables(F, Fa, ctx):
    inc = M.edge_incidence(F)
    m = len(F)
    bdry = {e for e, L in inc.items() if len(L) == 1}
    nonm = {e for e, L in inc.items() if len(L) > 2}
    inter = set(inc) - bdry
    ctx.outcome((len(inc), len(bdry), len(nonm)))
    # halfedges
    he = G.halfedges(Fa)
    ctx.eq(np.asarray(he).tolist(), [[list(h) for h in M.hes(t)] for t in F], "halfedges")
    # edges with every combination of optional outputs
    for flags in itertools.product([False, True], repeat=3):
        r = G.edges(Fa, return_boundary_indices=flags[0], return_interior_indices=flags[1], return_nonmanifold_indices=flags[2])
        r = list(r) if any(flags) else [r]
        ctx.check(len(r) == 1 + sum(flags), "edges-arity")
        E = edge_rows(r[0])
        und = [(min(e), max(e)) for e in E]
        ctx.check(len(set(und)) == len(und) and set(und) == set(inc), "edges-set", lambda: f"{E}")
        for e, u in zip(E, und):
            if u in bdry:
                ctx.check(e == inc[u][0][2], "edges-boundary-orientation", lambda: f"{e} vs {inc[u]}")
        k = 1
        for flag, name, want in zip(flags, ("boundary", "interior", "nonmanifold"), (bdry, inter, nonm)):
            if flag:
                idx = [int(i) for i in np.asarray(r[k]).ravel()]
                k += 1
                ok = all(0 <= i < len(E) for i in idx) and len(set(idx)) == len(idx)
                ctx.check(ok and {und[i] for i in idx} == want, f"edges-{name}-indices",
                          lambda: f"E={E} {name}={idx} want {sorted(want)}")
    # derived tables
    bE = edge_rows(G.boundary_edges(Fa))
    ctx.check(sorted(bE) == sorted(inc[e][0][2] for e in bdry), "boundary_edges", lambda: f"{bE}")
    bV = [int(x) for x in np.asarray(G.boundary_vertices(Fa)).ravel()]
    ctx.check(sorted(bV) == sorted({v for e in bdry for v in e}), "boundary_vertices", lambda: f"{bV}")
    ne = edge_rows(G.non_manifold_edges(Fa))
    ctx.eq(ne, sorted(nonm), "non_manifold_edges")
    # halfedge <-> edge maps
    if m < 5000:      # (quadratic time)
        check_map(ctx, F, G.halfedge_edge_map(Fa, assume_manifold=False), inc, False)
    if M.is_oriented(F):
        check_map(ctx, F, G.halfedge_edge_map(Fa), inc, True)
        check_map(ctx, F, G.halfedge_edge_map(Fa, assume_manifold=True), inc, True)


def check_map(ctx, F, r, inc, manifold):
    tag = "map-manifold-" if manifold else "map-general-"
    he, E, he2E, E2he = r
    m = len(F)
    ctx.eq(np.asarray(he).tolist(), [[list(h) for h in M.hes(t)] for t in F], tag + "he")
    E = edge_rows(E)
    und = [(min(e), max(e)) for e in E]
    ctx.check(len(set(und)) == len(und) and set(und) == set(inc), tag + "E", lambda: f"{E}")
    for e, u in zip(E, und):
        if len(inc[u]) == 1:
            ctx.check(e == inc[u][0][2], tag + "boundary-orientation")
    he2E = np.asarray(he2E)
    if not ctx.check(he2E.shape == (m, 3), tag + "he_to_E-shape"):
        return
    for f in range(m):
        for i, h in enumerate(M.hes(F[f])):
            k = int(he2E[f, i])
            ctx.check(0 <= k < len(E) and und[k] == (min(h), max(h)), tag + "he_to_E", lambda: f"halfedge {f},{i} -> {k}: {E}")
    ctx.check(len(E2he) == len(E), tag + "E_to_he-len")
    for k in range(len(E)):
        rows = [tuple(int(x) for x in row) for row in np.asarray(E2he[k]).reshape(-1, 2)]
        want = sorted((f, i) for f, i, _h in inc[und[k]])
        if manifold:
            ctx.check(len(rows) == 2, tag + "E_to_he-shape")
            if len(want) == 1:
                ctx.check(rows == [want[0], (-1, -1)], tag + "E_to_he", lambda: f"edge {E[k]}: {rows} want {want} then -1")
            else:
                ctx.check(sorted(rows) == want, tag + "E_to_he", lambda: f"edge {E[k]}: {rows} want {want}")
                # the first listed halfedge runs along the stored edge direction
                f, i = rows[0]
                ctx.check(0 <= f < m and M.hes(F[f])[i] == E[k], tag + "first-halfedge", lambda: f"{rows} {E[k]}")
        else:
            ctx.check(sorted(rows) == want, tag + "E_to_he", lambda: f"edge {E[k]}: {rows} want {want}")


def cases_polyline(tier):
    for n in range(1, 9 if tier == "quick" else 40):
        for closed in (False, True):
            yield [n, closed]


@scenario("edge_indices", cases_polyline, "polyline edge index tables for every length, open and closed", nontrivial=lambda c: c[0] > 1)
def edge_indices(case, ctx):
    n, closed = case
    E = G.edge_indices(n, closed=closed)
    want = [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if closed else [])
    ctx.eq(np.asarray(E).reshape(-1, 2).tolist(), want, "edge_indices")
    ctx.check(np.issubdtype(np.asarray(E).dtype, np.integer), "dtype")
    if not closed:
        ctx.eq(np.asarray(G.edge_indices(n)).reshape(-1, 2).tolist(), want, "default-open")
