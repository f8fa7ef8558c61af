"""C05 cut_edges: all small manifold meshes x all edge subsets against a union-find over corners."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import mesh as M
from .. import big

PROPERTY = "C05"
ASSUMPTIONS = ["the numbering of the new vertices is a free choice"]


def meshes(tier):
    q = tier == "quick"
    for F in M.grow(6, 5 if q else 7):
        yield from M.relabel_variants(F, 6)
    for F in M.grow(7, 4 if q else 6):
        yield F
    yield M.CLOSED["tet"]
    yield [[3 * x + 1 for x in t] for t in M.STRIPS["fan4"]]
    for F in (M.STRIPS["fan4"], M.STRIPS["fan6"], M.STRIPS["annulus"]):
        yield F


def cases(tier):
    for F in meshes(tier):
        E = sorted(M.edge_incidence(F))
        if len(E) <= (10 if tier == "quick" else 13):
            subs = itertools.chain.from_iterable(itertools.combinations(E, k) for k in range(len(E) + 1))
        else:
            subs = itertools.chain.from_iterable(itertools.combinations(E, k) for k in list(range(0, 4)) + [len(E) - 1, len(E)])
        for S in subs:
            yield [F, [list(e) for e in S]]
    for name in ("octa", "torus7", "square2"):
        F = M.CLOSED.get(name) or M.STRIPS[name]
        E = sorted(M.edge_incidence(F))
        for k in range(0, 4 if tier == "quick" else 6):
            for S in itertools.combinations(E, k):
                yield [F, [list(e) for e in S]]
        yield [F, [list(e) for e in E]]


def reference(F, cut):
    """corner partition: corners (f,i) joined across every non-cut edge shared by two faces"""
    par = {(f, i): (f, i) for f in range(len(F)) for i in range(3)}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    cut = {(min(e), max(e)) for e in cut}
    for e, L in M.edge_incidence(F).items():
        if e in cut:
            continue
        for (f, _i, _h), (g, _j, _k) in itertools.combinations(L, 2):
            for v in e:
                a, b = (f, F[f].index(v)), (g, F[g].index(v))
                par[find(a)] = find(b)
    return {c: find(c) for c in par}


@scenario("cut", cases, "every subset of edges of every small manifold mesh (each cut edge in a direction fixed by its index)",
          nontrivial=lambda c: bool(c[1]))
def cut(case, ctx):
    F, S = case
    judge(ctx, F, S, int)


def cases_large(tier):
    for spec in big.surfaces(tier):
        for p in range(4):
            yield [spec, p]
    yield [big.HUGE, 2]
    yield [big.HUGER, 2]
    for s in big.STRETCH:
        for name in ("fan6", "annulus", "tet"):
            for p in range(4):
                yield [[name, s], p]


@scenario("large", cases_large, "meshes with hundreds of faces and far-apart labels, cut along no edge, along every third, along paths and along all", nontrivial=lambda c: c[1] > 0)
def large(case, ctx):
    spec, p = case
    F = big.surface(spec)[1] if len(spec) > 2 else big.stretched(M.CLOSED.get(spec[0]) or M.STRIPS[spec[0]], spec[1])
    E = sorted(M.edge_incidence(F))
    S = [[], E[::3], [e for e in E if (e[0] // 3 + e[1] // 5) % 4 == 0], E][p]
    for dt in (np.int64, np.int32):
        judge(ctx, F, [list(e) for e in S], dt)


def judge(ctx, F, S, dt):
    Fa = np.array(F, dtype=dt)
    ref = reference(F, S)
    variants = [[e if (i + len(F)) % 2 else e[::-1] for i, e in enumerate(S)]]
    if S and len(S) <= 2:
        variants.append([e[::-1] for e in S] + [S[0]])                # repeated edge
        n = max(map(max, F)) + 1
        inc = M.edge_incidence(F)
        absent = list(itertools.islice(([a, b] for a, b in itertools.combinations(range(n), 2) if (a, b) not in inc), 2))
        variants.append(S + absent[:2] + [[0, n + 3]])                # edges that are not in the mesh are ignored
    for V in variants:
        E = np.array(V, dtype=dt).reshape(-1, 2)
        H, I = G.cut_edges(Fa, E)
        H, I = np.asarray(H), np.asarray(I)
        if not ctx.check(H.shape == Fa.shape, "shape", lambda: f"{H}"):
            continue
        nn = len(set(ref.values()))
        ctx.outcome((len(F), nn))
        ctx.check(I.ndim == 1 and np.issubdtype(H.dtype, np.integer), "types")
        lab = {}
        ok = True
        for f in range(len(F)):
            for i in range(3):
                lab[f, i] = int(H[f, i])
                ok &= 0 <= lab[f, i] < len(I) and int(I[lab[f, i]]) == F[f][i]
        ctx.check(ok, "maps-to-original", lambda: f"H={H.tolist()} I={I.tolist()}")
        pairs = {(lab[c], ref[c]) for c in ref}
        ctx.check(len(pairs) == len(set(lab.values())) == nn, "partition", lambda: f"E={V} H={H.tolist()}")
        ctx.check(len(I) == nn if V else len(I) >= nn, "no-unreferenced", lambda: f"E={V} I={I.tolist()}")


@scenario("tears", lambda tier: [[F, [list(e) for e in S]] for F in (M.CLOSED["tet"], M.CLOSED["octa"], M.STRIPS["fan6"], M.STRIPS["annulus"])
                                 for E in [sorted(M.edge_incidence(F))] for k in (1, 2, len(E)) for S in itertools.combinations(E, k)],
          "edges that are not cut keep their two faces")
def tears(case, ctx):
    F, S = case
    H, I = G.cut_edges(np.array(F, dtype=int), np.array(S, dtype=int).reshape(-1, 2))
    inc = M.edge_incidence([[int(x) for x in t] for t in H])
    before = M.edge_incidence(F)
    cutset = {tuple(sorted(e)) for e in S}
    for e, L in inc.items():
        o = tuple(sorted(int(I[v]) for v in e))
        if o not in cutset:
            ctx.check(len(L) == len(before[o]), "edge-degree", lambda: f"{e} {o}")
