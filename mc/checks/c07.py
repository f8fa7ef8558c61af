"""C07 discrete exterior calculus on every small manifold mesh with grid positions."""
import numpy as np
from ..core import scenario, G
from .. import mesh as M, geo, big

PROPERTY = "C07"
ASSUMPTIONS = ["where a Hodge weight is exactly zero nothing is required of its inverse",
               "edges follow the library's own edge map; weights are compared edge by edge"]


def cases(tier):
    for P, F in geo.all_meshes(tier):
        yield [P, F]


@scenario("dec", cases, "d0, d1 are signed incidences, d1 d0 = 0; stars equal their weights; inverse stars invert",
          nontrivial=lambda c: len(c[1]) > 1)
def dec(case, ctx):
    P, F = case
    V, Fa = np.array(P, dtype=float), np.array(F, dtype=int)
    n, m = len(P), len(F)
    inc = M.edge_incidence(F)
    he, E, he2E, E2he = G.halfedge_edge_map(Fa)
    E = [tuple(int(x) for x in e) for e in E]
    ne = len(E)
    ctx.outcome((ne, m))
    if not ctx.check(sorted((min(e), max(e)) for e in E) == sorted(inc), "edge-map"):
        return
    nref = max(map(max, F)) + 1
    w0 = np.zeros((ne, n))
    for k, (a, b) in enumerate(E):
        w0[k, a], w0[k, b] = 1, -1
    d0 = G.dec_d0(Fa, n=n)
    d0b = G.dec_d0(Fa, E=np.array(E), n=n)
    d0c = G.dec_d0(Fa)
    # sign convention: tail minus head is the library's; accept a globally flipped convention
    s0 = 1.0 if np.allclose(d0.toarray(), w0) else -1.0
    ctx.close(d0.toarray(), s0 * w0, "d0")
    ctx.close(d0b.toarray(), s0 * w0, "d0-given-E")
    ctx.close(d0c.toarray(), s0 * w0[:, :nref], "d0-n-inferred")
    # E in a permuted and flipped presentation: rows follow the given table
    E3 = np.array([e if i % 2 else e[::-1] for i, e in enumerate(E)])[::-1]
    w3 = np.zeros((ne, n))
    for k, (a, b) in enumerate(E3.tolist()):
        w3[k, a], w3[k, b] = s0, -s0
    ctx.close(G.dec_d0(Fa, E=E3, n=n).toarray(), w3, "d0-other-E")
    w1 = np.zeros((m, ne))
    row = {e: k for k, e in enumerate(E)}
    for f, t in enumerate(F):
        for h in M.hes(t):
            if h in row:
                w1[f, row[h]] = 1
            elif h[::-1] in row:
                w1[f, row[h[::-1]]] = -1
    d1 = G.dec_d1(Fa)
    s1 = 1.0 if np.allclose(d1.toarray(), w1) else -1.0
    ctx.close(d1.toarray(), s1 * w1, "d1")
    ctx.close(G.dec_d1(Fa, E_to_he=E2he).toarray(), s1 * w1, "d1-given-map")
    ctx.close((d1 @ d0).toarray(), np.zeros((m, n)), "d1d0")
    # stars
    area = np.array([0.5 * geo.dblarea(P, t) for t in F])
    a0 = np.zeros(n)
    for f, t in enumerate(F):
        for v in t:
            a0[v] += area[f] / 3
    c1 = np.zeros(ne)
    for k, (a, b) in enumerate(E):
        for f, i, _h in inc[min(a, b), max(a, b)]:
            c1[k] += 0.5 * geo.cot(P, F[f], i)
    lsq = G.halfedge_lengths_squared(V, Fa)
    stars = [("h0", a0, G.dec_h0(V, Fa), G.dec_h0inv(V, Fa), G.dec_h0_intrinsic(lsq, Fa, n=n), G.dec_h0inv_intrinsic(lsq, Fa, n=n)),
             ("h1", c1, G.dec_h1(V, Fa), G.dec_h1inv(V, Fa), G.dec_h1_intrinsic(lsq, Fa), G.dec_h1inv_intrinsic(lsq, Fa)),
             ("h1map", c1, G.dec_h1(V, Fa, E_to_he=E2he), G.dec_h1inv(V, Fa, E_to_he=E2he),
              G.dec_h1_intrinsic(lsq, Fa, E_to_he=E2he), G.dec_h1inv_intrinsic(lsq, Fa, E_to_he=E2he)),
             ("h2", area, G.dec_h2(V, Fa), G.dec_h2inv(V, Fa), G.dec_h2_intrinsic(lsq, Fa), G.dec_h2inv_intrinsic(lsq, Fa)),
             ("h0n", a0[:nref], G.dec_h0_intrinsic(lsq, Fa), G.dec_h0inv_intrinsic(lsq, Fa), G.dec_h0_intrinsic(lsq, Fa), G.dec_h0inv_intrinsic(lsq, Fa))]
    for name, w, h, hi, hx, hix in stars:
        for tag, X in (("", h), ("-intrinsic", hx)):
            ctx.close(X.toarray(), np.diag(w), name + tag, tol=1e-7)
        nz = np.abs(w) > 1e-9
        for tag, X in (("", hi), ("-intrinsic", hix)):
            X = X.toarray()
            if ctx.check(X.shape == (len(w), len(w)), name + "inv-shape"):
                off = X - np.diag(np.diag(X))
                ctx.check(not np.any(off[~np.isnan(off)]), name + "inv-offdiagonal" + tag)
                ctx.close(np.diag(X)[nz] * w[nz], np.ones(nz.sum()), name + "inv" + tag, tol=1e-7)


@scenario("large", big.metric, "the same judgement for meshes with hundreds of faces", nontrivial=lambda c: c[3] > 1)
def large(spec, ctx):
    dec(big.build(spec), ctx)
