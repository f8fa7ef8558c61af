"""C13 finite differences on every graded quadtree of a bounded history space."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import quad as Q
from .c12 import BOX, build

PROPERTY = "C13"
ASSUMPTIONS = ["planar trees with at least four leaves (the stencils are two-dimensional)", "rows and columns follow quadtree_children"]


def trees(tier):
    q = tier == "quick"
    for k in range(1, 5 if q else 6):
        for ch in itertools.product(*[range(1 + 3 * i) for i in range(k)]):
            yield [list(ch)]
    for ch in itertools.product((0, 3, 6, 9), repeat=4 if q else 6):
        yield [[0] + list(ch)]


def uniform(depth):
    C0, W0 = BOX[2]
    tab, T = Q.start(2, C0, W0), {Q.root(2)}
    for d in range(1, depth):
        for c in sorted(x for x in T if x[0] == d):
            ctr, w = Q.centre_width(c, C0, W0)
            i = [i for i in range(len(tab[0])) if tab[1][i] == w and np.allclose(tab[0][i], ctr)][0]
            tab = G.subdivide_quad(i, *tab, True)
            T = Q.subdivide(T, c, True)
    return tab, T, C0, W0


def cases(tier):
    for k in (2, 3, 4):
        yield ["uniform", k]
    for n, mx, mn in ((20, 6, 1), (60, 5, 2), (3, 5, 5), (7, 8, 1)):
        yield ["points", dict(points=n, depth=mx, least=mn)]
    for c in trees(tier):
        yield ["history", c[0]]


@scenario("stencils", cases, "gradient and Laplacian rows against the reference stencil and on polynomials",
          nontrivial=lambda c: c[0] == "uniform" or len(c[1]) > 2)
def stencils(case, ctx):
    tab, T, C0, W0 = uniform(case[1]) if case[0] == "uniform" else build(2, 1, case[1])
    row = Q.check_tables(tab, T, 2, C0, W0, ctx)
    if row is None:
        return
    cells = sorted(row, key=row.get)
    C, W, CH, PAR, D, A = tab
    order = [int(x) for x in G.quadtree_children(CH)]
    L = [cells[i] for i in order]
    n = len(L)
    ctx.outcome((case[0], n, max(c[0] for c in L)))
    adj = Q.adjacency(L)
    ctr = np.array([Q.centre_width(c, C0, W0)[0] for c in L])
    wd = np.array([Q.centre_width(c, C0, W0)[1] for c in L])
    Gr, st = G.quadtree_gradient(C, W, CH, D, A)
    La, st2 = G.quadtree_laplacian(C, W, CH, D, A)
    Gr, La = Gr.toarray(), La.toarray()
    ctx.close(st, ctr, "stored-at")
    ctx.close(st2, ctr, "stored-at")
    if not ctx.check(Gr.shape == (2 * n, n) and La.shape == (n, n), "shape"):
        return
    wg, wl = np.zeros((2 * n, n)), np.zeros((n, n))
    coarse, equal, inner = np.zeros(n, bool), np.ones(n, bool), np.ones(n, bool)
    for i in range(n):
        for ax in (0, 1):
            part, dist = [], []
            for a in (2 * ax + 1, 2 * ax + 2):
                nb = np.nonzero(adj[i] == a)[0]
                v = np.zeros(n)
                if len(nb):
                    v[nb] = 1 / len(nb)
                    dist.append((wd[i] + wd[nb[0]]) / 2)
                    coarse[i] |= wd[nb[0]] > wd[i]
                    equal[i] &= wd[nb[0]] == wd[i]
                else:
                    v[i] = 1
                    dist.append(0)
                    inner[i] = False
                part.append(v)
            wg[i + ax * n] = (part[1] - part[0]) / sum(dist)
            for s in (0, 1):
                if dist[s]:
                    k = 2 / (dist[s] * (sum(dist) if min(dist) else 2 * dist[s]))
                    wl[i] += k * part[s]
                    wl[i, i] -= k
    ctx.close(Gr, wg, "gradient-stencil")
    ctx.close(La, wl, "laplacian-stencil")
    one, x, y = np.ones(n), ctr[:, 0], ctr[:, 1]
    ctx.close(Gr @ one, np.zeros(2 * n), "gradient-constants")
    ctx.close(La @ one, np.zeros(n), "laplacian-constants")
    ctx.close((Gr @ x)[:n], one, "gradient-x-of-x")
    ctx.close((Gr @ y)[n:], one, "gradient-y-of-y")
    nc = ~coarse
    ctx.close((Gr @ y)[:n][nc], np.zeros(nc.sum()), "gradient-x-of-y")
    ctx.close((Gr @ x)[n:][nc], np.zeros(nc.sum()), "gradient-y-of-x")
    ok = inner & equal
    for f, v in ((x, 0), (y, 0), (x * x, 2), (y * y, 2), (x * y, 0)):
        ctx.close((La @ f)[ok], np.full(ok.sum(), float(v)), "laplacian-polynomials")
    if case[0] == "uniform":
        h = wd[0]
        ctx.close(np.diag(La)[inner], np.full(inner.sum(), -4 / h ** 2), "five-point")
