"""C28 Random points on polylines and meshes for every answer of the random generator on a lattice."""
import itertools
import numpy as np
from .. import big
from ..core import scenario, G

PROPERTY = "C28"
ASSUMPTIONS = ["the generator is replaced by a stand-in that answers choice/random/uniform from a complete product lattice of draws, extremes included",
               "probabilities are compared with a resolution of the lattice"]
TOP = 1 - 2.0 ** -53


class Lattice:
    def __init__(self, cols):
        self.cols = list(cols)

    def _take(self, n, k=None):
        if k is None:
            return self.cols.pop(0)[:n].copy()
        return np.stack([self.cols.pop(0)[:n] for _ in range(k)], axis=-1)

    def _arr(self, size):
        size = size if isinstance(size, tuple) else (size,)
        return self._take(size[0]) if len(size) == 1 else self._take(size[0], size[1]) if len(size) == 2 else None

    def random(self, size=None):
        return self._arr(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._arr(size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = np.full(len(a), 1 / len(a)) if p is None else np.asarray(p, float)
        if len(p) != len(a) or np.any(p < 0) or not abs(p.sum() - 1) < 1e-8 or not replace:
            raise ValueError("invalid probabilities")
        cdf = np.cumsum(p)
        cdf /= cdf[-1]
        return a[np.searchsorted(cdf, self._arr(size), side="right")]


P2 = [(0, 0), (4, 0), (4, 3), (0, 3), (8, 6), (0, 0)]
P3 = [(0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 3, 12), (8, 6, 0), (0, 0, 0)]
EDGES = [[[0, 1]], [[0, 1], [1, 2]], [[2, 1], [2, 4], [0, 3]], [[0, 5], [1, 2]], [[1, 2], [0, 5]], [[0, 1], [1, 1], [2, 0]], [[0, 1], [1, 2], [2, 3], [3, 0], [0, 4]]]
TRIS = [[[0, 1, 2]], [[0, 1, 2], [0, 2, 3]], [[2, 1, 0], [0, 2, 4], [0, 2, 3]], [[0, 2, 4], [1, 2, 3]], [[3, 1, 2], [0, 0, 1]], [[0, 1, 3], [1, 2, 3], [0, 1, 2], [3, 2, 4]]]
WEIGHTS = [None, [1, 2, 3, 4, 5], [3, 0, 1, 0.5, 0], [0.25, 8, 0, 1, 2]]


def cases(tier):
    for k, table in ((2, EDGES), (3, TRIS)):
        for t in range(len(table)):
            for dim in (2, 3):
                for w in range(len(WEIGHTS)):
                    for perm in range(1 if tier == "quick" else 4):
                        yield [k, t, dim, w, perm]


@scenario("sampling", cases, "every small polyline and mesh (zero-measure and zero-weight elements included) x weights; every draw of a lattice of 48x12(x12) answers and the extremes",
          nontrivial=lambda c: len((EDGES if c[0] == 2 else TRIS)[c[1]]) > 1)
def sampling(case, ctx):
    k, t, dim, w, perm = case
    V = np.array(P2 if dim == 2 else P3, float) * (1.0, 0.5, 16.0, 2.0 ** -20)[perm]
    F = np.array((EDGES if k == 2 else TRIS)[t])
    m = len(F)
    W = None if WEIGHTS[w] is None else np.array(WEIGHTS[w][:m], float)
    if k == 2:
        meas = np.linalg.norm(V[F[:, 1]] - V[F[:, 0]], axis=1)
    else:
        a, b = V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]
        meas = np.sqrt(np.maximum(np.sum(a * a, 1) * np.sum(b * b, 1) - np.sum(a * b, 1) ** 2, 0))
    want = meas * (1 if W is None else W)
    if want.sum() <= 0:
        ctx.outcome("no measure")
        return
    want = want / want.sum()
    NU, NR = 48, 12
    mid = (np.arange(NR) + 0.5) / NR
    U = (np.arange(NU) + 0.5) / NU
    nr = k - 1
    lat = np.array(list(itertools.product(U, *[mid] * nr)))
    ext = np.array(list(itertools.product((0.0, TOP, 0.5, 2.0 ** -30), *[(0.0, TOP, 2.0 ** -40)] * nr)))
    D = np.vstack([lat, ext])
    n = len(D)
    ctx.extra_states.update(hash((tuple(case), i)) for i in range(n))
    kw = {} if W is None else dict(per_element_likelihood=W)
    x, I, u = G.random_points_on_mesh(V, F, n, rng=Lattice(D.T), return_indices=True, **kw)
    x2 = G.random_points_on_mesh(V, F, n, rng=Lattice(D.T), **kw)
    ctx.check(np.array_equal(x, x2), "indices-option-changes-points")
    x, I, u = np.asarray(x), np.asarray(I), np.asarray(u)
    if not ctx.check(x.shape == (n, dim) and I.shape == (n,) and I.dtype.kind in "iu" and u.shape == (n, k), "shapes", lambda: f"{x.shape} {I.shape} {u.shape}"):
        return
    ctx.check(np.all(I >= 0) and np.all(I < m) and np.all(want[I] > 1e-12), "zero-measure-chosen", lambda: f"{sorted(set(I.tolist()))} {want}")
    ctx.check(np.all(u >= 0) and np.all(u <= 1) and np.all(np.abs(u.sum(axis=1) - 1) < 1e-12), "barycentric")
    ctx.check(np.all(np.abs(np.einsum("nk,nkd->nd", u, V[F[I]]) - x) <= 1e-12 * np.abs(V).max()), "reproduce")
    ctx.close(np.bincount(I[:len(lat)], minlength=m) / len(lat), want, "likelihood", tol=1.001 / NU)
    # uniform inside the element: the lattice moments of the barycentric coordinates
    for e in range(m):
        c = u[:len(lat)][I[:len(lat)] == e]
        if len(c):
            ctx.check(np.all(np.abs(c.mean(axis=0) - 1 / k) < 0.012), "uniform-mean", lambda: c.mean(axis=0))
            ctx.check(np.all(np.abs(c.T @ c / len(c) - (np.ones((k, k)) + np.eye(k)) / (k * (k + 1))) < 0.012), "uniform-second-moment", lambda: c.T @ c / len(c))
    ctx.outcome((k, t, w))


@scenario("few", lambda t: [[k, i, dim, n, r] for k, T in ((2, EDGES), (3, TRIS)) for i in range(len(T)) for dim in (2, 3) for n in (0, 1, 2) for r in (0, 1)],
          "no, one or two samples keep the documented array shapes", nontrivial=lambda c: c[3] > 0)
def few(case, ctx):
    k, t, dim, n, r = case
    V, F = np.array(P2 if dim == 2 else P3, float), np.array((EDGES if k == 2 else TRIS)[t])
    out = G.random_points_on_mesh(V, F, n, rng=Lattice(np.full((k, max(n, 1)), 0.25)), return_indices=bool(r))
    x, I, u = out if r else (out, None, None)
    ctx.check(np.shape(x) == (n, dim), "few-points-shape", lambda: np.shape(x))
    if r:
        ctx.check(np.shape(I) == (n,) and np.shape(u) == (n, k) and np.asarray(I).dtype.kind in "iu", "few-indices-shape", lambda: (np.shape(I), np.shape(u)))
        ctx.check(np.all(np.abs(np.einsum("nk,nkd->nd", u, V[F[I]]) - x) <= 1e-12), "few-reproduce")
    ctx.outcome((k, n))


def larges(tier):
    for spec in big.metric(tier):
        for w in (0, 1):
            yield ["surface", spec, w]
            yield ["polyline", spec, w]


@scenario("large", larges, "meshes and polylines of many elements: every element in proportion, over an even lattice of draws")
def large(case, ctx):
    kind, spec, w = case
    V, F = big.build(spec)
    V = np.array(V, float)
    F = np.array(F if kind == "surface" else [t[:2] for t in F], int)
    k, m = F.shape[1], len(F)
    W = np.array([(i * 7) % 5 + (i % 3 == 0) for i in range(m)], float) if w else None
    if k == 2:
        meas = np.linalg.norm(V[F[:, 1]] - V[F[:, 0]], axis=1)
    else:
        a, b = V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]
        meas = np.sqrt(np.maximum(np.sum(a * a, 1) * np.sum(b * b, 1) - np.sum(a * b, 1) ** 2, 0))
    want = meas * (1 if W is None else W)
    want = want / want.sum()
    n = 16 * m
    U = (np.arange(n) + 0.5) / n
    U = U[(np.arange(n) * 7919) % n] if n % 7919 else U
    cols = [U] + [(np.arange(n) * a % 1) for a in (0.618033988749895, 0.7548776662466927)[:k - 1]]
    kw = {} if W is None else dict(per_element_likelihood=W)
    x, I, u = G.random_points_on_mesh(V, F, n, rng=Lattice(cols), return_indices=True, **kw)
    x, I, u = np.asarray(x), np.asarray(I), np.asarray(u)
    if not ctx.check(x.shape == (n, V.shape[1]) and I.shape == (n,) and u.shape == (n, k), "shapes"):
        return
    ctx.check(np.all(I >= 0) and np.all(I < m) and np.all(want[I] > 0), "zero-measure-chosen")
    ctx.check(np.all(u >= 0) and np.all(u <= 1) and np.all(np.abs(u.sum(axis=1) - 1) < 1e-12), "barycentric")
    ctx.check(np.all(np.abs(np.einsum("nk,nkd->nd", u, V[F[I]]) - x) <= 1e-12 * np.abs(V).max()), "reproduce")
    ctx.close(np.bincount(I, minlength=m) / n, want, "likelihood", tol=1.01 / n)
    ctx.outcome((kind, w, m > 256))
