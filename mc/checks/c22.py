"""C22 Primitive surfaces at every resolution."""
import itertools, math
import numpy as np
from ..core import scenario, G
from .. import mesh as M

PROPERTY = "C22"
ASSUMPTIONS = ["cone and cylinder are the open lateral surfaces with unit radius and height (as the library builds them)"]


def euler(V, F):
    E = M.edge_incidence(F)
    return len(V) - len(E) + len(F)


def surface(ctx, V, F, outward, chi, nboundary):
    V, Fl = np.asarray(V), np.asarray(F).tolist()
    ctx.check(np.all(np.isfinite(V)), "finite")
    ctx.check(sorted({v for t in Fl for v in t}) == list(range(len(V))), "vertices-used")
    D = np.linalg.norm(V[:, None] - V[None], axis=2) + np.eye(len(V)) if len(V) < 700 else None
    if D is not None:
        ctx.check(D.min() > 1e-6, "duplicate-vertices", lambda: D.min())
    N = np.cross(V[np.asarray(F)[:, 1]] - V[np.asarray(F)[:, 0]], V[np.asarray(F)[:, 2]] - V[np.asarray(F)[:, 0]])
    ctx.check(np.linalg.norm(N, axis=1).min() > 1e-9, "degenerate-face")
    ctx.check(M.is_manifold(Fl), "manifold-oriented")
    ctx.eq(euler(V, Fl), chi, "euler")
    ctx.eq(sum(len(v) == 1 for v in M.edge_incidence(Fl).values()), nboundary, "boundary-edges")
    B = V[np.asarray(F)].mean(axis=1)
    ctx.check(np.all(np.sum(N * outward(B), axis=1) > 0), "outward")


@scenario("icosphere", lambda t: [[n] for n in range(4 if t == "quick" else 5)], "every subdivision level", nontrivial=lambda c: c[0] > 0)
def icosphere(case, ctx):
    n, = case
    V, F = G.icosphere(n)
    if n == 0:
        V0, F0 = G.icosphere()
        ctx.check(np.array_equal(V0, V) and np.array_equal(F0, F), "default")
    ctx.eq((len(V), len(F)), (10 * 4 ** n + 2, 20 * 4 ** n), "counts")
    ctx.close(np.linalg.norm(V, axis=1), np.ones(len(V)), "on-sphere", tol=1e-12)
    surface(ctx, V, F, lambda B: B, 2, 0)
    L = np.concatenate([np.linalg.norm(V[F[:, i]] - V[F[:, j]], axis=1) for i, j in ((0, 1), (1, 2), (2, 0))])
    ctx.check(L.max() / L.min() < 1.35, "evenness", lambda: L.max() / L.min())
    if n == 0:
        ctx.close(L, np.full(len(L), L[0]), "equal-edges", tol=1e-9)
    ctx.outcome(n)


def res(tier):
    q = tier == "quick"
    for nx in list(range(3, 12)) + [16, 25] + ([] if q else list(range(12, 40))):
        for nz in list(range(2, 7)) + ([] if q else [8, 13]):
            yield [nx, nz]
    for nx, nz in ((3, 90), (70, 3), (140, 2), (23, 12), (280, 2)) + (() if q else ((520, 2), (3, 400), (60, 40))):
        yield [nx, nz]


@scenario("cylinder", res, "every resolution", nontrivial=lambda c: c[1] > 2)
def cylinder(case, ctx):
    nx, nz = case
    V, F = G.cylinder(nx, nz)
    ctx.eq((len(V), len(F)), (nx * nz, 2 * nx * (nz - 1)), "counts")
    ctx.close(np.linalg.norm(V[:, :2], axis=1), np.ones(len(V)), "radius", tol=1e-12)
    z = np.sort(V[:, 2].reshape(-1))
    ctx.close(z, np.repeat(np.linspace(0, 1, nz), nx), "heights", tol=1e-12)
    surface(ctx, V, F, lambda B: B * [1, 1, 0], 0, 2 * nx)
    a = np.sort(np.mod(np.round(np.arctan2(V[:, 1], V[:, 0]) / (2 * np.pi) * nx, 9), nx))
    ctx.close(a, np.repeat(np.arange(nx), nz), "even-angles", tol=1e-7)
    ctx.outcome((nx, nz))


@scenario("cone", res, "every resolution", nontrivial=lambda c: c[1] > 2)
def cone(case, ctx):
    nx, nz = case
    V, F = G.cone(nx, nz)
    ctx.eq((len(V), len(F)), (nx * (nz - 1) + 1, 2 * nx * (nz - 2) + nx), "counts")
    ctx.close(np.linalg.norm(V[:, :2], axis=1), 1 - V[:, 2], "on-cone", tol=1e-12)
    ctx.close(np.sort(V[:, 2]), np.sort(np.concatenate((np.repeat(np.linspace(0, 1, nz)[:-1], nx), [1.0]))), "heights", tol=1e-12)
    surface(ctx, V, F, lambda B: np.stack((B[:, 0], B[:, 1], 1 - B[:, 2]), 1), 1, nx)
    ctx.outcome((nx, nz))


def tori(tier):
    q = tier == "quick"
    r = list(range(3, 8)) + ([12] if q else list(range(8, 20)))
    for nR, nr in itertools.product(r, repeat=2):
        for k, (R, s) in enumerate([(None, None), (2.0, 0.25), (1.0, 0.9), (64.0, 16.0), (0.01, 0.004)]):
            if not q or k < 2 or (nR + nr) % 3 == 0:
                yield [nR, nr, R, s]
    for nR, nr in ((70, 3), (3, 70), (140, 3), (17, 18), (4, 100)) + (() if q else ((300, 3), (3, 300), (50, 45))):
        yield [nR, nr, None, None]
        yield [nR, nr, 2.0, 0.25]


@scenario("torus", tori, "every resolution, several radii", nontrivial=lambda c: c[0] != c[1])
def torus(case, ctx):
    nR, nr, R, r = case
    V, F = G.torus(nR, nr) if R is None else G.torus(nR, nr, R, r) if nR % 2 else G.torus(nR, nr, r=r, R=R)
    R, r = (1.0, 0.5) if R is None else (R, r)
    ctx.eq((len(V), len(F)), (nR * nr, 2 * nR * nr), "counts")
    d = np.linalg.norm(V[:, :2], axis=1) - R
    ctx.close(np.hypot(d, V[:, 2]) / r, np.ones(len(V)), "on-torus", tol=1e-9)
    V = V / R
    a = np.sort(np.mod(np.round(np.arctan2(V[:, 1], V[:, 0]) / (2 * np.pi) * nR, 8), nR))
    ctx.close(a, np.repeat(np.arange(nR), nr), "large-angles", tol=1e-7)
    b = np.sort(np.mod(np.round(np.arctan2(V[:, 2], np.linalg.norm(V[:, :2], axis=1) - 1) / (2 * np.pi) * nr, 8), nr))
    ctx.close(b, np.repeat(np.arange(nr), nR), "small-angles", tol=1e-7)

    surface(ctx, V, F, lambda B: np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]), 0, 0)
    P = V[np.asarray(F)]
    vol = np.sum(P[:, 0] * np.cross(P[:, 1], P[:, 2])) / 6
    ctx.check(vol > 0, "outward", lambda: vol)     # a closed, coherently oriented, embedded surface
    ctx.outcome((nR, nr))


@scenario("circle", lambda t: [[n] for n in list(range(3, 40 if t == "quick" else 200)) + [70, 140, 260, 520, 1030]], "every number of vertices")
def circle(case, ctx):
    n, = case
    V, E = G.regular_circle_polyline(n)
    ctx.eq((V.shape, E.shape), ((n, 2), (n, 2)), "shapes")
    ctx.close(np.linalg.norm(V, axis=1), np.ones(n), "on-circle", tol=1e-12)
    D = np.linalg.norm(V[:, None] - V[None], axis=2) + 9 * np.eye(n)
    ctx.check(D.min() > 1e-9, "duplicate-vertices", lambda: f"closest pair {np.unravel_index(D.argmin(), D.shape)}: {D.min()}")
    L = np.linalg.norm(V[E[:, 0]] - V[E[:, 1]], axis=1)
    ctx.close(L, np.full(n, 2 * math.sin(math.pi / n)), "regular", tol=1e-9)
    nxt = {int(a): int(b) for a, b in E}
    seen, v = [], 0
    for _ in range(n):
        seen.append(v)
        v = nxt.get(v, -1)
        if v < 0:
            break
    ctx.check(v == 0 and len(set(seen)) == n, "one-closed-loop")
    c = V[E[:, 0], 0] * V[E[:, 1], 1] - V[E[:, 0], 1] * V[E[:, 1], 0]
    ctx.check(np.all(c > 1e-9), "counter-clockwise")
    ctx.outcome(n)
