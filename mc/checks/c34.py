"""C34 Stochastic Poisson surface reconstruction against the dense formulas it implements."""
import itertools, math
import numpy as np
from scipy.ndimage import gaussian_filter
from ..core import scenario, G

PROPERTY = "C34"
ASSUMPTIONS = ["samples lie at least one cell inside the grid; at least six grid nodes per axis",
               "the mean solve is iterative: its residual is judged to the solver's relative tolerance of 1e-5, up to a constant",
               "scalar fields are numbered with x fastest, then y, then z",
               "the sampling density is the blurred (three cells) splatted point count of the paper"]
EPS = 1e-6
nodes = lambda gs: np.array([t[::-1] for t in itertools.product(*[range(n) for n in gs[::-1]])], float)


def bump(x):
    """cubic B-spline"""
    x = np.abs(x)
    return np.where(x < 1, (3 * x ** 3 - 6 * x ** 2 + 4) / 6, np.where(x < 2, (2 - x) ** 3 / 6, 0.0))


def kernel(X, Y, s):
    D = (X[:, None, :] - Y[None, :, :]) / s
    return np.prod(bump(D), axis=2) / s ** X.shape[1]


def splat(P, gs, h, corner):
    """multilinear weights"""
    W = np.zeros((len(P), int(np.prod(gs))))
    for r, p in enumerate((P - corner) / h):
        i = np.floor(p + 1e-12).astype(int)
        f = p - i
        for bits in itertools.product((0, 1), repeat=len(gs)):
            w = np.prod([f[a] if b else 1 - f[a] for a, b in enumerate(bits)])
            if abs(w) > 1e-11:
                k, st = 0, 1
                for a, b in enumerate(bits):
                    k += st * (i[a] + b)
                    st *= gs[a]
                W[r, k] += w
    return W


def gradient(gs, h):
    out = []
    X = nodes(gs)
    idx = {tuple(x): i for i, x in enumerate(X.astype(int).tolist())}
    for d in range(len(gs)):
        st = [n - (a == d) for a, n in enumerate(gs)]
        M = np.zeros((int(np.prod(st)), len(X)))
        for r, p in enumerate(nodes(st).astype(int).tolist()):
            M[r, idx[tuple(p)]] -= 1 / h[d]
            p[d] += 1
            M[r, idx[tuple(p)]] += 1 / h[d]
        out.append(M)
    return np.vstack(out)


def reference(P, N, gs, h, corner, sigma_n, sigma, variance, prior):
    dim = len(gs)
    s = 1.5 * h.min()
    g1 = [n + 1 for n in gs]
    W = splat(P, g1, h, corner - 0.5 * h)
    img = W.sum(axis=0) / np.prod(h)
    img = gaussian_filter(img.reshape(g1, order="F"), sigma=3)
    dens = W @ img.ravel(order="F")
    inv = 1 / (dens + sigma_n ** 2)
    mean, cov = [], []
    for d in range(dim):
        st = [n - (a == d) for a, n in enumerate(gs)]
        X = nodes(st) * h + corner
        X[:, d] += h[d] / 2
        k2 = kernel(P, X, s)
        if prior is None:
            mean.append(k2.T @ (inv * N[:, d]))
        else:
            mean.append(prior(X)[:, d] + k2.T @ (inv * (N[:, d] - prior(P)[:, d])))
        if variance:
            cov.append(sigma ** 2 * (kernel(X, X, s) - k2.T @ (inv[:, None] * k2)))
    Gr = gradient(gs, h)
    b = Gr.T @ np.concatenate(mean)
    L = Gr.T @ Gr
    var = None
    if variance:
        k = sum(map(len, cov))
        C = np.zeros((k, k))
        o = 0
        for c in cov:
            C[o:o + len(c), o:o + len(c)] = c
            o += len(c)
        w, Q = np.linalg.eigh(L)
        w = np.maximum(w, 0)
        w[0] = np.inf                   # constants are annihilated by the divergence
        T = Q @ ((Q.T @ Gr.T) / (w + EPS)[:, None])
        var = np.einsum("ij,jk,ik->i", T, C, T)
        var = var - var.min() + sigma_n ** 2 + EPS
    return L, b, var


OFF2 = [(0.5, 0.5), (0.25, 0.75), (0.0, 0.0), (0.5, 0.0)]
DIRS2 = [(1, 0), (0, 1), (-0.6, 0.8)]


def clouds(tier):
    """[gs, spacing kind, corner kind, points (cell + offset), normals, options]"""
    q = tier == "quick"
    cells = [(2, 3), (4, 2), (4, 4), (3, 4)]
    sizes = [[8, 8], [9, 8], [6, 7], [8, 10]] if q else [[8, 8], [9, 8], [6, 7], [7, 6], [7, 7], [6, 9], [7, 10], [8, 10], [11, 9], [8, 13]]
    for gi, gs in enumerate(sizes):
        for hk in range(3):
            for ck in range(2):
                for c in cells:
                    for oi, o in enumerate(OFF2):
                        for n in DIRS2[:: 1 if hk == 0 or not q else 2]:
                            yield [gs, hk, ck, [[c[0] + o[0], c[1] + o[1]]], [n], {}]
                for (c, d) in itertools.combinations(cells, 2):
                    for o1, o2 in ((OFF2[0], OFF2[1]), (OFF2[2], OFF2[3]), (OFF2[0], OFF2[0])):
                        yield [gs, hk, ck, [[c[0] + o1[0], c[1] + o1[1]], [d[0] + o2[0], d[1] + o2[1]]], [DIRS2[2], DIRS2[0]], {}]
    for gs in sizes[:2]:
        for hk in range(3):
            for m in (2, 5, 8):
                P = [[3.5 + 1.5 * math.cos(2 * math.pi * i / m), 3.25 + 1.25 * math.sin(2 * math.pi * i / m)] for i in range(m)]
                N = [[math.cos(2 * math.pi * i / m), math.sin(2 * math.pi * i / m)] for i in range(m)]
                for sn in (0.0, 0.5):
                    for sg in (0.05, 1.0):
                        for sub in (0, 4, 20):
                            for pr in (0, 1):
                                for ver in (0, 1):
                                    if q and (sub == 20 or ver) and hk:
                                        continue
                                    yield [gs, hk, hk % 2, P, N, dict(sn=sn, sg=sg, var=1, sub=sub, prior=pr, verbose=ver)]
    for gs in [[8, 8, 8], [6, 7, 6], [8, 8, 9]] if q else [[8, 8, 8], [6, 7, 6], [7, 6, 8], [9, 8, 8], [8, 9, 8], [8, 8, 9], [9, 10, 8]]:
        for hk in range(3):
            for P, N in (([[3.5, 3.5, 3.5]], [[0, 0, 1]]), ([[2.25, 3.0, 4.5], [4.5, 4.25, 2.5]], [[1, 0, 0], [0, -0.6, 0.8]])):
                yield [gs, hk, hk % 2, P, N, {}]
                if hk < 2:
                    yield [gs, hk, 0, P, N, dict(sn=0.25, sg=0.5, prior=1)]


def grid(case):
    gs, hk, ck, P, N, o = case
    dim = len(gs)
    h = [np.full(dim, 0.25), np.array([0.25, 0.5, 0.375][:dim]), np.array([0.5, 0.25, 0.25][:dim])][hk]
    corner = [np.zeros(dim), np.array([-3.0, 2.0, 0.5][:dim])][ck]
    return gs, h, corner, np.array(P, float) * h + corner, np.array(N, float), o


@scenario("posterior", clouds, "mean (residual of the Poisson equation with the Gaussian-process right-hand side, zero mean at the samples) and variance on "
          "small grids with known spacing, every single sample of a lattice, every pair, rings", nontrivial=lambda c: len(c[3]) > 1)
def posterior(case, ctx):
    gs, h, corner, P, N, o = grid(case)
    dim = len(gs)
    Am = np.arange(1, dim * dim + 1).reshape(dim, dim) / 8
    prior = (lambda X: np.asarray(X) @ Am + 0.5) if o.get("prior") else None
    var = bool(o.get("var"))
    kw = {}
    if o.get("sn"):
        kw["sigma_n"] = o["sn"]
    if o.get("sg"):
        kw["sigma"] = o["sg"]
    if prior:
        kw["prior_fun"] = prior
    if o.get("sub"):
        kw["solve_subspace_dim"] = o["sub"]
    if o.get("verbose"):
        kw["verbose"] = True
    L, b, v = reference(P, N, gs, h, corner, o.get("sn", 0.0), o.get("sg", 0.05), var and not o.get("sub"), prior)
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        out = G.stochastic_poisson_surface_reconstruction(P, N, gs=np.array(gs), h=h, corner=corner, output_variance=var, **kw)
    if not ctx.eq(len(out), 3 if var else 2, "results"):
        return
    m = np.ravel(np.asarray(out[0]), order="F")
    if not ctx.eq(m.shape, (int(np.prod(gs)),), "shape"):
        return
    r = L @ m + EPS * m - b
    r = r - r.mean()
    ctx.check(np.linalg.norm(r) <= 2e-5 * np.linalg.norm(b), "poisson-residual", lambda: f"{np.linalg.norm(r)} of {np.linalg.norm(b)}")
    if P.shape[0]:
        W = splat(P, gs, h, corner)
        ctx.check(abs((W @ m).mean()) <= 1e-9 * (1 + np.abs(m).max()), "zero-at-samples", lambda: str((W @ m).mean()))
    gv = out[-1]
    ctx.eq(len(gv), dim, "grid-axes")
    ax = [np.linspace(corner[a], corner[a] + (gs[a] - 1) * h[a], gs[a]) for a in range(dim)]
    for a in range(dim):
        ctx.close(np.unique(np.round(gv[a], 9)), ax[a], "grid-values", tol=1e-8)
        ctx.eq(gv[a].size, int(np.prod(gs)), "grid-size")
    if dim == 2:    # the documented plots pair the flattened meshgrid arrays with the scalars
        ctx.close(np.stack([np.ravel(x) for x in gv], axis=1), nodes(gs) * h + corner, "grid-order", tol=1e-9)
    if var:
        s = np.ravel(np.asarray(out[1]), order="F")
        low = o.get("sn", 0.0) ** 2 + EPS
        ctx.check(s.shape == m.shape and abs(s.min() - low) <= 1e-6 * (1 + low), "variance-floor", lambda: f"{s.min()} {low}")
        if v is not None:
            ctx.check(np.abs(s - v).max() <= 1e-4 * (v.max() - v.min()) + 1e-9, "variance", lambda: f"{np.abs(s - v).max()} of {v.max() - v.min()}")
        elif o["sub"] == 4:
            pass
    ctx.outcome((dim, var))


@scenario("equivariance", lambda tier: [[n, t, k] for n in (6, 12, 24) for t in range(5) for k in range(3)],
          "with the default grid: the grid encloses every sample wherever the cloud lies, results do not depend on where, nor on the storage of the input; "
          "negative inside and positive outside a sampled circle", nontrivial=lambda c: c[1] > 0)
def equivariance(case, ctx):
    n, t, k = case
    th = 2 * np.pi * np.arange(n) / n
    N = np.stack([np.cos(th), np.sin(th)], axis=1)
    base = N * [0.5, 0.75]
    Nn = N / [0.5, 0.75]
    Nn /= np.linalg.norm(Nn, axis=1)[:, None]
    shift = np.array([(0, 0), (4, 0), (-8, 2), (1, 1), (64, -32)][t], float)
    gs = np.array([(20, 20), (24, 18), (17, 30)][k])
    res = []
    for s in (np.zeros(2), shift):
        P = base + s
        m, gv = G.stochastic_poisson_surface_reconstruction(P, Nn, gs=gs.copy())
        lo, hi = np.array([x.min() for x in gv]), np.array([x.max() for x in gv])
        ctx.check(np.all(lo <= P.min(axis=0)) and np.all(hi >= P.max(axis=0)), "encloses", lambda: f"{lo} {hi} around {P.min(axis=0)} {P.max(axis=0)}")
        X = np.stack([np.ravel(x) for x in gv], axis=1) - s
        res.append((m, X))
    scale = np.abs(res[0][0]).max()
    ctx.close(res[1][1], res[0][1], "grid-moves", tol=1e-9)
    ctx.check(np.abs(res[0][0] - res[1][0]).max() <= 5e-3 * scale, "mean-moves", lambda: f"{np.abs(res[0][0] - res[1][0]).max()} of {scale}")
    if n >= 12:
        r = np.linalg.norm(res[1][1] / [0.5, 0.75], axis=1)
        m = res[1][0]
        ctx.check(np.all(m[r < 0.6] < 0) and np.all(m[r > 1.6] > 0), "inside-outside", lambda: f"{m[r < 0.6].max()} {m[r > 1.6].min()}")
    ctx.outcome(t)


RECT = [(1, 1), (1, 2), (2, 1), (3, 1)]


def placements(tier):
    pos = [(0, 0), (4, 0), (-8, 2), (1, 1), (0.5, -3), (64, -32)]
    for m in (4, 5, 9):
        for r in range(len(RECT)):
            for p in range(len(pos)):
                for k in range(4):
                    yield [m, r, p, k]
    for m in (3, 6):
        for p in range(2):
            yield [m, 1, p, 4]


@scenario("grids", placements, "every documented way to leave the grid to the function (size alone, spacing and corner alone, nothing) for clouds of every "
          "aspect and place: the returned grid is regular, has the requested size, spacing and corner, encloses every sample, and the field on it is the "
          "one the explicit call with that grid gives", nontrivial=lambda c: c[2] > 0)
def grids(case, ctx):
    m, r, p, k = case
    th = 2 * np.pi * np.arange(m) / m
    N = np.stack([np.cos(th), np.sin(th)], axis=1)
    P = N * RECT[r] * 0.5 + np.array([(0, 0), (4, 0), (-8, 2), (1, 1), (0.5, -3), (64, -32)][p], float)
    lo, hi = P.min(axis=0), P.max(axis=0)
    kw, gs = {}, None
    if k == 0:
        gs = np.array([20, 17])
        kw = dict(gs=gs)
    elif k == 1:
        gs = np.array([12, 25])
        kw = dict(gs=gs, h=np.array([0.1, 0.1])) if m % 2 else dict(gs=gs, corner=lo - 0.5)
    elif k in (2, 3):
        h = (hi - lo) / [14, 11] if k == 2 else np.full(2, (hi - lo).min() / 9)
        kw = dict(h=h, corner=lo - h * [4, 3])
    f = G.stochastic_poisson_surface_reconstruction
    if k == 1:      # half of the grid given: whatever is chosen must still be consistent
        out = f(P, N, **kw)
    else:
        out = f(P, N, **{a: b.copy() for a, b in kw.items()})
    if not ctx.eq(len(out), 2, "results"):
        return
    S, gv = np.asarray(out[0]), out[1]
    if not ctx.eq(len(gv), 2, "grid-axes"):
        return
    ax = [np.unique(np.round(x, 9)) for x in gv]
    size = np.array([len(a) for a in ax])
    want = gs if gs is not None else np.array([100, 100]) if k == 4 else None
    if want is not None:
        ctx.eq([int(x) for x in size], [int(x) for x in want], "grid-requested")
    ctx.eq(S.size, int(np.prod(size)), "size")
    hs = np.array([(a[-1] - a[0]) / (len(a) - 1) for a in ax])
    c = np.array([a[0] for a in ax])
    for a in range(2):
        ctx.close(ax[a], c[a] + hs[a] * np.arange(size[a]), "grid-regular", tol=1e-7)
    top = np.array([a[-1] for a in ax])
    ctx.check(np.all(lo >= c - 1e-9) and np.all(hi <= top + 1e-9), "grid-encloses", lambda: f"{c} {top} for {lo} {hi}")
    if k in (2, 3):
        ctx.close(c, kw["corner"], "grid-corner", tol=1e-7)
        ctx.close(hs, kw["h"], "grid-spacing", tol=1e-7)
    c2, h2 = (kw["corner"], kw["h"]) if k in (2, 3) else (c, hs)
    out2 = f(P, N, gs=size.copy(), h=np.array(h2, float), corner=np.array(c2, float))
    S2 = np.asarray(out2[0])
    ctx.check(np.ravel(S).shape == np.ravel(S2).shape and np.abs(np.ravel(S) - np.ravel(S2)).max() <= 1e-5 * np.abs(S2).max(), "same-field",
              lambda: f"{np.abs(np.ravel(S) - np.ravel(S2)).max()} of {np.abs(S2).max()}")
    ctx.outcome(k)
