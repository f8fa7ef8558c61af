"""C21 Regular square and cube meshes and the grid neighbour table, for every small size and every option."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from ..core import scenario, G
from .. import mesh as M

PROPERTY = "C21"
ASSUMPTIONS = ["the square mesh covers [-1,1]^2 and the cube mesh [0,1]^3 (the library's conventions, used throughout its tests)",
               "neighbours of order n are the cells reachable by at most n unit steps; rows may come in any order"]


def squares(tier):
    r = range(2, 7 if tier == "quick" else 10)
    for nx in r:
        yield [nx, None]
        for ny in r:
            yield [nx, ny]
    for nx, ny in ((12, 11), (17, 9), (9, 17), (2, 140), (140, 2), (18, None)) + (() if tier == "quick" else ((40, 33), (3, 300), (300, 3))):
        yield [nx, ny]


def grid_coords(ctx, x, n, lo, hi, aspect):
    """index of every coordinate on the regular subdivision (None and a failure if it is not on it)"""
    t = (x - lo) / (hi - lo) * (n - 1)
    i = np.round(t).astype(int)
    ctx.check(np.all(np.abs(t - i) < 1e-9) and np.all(i >= 0) and np.all(i < n), aspect)
    return i


@scenario("square", squares, "triangulated square of every size", nontrivial=lambda c: c[0] != c[1])
def square(case, ctx):
    nx, ny = case
    V, F = G.regular_square_mesh(nx) if ny is None else G.regular_square_mesh(nx, ny)
    ny = nx if ny is None else ny
    V, F = np.asarray(V), np.asarray(F)
    if not ctx.check(V.shape == (nx * ny, 2) and F.shape == (2 * (nx - 1) * (ny - 1), 3), "shapes", lambda: f"{V.shape} {F.shape}"):
        return
    I = np.stack([grid_coords(ctx, V[:, 0], nx, -1, 1, "x-positions"), grid_coords(ctx, V[:, 1], ny, -1, 1, "y-positions")], 1)
    ctx.check([tuple(p) for p in I.tolist()] == [(i, j) for j in range(ny) for i in range(nx)], "vertex-numbering")
    ctx.check(sorted(set(F.ravel().tolist())) == list(range(nx * ny)), "vertices-used")
    ctx.check(M.is_manifold(F.tolist()), "manifold")
    cells = {}
    for t in F.tolist():
        p = [I[v] for v in t]
        a = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
        ctx.check(a == 1, "triangle-area", lambda: f"{t}: {a}")
        c = tuple(np.min(p, axis=0))
        ctx.check(np.all(np.max(p, axis=0) - c == 1), "one-cell")
        cells[c] = cells.get(c, 0) + 1
    ctx.check(set(cells.values()) == {2} and len(cells) == (nx - 1) * (ny - 1), "two-per-cell")
    bnd = sum(len(v) == 1 for v in M.edge_incidence(F.tolist()).values())
    ctx.eq(bnd, 2 * (nx - 1 + ny - 1), "boundary")
    ctx.outcome((nx, ny))


def cubes(tier):
    r = range(2, 4 if tier == "quick" else 6)
    for t in (None, "five", "rotationally-symmetric", "reflectionally-symmetric", "hex"):
        for n in itertools.product(r, repeat=3):
            yield [t, list(n)]
        for n in r:
            yield [t, [n]]
            for m in r:
                yield [t, [n, m]]
        for n in ([6, 5, 7], [2, 2, 70], [70, 2, 2], [2, 70, 2], [7, 8, 5]) + (() if tier == "quick" else ([11, 10, 12], [2, 3, 200], [9])):
            yield [t, n]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


@scenario("cube", cubes, "tetrahedral (all schemes) and hexahedral cube of every size", nontrivial=lambda c: len(set(c[1])) > 1)
def cube(case, ctx):
    typ, n = case
    V, T = G.regular_cube_mesh(*n, **({} if typ is None else dict(type=typ)))
    n = n + [n[-1]] * (3 - len(n))
    nx, ny, nz = n
    ncell = (nx - 1) * (ny - 1) * (nz - 1)
    per = {None: 6, "five": 5, "hex": 1}.get(typ, 6)
    V, T = np.asarray(V), np.asarray(T)
    if not ctx.check(V.shape == (nx * ny * nz, 3) and T.shape == (per * ncell, 8 if typ == "hex" else 4), "shapes", lambda: f"{V.shape} {T.shape}"):
        return
    I = np.stack([grid_coords(ctx, V[:, d], n[d], 0, 1, "positions") for d in range(3)], 1)
    ctx.check(len({tuple(p) for p in I.tolist()}) == nx * ny * nz, "distinct-vertices")
    ctx.check(sorted(set(T.ravel().tolist())) == list(range(nx * ny * nz)), "vertices-used")
    cells = {}
    if typ == "hex":
        # polyscope order: bottom ring, top ring, both counter-clockwise
        want = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
        faces = {}
        for h in T.tolist():
            p = I[h]
            c = p.min(axis=0)
            d = [tuple(x) for x in (p - c).tolist()]
            ctx.check(sorted(d) == sorted(want), "hex-corners")
            # a valid numbering: bottom ring, then the ring above it, right-handed
            e = p[1] - p[0], p[3] - p[0], p[4] - p[0]
            ctx.check(det3(*[x.tolist() for x in e]) == 1, "hex-orientation", lambda: d)
            for k in range(4):
                ctx.check(np.abs(p[k] - p[(k + 1) % 4]).sum() == 1 and np.abs(p[k + 4] - p[(k + 1) % 4 + 4]).sum() == 1
                          and (p[k + 4] - p[k]).tolist() == e[2].tolist(), "hex-rings", lambda: d)
            cells[tuple(c)] = cells.get(tuple(c), 0) + 1
        ctx.check(set(cells.values()) == {1} and len(cells) == ncell, "one-hex-per-cell")
        ctx.outcome((typ, tuple(n)))
        return
    vol, faces = {}, {}
    for t in T.tolist():
        p = I[t]
        c = p.min(axis=0)
        ctx.check(np.all(p.max(axis=0) - c == 1), "one-cell")
        v = det3(*[(p[k] - p[0]).tolist() for k in (1, 2, 3)])
        ctx.check(v > 0, "orientation", lambda: f"{t}: {v}")
        vol[tuple(c)] = vol.get(tuple(c), 0) + v
        cells[tuple(c)] = cells.get(tuple(c), 0) + 1
        for k in range(4):
            f = tuple(sorted(t[:k] + t[k + 1:]))
            faces[f] = faces.get(f, 0) + 1
    ctx.check(len(cells) == ncell and set(cells.values()) == {per} and set(vol.values()) == {6}, "cell-volume", lambda: vol)
    ctx.check(max(faces.values()) <= 2, "face-shared-twice")
    open_ = []
    for f, k in faces.items():
        if k == 1:
            p = I[list(f)]
            if not any(np.all(p[:, d] == e) for d in range(3) for e in (0, n[d] - 1)):
                open_.append(f)
    if typ == "five":
        # one five-tet cube cannot match its translate: the scheme conforms inside each cell only
        ctx.check(all(len({tuple(x) for x in I[list(f)].tolist()}) == 3 for f in open_), "faces")
    else:
        ctx.check(not open_, "conforming", lambda: open_[:4])
    ctx.outcome((typ, tuple(n)))


def neigh(tier):
    q = tier == "quick"
    for gs in itertools.product(range(1, 6), repeat=2):
        for order in (1, 2, 3):
            for o in itertools.product((0, 1), repeat=3):
                yield [list(gs), order, list(o)]
    for gs in itertools.product(range(1, 4), repeat=3):
        for order in (1, 2) if q else (1, 2, 3):
            for o in itertools.product((0, 1), repeat=3):
                if order == 3 and o[0] and not o[2] or order == 2 and q and sum(gs) % 2:
                    continue
                yield [list(gs), order, list(o)]
    for gs, order in ([[12, 11], 1], [[17, 16], 2], [[2, 130], 2], [[7, 8], 4], [[9, 9], 5], [[6, 7, 5], 1], [[2, 3, 50], 1], [[5, 6, 4], 2]) + \
            (() if q else ([[40, 33], 2], [[2, 600], 3], [[15, 15], 7], [[11, 12, 9], 1], [[6, 5, 6], 3])):
        for o in ((0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
            if not (order > 3 and not o[2]):
                yield [gs, order, list(o)]
    if q:
        yield [[3, 2, 4], 3, [1, 0, 1]]
        yield [[2, 3, 4], 3, [0, 0, 1]]


@scenario("neighbours", neigh, "neighbour table of every small grid, every option and order", nontrivial=lambda c: c[0] != [1] * len(c[0]))
def neighbours(case, ctx):
    gs, order, (diag, self_, uniq) = case
    dim = len(gs)
    N = G.grid_neighbors(np.array(gs), order=order, include_diagonals=bool(diag), include_self=bool(self_), output_unique=bool(uniq))
    n = int(np.prod(gs))
    if not ctx.check(N.ndim == 2 and N.shape[1] == n, "shape", lambda: N.shape):
        return
    step = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d) and (diag or sum(map(abs, d)) == 1)]
    reach = set(step) | ({(0,) * dim} if self_ else set())
    base = set(reach)
    for _ in range(order - 1):
        reach |= {tuple(a + b for a, b in zip(x, y)) for x in reach for y in base}
    cells = [tuple(reversed(t)) for t in itertools.product(*[range(k) for k in reversed(gs)])]
    idx = {c: i for i, c in enumerate(cells)}
    for i, c in enumerate(cells):
        want = sorted(idx[t] for t in (tuple(a + b for a, b in zip(c, d)) for d in reach) if t in idx)
        col = [int(x) for x in N[:, i]]
        got = [x for x in col if x >= 0]
        if uniq or order == 1:
            if not ctx.check(sorted(got) == want, "cells", lambda: f"cell {c}: got {sorted(got)}, want {want}"):
                return
            ctx.check(len(col) == len(reach) and all(x == -1 for x in col if x < 0), "markers", lambda: f"cell {c}: {col}")
        else:
            if not ctx.check(set(got) == set(want), "cells", lambda: f"cell {c}: got {sorted(set(got))}, want {want}"):
                return
            ctx.check(all(x == -1 for x in col if x < 0), "markers")
    # every row is one fixed offset
    if uniq or order == 1:
        for r in range(N.shape[0]):
            offs = {tuple(a - b for a, b in zip(cells[N[r, i]], c)) for i, c in enumerate(cells) if N[r, i] >= 0}
            ctx.check(len(offs) <= 1, "row-offset", lambda: f"row {r}: {offs}")
    ctx.outcome((dim, order, diag, self_, uniq))
