"""Reference model of quadtrees/octrees: a tree is a set of cells (depth, ix, iy[, iz]); depth starts at 1 (root)."""
import itertools
import numpy as np

RES = 20          # the root is 2**RES units wide in the integer picture


def root(dim):
    return (1,) + (0,) * dim


def children(c):
    d, xs = c[0], c[1:]
    return [(d + 1,) + tuple(2 * x + b for x, b in zip(xs, bs)) for bs in itertools.product((0, 1), repeat=len(xs))]


def parent(c):
    return (c[0] - 1,) + tuple(x // 2 for x in c[1:])


def leaves(T):
    return [c for c in T if children(c)[0] not in T]


def ibox(c):
    s = 1 << (RES - c[0] + 1)
    return [x * s for x in c[1:]], s


def centre_width(c, C0, W0):
    w = W0 / 2 ** (c[0] - 1)
    return tuple(C0[k] - W0 / 2 + (c[1 + k] + 0.5) * w for k in range(len(c) - 1)), w


def adjacency(cells):
    """Direction matrix over a list of cells: A[i,j]=a when j lies in the a-th direction of i (faces touch)."""
    n = len(cells)
    dim = len(cells[0]) - 1
    lo = np.array([ibox(c)[0] for c in cells], dtype=np.int64)
    hi = lo + np.array([ibox(c)[1] for c in cells], dtype=np.int64)[:, None]
    A = np.zeros((n, n), dtype=int)
    over = [(np.minimum(hi[:, None, k], hi[None, :, k]) - np.maximum(lo[:, None, k], lo[None, :, k])) > 0 for k in range(dim)]
    for k in range(dim):
        others = np.ones((n, n), bool)
        for q in range(dim):
            if q != k:
                others &= over[q]
        A[(lo[:, None, k] == hi[None, :, k]) & others] = 2 * k + 1      # j ends where i begins: left / bottom / back
        A[(hi[:, None, k] == lo[None, :, k]) & others] = 2 * k + 2
    return A


def balance(T):
    """the smallest graded refinement of T (face-adjacent leaves differ by at most one level)"""
    T = set(T)
    while True:
        L = leaves(T)
        A = adjacency(L)
        d = np.array([c[0] for c in L])
        bad = sorted({int(i) for i, j in zip(*np.nonzero(A)) if d[j] - d[i] > 1})
        if not bad:
            return T
        for i in bad:
            T.update(children(L[i]))


def subdivide(T, c, graded):
    T = set(T)
    T.update(children(c))
    return balance(T) if graded else T


def start(dim, C0, W0):
    from scipy.sparse import csr_matrix
    return (np.array([C0], float), np.array([W0], float), -np.ones((1, 2 ** dim), int), np.array([-1]), np.array([1]), csr_matrix((1, 1)))


def read(tab, dim, C0, W0, ctx):
    """Cells of the implementation's tables, row by row (None and a failure when a row is not a cell)."""
    C, W, CH, PAR, D, A = tab
    n = len(C)
    if not ctx.check(all(len(x) == n for x in (W, CH, PAR, D)) and A.shape == (n, n) and CH.shape == (n, 2 ** dim), "table-sizes"):
        return None
    cells = []
    for i in range(n):
        d = int(D[i])
        w = W0 / 2.0 ** (d - 1)
        if not ctx.check(d >= 1 and W[i] == w, "width-depth", lambda: f"cell {i}: width {W[i]} at depth {d}"):
            return None
        x = [(C[i, k] - (C0[k] - W0 / 2)) / w - 0.5 for k in range(dim)]
        xi = [int(round(v)) for v in x]
        if not ctx.check(all(abs(a - b) < 1e-9 and 0 <= b < 2 ** (d - 1) for a, b in zip(x, xi)), "centre", lambda: f"cell {i}: {C[i]}"):
            return None
        cells.append((d,) + tuple(xi))
    return cells


def check_tables(tab, T, dim, C0, W0, ctx, adj=True):
    """The implementation's tables describe exactly the tree T; returns cell -> row or None."""
    cells = read(tab, dim, C0, W0, ctx)
    if cells is None:
        return None
    C, W, CH, PAR, D, A = tab
    row = {c: i for i, c in enumerate(cells)}
    if not ctx.check(len(row) == len(cells), "cell-listed-twice"):
        return None
    if not ctx.check(set(row) == set(T), "cells", lambda: f"extra {sorted(set(row) - set(T))[:4]} missing {sorted(set(T) - set(row))[:4]}"):
        return None
    for i, c in enumerate(cells):
        ch = children(c)
        if ch[0] in row:
            ctx.check(sorted(CH[i].tolist()) == sorted(row[x] for x in ch), "children", lambda: f"cell {c}: {CH[i]}")
        else:
            ctx.check(np.all(CH[i] == -1), "leaf-children", lambda: f"cell {c}: {CH[i]}")
        ctx.check(PAR[i] == (row[parent(c)] if c[0] > 1 else -1), "parent", lambda: f"cell {c}: {PAR[i]}")
    if adj:
        got, want = A.toarray(), adjacency(cells)
        ctx.check(np.array_equal(got, want), "adjacency", lambda: "; ".join(
            f"{cells[i]}->{cells[j]} is {got[i, j]} not {want[i, j]}" for i, j in list(zip(*np.nonzero(got != want)))[:3]))
    return row
