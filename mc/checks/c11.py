"""C11 all bounded subdivision histories of quadtrees and octrees, explored as an explicit state space on the real code."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import quad as Q

PROPERTY = "C11"
ASSUMPTIONS = ["graded histories start from a graded tree", "adjacent means sharing a face portion (not only a corner or edge)"]
ROOTS = {2: [((0.0, 0.0), 4.0), ((1.5, -3.25), 0.5)], 3: [((0.0, 0.0, 0.0), 2.0), ((-1.0, 0.75, 8.0), 16.0)]}


def depth_of(tier, dim):
    return {(2, "quick"): 5, (2, "thorough"): 6, (3, "quick"): 3, (3, "thorough"): 4}[dim, tier]


def prefixes(tier):
    for dim in (2, 3):
        for graded in (False, True):
            for r in range(2):
                n = depth_of(tier, dim) - (1 if r else 0)
                for a in range(2 ** dim):
                    # children of the root, in sorted order; the third choice is split into cases in 2D
                    for b in range(3 * 2 ** dim if n > 2 else 1):
                        yield [dim, int(graded), r, a, b, n]


def explore(tab, T, dim, graded, C0, W0, left, ctx, first=None):
    """All continuations of one state by at most `left` subdivisions; `first` fixes the first choices."""
    row = Q.check_tables(tab, T, dim, C0, W0, ctx)
    ctx.state((dim, graded, W0, tuple(sorted(row, key=row.get)) if row else None))
    if row is None or ctx.fails:
        return
    if graded:
        L = Q.leaves(T)
        A = Q.adjacency(L)
        d = np.array([c[0] for c in L])
        ctx.check(all(abs(d[i] - d[j]) <= 1 for i, j in zip(*np.nonzero(A))), "grading")
    if left == 0:
        return
    L = sorted(Q.leaves(T))
    if first:
        if first[0] >= len(L):
            return
        L = [L[first[0]]]
        first = first[1:]
    before = [np.array(x, copy=True) for x in tab[:5]] + [tab[5].toarray()]
    for c in L:
        new = G.subdivide_quad(row[c], *tab, graded)
        ctx.check(all(np.array_equal(a, b.toarray() if hasattr(b, "toarray") else b) for a, b in zip(before, tab)), "input-tree-changed")
        explore(new, Q.subdivide(T, c, graded), dim, graded, C0, W0, left - 1, ctx, first)
        if ctx.fails:
            return


@scenario("histories", prefixes, "every sequence of leaf subdivisions of bounded length from the root, graded and ungraded, 2D and 3D; "
          "the complete tables are compared with the reference tree after every step", nontrivial=lambda c: True)
def histories(case, ctx):
    dim, graded, r, a, b, n = case
    C0, W0 = ROOTS[dim][r]
    tab = Q.start(dim, C0, W0)
    explore(tab, {Q.root(dim)}, dim, bool(graded), C0, W0, n, ctx, [0, a, b] if n > 2 else [0, a])
    ctx.outcome((dim, graded, len(ctx.extra_states) > 0))


def zigzag(tier):
    """long, narrow histories: always refine the leaf containing a moving target (deep trees, long cascades)"""
    steps = 6 if tier == "quick" else 9
    ts = [(0.49, 0.49), (0.51, 0.49), (0.25, 0.75), (0.01, 0.5), (0.34, 0.66), (0.999, 0.001)]
    for graded in (0, 1):
        for pat in itertools.product(range(len(ts)), repeat=2 if tier == "quick" else 3):
            yield [2, graded, [list(ts[i]) for i in pat], steps]
    ts = [(0.49, 0.49, 0.49), (0.51, 0.26, 0.99), (0.1, 0.5, 0.74)]
    for graded in (0, 1):
        for pat in itertools.product(range(len(ts)), repeat=2):
            yield [3, graded, [list(ts[i]) for i in pat], 3 if tier == "quick" else 5]


@scenario("deep-histories", zigzag, "alternating refinement towards every tuple of target points: deep trees and long grading cascades")
def deep(case, ctx):
    dim, graded, targets, steps = case
    C0, W0 = ROOTS[dim][0]
    tab, T = Q.start(dim, C0, W0), {Q.root(dim)}
    for s in range(steps):
        row = Q.check_tables(tab, T, dim, C0, W0, ctx)
        ctx.state((dim, graded, len(T), s, tuple(map(tuple, targets))))
        if row is None or ctx.fails:
            return
        t = targets[s % len(targets)]
        best = [c for c in Q.leaves(T) if all(x <= v * 2 ** (c[0] - 1) < x + 1 for x, v in zip(c[1:], t))]
        tab = G.subdivide_quad(row[best[0]], *tab, bool(graded))
        T = Q.subdivide(T, best[0], bool(graded))
    Q.check_tables(tab, T, dim, C0, W0, ctx)
    ctx.outcome((dim, graded, len(T)))


def clouds(tier):
    q = tier == "quick"
    pts = list(itertools.product((0, 1, 3, 4), repeat=2)) if q else list(itertools.product(range(5), repeat=2))
    for k in (1, 2, 3):
        if k == 3 and q:
            it = itertools.combinations(pts[::2], 3)
        else:
            it = itertools.combinations(pts, k)
        for P in it:
            for graded in (0, 1):
                for mx, mn in ((1, 1), (2, 1), (3, 2), (4, 1)) if k < 3 else ((4, 1),):
                    yield [[list(p) for p in P], mx, mn, graded, 1]
    for P in itertools.combinations(pts, 2):       # bounding box taken from the cloud itself
        if P[0] != P[1]:
            for graded in (0, 1):
                yield [[list(p) for p in P], 4, 1, graded, 0]
    p3 = list(itertools.product((0, 1, 4), repeat=3))
    for k in (1, 2):
        for i, P in enumerate(itertools.combinations(p3, k)):
            if q and k == 2 and i % 8:
                continue
            for graded in (0, 1):
                yield [[list(p) for p in P], 3, 1, graded, 1]
    yield [[[1, 1]], 3, 3, 0, 1]
    yield [[[1, 1, 2]], 3, 3, 0, 1]
    yield [[[9, 9]], 4, 1, 1, 1]       # outside the box


@scenario("from-points", clouds, "every placement of up to three lattice points (incl. cell corners/edges), every depth bound",
          nontrivial=lambda c: c[1] > 1)
def from_points(case, ctx):
    P, mx, mn, graded, box = case
    dim = len(P[0])
    Pa = np.array(P, float)
    if box:
        lo, hi = np.zeros(dim), np.full(dim, 4.0)
        if dim == 2 and len(P) == 1:
            hi = np.array([4.0, 3.0])        # the root cell is the square around the box centre
    else:
        lo, hi = Pa.min(axis=0), Pa.max(axis=0)
    C0, W0 = tuple((lo + hi) / 2), float(np.max(hi - lo))
    kw = dict(vmin=lo, vmax=hi) if box else {}
    tab = G.initialize_quadtree(Pa.copy(), max_depth=mx, min_depth=mn, graded=bool(graded), **kw)
    T = {Q.root(dim)}
    todo = [Q.root(dim)]
    while todo:
        c = todo.pop()
        ctr, w = Q.centre_width(c, C0, W0)
        holds = any(all(abs(p[k] - ctr[k]) <= w / 2 for k in range(dim)) for p in P)
        if c[0] < mx and (holds or c[0] < mn):
            T.update(Q.children(c))
            todo += Q.children(c)
    if graded:
        T = Q.balance(T)
    Q.check_tables(tab, T, dim, C0, W0, ctx)
    ctx.outcome((dim, len(T)))


def cloud(n, dim):
    """n points off the cell boundaries of every tree of the bound, in a fixed low-discrepancy order"""
    return [[((i * (37, 23, 11)[k] + 5 * k) % 64 + 0.5 + 0.25 * (i % 2)) / 16 for k in range(dim)] for i in range(n)]


def large_cases(tier):
    for graded in (0, 1):
        yield [2, 20, 7, 1, graded]
        yield [2, 60, 6, 2, graded]
        yield [2, 3, 5, 5, graded]
        yield [3, 3, 4, 4, graded]
        yield [3, 9, 5, 1, graded]
        if tier != "quick":
            yield [2, 60, 8, 1, graded]
            yield [2, 5, 6, 6, graded]
            yield [3, 12, 6 - graded, 2, graded]


@scenario("many-points", large_cases, "trees of hundreds of cells built from many points, and uniform ones", nontrivial=lambda c: c[4] > 0)
def many_points(case, ctx):
    dim, n, mx, mn, graded = case
    if dim == 2 and n == 1:
        return
    from_points([cloud(n, dim), mx, mn, graded, 1], ctx)
