"""C12 queries on every tree reached by bounded subdivision histories."""
import itertools
import numpy as np
from ..core import scenario, G
from .. import quad as Q
from .c11 import cloud

PROPERTY = "C12"
ASSUMPTIONS = ["a point on a face shared by several leaves may be reported in any of them",
               "node numbering and corner order within an element are the implementation's choice (corners compared as sets)"]
BOX = {2: ((1.0, -2.0), 8.0), 3: ((0.0, 1.0, -1.0), 4.0)}


def trees(tier):
    """all histories as sequences of choices among the sorted leaves"""
    q = tier == "quick"
    for dim, n in ((2, 3 if q else 4), (3, 2 if q else 3)):
        for graded in (0, 1):
            for k in range(n + 1):
                opts = [range(1 + (2 ** dim - 1) * i) for i in range(k)]
                for ch in itertools.product(*opts):
                    yield [dim, graded, list(ch)]
    # deep graded / ungraded trees by repeatedly refining next to the centre or a corner
    for graded in (0, 1):
        for ch in itertools.product((0, 3, 6), repeat=5 if q else 7):
            yield [2, graded, list(ch)]
    # long chains into one corner: cells of very different sizes side by side
    for graded in (0, 1):
        for c in (0, -1):
            for k in (7, 8, 9):
                yield [2, graded, [c] * k]
            if not graded or not q:
                yield [3, graded, [c] * (7 if not graded else 4)]
    for graded in (0, 1):
        yield [3, graded, [0, 0, 7]]
        yield [3, graded, [0, 7, 14]]


def build(dim, graded, ch):
    C0, W0 = BOX[dim]
    if isinstance(ch, dict):
        lo = np.array(C0) - W0 / 2
        P = np.array(cloud(ch["points"], dim)) / 4 * W0 + lo
        tab = G.initialize_quadtree(P, max_depth=ch["depth"], min_depth=ch["least"], graded=bool(graded), vmin=lo, vmax=lo + W0)
        T, todo = {Q.root(dim)}, [Q.root(dim)]
        while todo:
            c = todo.pop()
            ctr, w = Q.centre_width(c, C0, W0)
            if c[0] < ch["depth"] and (c[0] < ch["least"] or np.any(np.all(np.abs(P - ctr) <= w / 2, axis=1))):
                T.update(Q.children(c))
                todo += Q.children(c)
        return tab, Q.balance(T) if graded else T, C0, W0
    tab, T = Q.start(dim, C0, W0), {Q.root(dim)}
    for c in ch:
        L = sorted(Q.leaves(T), key=lambda x: (Q.ibox(x)[0], x))
        c = L[c % len(L)]
        C = np.asarray(tab[0])
        ctr, w = Q.centre_width(c, C0, W0)
        row = [i for i in range(len(C)) if tab[1][i] == w and np.allclose(C[i], ctr)]
        tab = G.subdivide_quad(row[0], *tab, bool(graded))
        T = Q.subdivide(T, c, bool(graded))
    return tab, T, C0, W0


@scenario("queries", trees, "point location on a lattice finer than the leaves (plus outside points), leaf list, boundary lists, extracted mesh",
          nontrivial=lambda c: len(c[2]) > 1)
def queries(case, ctx):
    dim, graded, ch = case
    tab, T, C0, W0 = build(dim, graded, ch)
    row = Q.check_tables(tab, T, dim, C0, W0, ctx, adj=False)
    if row is None:
        return
    cells = sorted(row, key=row.get)
    C, W, CH, PAR, D, A = tab
    L = Q.leaves(T)
    ctx.outcome((dim, graded, len(L)))
    # leaf list
    ctx.eq(sorted(int(x) for x in G.quadtree_children(CH)), sorted(row[c] for c in L), "leaves")
    # boundary
    top = 1 << Q.RES
    touch = {row[c] for c in cells if any(x == 0 or x + Q.ibox(c)[1] == top for x in Q.ibox(c)[0])}
    bc, ba = G.quadtree_boundary(CH, A)
    ctx.eq(sorted(int(x) for x in ba), sorted(touch), "boundary-cells")
    ctx.eq(sorted(int(x) for x in bc), sorted(touch & {row[c] for c in L}), "boundary-leaves")
    # point location: 3 points per smallest leaf and axis, incl. the faces, plus outside
    lo = np.array(C0) - W0 / 2
    dmax = max(c[0] for c in L)
    n = min(2 ** (dmax - 1) * 2, 16 if dim == 2 else 8)
    if dim == 3:
        n = min(n, 4)
    ticks = [k / n for k in range(n + 1)] + [0.3125, -0.125, 1.0625]
    boxes = {i: (np.array(Q.ibox(c)[0]) / top, (np.array(Q.ibox(c)[0]) + Q.ibox(c)[1]) / top) for c, i in row.items()}
    leafrows = {row[c] for c in L}
    for t in itertools.product(ticks, repeat=dim):
        p = lo + np.array(t) * W0
        got, others = G.in_quadtree(p, C, W, CH)
        others = [int(o) for o in others]
        inside = [i for i, (a, b) in boxes.items() if np.all(a <= t) and np.all(np.array(t) <= b)]
        if not inside:
            ctx.check(got == -1 and others == [], "outside", lambda: f"{t}: {got} {others}")
            continue
        if not ctx.check(got in leafrows and got in inside, "leaf-of-point", lambda: f"{t}: {got}"):
            continue
        anc = set()
        c = cells[got]
        while c[0] > 1:
            c = Q.parent(c)
            anc.add(row[c])
        ctx.check(anc <= set(others) <= set(inside) and len(set(others)) == len(others), "containing-cells", lambda: f"{t}: {others}")
    # mesh
    V, Qf, H = G.bad_quad_mesh_from_quadtree(C, W, CH)
    V = np.asarray(V)
    X = (V - lo) / W0 * 2 ** (dmax - 1)
    Xi = np.rint(X).astype(int)
    ctx.check(np.abs(X - Xi).max() < 1e-9, "mesh-vertices")
    key = [tuple(x) for x in Xi.tolist()]
    ctx.check(len(set(key)) == len(key), "mesh-duplicate-vertices")
    want = []
    for c in L:
        a = np.array(Q.ibox(c)[0]) * 2 ** (dmax - 1) // top
        s = Q.ibox(c)[1] * 2 ** (dmax - 1) // top
        want.append(frozenset(tuple(int(v) for v in a + s * np.array(b)) for b in itertools.product((0, 1), repeat=dim)))
    E = np.asarray(Qf if dim == 2 else H)
    if not ctx.check(E.shape == (len(L), 2 ** dim), "mesh-elements", lambda: E.shape):
        return
    got = [frozenset(key[v] for v in e) for e in E.tolist()]
    ctx.check(sorted(map(sorted, got)) == sorted(map(sorted, want)), "mesh-corners")
    ctx.eq(set(key), set().union(*want), "mesh-vertex-set")
    quads = np.asarray(Qf).tolist()
    for qd in quads:      # consecutive corners differ along exactly one axis: a proper (non self-crossing) quad
        for i in range(4):
            diff = sum(x != y for x, y in zip(key[qd[i]], key[qd[(i + 1) % 4]]))
            ctx.check(diff == 1, "quad-order", lambda: qd)
    if dim == 2:
        ctx.check(H is None or np.size(H) == 0, "no-hexahedra-in-2d", lambda: np.shape(H))
    else:
        faces = sorted(tuple(sorted(key[v] for v in qd)) for qd in quads)
        w = []
        for s in want:
            for k in range(3):
                for v in (min(x[k] for x in s), max(x[k] for x in s)):
                    w.append(tuple(sorted(x for x in s if x[k] == v)))
        ctx.check(faces == sorted(w), "hex-faces")


@scenario("large", lambda tier: [[dim, g, dict(points=n, depth=mx, least=mn)] for dim, n, mx, mn in ((2, 20, 6, 1), (2, 60, 5, 2), (2, 3, 5, 5), (3, 3, 4, 4), (3, 5, 5, 1)) for g in (0, 1)
                                 if tier != "quick" or dim == 2 or n == 5], "the same queries on trees of hundreds of cells", nontrivial=lambda c: c[1] > 0)
def large(case, ctx):
    queries(case, ctx)
