"""C14 AABB trees of every small element list, and every answer sequence of the traversal callback."""
import itertools
import numpy as np
from .. import big
from ..core import scenario, G

PROPERTY = "C14"
ASSUMPTIONS = ["the root box covers all vertices passed in (referenced or not); exact boxes are judged for every other node, and for "
               "the root when all vertices are referenced", "traversal starts at node 0"]


def inputs(tier):
    q = tier == "quick"
    g = [(0, 0), (2, 0), (0, 1), (2, 1), (5, 3)] if q else [(0, 0), (2, 0), (0, 1), (2, 1), (5, 3), (-1, 4)]
    for n in (1, 2, 3, 4):
        for P in itertools.product(g, repeat=n):
            yield [list(map(list, P)), None, 0]
    for n in (5, 6) if q else (5, 6, 7):
        for P in itertools.combinations_with_replacement(g, n):
            yield [list(map(list, P)), None, 0]
    g3 = list(itertools.product((0, 1), repeat=3)) + [(3, 1, 2)]
    for n in (2, 3):
        for P in itertools.product(g3, repeat=n):
            yield [list(map(list, P)), None, 0]
    P = [[0, 0], [2, 1], [1, 3], [4, 1]]
    es = list(itertools.permutations(range(4), 2))
    for n in (1, 2, 3):
        for E in itertools.product(es, repeat=n):
            yield [P, list(map(list, E)), 0]
    P = [[0, 0, 0], [3, 0, 1], [0, 4, 0], [1, 1, 5], [-2, 1, -3]]
    T = list(itertools.combinations(range(5), 3))
    for n in (1, 2, 3, 4):
        for F in (itertools.product(T, repeat=n) if n < 4 else itertools.combinations_with_replacement(T, n)):
            yield [P, list(map(list, F)), 0]
    # triangles in the plane and tetrahedra: more corners than dimensions, the extreme corner in every position
    P2 = [[0, 0], [4, 1], [1, 5], [-3, 2], [2, -4]]
    T2 = [t for c in itertools.combinations(range(5), 3) for t in itertools.permutations(c)]
    for F in itertools.product(T2, repeat=2):
        yield [P2, list(map(list, F)), 0]
    P3 = [[0, 0, 0], [3, 0, 1], [0, 4, 0], [1, 1, 5], [-2, 1, -3], [6, 6, 6]]
    T3 = [t for c in itertools.combinations(range(6), 4) for t in (c, c[1:] + c[:1], c[2:] + c[:2], c[3:] + c[:3])]
    for n in (1, 2) if q else (1, 2, 3):
        for F in itertools.product(T3, repeat=n):
            yield [P3, list(map(list, F)), 0]
    # far from the origin, tiny and huge
    for s in (1, 2, 3, 4, 5):
        for n in (1, 2, 3, 4):
            for Q in itertools.combinations_with_replacement(g, n):
                yield [list(map(list, Q)), None, s]
        for F in itertools.combinations(T, 3):
            yield [P, list(map(list, F)), s]


PLACE = [(1.0, 0.0), (1.0, 65536.0), (1.0, -65536.0), (2.0 ** -20, 0.0), (2.0 ** 30, 0.0), (4096.0, -8192.0)]


def check_tree(ctx, tab, V, F, root_exact, root=None):
    C, W, CH, PAR, D, tri, split = tab
    tri = np.asarray(tri).reshape(-1)
    n, m, dim = len(C), len(F), V.shape[1]
    if not ctx.check(all(len(x) == n for x in (W, CH, PAR, D, tri, split)) and CH.shape[1] == 2, "table-sizes"):
        return None
    below = {}
    # node 0 is the root, reachable nodes form a binary tree
    ctx.check(PAR[0] == -1, "root-parent")
    ctx.check(D[0] == 1, "root-depth")
    seen = []
    stack = [0]
    while stack:
        i = stack.pop()
        if not ctx.check(i not in seen, "node-twice"):
            return None
        seen.append(i)
        kids = [int(c) for c in CH[i]]
        if kids == [-1, -1]:
            ctx.check(0 <= tri[i] < m, "leaf-element", lambda: f"{i}: {tri[i]}")
            below[i] = [int(tri[i])]
        else:
            if not ctx.check(all(0 < c < n for c in kids) and kids[0] != kids[1], "children", lambda: f"{i}: {kids}"):
                return None
            ctx.check(tri[i] == -1, "inner-element", lambda: f"{i}: {tri[i]}")
            ctx.check(0 <= split[i] < dim, "split-direction")
            for c in kids:
                ctx.check(PAR[c] == i, "parent", lambda: f"{c}: {PAR[c]}")
                ctx.check(D[c] == D[i] + 1, "depth", lambda: f"{c}: {D[c]}")
            stack += kids
    ctx.check(len(seen) == n, "unreachable-nodes", lambda: f"{len(seen)} of {n}")
    for i in reversed(seen):      # children after their parent in `seen`
        if i not in below:
            below[i] = below[int(CH[i][0])] + below[int(CH[i][1])]
    ctx.check(sorted(below[0]) == list(range(m)), "elements-once", lambda: below[0])
    for i in seen:
        pts = V[np.unique(F[below[i]])]
        lo, hi = pts.min(axis=0), pts.max(axis=0)
        a, b = C[i] - W[i] / 2, C[i] + W[i] / 2
        if i == 0 and root is not None:
            lo, hi = root
        if i or root_exact or root is not None:
            ctx.close(a, lo, "box", f"node {i}")
            ctx.close(b, hi, "box", f"node {i}")
        else:
            ctx.check(np.all(a <= lo) and np.all(b >= hi), "root-box-covers")
        if CH[i][0] >= 0:
            w = hi - lo
            if i and root is None:
                ctx.check(w[split[i]] == w.max(), "split-along-longest", lambda: f"{i}: {split[i]} of {w}")
    return below


@scenario("build", inputs, "the tree of every point cloud / polyline / triangle list", nontrivial=lambda c: len(c[1] or c[0]) > 2)
def build(case, ctx):
    P, F, s = case
    sc, sh = PLACE[s]
    V = np.array(P, float) * sc + sh
    Fa = None if F is None else np.array(F, int)
    tab = G.initialize_aabbtree(V, Fa)
    F2 = np.arange(len(P))[:, None] if F is None else Fa
    below = check_tree(ctx, tab, V, F2, len(np.unique(F2)) == len(P))
    ctx.outcome((len(F2), F2.shape[1], int(tab[4].max())))
    if len(P) <= 3:
        lo, hi = V.min(axis=0) - 2 * sc, V.max(axis=0) + 3 * sc
        check_tree(ctx, G.initialize_aabbtree(V, Fa, vmin=lo, vmax=hi), V, F2, False, (lo, hi))


def larges(tier):
    for n in (130, 260, 600) if tier == "quick" else (130, 260, 600, 1100, 2100):
        for kind in ("lattice", "spiral", "repeated"):
            for dim in (2, 3):
                yield [kind, n, dim]
    for spec in big.metric(tier):
        yield ["surface", spec]


@scenario("large", larges, "trees of many elements")
def large(case, ctx):
    if case[0] == "surface":
        V, F = big.build(case[1])
        V, F = np.array(V, float), np.array(F, int)
        tab = G.initialize_aabbtree(V, F)
    else:
        kind, n, dim = case
        t = np.arange(n)
        V = {"lattice": np.stack([t * 7 % 19, t * 11 % 23, t * 5 % 17], 1),
             "spiral": np.round(64 * np.stack([t * np.cos(t / 5), t * np.sin(t / 5), t / 3.0], 1)) / 64,
             "repeated": np.stack([t % 5, t % 3, t % 4], 1)}[kind][:, :dim].astype(float)
        F = np.arange(n)[:, None]
        tab = G.initialize_aabbtree(V)
    below = check_tree(ctx, tab, V, F, len(np.unique(F)) == len(V))
    ctx.outcome((len(F) > 256, int(np.max(tab[4]))))


STRATEGIES = ["default", "front", "front-reversed", "back-reversed", "only-first", "random-access"]


def queue_fun(name):
    def f(queue, CH, q):
        a, b = int(CH[q][0]), int(CH[q][1])
        if name == "front":
            queue.insert(0, b); queue.insert(0, a)
        elif name == "front-reversed":
            queue.insert(0, a); queue.insert(0, b)
        elif name == "back-reversed":
            queue.append(b); queue.append(a)
        elif name == "only-first":
            queue.append(a)
        elif name == "random-access":
            queue.insert(len(queue) // 2, a); queue.append(b)
        else:
            queue.append(a); queue.append(b)
    return f


def traversals(tier):
    pts = [[0, 0], [5, 1], [2, 3], [7, 7], [1, 6], [4, 4], [9, 2]]
    for n in range(1, 6 if tier == "quick" else 7):
        for rot in range(n):
            for st in range(len(STRATEGIES)):
                yield [pts[rot:n] + pts[:rot], st]


@scenario("traverse", traversals, "every accept/reject answer sequence of the traversal callback under several queueing orders",
          nontrivial=lambda c: len(c[0]) > 2)
def traverse(case, ctx):
    P, st = case
    name = STRATEGIES[st]
    C, W, CH, PAR, D, tri, split = G.initialize_aabbtree(np.array(P, float))
    stack = [[]]
    runs = 0
    while stack:
        forced = stack.pop()
        log = []

        def fun(q, C_, W_, CH_, tri_, split_, leaf):
            ctx.compared += 1
            if not all(x is y or np.array_equal(x, y) for x, y in ((C_, C), (W_, W), (CH_, CH), (tri_, tri), (split_, split))):
                ctx.fail("callback-arguments", "the tables passed to the callback are not the tree's")
            ctx.check(bool(leaf) == (CH[q][0] < 0), "is-leaf")
            k = len(log)
            ans = forced[k] if k < len(forced) else True
            log.append((int(q), ans))
            return ans
        kw = {} if name == "default" else dict(add_to_queue=queue_fun(name))
        r = G.traverse_aabbtree(C, W, CH, tri, split, fun, **kw)
        ctx.check(bool(r), "success")
        # reference run with the same answers
        q, ref, add = [0], [], queue_fun(name)
        while q:
            i = q.pop(0)
            ans = forced[len(ref)] if len(ref) < len(forced) else True
            ref.append((i, ans))
            if ans and CH[i][0] >= 0:
                add(q, CH, i)
        ctx.check(log == ref, "visit-order", lambda: f"{name} {forced}: {log} expected {ref}")
        runs += 1
        ctx.state((name, len(P), tuple(log)))
        for k in range(len(forced), len(log)):       # branch on every free answer
            stack.append([a for _q, a in log[:k]] + [False])
        if ctx.fails:
            return
    ctx.outcome((name, len(P), runs))
