"""C35 Reach for the Spheres as a state machine: every iteration against the flow it documents.

The compiled extension (closest points, and the 3D remesher) is replaced by an enumerated environment
(mc/ext.py); everything else is the real code."""
import importlib, itertools, math, warnings
import numpy as np
from ..core import scenario
from ..ext import Env, extended

PROPERTY = "C35"
ASSUMPTIONS = ["closest points come from a reference answer, the 3D remesher from a scripted one; their compiled versions are not judged",
               "initial curves and meshes are closed, oriented outwards, or open curves",
               "tangency of the result is judged on scenes whose shape is smooth at the sampling density"]


# ------------------------------------------------------------------ environment
def closest2(V, F, P):
    A, E = V[F[:, 0]], V[F[:, 1]] - V[F[:, 0]]
    L = np.maximum((E * E).sum(1), 1e-300)
    T = np.clip(((P[:, None] - A) * E).sum(2) / L, 0, 1)
    C = A + T[..., None] * E
    D = ((P[:, None] - C) ** 2).sum(2)
    j, r = D.argmin(1), np.arange(len(P))
    return D[r, j], j, C[r, j]


def closest3(V, F, P):
    best = np.full(len(P), np.inf)
    J, C = np.zeros(len(P), int), np.zeros((len(P), 3))

    def take(c, j):
        d = ((P - c) ** 2).sum(1)
        m = d < best - 1e-15
        best[m], J[m], C[m] = d[m], j, c[m]
    for j, t in enumerate(F):
        a, b, c = V[t]
        n = np.cross(b - a, c - a)
        nn = n @ n
        q = P - ((P - a) @ n / nn)[:, None] * n
        lam = np.stack([np.cross(c - b, q - b) @ n, np.cross(a - c, q - c) @ n, np.cross(b - a, q - a) @ n], axis=1) / nn
        inside = (lam >= 0).all(1)
        e = np.full((len(P), 3), 1e9)
        e[inside] = q[inside]
        take(e, j)
        for x, y in ((a, b), (b, c), (c, a)):
            s = np.clip((P - x) @ (y - x) / ((y - x) @ (y - x)), 0, 1)
            take(x + s[:, None] * (y - x), j)
    return best, J, C


def make_env(remesher=None):
    def dist(a):
        d, j, c = (closest2 if a.V.shape[1] == 2 else closest3)(a.V, a.F, a.P)
        return d, j.astype(np.int32), c

    def rem(a):
        v, f = remesher(a) if remesher else (a.V, a.F)
        return np.array(v, float), np.array(f, np.int32)
    return Env(_point_mesh_squared_distance_cpp_impl=dist, _remesh_botsch_cpp_impl=rem)


def mod():
    return importlib.import_module("gpytoolbox.reach_for_the_spheres")


# ------------------------------------------------------------------ scenes
def ring(n, r=1.0, c=(0.0, 0.0), phase=0.0):
    t = 2 * np.pi * (np.arange(n) + phase) / n
    return np.stack([r * np.cos(t) + c[0], r * np.sin(t) + c[1]], 1), np.stack([np.arange(n), (np.arange(n) + 1) % n], 1)


def start(k):
    """initial curves"""
    if k[0] == "ring":
        return ring(k[1], k[2], phase=k[3] if len(k) > 3 else 0.0)
    if k[0] == "poly":
        V = np.array(k[1], float)
        n = len(V)
        return V, np.stack([np.arange(n), (np.arange(n) + 1) % n], 1)
    if k[0] == "open":
        V = np.array(k[1], float)
        return V, np.stack([np.arange(len(V) - 1), np.arange(1, len(V))], 1)
    if k[0] == "two":
        (V, E), (W, G) = ring(k[1], 0.5, (-0.75, 0)), ring(k[1], 0.5, (0.75, 0), 0.5)
        return np.concatenate([V, W]), np.concatenate([E, G + len(V)])
    if k[0] == "tet":
        V = np.array([[0, 0, 0], [1.5, 0, 0.25], [0, 1.25, 0], [0.25, 0, 1.0]]) - 0.375
        return V, np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]])
    if k[0] == "octa":
        V = np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1.25, 0), (0, 0, 1), (0, 0, -0.75)], float) * k[1]
        return V, np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    if k[0] == "octa2":
        V, F = start(["octa", k[1]])
        W, H = list(map(tuple, V.tolist())), []
        for t in F.tolist():
            m = []
            for a, b in ((0, 1), (1, 2), (2, 0)):
                p = tuple(((V[t[a]] + V[t[b]]) / 2 * 1.2).tolist())
                if p not in W:
                    W.append(p)
                m.append(W.index(p))
            H += [[t[0], m[0], m[2]], [t[1], m[1], m[0]], [t[2], m[2], m[1]], m]
        return np.array(W), np.array(H)
    raise KeyError(k)


def shape(k):
    """signed distances"""
    if k == "disk":
        return lambda x: np.linalg.norm(x, axis=1) - 0.5
    if k == "disk2":
        return lambda x: np.linalg.norm(x - 0.125, axis=1) - 0.625
    if k == "udisk":
        return lambda x: np.abs(np.linalg.norm(x, axis=1) - 0.5)
    if k == "box":
        return lambda x: np.linalg.norm(np.maximum(np.abs(x) - 0.5, 0), axis=1) + np.minimum(np.max(np.abs(x) - 0.5, axis=1), 0)
    if k == "pair":
        return lambda x: np.minimum(np.linalg.norm(x - np.array([0.75] + [0] * (x.shape[1] - 1)), axis=1) - 0.375,
                                    np.linalg.norm(x + np.array([0.75] + [0] * (x.shape[1] - 1)), axis=1) - 0.25)
    if k == "floor":
        return lambda x: x[:, -1] + 0.125
    if k.startswith("clamped"):
        c = float(k[7:])
        f = shape("disk2")
        return lambda x: np.clip(f(x), -c, c)
    raise KeyError(k)


def lattice(n, dim=2, jig=0):
    X = np.stack([a.ravel() for a in np.meshgrid(*[np.linspace(-1, 1, n)] * dim, indexing="ij")], 1)
    if jig:      # off the symmetry axes
        X = X * 0.9375 + np.array([0.03125, -0.046875, 0.0234375][:dim])
    return X


# ------------------------------------------------------------------ the reference flow step
def tol_of(dim, o):
    return o.get("tol", {2: 5e-3, 3: 1e-2}[dim])


def normals(V, F):
    if F.shape[1] == 2:
        e = V[F[:, 1]] - V[F[:, 0]]
        return np.stack([e[:, 1], -e[:, 0]], 1)
    return np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])


def bary(p, X):
    """of a point on the element"""
    if len(X) == 2:
        e = X[1] - X[0]
        t = (p - X[0]) @ e / (e @ e)
        return np.array([1 - t, t])
    M = np.stack([X[1] - X[0], X[2] - X[0]], 1)
    s = np.linalg.lstsq(M, p - X[0], rcond=None)[0]
    return np.array([1 - s.sum(), *s])


def flow(V, F, U, S, answer, o, mass):
    """one implicit step towards tangency; returns the new vertices, which samples are satisfied, their elements"""
    dim = V.shape[1]
    tol = tol_of(dim, o)
    d2, J, C = answer
    d = np.sqrt(d2)
    N = normals(V, F)
    A = np.zeros((len(U), len(V)))
    c = np.zeros((len(U), dim))
    ok = np.zeros(len(U), bool)
    for i in range(len(U)):
        b = bary(C[i], V[F[J[i]]])
        r = C[i] - U[i]
        if o.get("inside_outside_test", True) and not np.any(b < 1e-3):
            sg = -np.sign(r @ N[J[i]])
        else:
            sg = np.sign(S[i])
        gap = abs(S[i]) - d[i]
        ok[i] = abs(gap) < tol
        bound = abs(S[i]) == o.get("clamp", np.inf) or o.get("pseudosdf_interior") and S[i] < 0
        w = 0.0 if bound and gap < 0 else 1.0
        for q in range(F.shape[1]):
            A[i, F[J[i], q]] += w * b[q]
        c[i] = w * (U[i] + r * (sg * S[i] / max(tol / 2, d[i])))
    res = A @ V - c
    p = -A.T @ res / len(U)
    lo, hi = o.get("min_t", 1e-6), o.get("max_t", 50.0)
    if o.get("linesearch", True):
        q = ((A @ p) ** 2).sum() / len(U)
        pp = (p ** 2).sum()
        t = min(hi, max(0.99 * pp / q if q > 0 and np.isfinite(pp / q) else 0.0, lo))
    else:
        t = o.get("dt", 10.0)
    Q = mass + t * A.T @ A / len(U)
    rhs = mass @ V + t * A.T @ c / len(U)
    if o.get("fix_boundary"):
        if dim == 2:
            cnt = np.bincount(F.ravel(), minlength=len(V))
            bd = np.nonzero(cnt == 1)[0]
        else:
            bd = np.array(rim_of(F)[0], int)
        fr = np.setdiff1d(np.arange(len(V)), bd)
        W = V.copy()
        W[fr] = np.linalg.solve(Q[np.ix_(fr, fr)], rhs[fr] - Q[np.ix_(fr, bd)] @ V[bd])
    else:
        W = np.linalg.solve(Q, rhs)
    # how much the result depends on knife-edge decisions
    return W, ok, J, t


def mass_of(V, F):
    if F.shape[1] == 2:
        l = np.linalg.norm(V[F[:, 1]] - V[F[:, 0]], axis=1)
        m = np.zeros(len(V))
        np.add.at(m, F[:, 0], l / 2)
        np.add.at(m, F[:, 1], l / 2)
        return np.diag(m)
    m = np.zeros(len(V))           # mixed Voronoi areas
    for t in F:
        X = V[t]
        for i in range(3):
            a, b, c = X[i], X[(i + 1) % 3], X[(i + 2) % 3]
            area = np.linalg.norm(np.cross(b - a, c - a)) / 2
            cosn = [np.dot(X[(k + 1) % 3] - X[k], X[(k + 2) % 3] - X[k]) for k in range(3)]
            if min(cosn) < 0:
                m[t[i]] += area / (2 if cosn[i] < 0 else 4)
            else:
                cb, cc = np.dot(a - b, c - b) / (2 * area), np.dot(a - c, b - c) / (2 * area)
                m[t[i]] += (((a - b) @ (a - b)) * cc + ((a - c) @ (a - c)) * cb) / 8
    return np.diag(m)


OPTS = [{}, dict(linesearch=False), dict(linesearch=False, dt=0.5), dict(min_t=5.0), dict(max_t=0.25), dict(inside_outside_test=False), dict(tol=0.05),
        dict(clamp=0.25), dict(clamp=0.5), dict(pseudosdf_interior=True), dict(fix_boundary=True), dict(fix_boundary=True, linesearch=False, dt=2.0),
        dict(pseudosdf_interior=True, clamp=0.25)]
STARTS2 = [["ring", 3, 1.0], ["ring", 4, 0.75, 0.25], ["ring", 5, 1.0], ["ring", 8, 0.75], ["ring", 12, 0.25], ["ring", 9, 0.51],
           ["poly", [[-1, -1], [1, -1], [0.5, 0], [1, 1], [-1, 1]]], ["two", 5], ["open", [[-1, 0], [-0.25, 0.25], [0.25, -0.5], [1, 0]]],
           ["open", [[-0.75, -0.5], [0.75, 0.25]]]]
SHAPES = ["disk", "disk2", "box", "pair", "floor", "udisk", "clamped0.25", "clamped0.5"]


def flow_cases(tier):
    q = tier == "quick"
    for g, jig in ((3, 1), (4, 0), (5, 1)) if q else ((2, 1), (3, 0), (3, 1), (4, 0), (4, 1), (5, 1), (6, 0)):
        for st in STARTS2:
            for sh in SHAPES:
                for o in OPTS:
                    yield [2, st, sh, g, jig, o, 3]
    for st in (["tet"], ["octa", 0.75], ["octa2", 0.5]):
        for sh in ("disk", "disk2", "box", "clamped0.25"):
            for o in OPTS:
                for g in (3,) if q else (2, 3, 4):
                    yield [3, st, sh, g, 1, o, 2]


def scene(case_dim, st, sh, g, jig):
    V, F = start(st)
    f = shape(sh)
    U = lattice(g, case_dim, jig)
    return V, F, f, U


@scenario("flow", flow_cases, "the flow of single iterations (without remeshing) from every start, shape, sampling and option set, each step "
          "compared with the implicit step of the method; options default as documented; the state's counters", nontrivial=lambda c: bool(c[5]))
def flow_steps(case, ctx):
    dim, st, sh, g, jig, o, steps = case
    V, F, f, U = scene(dim, st, sh, g, jig)
    S = f(U)
    keep = [x.copy() for x in (V, F, U, S)]
    env = make_env()
    kw = dict(o)
    kw["output_sensitive"] = False
    if dim == 2:
        kw["remesh_iterations"] = 0
    with extended(env):
        m = mod()
        s = m.ReachForTheSpheresState(V=V, F=F, U=U, S=S if jig else None, sdf=f)
        for k in range(steps):
            V0, F0 = s.V.copy(), s.F.copy()
            n0 = len(env.calls)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ctx.transitions += 1
                done = m.reach_for_the_spheres_iteration(s, **kw)
            ask = [a for n, a in env.calls[n0:] if n == "_point_mesh_squared_distance_cpp_impl"]
            if not ctx.check(len(ask) >= 1 and np.array_equal(ask[0].V, V0) and np.array_equal(ask[0].P, U), "distance-request", "asked for something else"):
                return
            answer = (closest2 if dim == 2 else closest3)(V0, F0, U)
            want, ok, J, t = flow(V0, F0, U, S, answer, o, mass_of(V0, F0))
            L = normals(want, F0)
            if not np.all(np.isfinite(want)) or np.any((L * L).sum(1) < 1e-18):
                return
            if dim == 3:        # the remesher may renumber
                if not ctx.check(same_tris(s.V, s.F, want, F0), "step", lambda: f"step {k}, t={t}: {s.V.tolist()}, want {want.tolist()}"):
                    return
                want = s.V
            elif not ctx.check(s.V.shape == want.shape and np.array_equal(s.F, F0), "connectivity", lambda: f"step {k}: {s.F.tolist()} {F0.tolist()} {want.tolist()} {s.V.tolist()}"):
                return
            ctx.check(np.abs(s.V - want).max() <= 1e-7 * (1 + np.abs(want).max()), "step",
                      lambda: f"step {k}, t={t}: {s.V.tolist()}, want {want.tolist()}")
            ctx.check(bool(done) == bool(ok.all()), "stops", lambda: f"step {k}: {done}, satisfied {ok.tolist()}")
            ctx.eq(int(s.its), k + (0 if done else 1), "iteration-count")
            if done:
                break
        for x, y, nm in zip((V, F, U, S), keep, "VFUS"):
            ctx.check(np.array_equal(x, y), "inputs-" + nm, "changed")
    ctx.outcome((dim, bool(ok.all()), k))


def same_tris(V, F, W, H, tol=1e-6):
    """the same oriented triangles by position"""
    if len(F) != len(H):
        return False
    A, B = V[F], W[H]
    left = list(range(len(B)))
    for x in A:
        for j in left:
            if any(np.abs(np.roll(x, r, axis=0) - B[j]).max() < tol for r in range(3)):
                left.remove(j)
                break
        else:
            return False
    return True


# ------------------------------------------------------------------ whole runs
def loops(F):
    """component count of a curve; None unless every vertex has at most one edge in and one out"""
    nxt, prv = {}, {}
    for a, b in np.asarray(F).tolist():
        if a in nxt or b in prv or a == b:
            return None
        nxt[a], prv[b] = b, a
    seen, n = set(), [0, 0]
    for a in list(nxt):
        if a not in prv:
            n[1] += 1
            while a in nxt:
                seen.add(a)
                a = nxt[a]
            seen.add(a)
    for a in nxt:
        if a not in seen:
            n[0] += 1
            while a not in seen:
                seen.add(a)
                a = nxt[a]
    return tuple(n)


def shortest_loop(F):
    """edges of the smallest component"""
    lab = {v: v for v in F.ravel().tolist()}

    def root(v):
        while lab[v] != v:
            v = lab[v]
        return v
    for a, b in F.tolist():
        lab[root(a)] = root(b)
    n = {}
    for a, _ in F.tolist():
        n[root(a)] = n.get(root(a), 0) + 1
    closed = np.bincount(F.ravel()).max() >= 2 and not np.any(np.bincount(F.ravel()) == 1)
    return min(n.values()) if closed else 4


def on_curve(P, V, F):
    return np.sqrt(closest2(V, F, P)[0])


def valid2(ctx, V, F, comps, tag, where):
    good = ctx.check(np.all(np.isfinite(V)) and V.ndim == 2 and V.shape[1] == 2 and F.ndim == 2 and F.shape[1] == 2 and F.dtype.kind in "iu", tag + "-form", where)
    if not good or not ctx.check(F.min() >= 0 and F.max() < len(V) and len(np.unique(F)) == len(V), tag + "-indices", where):
        return False
    return ctx.eq(loops(F), comps, tag + "-topology", where)


RUNS = [{}, dict(output_sensitive=False), dict(feature_detection="none"), dict(feature_detection="none", output_sensitive=False), dict(linesearch=False),
        dict(remesh_iterations=2), dict(fix_boundary=True), dict(inside_outside_test=False), dict(tol=0.02), dict(batch_size=7), dict(batch_size=0)]


def run_cases(tier):
    q = tier == "quick"
    for st in STARTS2[2:]:
        for sh in SHAPES[:6]:
            # components would have to merge or vanish; a closed curve cannot become a line
            if (sh == "pair") != (st[0] == "two") or (sh == "floor") != (st[0] == "open"):
                continue
            for g in (5,) if q else (4, 5, 7):
                for o in RUNS:
                    for h in (None, 0.3) if q else (None, 0.1, 0.3, 0.7):
                        yield [st, sh, g, o, h, 10 if q else 25]


@scenario("history", run_cases, "every state of runs with remeshing: a valid curve of the same topology, its inputs untouched; the remeshed curve lies on the "
          "flowed one, satisfied stretches keep their vertices, ends of open curves keep theirs when the boundary is fixed; length targets only shrink; "
          "one call, single steps and steps resumed from a copied state agree", nontrivial=lambda c: bool(c[3]))
def history(case, ctx):
    st, sh, g, o, h, steps = case
    V, F, f, U = scene(2, st, sh, g, 1)
    comps = loops(F)
    S = f(U)
    keep = [x.copy() for x in (V, F, U, S)]
    tol = tol_of(2, o)
    env = make_env()
    ends = V[np.bincount(F.ravel()) == 1]

    def copied(m, s):
        n = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in s.__dict__.items() if k not in ("avg_error", "rng")}
        import copy
        n["rng"] = copy.deepcopy(s.rng)
        return m.ReachForTheSpheresState(**n)
    with extended(env) as lib, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = mod()
        s = m.ReachForTheSpheresState(V=V, F=F, U=U, S=S, sdf=f, **({} if h is None else dict(h=h)))
        last = None
        done = False
        for k in range(steps):
            V0, F0 = s.V.copy(), s.F.copy()
            twin, plain = copied(m, s), copied(m, s)
            n0 = len(env.calls)
            ctx.transitions += 1
            done = m.reach_for_the_spheres_iteration(s, max_iter=steps, **o)
            P = env.calls[n0][1].P
            where = f"step {k}"
            if shortest_loop(s.F) < 4 or shortest_loop(F0) < 4:
                break        # a component is about to vanish
            if not valid2(ctx, s.V, s.F, comps, "curve", where):
                return
            # resumed from a copy of the state
            again = m.reach_for_the_spheres_iteration(twin, max_iter=steps, **o)
            ctx.check(again == done and np.array_equal(twin.V, s.V) and np.array_equal(twin.F, s.F) and twin.its == s.its, "resume", where)
            # samples used
            bs = o.get("batch_size", 20000)
            if 0 < bs < len(U):
                got = sorted(map(tuple, P.tolist()))
                ins = sorted(map(tuple, U[S <= 0].tolist()))
                ctx.check(len(got) == bs + len(ins) and set(got) <= set(map(tuple, U.tolist())) and set(ins) <= set(got), "batch", where)
                rest = list(got)
                for x in ins:
                    rest.remove(x)
                ctx.check(len(set(rest)) == bs, "batch-repeats", where)
            else:
                ctx.check(np.array_equal(P, U), "samples", where)
            # without remeshing
            o0 = {x: y for x, y in o.items() if x not in ("remesh_iterations", "output_sensitive")}
            m.reach_for_the_spheres_iteration(plain, max_iter=steps, remesh_iterations=0, output_sensitive=False, **o0)
            W = plain.V
            if not done or s.its >= steps:
                if plain.its == s.its and len(plain.F) == len(F0) and s.its > k:
                    ctx.check(on_curve(s.V, W, plain.F).max() <= 1e-7, "off-curve", lambda: f"{where}: {on_curve(s.V, W, plain.F).max()}")
                    d2, J, C = closest2(V0, F0, P)
                    ok = np.abs(np.abs(np.array([S[np.nonzero((U == p).all(1))[0][0]] for p in P])) - np.sqrt(d2)) < tol
                    bad = np.unique(J[~ok])
                    if o.get("output_sensitive", True) and len(bad):
                        act = set(bad.tolist())
                        for _ in range(2):
                            vs = set(F0[sorted(act)].ravel().tolist())
                            act = {i for i, t in enumerate(F0.tolist()) if vs & set(t)}
                        still = [i for i in range(len(F0)) if i not in act]
                        have = {tuple(np.round(np.r_[s.V[a], s.V[b]], 6).tolist()) for a, b in s.F.tolist()}
                        lost = [i for i in still if not near_edge(W[F0[i]], s.V, s.F)]
                        ctx.check(not lost, "inactive-edges", lambda: f"{where}: {lost} of {still}")
                    elif not o.get("output_sensitive", True):
                        badv = set(F0[bad].ravel().tolist())
                        if o.get("feature_detection", "aggressive") == "aggressive":
                            feat = [i for i in range(len(V0)) if i not in badv]
                        else:
                            feat = sorted(set(F0[np.setdiff1d(np.arange(len(F0)), bad)].ravel().tolist()))
                        lost = [i for i in feat if np.min(np.abs(s.V - W[i]).max(1)) > 1e-7]
                        ctx.check(not lost, "features", lambda: f"{where}: {lost} of {feat}")
            if len(ends) and o.get("fix_boundary"):
                got = s.V[np.bincount(s.F.ravel(), minlength=len(s.V)) == 1]
                ctx.check(sorted(map(tuple, np.round(got, 9).tolist())) == sorted(map(tuple, np.round(ends, 9).tolist())), "boundary", lambda: f"{where}: {got.tolist()}")
            if last is not None:
                ctx.check(s.h <= last, "h-grows", where)
            ctx.check(s.h >= min(s.min_h, h or 0.1) - 1e-15, "h-floor", where)
            last = s.h
            ctx.state((tuple(np.round(s.V, 9).ravel().tolist()),))
            if done:
                break
        ctx.check(s.its <= steps, "max-iter", str(s.its))
        if h is None and (done or k == steps - 1):
            r = lib.reach_for_the_spheres(U, f, V, F, S=S, max_iter=steps, **o)
            ctx.check(len(r) == 2 and np.array_equal(r[0], s.V) and np.array_equal(r[1], s.F), "one-call", "differs from single steps")
            r = lib.reach_for_the_spheres(U, f, V, F, max_iter=steps, return_U=True, **o)
            ctx.check(len(r) == 3 and np.array_equal(r[0], s.V) and np.array_equal(r[1], s.F) and np.array_equal(r[2], U), "S-from-sdf", "differs from given S")
        for x, y, nm in zip((V, F, U, S), keep, "VFUS"):
            ctx.check(np.array_equal(x, y), "inputs-" + nm, "changed")
    ctx.outcome((bool(done), k))


def near_edge(X, V, F):
    D = np.abs(V[F] - X[None]).max(axis=(1, 2))
    return D.min() < 1e-7


# ------------------------------------------------------------------ results
# ------------------------------------------------------------------ histories with an enumerated 3D remesher
def rim_of(F):
    """vertices on edges that have one triangle"""
    n = {}
    for t in np.asarray(F).tolist():
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            k = (min(a, b), max(a, b))
            n[k] = n.get(k, 0) + 1
    return sorted({v for k, c in n.items() if c == 1 for v in k}), n


def remeshers(k, a):
    """answers a remesher may give: the features (rim and asked-for vertices) stay first, anything else may change"""
    V, F = a.V, a.F
    keep = sorted(set(rim_of(F)[0]) | set(np.ravel(a.feature).astype(int).tolist()))
    if k == "same":
        return V, F
    if k == "reversed":          # the other vertices in reverse order, triangles reversed and rolled
        rest = [i for i in range(len(V)) if i not in set(keep)]
        order = keep + rest[::-1]
        back = np.argsort(order)
        return V[order], np.roll(back[F[::-1]], 1, axis=1)
    if k == "split":             # a new vertex in every triangle
        C = V[F].mean(1)
        n = len(V) + np.arange(len(F))
        return np.vstack([V, C]), np.concatenate([np.stack([F[:, i], F[:, (i + 1) % 3], n], 1) for i in range(3)])
    if k == "touch":             # new vertices almost at a rim vertex
        C = V[F[:, 0]] + 1e-9 * (V[F].mean(1) - V[F[:, 0]])
        n = len(V) + np.arange(len(F))
        return np.vstack([V, C]), np.concatenate([np.stack([F[:, i], F[:, (i + 1) % 3], n], 1) for i in range(3)])
    raise KeyError(k)


def ball(n, hole):
    V, F = start(["octa", 1.0])
    V = V / np.linalg.norm(V, axis=1)[:, None]
    for _ in range(n):
        W, H = list(map(tuple, V.tolist())), []
        at = {w: i for i, w in enumerate(W)}
        for t in F.tolist():
            m = []
            for a, b in ((0, 1), (1, 2), (2, 0)):
                q = V[t[a]] + V[t[b]]
                q = tuple((q / np.linalg.norm(q)).tolist())
                if q not in at:
                    at[q] = len(W)
                    W.append(q)
                m.append(at[q])
            H += [[t[0], m[0], m[2]], [t[1], m[1], m[0]], [t[2], m[2], m[1]], m]
        V, F = np.array(W), np.array(H)
    if hole:
        keep = F[~np.any(F == F[len(F) // 2, 0], axis=1)]
        used = np.unique(keep)
        back = np.full(len(V), -1)
        back[used] = np.arange(len(used))
        V, F = V[used], back[keep]
    return V, F


def bump(which):
    c = {"right": (1.25, 0, 0), "top": (0.25, 0.125, 1.2), "none": None}[which]
    base = lambda x: np.linalg.norm(x, axis=1) - 1
    if c is None:
        return base
    return lambda x: np.minimum(base(x), np.linalg.norm(x - np.array(c), axis=1) - 0.375)


RUNS3 = [{}, dict(output_sensitive=False), dict(feature_detection="none", output_sensitive=False), dict(fix_boundary=True), dict(remesh_iterations=3), dict(linesearch=False, dt=0.5)]


def hist3_cases(tier):
    q = tier == "quick"
    for n in (2,) if q else (1, 2, 3):
        for hole in (0, 1):
            for b in ("right", "top"):
                for r in ("same", "reversed", "split", "touch"):
                    for o in range(len(RUNS3)):
                        for h in (None, 0.125):
                            if not q or h is None or o == 0:
                                yield [n, hole, b, r, o, h, 1 if r in ("split", "touch") or n == 3 else 2, 1.0]
                        if o in (0, 3) or not q:
                            yield [n, hole, b, r, o, 1 / 1024, 1 if r in ("split", "touch") or n == 3 else 2, 1 / 128]


@scenario("history3", hist3_cases, "runs on closed and open surfaces under every answer of the remesher: it is asked with the current length, iterations and "
          "features; its answer is joined with the untouched rest into one surface of the same rims, interior vertices never joined", nontrivial=lambda c: c[3] != "same")
def history3(case, ctx):
    n, hole, b, r, o, h, steps, scale = case
    o = dict(RUNS3[o], tol=0.12 * scale)
    V, F = ball(n, hole)
    V = V * scale
    base = bump(b)
    f = base if scale == 1 else lambda x: base(np.asarray(x) / scale) * scale
    U = lattice(6, 3, 1) * 1.375 * scale
    S = f(U)
    keep = [x.copy() for x in (V, F, U, S)]
    answers = []

    def answer(a):
        answers.append((a, remeshers(r, a)))
        return answers[-1][1]
    env = make_env(answer)
    with extended(env), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = mod()
        s = m.ReachForTheSpheresState(V=V, F=F, U=U, S=S, sdf=f, **({} if h is None else dict(h=h)))
        for k in range(steps):
            V0, F0 = s.V.copy(), s.F.copy()
            answers.clear()
            ctx.transitions += 1
            done = m.reach_for_the_spheres_iteration(s, **o)
            W, ok, J, t = flow(V0, F0, U, S, closest3(V0, F0, U), o, mass_of(V0, F0))
            if ok.all():
                ctx.check(done, "stops", f"step {k}")
                break
            if o.get("fix_boundary") and hole:
                rim = rim_of(F0)[0]
                ctx.check(all(np.abs(s.V - V0[v]).max(1).min() < 1e-9 for v in rim), "rim-moved", f"step {k}")
            bad = np.unique(J[~ok])
            badv = set(F0[bad].ravel().tolist())
            feat = []
            if not o.get("output_sensitive", True):
                feat = [i for i in range(len(V0)) if i not in badv] if o.get("feature_detection", "aggressive") == "aggressive" else \
                    sorted(set(F0[np.setdiff1d(np.arange(len(F0)), bad)].ravel().tolist()))
                if len(feat) == len(V0) and not answers:
                    ctx.check(same_tris(s.V, s.F, W, F0), "nothing-to-remesh", f"step {k}")
                    continue
            if not ctx.eq(len(answers), 1, "remesh-asked", f"step {k}"):
                return
            a, (X, H) = answers[0]
            ctx.eq(a.i, o.get("remesh_iterations", 1), "remesh-iterations")
            ctx.check(abs(a.h - (0.2 if h is None else h)) < 1e-12, "remesh-length", a.h)
            ctx.check(bool(a.project), "remesh-project")
            asked = a.V[np.ravel(a.feature).astype(int)]
            ctx.check(all(np.abs(asked - W[i]).max(1).min() < 1e-7 for i in feat), "features", f"step {k}")
            T = W[F0]
            left = []
            # every triangle was either handed to the remesher or kept
            part = a.V[a.F]
            given = np.zeros(len(F0), bool)
            for x in part:
                hit = [j for j in range(len(T)) if any(np.abs(np.roll(x, q, axis=0) - T[j]).max() < 1e-6 for q in range(3))]
                if not ctx.check(len(hit) == 1 and not given[hit[0]], "remeshed-part", f"step {k}: a triangle that is not there"):
                    return
                given[hit[0]] = True
            ctx.check(given[bad].all(), "unsatisfied-kept", f"step {k}: an unsatisfied triangle was not remeshed")
            left = np.nonzero(~given)[0]
            if o.get("output_sensitive", True):
                ring = badv
                for _ in range(3):
                    ring = {v for x in F0.tolist() if ring & set(x) for v in x}
                far = [j for j, x in enumerate(F0.tolist()) if not ring & set(x)]
                ctx.check(not given[far].any(), "satisfied-remeshed", f"step {k}: remeshed far from any unsatisfied sample")
            exp = np.concatenate([X[H], T[left]])
            got = s.V[s.F]
            if ctx.check(len(got) == len(exp), "joined-triangles", lambda: f"step {k}: {len(got)}, want {len(exp)}"):
                free = list(range(len(exp)))
                cen = exp.mean(1)
                for y in got:
                    near = [j for j in free if np.abs(cen[j] - y.mean(0)).max() < 1e-6 and any(np.abs(np.roll(y, q, axis=0) - exp[j]).max() < 1e-6 for q in range(3))]
                    if not ctx.check(bool(near), "joined-triangles", f"step {k}: a triangle that is neither kept nor remeshed"):
                        return
                    free.remove(near[0])
            # one surface with the same rims, all of whose vertices are used
            rim, edges = rim_of(s.F)
            ctx.check(max(edges.values()) <= 2, "manifold", f"step {k}: {max(edges.values())}")
            ctx.eq(sum(c == 1 for c in edges.values()), sum(c == 1 for c in rim_of(F0)[1].values()), "rim-edges", f"step {k}")
            ctx.check(np.array_equal(np.unique(s.F), np.arange(len(s.V))), "unused-vertices", f"step {k}")
            ctx.eq(len(s.V) - len(edges) + len(s.F), len(V0) - len(rim_of(F0)[1]) + len(F0), "euler", f"step {k}")
            ctx.outcome((r, len(left) > 0, bool(hole)))
            if done:
                break
    for x, y, nm in zip((V, F, U, S), keep, "VFUS"):
        ctx.check(np.array_equal(x, y), "inputs-" + nm, "changed")



def broken(k, a):
    """answers of a remesher that gave up: an edge with three triangles"""
    V, F = a.V, a.F
    if k == "double":
        return V, np.vstack([F, F[:1]])
    t = F[len(F) // 2]
    return np.vstack([V, V[t].mean(0) * 1.25]), np.vstack([F, [t[0], t[1], len(V)]])


@scenario("singular", lambda tier: [[n, hole, b, r, at, k, o] for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for hole in (0, 1) for b in ("right", "top")
                                    for r in ("same", "reversed") for at in range(3) for k in ("double", "fin") for o in range(2)],
          "runs in which the remesher breaks the surface at step 0, 1 or 2: the run ends and still returns a finite manifold surface, of the topology of "
          "the start, whose triangles belong to its vertices", nontrivial=lambda c: c[4] > 0)
def singular(case, ctx):
    n, hole, b, r, at, k, o = case
    V, F = ball(n, hole)
    f = bump(b)
    U = lattice(6, 3, 1) * 1.375
    keep = [x.copy() for x in (V, F, U)]
    count = [0]

    def answer(a):
        count[0] += 1
        return broken(k, a) if count[0] == at + 1 else remeshers(r, a)
    with extended(make_env(answer)) as lib, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.transitions += 1
        W, H = lib.reach_for_the_spheres(U, f, V, F, max_iter=at + 3, tol=1e-3, **RUNS3[o])
    if count[0] <= at:
        ctx.outcome("not reached")
        return
    ctx.check(count[0] == at + 1, "goes-on", f"{count[0]} remeshes, broken at {at + 1}")
    if ctx.check(H.min() >= 0 and H.max() < len(W) and np.isfinite(W).all(), "well-formed", lambda: f"{H.max()} of {len(W)}"):
        rim, e = rim_of(H)
        rim0, e0 = rim_of(F)
        ctx.check(max(e.values()) <= 2, "manifold", max(e.values()))
        used = len(np.unique(H))
        ctx.eq(used - len(e) + len(H), len(V) - len(e0) + len(F), "euler")
        ctx.eq(len(rim), len(rim0), "rim")
        # a surface the run has passed through: nothing is known here to have converged before, so it is the start
        ctx.check(same_tris(W, H, V, F), "last-converged", "neither the start nor a state in which the edge length was last reduced")
    for x, y, nm in zip((V, F, U), keep, "VFU"):
        ctx.check(np.array_equal(x, y), "inputs-" + nm, "changed")
    ctx.outcome((k, at))


def result_cases(tier):
    q = tier == "quick"
    opts = [{}, dict(output_sensitive=False), dict(linesearch=False), dict(tol=0.02), dict(batch_size=0),
            dict(min_h=0.05), dict(h=0.3), dict(resample=1), dict(resample=2, resample_samples=3), dict(feature_detection="none"), dict(fix_boundary=True),
            dict(max_t=20.0)]
    for n in (5, 13) if q else (4, 5, 6, 7, 8, 10, 13, 16):
        for r in (1.0, 0.75):
            for sh in ("disk", "disk2", "clamped0.5"):
                for g in (6, 9) if q else (5, 6, 7, 9, 11):
                    for o in opts:
                        yield [n, r, sh, g, o]


@scenario("result", result_cases, "whole runs on round shapes: every sample's sphere ends up tangent to the curve (clamped ones at least outside it), inside stays "
          "inside, the curve is simple and counterclockwise; resampling keeps the given samples and adds no more than asked", nontrivial=lambda c: bool(c[4]))
def result(case, ctx):
    n, r, sh, g, o = case
    V, F, f, U = scene(2, ["ring", n, r], sh, g, 1)
    S = f(U)
    kw = dict(o)
    c = np.inf
    if sh.startswith("clamped"):
        c = kw["clamp"] = float(sh[7:])
    tol = tol_of(2, o)
    U0 = U.copy()
    with extended(make_env()) as lib, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.transitions += 1
        Vr, Fr, Ur = lib.reach_for_the_spheres(U, f, V, F, return_U=True, max_iter=400, **kw)
    if not valid2(ctx, Vr, Fr, (1, 0), "result", ""):
        return
    d, J, C = closest2(Vr, Fr, U)
    d = np.sqrt(d)
    cl = np.abs(S) >= c
    err = np.abs(d - np.abs(S))[~cl].max()
    ctx.check(err <= 2 * tol, "tangent", lambda: f"{err}")
    if cl.any():
        ctx.check((d[cl] >= c - 2 * tol).all(), "clamped", lambda: f"{d[cl].min()}")
    w = np.array([sum(math.atan2(*_ang(Vr[a] - u, Vr[b] - u)) for a, b in Fr.tolist()) for u in U]) / (2 * math.pi)
    far = np.abs(S) > 2 * tol
    ctx.check(np.all(np.round(w[far]) == (S[far] < 0)), "sides", lambda: str(w.tolist()))
    ctx.check(np.array_equal(U, U0), "inputs-U", "changed")
    if o.get("resample"):
        have = set(map(tuple, Ur.tolist()))
        ctx.check(set(map(tuple, U.tolist())) <= have, "kept-samples", lambda: f"{len(U)} {len(have)}")
        k = o.get("resample_samples", 2 * math.ceil(math.sqrt(len(U))))
        ctx.check(len(Ur) <= len(U) + o["resample"] * k, "added-samples", lambda: f"{len(Ur)}")
        if len(Ur) == len(U):
            ctx.outcome("no-new")
    else:
        ctx.check(np.array_equal(Ur, U), "return-U", "changed")
    ctx.outcome((sh, bool(err <= tol)))


def _ang(a, b):
    return a[0] * b[1] - a[1] * b[0], a @ b


def noop_cases(tier):
    for n in (3, 4, 5, 7, 8):
        for r in (0.5, 0.75):
            for g in (3, 4, 5, 6):
                for jig in (0, 1):
                    for o in ({}, dict(linesearch=False), dict(output_sensitive=False), dict(fix_boundary=True), dict(batch_size=5)):
                        yield [n, r, g, jig, o]


@scenario("noop", noop_cases, "a curve that already fits all samples is returned as it is")
def noop(case, ctx):
    n, r, g, jig, o = case
    V, F = ring(n, r, phase=0.25)
    U = lattice(g, 2, jig)

    def f(x):
        w = np.array([sum(math.atan2(*_ang(V[a] - u, V[b] - u)) for a, b in F.tolist()) for u in x])
        return np.sqrt(closest2(V, F, x)[0]) * np.where(np.abs(w) > math.pi, -1, 1)
    with extended(make_env()) as lib, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.transitions += 1
        Vr, Fr = lib.reach_for_the_spheres(U, f, V.copy(), F.copy(), **o)
    near = np.abs(f(U)).min() < 0.0026      # where the step limits the division
    ctx.close(Vr, V, "vertices", tol=5e-3 if near else 1e-7)
    ctx.check(np.array_equal(Fr, F), "edges", str(Fr.tolist()))


@scenario("no-samples", lambda tier: [[n, r, sh] for n in range(3, 12) for r in (0.25, 0.75, 1.0) for sh in ("disk", "disk2")],
          "leaving out the samples: as many as the curve has vertices, around the curve, with their distances")
def no_samples(case, ctx):
    n, r, sh = case
    V, F = ring(n, r)
    f = shape(sh)
    with extended(make_env()) as lib, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = mod()
        s = m.ReachForTheSpheresState(V=V, F=F, sdf=f)
        ctx.transitions += 1
        m.reach_for_the_spheres_iteration(s)
    U = s.U
    if ctx.check(U.ndim == 2 and U.shape[1] == 2 and len(U) >= 1 and np.all(np.isfinite(U)), "form", str(U.shape)):
        ctx.close(s.S, f(U), "distances")
        ctx.check(np.all(np.abs(U) <= 3 * r), "around", str(U.tolist()))
        ctx.check(len(loops(s.F) or ()) == 2, "curve", str(s.F.tolist()))
