"""C36 Generalised Matryoshka: the returned nesting is feasible, tight and self-consistent.

Distances, winding numbers, rays and the swarm come from an enumerated environment (mc/ext.py): the swarm evaluates
every candidate list of the bound, so the search is judged for all of them."""
import itertools, math, sys
import numpy as np
from ..core import scenario, stored, G
from ..ext import Env, extended
from .c35 import closest3

PROPERTY = "C36"
ASSUMPTIONS = ["outer meshes are convex, so that feasibility has a closed form", "distances, winding numbers, rays and the particle swarm are answered by the check"]
TRI = [[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [2, 3, 7], [2, 7, 6], [1, 2, 6], [1, 6, 5], [0, 4, 7], [0, 7, 3]]
CUBE = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], float)


def solid(n):
    if n == "cube":
        return CUBE.copy(), np.array(TRI)
    if n == "box":
        return CUBE * [1.0, 0.5, 1.5] + [2, 0, -1], np.array(TRI)
    if n == "frustum":
        V = CUBE.copy()
        V[4:, :2] *= 0.5
        return V, np.array(TRI)
    if n == "tet":
        return np.array([[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]], float), np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]])
    if n == "small":
        return CUBE * 0.25 + [5, 5, 5], np.array(TRI)
    if n == "slab":
        return CUBE * [1.0, 0.75, 0.125], np.array(TRI)
    if n == "octa":
        return np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1.5), (0, 0, -1)], float), \
            np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    raise KeyError(n)


def rot(axis, deg):
    k = np.array(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    t = math.radians(deg)
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


ROTS = [None, ((0, 0, 1), 90), ((1, 0, 0), 45), ((1, 2, -1), 77), ((0, 1, 0), 180), ((1, 1, 0), 180), ((1, -2, 2), 180), ((1, -2, 2), 179.9), ((0, 0, 1), 1e-4)]


def planes(V, F):
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    n /= np.linalg.norm(n, axis=1)[:, None]
    return n, (n * V[F[:, 0]]).sum(1)


def rays(P, D, V, F):
    """first hits with a closed convex surface from inside; any hit order otherwise"""
    m = len(P)
    ts, ids, lam = np.full(m, np.inf), np.full(m, -1), np.zeros((m, 3))
    for j, t in enumerate(F):
        a, b, c = V[t]
        n = np.cross(b - a, c - a)
        den = D @ n
        with np.errstate(all="ignore"):
            s = ((a - P) @ n) / den
            q = P + s[:, None] * D
            l = np.stack([np.cross(c - b, q - b) @ n, np.cross(a - c, q - c) @ n, np.cross(b - a, q - a) @ n], axis=1) / (n @ n)
            hit = (np.abs(den) > 1e-12) & (s > 1e-9) & (l >= -1e-9).all(1) & (s < ts)
        ts[hit], ids[hit], lam[hit] = s[hit], j, l[hit]
    return ts, ids.astype(np.int32), lam


def make_env(swarm=None):
    def dist(a):
        d, j, c = closest3(a.made.V, a.made.F, a.P)
        return d, j.astype(np.int32), c

    def wind(a):
        n, d = planes(a.made.V, a.made.F)
        return ((a.Q @ n.T - d) < 0).all(1).astype(float)
    env = Env(_particle_swarm_cpp_impl=swarm)
    env.answers["_AABBTree_cpp_impl.squared_distance"] = dist
    env.answers["_FastWindingNumberBVH_cpp_impl.winding_number"] = wind
    env.answers["_RayMeshIntersector_cpp_impl.intersect"] = lambda a: rays(a.cam_pos, a.cam_dir, a.made.V, a.made.F)
    env.answers["_point_mesh_squared_distance_cpp_impl"] = lambda a: dist(type("x", (), dict(made=a, P=a.P)))
    env.answers["_fast_winding_number_cpp_impl"] = lambda a: wind(type("x", (), dict(made=a, Q=a.Q)))
    env.answers["_ray_mesh_intersect_cpp_impl"] = lambda a: rays(a.cam_pos, a.cam_dir, a.V, a.F)
    return env


def slack(s, B, bc, V, F, r):
    """how clearly the nesting of the points B holds (positive: feasible), the smallest margin over all conditions"""
    n, d = planes(V, F)
    X = s * (B - bc) @ np.asarray(r["R"]).T + r["c"]
    worst = (d - X @ n.T).min()
    if worst <= 0:
        return worst
    for a, sg in ((r["a_plus"], 1), (r["a_minus"], -1)):
        a = -np.asarray(a, float) / np.linalg.norm(a)
        den = n @ a
        with np.errstate(all="ignore"):
            t = np.where(den > 1e-12, (d - X @ n.T) / den, np.inf).min(1)
        Y = X + t[:, None] * a
        worst = min(worst, (-sg * (Y - r["cut_point"]) @ r["cut_normal"]).min() + 2e-6)
    return worst


def judge(ctx, res, V, F, VB, tag, own=False):
    """a returned nesting against the closed form, for the vertices of B; own: the configuration is the caller's"""
    if not ctx.check(isinstance(res, dict) and set(res) >= {"s", "R", "c", "B_center", "cut_point", "cut_normal", "a_plus", "a_minus"}, tag + "-keys", str(res)):
        return False
    ok = ctx.close(np.linalg.norm(res["cut_normal"]), 1, tag + "-unit-normal")
    R = np.asarray(res["R"])
    ok &= ctx.check(R.shape == (3, 3) and np.abs(R @ R.T - np.eye(3)).max() < 1e-8 and np.linalg.det(R) > 0, tag + "-rotation", str(R))
    ok &= ctx.close(res["B_center"], VB.mean(axis=0), tag + "-center")
    if not ok:
        return False
    s = float(res["s"])
    if s == 0:
        return not own or ctx.check(slack(1e-3, VB, VB.mean(axis=0), V, F, res) < 5e-6, tag + "-gave-up", "a tiny copy fits")
    m = slack(s, VB, VB.mean(axis=0), V, F, res)
    return ctx.check(m > -5e-7, tag + "-feasible", lambda: f"s={s}: margin {m}")


def samples(ctx, P, VB, FB, r, ns):
    """B's vertices and ns further points of B's surface were tested at the returned scale"""
    X = (P - r["c"]) @ np.asarray(r["R"]) / r["s"]
    Y = VB - VB.mean(axis=0)
    d = np.linalg.norm(X[:, None] - Y, axis=2)
    ctx.check(d.min(0).max() < 1e-7, "vertices-tested", lambda: f"a vertex at distance {d.min(0).max()} from every tested point")
    X = X[d.min(1) > 1e-7]
    on = np.unique(X[closest3(Y, FB, X)[0] < 1e-13].round(7), axis=0) if len(X) else X
    ctx.check(len(on) >= ns, "samples-tested", lambda: f"{len(on)} other points of the surface")


# ------------------------------------------------------------------ scale only
def scale_cases(tier):
    q = tier == "quick"
    for a in ("cube", "tet", "octa", "box", "frustum"):
        for b in (None, "small", "tet", "slab"):
            for ri in range(4 if q else len(ROTS)):
                for ci in range(3):
                    for pi in range(4):
                        for di in range(3):
                            for tol in (1e-3,) if q or di else (1e-3, 0.02, 1e-5):
                                for ns in (0,) if pi else (0, 4):
                                    if q and (b in ("small", "slab") and ri > 1 or (ri + ci + pi + di) % 2):
                                        continue
                                    yield [a, b, ri, ci, pi, di, tol, ns]


def config(V, ri, ci, pi, di):
    kw = {}
    ctr = V.mean(axis=0)
    if ri:
        kw["R"] = rot(*ROTS[ri])
    if ci:
        kw["c"] = ctr + [[0.125, -0.0625, 0.1875], [0.5, 0.25, -0.25]][ci - 1]
    if pi:
        kw["cut_normal"] = np.array([[0, 0, 2.0], [1, 0, 0], [1, 1, 1]][pi - 1], float)
        if pi > 1:
            kw["cut_point"] = ctr + 0.125 * kw["cut_normal"]
    n = kw.get("cut_normal", np.array([0.0, 0.0, 1.0]))
    if di:
        kw["a_plus"] = 2 * n + [[0.5, 0, 0], [0, 0.25, -0.25]][di - 1]
        if di == 2:
            kw["a_minus"] = -n + [0.25, 0.5, 0]
    return kw


def ask(lib, *a, **k):
    return lib.matryoshka(*[stored(x, G.how) if G.how else x for x in a], **{n: stored(x, G.how) if G.how else x for n, x in k.items()})


@scenario("scale", scale_cases, "optimize='scale_only' for every outer and inner mesh, rotation, centre, cut plane and removal directions: feasible, and "
          "infeasible one tolerance above; given values are used, omitted ones default as documented", nontrivial=lambda c: any(c[2:6]))
def scale_only(case, ctx):
    a, b, ri, ci, pi, di, tol, ns = case
    V, F = solid(a)
    VB, FB = (V, F) if b is None else solid(b)
    kw = config(V, ri, ci, pi, di)
    given = {k: v.copy() for k, v in kw.items()}
    V0, F0, VB0 = V.copy(), F.copy(), VB.copy()
    env, asked = make_env(), []
    for k in ("_AABBTree_cpp_impl.squared_distance", "_point_mesh_squared_distance_cpp_impl"):
        env.answers[k] = lambda a, f=env.answers[k]: (asked.append(np.array(a.P)), f(a))[1]
    with extended(env) as lib:
        ctx.transitions += 1
        res = ask(lib, V, F, **({} if b is None else dict(VB=VB, FB=FB)), optimize="scale_only", n_samples=ns, scale_tol=tol, seed=3, **kw)
    unit = lambda x: np.asarray(x) / np.linalg.norm(x)
    n = unit(given.get("cut_normal", [0, 0, 1.0]))
    want = dict(R=given.get("R", np.eye(3)), c=given.get("c", V.mean(axis=0)), cut_normal=n, cut_point=given.get("cut_point", V.mean(axis=0)),
                a_plus=unit(given.get("a_plus", n)), a_minus=unit(given.get("a_minus", -n)))
    if not judge(ctx, res, V, F, VB, "result", True):
        return
    for k, v in want.items():
        ctx.close(unit(res[k]) if k[:2] == "a_" else res[k], v, "given-" + k)
    s = float(res["s"])
    ctx.check(0 <= s <= 1, "range", str(s))
    if s > 0 and asked:
        samples(ctx, np.concatenate(asked), VB, FB, res, ns)
    if 0 < s < 1 and ns == 0:
        m = slack(min(s + 1.01 * tol + 1e-9, 1.0), VB, VB.mean(axis=0), V, F, res)
        ctx.check(m < 1e-5, "tight", lambda: f"s={s}: still {m} one tolerance above")
    ctx.check(np.array_equal(V, V0) and np.array_equal(F, F0) and np.array_equal(VB, VB0) and all(np.array_equal(kw[k], given[k]) for k in kw), "inputs", "changed")
    ctx.outcome((s == 0, s == 1))


# ------------------------------------------------------------------ the search
def candidates(lb, ub, k):
    """lists of points of the box"""
    n = len(lb)
    mid = np.full(n, 0.5)
    corner = np.array([i % 2 for i in range(n)], float)
    near = [mid + 0.125 * np.sin(np.arange(n) * (i + 1.7)) for i in range(3)]
    far = [0.5 + 0.5 * np.sin(np.arange(n) * (2 * i + 0.9)) for i in range(3)]
    lists = [[corner], [mid], [mid, corner], [corner, mid], [near[0], mid, near[1]], [mid, near[0], near[0], corner], near + far, (near + far)[::-1],
             [corner, 1 - corner, np.zeros(n), np.ones(n)], [mid, mid]]
    one = []
    for i in range(n):
        for t in (0.0, 0.25, 0.375, 0.75, 1.0):
            e = mid.copy()
            e[i] = t
            one.append(e)
    lists += [one, one[::-1], one[1::2] + one[::2]]
    return [lb + t * (ub - lb) for t in lists[k]]


NLISTS = 13


def search_cases(tier):
    q = tier == "quick"
    for mode in ("rigid", "all"):
        for a in ("cube", "tet", "frustum") if q else ("cube", "tet", "octa", "box", "frustum"):
            for b in (None, "slab") if q else (None, "small", "tet", "slab"):
                for k in range(NLISTS):
                    for pi, di in (((0, 0), (3, 1))[(k + (b is None)) % 2],) if q else ((0, 0), (2, 0), (3, 1), (3, 2)):
                        yield [mode, a, b, k, pi, di]


@scenario("search", search_cases, "optimize='rigid' and 'all' when the swarm evaluates any candidate list: the best evaluated scale is returned with the "
          "configuration that attains it; in rigid mode plane and directions stay as given; nothing feasible gives scale zero", nontrivial=lambda c: c[0] == "all")
def search(case, ctx):
    mode, a, b, k, pi, di = case
    V, F = solid(a)
    VB, FB = (V, F) if b is None else solid(b)
    kw = config(V, 0, 0, pi, di)
    inner = {} if b is None else dict(VB=VB, FB=FB)
    seen = []

    def swarm(a):
        best = (None, math.inf)
        for x in candidates(a.lb, a.ub, k):
            x0 = x.copy()
            v = float(a.fun(x))
            seen.append(v)
            ctx.check(np.array_equal(x, x0), "candidate-changed", "")
            if v < best[1]:
                best = (x.copy(), v)
            x += 17.0             # the swarm reuses its storage
        return best
    with extended(make_env(swarm)) as lib:
        ctx.transitions += 1
        res = ask(lib, V, F, **inner, optimize=mode, n_samples=0, n_particles=3, max_iter=2, seed=1, **kw)
        if not judge(ctx, res, V, F, VB, "result"):
            return
        s = float(res["s"])
        ctx.check(len(seen) > 0 and abs(s - max(0.0, -min(seen))) < 1e-12, "best", lambda: f"{s} of {seen}")
        if s > 0:
            again = ask(lib, V, F, **inner, optimize="scale_only", n_samples=0, seed=1,
                                   **{x: res[x] for x in ("R", "c", "cut_point", "cut_normal", "a_plus", "a_minus")})
            ctx.check(abs(again["s"] - s) < 2.1e-3, "attained", lambda: f"{s}, again {again['s']}")
    n = np.asarray(res["cut_normal"])
    ctx.check(res["a_plus"] @ n >= -1e-12 and res["a_minus"] @ n <= 1e-12, "sides", str(res))
    if mode == "rigid":
        unit = lambda x: np.asarray(x) / np.linalg.norm(x)
        m = unit(kw.get("cut_normal", [0, 0, 1.0]))
        ctx.close(n, m, "kept-normal")
        ctx.close(res["cut_point"], kw.get("cut_point", V.mean(axis=0)), "kept-point")
        ctx.close(unit(res["a_plus"]), unit(kw.get("a_plus", m)), "kept-plus")
        ctx.close(unit(res["a_minus"]), unit(kw.get("a_minus", -m)), "kept-minus")
    ctx.outcome((mode, s == 0, s == 1))


def reach_cases(tier):
    for i in range(3):
        for j in range(3):
            for t in range(3 if tier == "quick" else 6):
                for b in (1,) if tier == "quick" else (1, 0.25):
                    yield [i, j, t, b]


@scenario("reach", reach_cases, "the rotations and centres offered to the swarm cover the quarter turns and the container's bounding box, wherever the "
          "container lies: a bar fits into a bar of another axis", nontrivial=lambda c: c[0] != c[1])
def reach(case, ctx):
    i, j, t, b = case
    bar = lambda k: CUBE * np.where(np.arange(3) == k, 2.0, 0.5)
    V = bar(i) + np.array(list(itertools.permutations([0.0, 10.0, -20.0]))[t])
    VB, F = b * bar(j), np.array(TRI)
    centers = []
    env = make_env()
    dist = env.answers["_AABBTree_cpp_impl.squared_distance"]

    def swarm(a):
        best = (None, math.inf)
        for x in [0.5 * (a.lb + a.ub)] + candidates(a.lb, a.ub, 10):
            v = float(a.fun(x))
            if v < best[1]:
                best = (x, v)
        return best

    def watch(a):
        centers.append(np.mean(a.P, axis=0))
        return dist(a)
    env.answers["_AABBTree_cpp_impl.squared_distance"] = watch
    env.answers["_particle_swarm_cpp_impl"] = swarm
    with extended(env) as lib:
        ctx.transitions += 1
        res = ask(lib, V, F, VB=VB, FB=F, optimize="rigid", n_samples=0, n_particles=3, max_iter=2, seed=1)
    if judge(ctx, res, V, F, VB, "result"):
        ctx.check(res["s"] > 0.9, "turned", lambda: f"scale {res['s']}, centres {np.unique(np.array(centers).round(3), axis=0)}")
    if centers:
        lo, hi = np.min(centers, axis=0), np.max(centers, axis=0)
        ctx.check((lo < V.min(axis=0) + 1e-3).all() and (hi > V.max(axis=0) - 1e-3).all(), "box", lambda: f"{lo} {hi}")


def warm_cases(tier):
    q = tier == "quick"
    for a in ("cube", "tet", "frustum"):
        for b in (None, "slab"):
            for ri in range(len(ROTS)):
                for ci in range(2):
                    for pi in range(4):
                        for di in range(3):
                            for k in (0, 7):
                                if q and (di + pi + ri + 2 * ci + (k > 0) + 3 * (b is None)) % 5:
                                    continue
                                yield [a, b, ri, ci, pi, di, k]


@scenario("warm", warm_cases, "warm starts from every configuration (half turns included): never worse than the seed; when the swarm finds nothing better, the "
          "seed's rotation, centre, plane and directions come back", nontrivial=lambda c: c[2] > 3)
def warm(case, ctx):
    a, b, ri, ci, pi, di, k = case
    V, F = solid(a)
    VB, FB = (V, F) if b is None else solid(b)
    inner = {} if b is None else dict(VB=VB, FB=FB)
    kw = config(V, ri, ci, pi, di)
    calls = []

    def swarm(a):
        r = []
        for x in candidates(a.lb, a.ub, k):
            r.append((float(a.fun(x)), x))
        i = min(range(len(r)), key=lambda i: r[i][0])
        calls.append(r[i][0])
        return r[i][1], r[i][0]
    with extended(make_env(swarm)) as lib:
        ctx.transitions += 2
        seed = ask(lib, V, F, **inner, optimize="scale_only", n_samples=0, seed=1, **kw)
        keep = {x: np.copy(y) for x, y in seed.items()}
        res = ask(lib, V, F, **inner, optimize="all", n_samples=0, seed=1, n_particles=2, max_iter=1, warm_start=seed)
        if not judge(ctx, res, V, F, VB, "result"):
            return
        ctx.check(res["s"] >= seed["s"] - 1.1e-3, "worse", lambda: f"{res['s']} after {seed['s']}")
        ctx.check(all(np.array_equal(keep[x], seed[x]) for x in keep), "seed-changed", "")
        if seed["s"] > 0 and -min(calls) < seed["s"] - 0.01:
            for x in ("R", "c", "cut_normal"):
                ctx.close(res[x], seed[x], "seed-" + x, tol=2e-6)
            ctx.check(abs((res["cut_point"] - seed["cut_point"]) @ seed["cut_normal"]) < 1e-7, "seed-plane", lambda: f"{res['cut_point']} {seed['cut_point']}")
            for x in ("a_plus", "a_minus"):
                ctx.close(res[x] / np.linalg.norm(res[x]), seed[x] / np.linalg.norm(seed[x]), "seed-" + x, tol=1e-7)
            ctx.outcome("seed-kept")
        else:
            ctx.outcome("improved")
        if di == 0 and ri == 0 and ci == 0:
            del calls[:]
            r2 = ask(lib, V, F, **inner, optimize="all", n_samples=0, seed=1, n_particles=2, max_iter=1, warm_start=True, **{x: y for x, y in kw.items() if x not in "Rc"})
            if judge(ctx, r2, V, F, VB, "self-warm"):
                ctx.check(len(calls) == 2 and r2["s"] >= -min(calls) - 1.1e-3, "self-warm-worse", lambda: f"{r2['s']} {calls}")
