"""C27 Stochastic search under a controlled environment: every answer of the random generator (and of the proposal function)."""
import itertools
from unittest import mock
import numpy as np
from ..core import scenario, G

PROPERTY = "C27"
ASSUMPTIONS = ["the swarm draws its random numbers from numpy.random (uniform, rand, random), the sampler from the generator it is given; both are replaced by scripted answers",
               "particles are visited one after the other and the best known point is updated at once; the order of the two random factors of an update is free",
               "the initial sample has positive density; a draw that equals the acceptance ratio exactly is not judged"]
TOP = 1 - 2.0 ** -53


class Script:
    """numpy.random stand-in: scripted fractions, in order"""

    def __init__(self, seq):
        self.seq, self.i = seq, 0

    def take(self, size):
        n = int(np.prod(size)) if size is not None and size != () else 1
        out = [self.seq[(self.i + k) % len(self.seq)] for k in range(n)]
        self.i += n
        return out[0] if size is None else np.array(out, float).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        if size is None and (low.ndim or high.ndim):
            size = np.broadcast(low, high).shape
        u = self.take(size)
        r = low + (high - low) * u
        return float(r) if size is None else r

    def random(self, size=None):
        return self.take(size)

    def rand(self, *size):
        return self.take(size or None)


# ------------------------------------------------------------------ particle swarm
FUNS = [lambda x: (x[0] - 0.75) ** 2 + sum(abs(x[1:])), lambda x: -x[0] + sum(x[1:] ** 2), lambda x: 3.5, lambda x: float(np.floor(2 * x[0]) % 2) - 0.25 * sum(x[1:])]


def swarm_cases(tier):
    q = tier == "quick"
    #        particles, dim, iterations, number of draws by alphabet
    for P, D, I, alph in [(1, 1, 1, (0, .5, TOP)), (2, 1, 1, (0, .5, TOP)), (2, 1, 2, (0, TOP)), (3, 1, 1, (0.25, TOP)), (2, 2, 1, (0, .75)), (1, 2, 2, (0, .5, TOP)), (3, 1, 0, (0, .5, TOP)),
                          (4, 1, 1, (0, .75))] + ([] if q else [(3, 1, 1, (0, .5, TOP)), (2, 1, 2, (0, .5, TOP))]):
        nd = P * D * 2 + I * P * 2
        if P == 4:
            seqs = [list(s[:4]) + [alph[1]] * 4 + list(s[4:]) for s in itertools.product(alph, repeat=12)]   # initial velocities fixed
        else:
            seqs = [list(s) for s in itertools.product(alph, repeat=nd)]
        for k, s in enumerate(seqs):
            for topo in (0, 1):
                f = (k * 7 + k // 64 + topo) % len(FUNS)
                if len(seqs) > 9000 and q and (k + topo) % 4:
                    continue
                if len(seqs) > 60000 and (k + topo) % 8:
                    continue
                yield [P, D, I, topo, f, k % 3, s]


MOM, PHI = 0.75, 0.5
BOUNDS = [(np.array([-1.0, 0.0]), np.array([1.0, 3.0])), (np.array([0.5, -2.0]), np.array([0.5 + 2.0 ** -10, 2.0]))]


@scenario("swarm", swarm_cases, "every script of random answers for 1-4 particles, 1-2 dimensions and up to 2 iterations, both topologies: the evaluations must be a trace of the nondeterministic swarm model",
          nontrivial=lambda c: c[0] > 1 and c[2] > 0)
def swarm(case, ctx):
    P, D, I, topo, fi, rep, s = case
    lb, ub = BOUNDS[fi % 2]
    lb, ub = lb[:D], ub[:D]
    log = []

    def fun(x):
        x = np.array(x, float)
        f = FUNS[fi](x)
        log.append((x, float(f)))
        return (float(f), np.float64(f), np.array([f]))[rep]

    sc = Script(s)
    kw = dict(n_particles=P, max_iter=I, momentum=MOM, phi=PHI, topology=("full", "ring")[topo], use_cpp=bool(rep % 2))
    if rep == 2:
        lb, ub = lb.tolist(), ub.tolist()
    with mock.patch.multiple(np.random, uniform=sc.uniform, rand=sc.rand, random=sc.random, random_sample=sc.random):
        x, f = G.particle_swarm(fun, lb, ub, **kw)
    lb, ub = np.array(lb), np.array(ub)
    ctx.eq(len(log), P * (1 + I), "evaluations")
    for y, v in log:
        ctx.check(y.shape == (D,) and np.all(y >= lb) and np.all(y <= ub), "out-of-bounds", lambda: f"{y}")
    best = min(v for _, v in log)
    ctx.check(np.ndim(f) == 0 and float(f) == best, "best-value", lambda: f"returned {f!r}, best evaluated {best}")
    x = np.asarray(x)
    ctx.check(x.shape == (D,) and any(v == float(np.squeeze(f)) and np.array_equal(x, y) for y, v in log), "best-point", lambda: f"{x} {f} in {log}")
    if len(log) != P * (1 + I):
        return
    # trace inclusion: every evaluated position follows from the swarm update for some answers of the script's alphabet
    alph = sorted(set(s))
    pos = [log[i][0] for i in range(P)]
    for i in range(P):
        if any(min(abs(pos[i][d] - (lb + (ub - lb) * a)[d]) for a in alph) > 1e-12 for d in range(D)):
            ctx.fail("initial-position", f"{pos[i]}")
            return
    pb = [(pos[i], log[i][1]) for i in range(P)]
    vel = [{tuple(float((lb - ub)[d] + 2 * (ub - lb)[d] * a) for d, a in enumerate(t)) for t in itertools.product(alph, repeat=D)} for i in range(P)]
    gb = min(pb, key=lambda t: t[1])
    ctx.outcome((P, D, topo, fi))
    t = P
    for _ in range(I):
        for i in range(P):
            y, v = log[t]
            t += 1
            if topo == 0:
                nbs = [b for b in [gb]]
            else:
                ring = [pb[(i + d) % P] for d in (-1, 0, 1)]
                m = min(r[1] for r in ring)
                nbs = [r for r in ring if r[1] == m]
            nxt = set()
            for w in vel[i]:
                for nb in nbs:
                    for rp, rg in itertools.product(alph, repeat=2):
                        nv = MOM * np.array(w) + PHI * rp * (pb[i][0] - pos[i]) + PHI * rg * (nb[0] - pos[i])
                        if np.all(np.abs(np.clip(pos[i] + nv, lb, ub) - y) < 1e-12):
                            nxt.add(tuple(np.round(nv, 13).tolist()))
            if not ctx.check(nxt, "not-a-swarm-step", lambda: f"particle {i} from {pos[i]} to {y}"):
                return
            ctx.state((case[:5], i, tuple(y.tolist())))
            vel[i] = nxt
            pos[i] = y
            if v < pb[i][1]:
                pb[i] = (y, v)
            if v < gb[1]:
                gb = (y, v)


# ------------------------------------------------------------------ Metropolis-Hastings
DENS = [(1, 1, 1), (1, 2, 4), (4, 1, 0), (0.5, 0, 3), (3, 8, 8)]
DRAWS = (0.0, 0.2, 0.45, 0.9, TOP)


def mh_cases(tier):
    n = 3 if tier == "quick" else 4
    for di in range(len(DENS)):
        for x0 in range(3):
            if DENS[di][x0] == 0:
                continue
            for N in range(1, n + 2):
                for props in itertools.product(range(3), repeat=N - 1):
                    for draws in itertools.product(range(5), repeat=N - 1):
                        if N == n + 1 and sum((i + 2) * d for i, d in enumerate(draws)) % 5 and tier == "quick":
                            continue
                        if N == 5 and sum((i + 2) * d for i, d in enumerate(draws)) % 25:
                            continue
                        yield [di, x0, list(props), list(draws), (di + x0 + N + sum(draws)) % 4]


class Rng:
    def __init__(self, seq, log):
        self.seq, self.log = list(seq), log

    def _next(self):
        if not self.seq:
            raise RuntimeError("more random numbers drawn than candidates")
        u = self.seq.pop(0)
        self.log.append(("draw", u))
        return u

    def uniform(self, low=0.0, high=1.0, size=None):
        u = low + (high - low) * self._next()
        return u if size is None else np.full(size, u)

    def random(self, size=None):
        return self.uniform(size=size)


@scenario("metropolis", mh_cases, "every sequence of candidates and acceptance draws over a 3-point space, for several densities incl. zero densities", nontrivial=lambda c: len(c[2]) > 0)
def metropolis(case, ctx):
    di, x0, props, draws, rep = case
    dim = 1 + rep % 2
    point = lambda i: np.array([i * 1.5 - 1, 7.0 * i][:dim])
    which = lambda x: int(round((float(x[0]) + 1) / 1.5))
    dens = lambda i: (float, np.float64, lambda v: np.array(v, float), float)[rep](DENS[di][i])
    log, todo = [], list(props)

    def nxt(x):
        if not todo:
            raise RuntimeError("more candidates asked for than samples requested")
        log.append(("next", which(x)))
        return point(todo.pop(0))

    def f(x):
        return dens(which(x))

    S, F = G.metropolis_hastings(f, nxt, point(x0), len(props) + 1, Rng([DRAWS[d] for d in draws], log))
    ctx.check(isinstance(S, np.ndarray) and S.shape == (len(props) + 1, dim) and np.shape(F) == (len(props) + 1,), "shapes", lambda: f"{np.shape(S)} {np.shape(F)}")
    got = [which(r) for r in S]
    ctx.check(all(np.array_equal(S[k], point(g)) for k, g in enumerate(got)), "points")
    ctx.check(all(F[k] == DENS[di][g] for k, g in enumerate(got)), "density-values", lambda: f"{F} for {got}")
    ctx.check(got[0] == x0, "initial")
    # the decisions, from the log
    steps, cur = [], None
    for kind, v in log:
        if kind == "next":
            steps.append([v, None])
        elif steps:
            steps[-1][1] = v
    ctx.eq(len(steps), len(props), "candidates")
    at = x0
    for k, (frm, u) in enumerate(steps):
        ctx.check(frm == at, "candidate-from-current", lambda: f"step {k}: asked from {frm}, current {at}")
        ratio = DENS[di][props[k]] / DENS[di][at]
        if u is None:
            ctx.check(ratio >= 1, "no-draw")
            take = True
        elif u == ratio and ratio > 0:
            return
        else:
            take = u < ratio
        at = props[k] if take else at
        ctx.check(got[k + 1] == at, "decision", lambda: f"step {k}: ratio {ratio}, draw {u}, chain {got}")
    ctx.outcome((di, tuple(got)))
