"""A stand-in for the MOSEK optimizer API (the part a conic model needs): it records the task that is built, as the API manual defines it,
and solves the recorded program (linear: HiGHS, conic: SCS).  A plan can make any single API call raise."""
import enum, types
import numpy as np
import scipy.sparse as sp
import scs

LICENSE = ["err_license", "err_license_expired", "err_license_version", "err_license_old_server_version", "err_size_license", "err_prob_license", "err_file_license",
           "err_missing_license_file", "err_size_license_con", "err_size_license_var", "err_size_license_intvar", "err_optimizer_license", "err_flexlm", "err_license_server",
           "err_license_max", "err_license_moseklm_daemon", "err_license_feature", "err_platform_not_licensed", "err_license_cannot_allocate", "err_license_cannot_connect",
           "err_license_invalid_hostid", "err_license_server_version", "err_license_no_server_support"]
OTHER = ["err_space", "err_index_is_too_large", "err_upper_triangle", "err_internal", "err_nan_in_c"]
INF = float("inf")


class NotModelled(BaseException):
    """the library used a part of the API that this stand-in does not have: nothing can be said"""


def make(plan=None, status=None):
    """plan: (n, code) - the n-th API call raises that code; status: what getsolsta says instead of the truth"""
    m = types.ModuleType("mosek")
    m.rescode = enum.IntEnum("rescode", {k: 1000 + i for i, k in enumerate(LICENSE + OTHER)})
    m.boundkey = enum.Enum("boundkey", "lo up fx fr ra")
    m.streamtype = enum.Enum("streamtype", "log msg err wrn")
    m.soltype = enum.Enum("soltype", "itr bas itg")
    m.objsense = enum.Enum("objsense", "minimize maximize")
    m.solsta = enum.Enum("solsta", "unknown optimal prim_feas dual_feas prim_and_dual_feas prim_infeas_cer dual_infeas_cer prim_illposed_cer dual_illposed_cer integer_optimal")
    m.prosta = enum.Enum("prosta", "unknown prim_and_dual_feas")
    m.calls, m.tasks, m.params = [], [], []

    class Error(Exception):
        def __init__(self, errno, msg=""):
            super().__init__(f"({int(errno)}) {msg}")
            self.errno, self.msg = errno, msg
    m.Error = Error

    def api(f):
        def g(self, *a, **k):
            m.calls.append(f.__name__)
            if plan is not None and len(m.calls) - 1 == plan[0]:
                raise Error(m.rescode[plan[1]], "planned")
            return f(self, *a, **k)
        g.__name__ = f.__name__
        return g

    def unknown(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotModelled(name)
    m.__getattr__ = unknown

    class Base:
        def __getattr__(self, name):
            unknown(name)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Env(Base):
        @api
        def __init__(self, *a):
            pass

        @api
        def computesparsecholesky(self, numthreads, ordermethod, tolsingular, anzc, aptrc, asubc, avalc):
            n = len(anzc)
            if len(aptrc) < n:
                raise ValueError("Argument aptrc is too short")
            M = np.zeros((n, n))
            for j in range(n):
                for e in range(aptrc[j], aptrc[j] + anzc[j]):
                    if asubc[e] < j:
                        raise Error(m.rescode.err_upper_triangle, "upper triangle")
                    M[asubc[e], j] = M[j, asubc[e]] = avalc[e]
            perm = sorted(range(n), key=lambda i: ((M[i] != 0).sum(), -i))       # an elimination order unlike the identity
            L = np.linalg.cholesky(M[np.ix_(perm, perm)])
            sub, val, nz, ptr = [], [], [], []
            for j in range(n):
                ptr.append(len(sub))
                r = [i for i in range(j, n) if L[i, j] != 0]
                nz.append(len(r))
                sub += r
                val += [L[i, j] for i in r]
            return perm, [0.0] * n, nz, ptr, len(val), sub, val
    m.Env = Env

    class Task(Base):
        @api
        def __init__(self, *a):
            self.c, self.bnd, self.con, self.F, self.g, self.dom, self.acc, self.sense = [], [], [], [], [], [], [], m.objsense.minimize
            self.A, self.done = {}, None
            m.tasks.append(self)

        def set_Stream(self, *a):
            pass

        def solutionsummary(self, *a):
            pass

        @api
        def appendvars(self, n):
            self.c += [0.0] * n
            self.bnd += [(m.boundkey.fx, 0.0, 0.0)] * n

        def nvar(self, j):
            if not 0 <= j < len(self.c):
                raise Error(m.rescode.err_index_is_too_large, "variable")
            return j

        def ncon(self, i):
            if not 0 <= i < len(self.con):
                raise Error(m.rescode.err_index_is_too_large, "constraint")
            return i

        def nafe(self, i):
            if not 0 <= i < len(self.F):
                raise Error(m.rescode.err_index_is_too_large, "affine expression")
            return i

        @api
        def appendcons(self, n):
            self.con += [(m.boundkey.fr, -INF, INF)] * n

        @api
        def putclist(self, J, V):
            for j, v in zip(J, V):
                self.c[self.nvar(int(j))] = float(v)

        @api
        def putvarboundlist(self, J, B, L, U):
            for j, *b in zip(J, B, L, U):
                self.bnd[self.nvar(int(j))] = (b[0], float(b[1]), float(b[2]))

        @api
        def putconboundlist(self, J, B, L, U):
            for j, *b in zip(J, B, L, U):
                self.con[self.ncon(int(j))] = (b[0], float(b[1]), float(b[2]))

        @api
        def putvarboundslice(self, first, last, B, L, U):
            for j, *b in zip(range(first, last), B, L, U):
                self.bnd[self.nvar(j)] = (b[0], float(b[1]), float(b[2]))

        @api
        def putconboundslice(self, first, last, B, L, U):
            for j, *b in zip(range(first, last), B, L, U):
                self.con[self.ncon(j)] = (b[0], float(b[1]), float(b[2]))

        @api
        def putaij(self, i, j, v):
            self.A[self.ncon(int(i)), self.nvar(int(j))] = float(v)

        @api
        def putafefentry(self, i, j, v):
            self.F[self.nafe(int(i))][self.nvar(int(j))] = float(v)

        @api
        def putcj(self, j, v):
            self.c[self.nvar(j)] = float(v)

        @api
        def putvarbound(self, j, bk, lo, up):
            self.bnd[self.nvar(j)] = (bk, float(lo), float(up))

        @api
        def putconbound(self, i, bk, lo, up):
            self.con[self.ncon(i)] = (bk, float(lo), float(up))

        @api
        def putaijlist(self, I, J, V):
            if not len(I) == len(J) == len(V):
                raise ValueError("lengths")
            for i, j, v in zip(I, J, V):
                self.A[self.ncon(int(i)), self.nvar(int(j))] = float(v)

        @api
        def appendafes(self, n):
            self.F += [{} for _ in range(n)]
            self.g += [0.0] * n

        @api
        def putafefentrylist(self, I, J, V):
            if not len(I) == len(J) == len(V):
                raise ValueError("lengths")
            for i, j, v in zip(I, J, V):
                self.F[self.nafe(int(i))][self.nvar(int(j))] = float(v)

        @api
        def putafeg(self, i, v):
            self.g[self.nafe(int(i))] = float(v)

        @api
        def appendquadraticconedomain(self, n):
            self.dom.append(("q", n))
            return len(self.dom) - 1

        @api
        def appendrquadraticconedomain(self, n):
            self.dom.append(("r", n))
            return len(self.dom) - 1

        @api
        def appendacc(self, d, idx, b=None):
            kind, n = self.dom[d]
            if len(idx) != n:
                raise ValueError("a cone takes as many expressions as its domain")
            self.acc.append((kind, [self.nafe(int(i)) for i in idx], np.zeros(n) if b is None else np.array(b, float)))

        @api
        def putparam(self, k, v):
            m.params.append((k, v))

        @api
        def putobjsense(self, s):
            self.sense = s

        @api
        def optimize(self):
            n = len(self.c)
            eq, eb, le, lb = [], [], [], []

            def bound(row, bk, lo, up):
                if bk is m.boundkey.fx:
                    eq.append(row); eb.append(lo)
                if bk in (m.boundkey.lo, m.boundkey.ra):
                    le.append(-row); lb.append(-lo)
                if bk in (m.boundkey.up, m.boundkey.ra):
                    le.append(row); lb.append(up)
            for j, b in enumerate(self.bnd):
                bound(np.eye(n)[j], *b)
            R = np.zeros((len(self.con), n))
            for (i, j), v in self.A.items():
                R[i, j] = v
            for i, b in enumerate(self.con):
                bound(R[i], *b)
            rows, rhs, q = [], [], []
            for kind, idx, b in self.acc:
                E = np.zeros((len(idx), n))
                h = np.array([self.g[i] for i in idx]) - b
                for r, i in enumerate(idx):
                    for j, v in self.F[i].items():
                        E[r, j] = v
                if kind == "r":         # 2 x0 x1 >= |rest|^2  <=>  (x0 + x1) / sqrt 2 >= |((x0 - x1) / sqrt 2, rest)|
                    T = np.eye(len(idx))
                    T[:2, :2] = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
                    E, h = T @ E, T @ h
                rows.append(-E)
                rhs.append(h)
                q.append(len(idx))
            A = np.vstack([np.array(eq).reshape(-1, n), np.array(le).reshape(-1, n)] + rows)
            b = np.concatenate([np.array(eb), np.array(lb)] + rhs)
            sign = 1 if self.sense is m.objsense.minimize else -1
            if not q:
                from scipy.optimize import linprog
                k = len(eq)
                r = linprog(sign * np.array(self.c), A_ub=A[k:], b_ub=b[k:], A_eq=A[:k] if k else None, b_eq=b[:k] if k else None, bounds=(None, None))
                self.done = dict(x=r.x, info=dict(status_val={0: 1, 2: -2, 3: -1}.get(r.status, 0)))
                return
            s = scs.SCS(dict(A=sp.csc_matrix(A), b=b, c=sign * np.array(self.c)), dict(z=len(eq), l=len(le), q=q), verbose=False, eps_abs=1e-10, eps_rel=1e-10, eps_infeas=1e-10, max_iters=200000).solve()
            self.done = s

        @api
        def getsolsta(self, which):
            if status is not None:
                return m.solsta[status]
            v = self.done["info"]["status_val"]
            return {1: m.solsta.optimal, -2: m.solsta.prim_infeas_cer, -1: m.solsta.dual_infeas_cer}.get(v, m.solsta.unknown)

        @api
        def getxx(self, which):
            return list(self.done["x"])
    m.Task = Task
    return m
