"""Exhaustive small-scope explorer: runs every case of every scenario of a property on the real code.

A *scenario* enumerates, in a fixed order (simplest first), a finite space of cases -- inputs, operation
histories, environment answers -- as JSON-able values, and judges one case by running the real library and
comparing it with an independent reference model.  A case may itself be an explicit-state search (it then
reports the states and transitions it visited).

Nothing is sampled: all cases of the tier are executed, split over worker processes by index."""
import collections, gc, hashlib, json, multiprocessing as mp, os, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
MAXFAIL = 40


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


class Ctx:
    """Counters and judgement helpers of one worker."""

    def __init__(self, tier):
        self.tier = tier
        self.transitions = 0      # calls of the real implementation
        self.extra_states = set()  # states reached inside explicit-state searches
        self.compared = 0         # comparisons of an implementation result with the reference
        self.outcomes = collections.Counter()
        self.fails = []
        self.scn = None

    # -- judging
    def fail(self, aspect, msg):
        self.fails.append((aspect, str(msg)[:600]))

    def check(self, cond, aspect, msg=""):
        self.compared += 1
        if not cond:
            self.fail(aspect, msg() if callable(msg) else msg)
        return bool(cond)

    def eq(self, got, want, aspect, msg=""):
        self.compared += 1
        if got != want:
            self.fail(aspect, f"{msg}: got {got!r}, want {want!r}")
            return False
        return True

    def close(self, got, want, aspect, msg="", tol=1e-9):
        import numpy as np
        self.compared += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(aspect, f"{msg}: shape {g.shape}, want {w.shape}")
            return False
        if g.size:
            both_nan = np.isnan(g) & np.isnan(w)
            same = (g == w) | both_nan
            with np.errstate(all="ignore"):
                ok = same | (np.abs(g - w) <= tol * (1.0 + np.abs(w)))
            if not np.all(ok):
                self.fail(aspect, f"{msg}: got {g.tolist()!r}, want {w.tolist()!r}")
                return False
        return True

    def raises(self, fn, aspect, msg="", exc=Exception):
        self.compared += 1
        try:
            r = fn()
        except exc:
            return True
        self.fail(aspect, f"{msg}: expected an error, got {r!r}")
        return False

    # -- coverage
    def state(self, key):
        self.extra_states.add(hash8((self.scn, key)))

    def outcome(self, key):
        self.outcomes[(self.scn, str(key)[:80])] += 1


def hash8(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


# How array arguments are stored while one case runs: a fixed function of the case, so that every check explores its
# property under every storage a caller may use (None: as the scenario built them).
STORAGE = [None, None, None, "fortran", "strided", "reversed", "readonly", "int32"]


def stored(x, how):
    import numpy as np
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, np.ndarray) for y in x):
        return type(x)([stored(y, how) for y in x]) if type(x) in (list, tuple) else x
    if type(x) is not np.ndarray or x.ndim == 0 or x.dtype.kind not in "biuf":
        return x
    if how == "fortran":
        return np.array(x, order="F")
    if how == "strided":
        big = np.full(tuple(2 * n + 1 for n in x.shape), 123, x.dtype)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in x.shape)]
        v[...] = x
        return v
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return x[sl].copy()[sl]
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "int32" and x.dtype == np.int64 and (x.size == 0 or (x.max() < 2 ** 31 and x.min() >= -2 ** 31)):
        return x.astype(np.int32)
    return x


class GProxy:
    """gpytoolbox with every call counted as a transition, its arrays stored in the way the case asks for."""

    def __init__(self):
        self.ctx = None
        self.how = None
        self._c = {}

    def __getattr__(self, name):
        import gpytoolbox
        f = getattr(gpytoolbox, name)
        if not callable(f):
            return f
        if isinstance(f, type):
            self_ = self

            def wrapc(*a, **k):
                self_.ctx.transitions += 1
                return f(*a, **k)
            object.__setattr__(self, name, wrapc)
            return wrapc

        def wrap(*a, **k):
            self.ctx.transitions += 1
            how = self.how
            if how:
                a = [stored(x, how) for x in a]
                k = {n: stored(x, how) for n, x in k.items()}
            return f(*a, **k)
        self.__dict__[name] = wrap
        return wrap


G = GProxy()


class Scenario:
    def __init__(self, name, cases, run, about="", nontrivial=None, tiers=("quick", "thorough"), storages=True):
        self.storages = storages
        self.name, self.cases, self.run, self.about, self.tiers = name, cases, run, about, tiers
        self.nontrivial = nontrivial or (lambda case: True)


def scenario(name, cases, about="", **kw):
    """Decorator: @scenario('edges', lambda tier: iter_cases(tier)) def run(case, ctx): ..."""
    def deco(fn):
        s = Scenario(name, cases, fn, about, **kw)
        sys.modules[fn.__module__].__dict__.setdefault("SCENARIOS", []).append(s)
        return fn
    return deco


def run_case(scn, case, ctx):
    """Returns the list of (aspect, message) failures of one case."""
    ctx.fails = []
    ctx.scn = scn.name
    G.ctx = ctx
    G.how = STORAGE[hash8((scn.name, key_of(case)))[0] % len(STORAGE)] if scn.storages else None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        scn.run(case, ctx)
    except Hang:
        ctx.fail("hang", f"no answer within {CASE_TIMEOUT} s")
    except MemoryError:
        raise
    except Exception as e:  # the library (or its result) is not usable on a valid input
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "gpytoolbox" in f.filename] or list(tb)
        ctx.fail("exception", f"{type(e).__name__}: {e} at {os.path.basename(last[-1].filename)}:{last[-1].name}")
    finally:
        signal.alarm(0)
    return ctx.fails


def key_of(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _worker(mod, tier, w, nw, conn, work):
    try:
        ctx = Ctx(tier)
        out = dict(viol=[], known=[], cases=0, per={}, nontrivial=0, samples=[], hashes=set(), t={})
        known = load_known(mod.PROPERTY)
        base = 0
        hung = False
        for scn, cases in work:
            n = nt = 0
            nfail = 0
            capped = False
            t0 = time.time()
            for i in range((w - base) % nw, len(cases), nw):
                if hung:
                    capped = True
                    break
                case = cases[i]
                n += 1
                k = key_of(case)
                out["hashes"].add(hash8((scn.name, k)))
                if scn.nontrivial(case):
                    nt += 1
                if i < 2 or i == 137:
                    out["samples"].append(dict(scenario=scn.name, index=i, case=k[:400]))
                fails = run_case(scn, case, ctx)
                hung = any(a == "hang" for a, _m in fails)
                for aspect, msg in fails:
                    e = match_known(known, scn.name, aspect, k)
                    if e is not None:
                        out["known"].append((e, scn.name, aspect, k[:300]))
                    else:
                        out["viol"].append(dict(scenario=scn.name, index=i, aspect=aspect, msg=msg, case=k))
                        nfail += 1
                if nfail >= MAXFAIL:
                    capped = True
                    break
            base += len(cases)
            out["per"][scn.name] = (n, nt, capped)
            out["t"][scn.name] = round(time.time() - t0, 2)
            out["cases"] += n
            out["nontrivial"] += nt
        out.update(transitions=ctx.transitions, compared=ctx.compared, extra=ctx.extra_states,
                   outcomes=dict(ctx.outcomes))
        conn.send(out)
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    finally:
        conn.close()


# ---------------------------------------------------------------- known findings
def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        out = [e for e in json.load(f)["findings"] if e["property"] == prop]
    for e in out:
        e["cases"] = {c if isinstance(c, str) else key_of(c) for c in e["cases"]}
    return out


def match_known(known, scn, aspect, key):
    for i, e in enumerate(known):
        if e["scenario"] == scn and e["aspect"] == aspect and key in e["cases"]:
            return i
    return None


# ---------------------------------------------------------------- entry
def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--only":
            only = argv[i + 1].split(","); i += 2
        elif argv[i] == "--replay":
            return replay(mod, argv[i + 1])
        else:
            raise SystemExit("usage: --tier T | --only a,b | --replay FILE")
    prop = mod.PROPERTY
    t0 = time.time()
    work = [(s, list(s.cases(tier))) for s in mod.SCENARIOS if tier in s.tiers and not (only and s.name not in only)]
    gc.collect()
    gc.freeze()   # the case lists stay shared between the forked workers
    ctxm = mp.get_context("fork")
    procs = []
    for w in range(nw):
        r, s = ctxm.Pipe(False)
        p = ctxm.Process(target=_worker, args=(mod, tier, w, nw, s, work))
        p.start(); s.close()
        procs.append((p, r))
    res = []
    for p, r in procs:
        try:
            res.append(r.recv())
        except EOFError:
            res.append(dict(error="worker died"))
        p.join()
    errs = [r["error"] for r in res if "error" in r]
    if errs:
        print("CHECK ERROR\n" + errs[0], file=sys.stderr)
        return 2
    wall = time.time() - t0
    viol = sorted((v for r in res for v in r["viol"]), key=lambda v: ([s.name for s in mod.SCENARIOS].index(v["scenario"]), v["index"]))
    hashes = set().union(*[r["hashes"] for r in res])
    extra = set().union(*[r["extra"] for r in res])
    per = {}
    for r in res:
        for k, (n, nt, capped) in r["per"].items():
            a = per.setdefault(k, dict(cases=0, nontrivial=0, stopped_early=False))
            a["cases"] += n; a["nontrivial"] += nt; a["stopped_early"] |= capped
    outc = collections.Counter()
    for r in res:
        for (s, k), n in r["outcomes"].items():
            outc[s, k] += n
    for k in per:
        per[k]["distinct_outcomes"] = len([1 for (s, _) in outc if s == k])
        per[k]["cpu_s"] = round(sum(r["t"].get(k, 0) for r in res), 1)
    about = {s.name: s.about for s in mod.SCENARIOS}
    for k in per:
        per[k]["about"] = about[k]
    samples = sorted((s for r in res for s in r["samples"]), key=lambda s: (s["scenario"], s["index"]))[:60]
    complete = not any(p["stopped_early"] for p in per.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=len(hashes) + len(extra),
                            transitions=sum(r["transitions"] for r in res),
                            traces_validated_against_impl=sum(r["cases"] for r in res),
                            reference_comparisons=sum(r["compared"] for r in res),
                            evaluations=sum(r["cases"] for r in res),
                            distinct_nontrivial=sum(r["nontrivial"] for r in res),
                            rule="states: distinct enumerated cases plus distinct states reached inside explicit-state "
                                 "searches; transitions: calls of the real library; every case is executed on the real "
                                 "library and compared with the reference model (traces_validated_against_impl); "
                                 "non-trivial: the scenario's own predicate on the case",
                            exhaustive=bool(complete and only is None),
                            scenarios=per, samples=samples),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))
    for k, a in per.items():
        print(f"  {prop} {k}: cases={a['cases']} nontrivial={a['nontrivial']} outcomes={a['distinct_outcomes']} cpu={a['cpu_s']}s")
    print(f"{prop} tier={tier}: states={ev['coverage']['states']} transitions={ev['coverage']['transitions']} "
          f"comparisons={ev['coverage']['reference_comparisons']} wall={wall:.1f}s exhaustive={ev['coverage']['exhaustive']}")
    known = load_known(prop)
    hit = collections.Counter(e for r in res for (e, *_x) in r["known"])
    for i in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[i]['what']} ({hit[i]} failing judgements, scenario {known[i]['scenario']})")
    if viol:
        rp = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rp, exist_ok=True)
        seen = set()
        first = None
        for v in viol:
            k = (v["scenario"], v["aspect"])
            if k in seen:
                continue
            seen.add(k)
            path = os.path.join(rp, f"{prop}-{v['scenario']}-{v['aspect'].replace('/', '_').replace(' ', '_')}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, scenario=v["scenario"], case=json.loads(v["case"]), aspect=v["aspect"],
                               message=v["msg"], replay=f"/verif/check.sh {prop} --replay {path}"), f, indent=1)
            first = first or path
            print(f"  {v['scenario']}/{v['aspect']} case {v['case'][:300]}: {v['msg'][:400]}")
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    return 0


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    scn = [s for s in mod.SCENARIOS if s.name == d["scenario"]][0]
    ctx = Ctx("quick")
    f1 = list(run_case(scn, d["case"], ctx))
    f2 = list(run_case(scn, d["case"], ctx))
    for a, m in f1:
        print(f"{a}: {m}")
    print("reproducible" if f1 == f2 else "NOT REPRODUCIBLE")
    if f1:
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    return 0
