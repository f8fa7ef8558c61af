"""Development aid (not a check): mechanical mutants of the library, run against the checks anchored to the mutated file.

    mutate.py OUT.jsonl [--files a.py,b.py] [--budget SECONDS] [--every N] [--offset K]

Each mutant lives in its own scratch copy of /repo/src; a mutant is killed by the first failing case of an anchored check.
Cases are visited in a strided order until the budget is used up (so a survivor is only a suspicion)."""
import ast, itertools, json, multiprocessing as mp, os, shutil, subprocess, sys, time

R = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SRC = "/repo/src/gpytoolbox"
SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def sub(s, e, new):
        return (b[:s] + new.encode() + b[e:]).decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print")):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assert):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "verbose" in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            s, e = seg(n.left)[1], seg(n.comparators[0])[0]
            for w in SWAP[type(n.ops[0])]:
                old = b[s:e].decode()
                sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(n.ops[0])]
                out.append((n.lineno, f"{sym} -> {w}", sub(s, e, old.replace(sym, w, 1))))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = seg(n.left)[1], seg(n.right)[0]
            old = b[s:e].decode()
            o, w = BIN[type(n.op)]
            out.append((n.lineno, f"{o} -> {w}", sub(s, e, old.replace(o, w, 1))))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            s, e = seg(n)
            out.append((n.lineno, f"{n.value} -> {not n.value}", sub(s, e, str(not n.value))))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            s, e = seg(n)
            for d in (1, -1):
                out.append((n.lineno, f"{n.value} -> {n.value + d}", sub(s, e, f"({n.value + d})")))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            s, e = seg(n)
            out.append((n.lineno, f"{n.value} -> {n.value * 1.25 + 0.125}", sub(s, e, repr(n.value * 1.25 + 0.125))))
        if isinstance(n, ast.UnaryOp):
            s, e = seg(n)
            s2, e2 = seg(n.operand)
            if not isinstance(n.operand, ast.Constant):
                out.append((n.lineno, "drop unary", sub(s, e, b[s2:e2].decode())))
        if isinstance(n, ast.BoolOp):
            s, e = seg(n)
            a, c = n.values[0], n.values[1]
            s1, e1 = seg(a)[1], seg(c)[0]
            old = b[s1:e1].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            out.append((n.lineno, f"{o} -> {w}", sub(s1, e1, old.replace(o, w, 1))))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "targets", [None])[0], (ast.Name, ast.Tuple)):
            s, e = seg(n)
            out.append((n.lineno, "delete statement", sub(s, e, "pass")))
        if isinstance(n, ast.If):
            s, e = seg(n.test)
            out.append((n.lineno, "if True", sub(s, e, "True")))
            out.append((n.lineno, "if False", sub(s, e, "False")))
        if isinstance(n, (ast.Continue, ast.Break)):
            s, e = seg(n)
            out.append((n.lineno, "drop " + type(n).__name__, sub(s, e, "pass")))
    seen, res = set(), []
    for l, d, t in out:
        if t in seen or t == src:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((l, d, t))
    return res


JUDGE = r'''
import sys, os, json, time, importlib, random
sys.path.insert(0, %r)
budget = float(sys.argv[1])
from mc import env, core
checks = sys.argv[2].split(",")
t0 = time.time()
import signal
for c in checks:
    mod = importlib.import_module("mc.checks." + c.lower())
    ctx = core.Ctx("quick")
    work = [(s, list(s.cases("quick"))) for s in mod.SCENARIOS if "quick" in s.tiers]
    total = sum(len(w) for _, w in work)
    items = []
    for s, w in work:
        items += [(i / len(w), s, x) for i, x in enumerate(w)]
    # strided: a golden-ratio order over each scenario, scenarios interleaved
    items = [(k * 0.6180339887498949 %% 1.0, s, x) for k, (_, s, x) in enumerate(items)]
    items.sort(key=lambda t: t[0])
    tb = time.time()
    n = 0
    for _, s, x in items:
        f = core.run_case(s, x, ctx)
        n += 1
        if f:
            print(json.dumps(dict(killed=c, scenario=s.name, aspect=f[0][0], after=n, of=total)))
            sys.exit(0)
        if time.time() - tb > budget / len(checks):
            break
print(json.dumps(dict(killed=None, ran=time.time() - t0)))
''' % R


def judge(job):
    f, line, desc, text, checks, budget, slot = job
    d = f"/tmp/mut/w{os.getpid()}"
    if not os.path.exists(d):
        shutil.copytree("/repo/src", d + "/src")
    p = os.path.join(d, "src/gpytoolbox", f)
    orig = open(os.path.join(SRC, f)).read()
    with open(p, "w") as h:
        h.write(text)
    envv = dict(os.environ, GPT_REPO=d, VERIF_CASE_TIMEOUT="20", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", JUDGE, str(budget), ",".join(checks)], env=envv, cwd=R, capture_output=True, text=True, timeout=budget * 2 + 120)
        try:
            v = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            v = dict(killed="import/crash", err=r.stderr[-300:])
    except subprocess.TimeoutExpired:
        v = dict(killed="timeout")
    with open(p, "w") as h:
        h.write(orig)
    v.update(file=f, line=line, desc=desc, text=orig.split("\n")[line - 1].strip())
    return v


def main():
    out = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    budget = float(opt.get("--budget", 40))
    every, offset = int(opt.get("--every", 1)), int(opt.get("--offset", 0))
    files = opt["--files"].split(",") if "--files" in opt else None
    cmap = {}
    for l in open(os.path.join(R, "properties.jsonl")):
        d = json.loads(l)
        if os.path.exists(os.path.join(R, "mc/checks", d["id"].lower() + ".py")):
            for f in d["anchors"]["files"]:
                if d["id"] != "C31":
                    cmap.setdefault(f[len("src/gpytoolbox/"):], []).append(d["id"])
    jobs = []
    for f in sorted(cmap):
        if files and f not in files:
            continue
        ms = mutants(open(os.path.join(SRC, f)).read())
        if f == "colormap.py":
            ms = ms[:40]
        jobs += [(f, l, d, t, cmap[f], budget, 0) for l, d, t in ms]
    jobs = jobs[offset::every]
    print(len(jobs), "mutants", flush=True)
    killed = n = 0
    with mp.Pool(int(opt.get("--jobs", 8))) as pool, open(out, "a") as h:
        for v in pool.imap_unordered(judge, jobs):
            n += 1
            killed += v["killed"] is not None
            h.write(json.dumps(v) + "\n"); h.flush()
            if n % 50 == 0:
                print(n, killed, flush=True)
    print("done", n, killed)


if __name__ == "__main__":
    main()
