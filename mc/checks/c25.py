"""C25 OBJ writing, reading and text layouts: every small mesh and every short OBJ program."""
import itertools, os, tempfile
import numpy as np
from .. import big
from ..core import scenario, G

PROPERTY = "C25"
ASSUMPTIONS = ["the pure-Python OBJ reader and writer are judged (the compiled ones cannot be built here)", "indices are absolute and positive, all vertices of one file "
               "have the same number of coordinates, lines are not continued by a backslash", "a list that is absent from the file may come back as None or empty; "
               "an index the face does not give is -1"]
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def empty(x):
    return x is None or len(x) == 0


# ------------------------------------------------------------------ layouts
# line kinds: (name, list of tokens or raw text, meaning)
LINES = [
    ("v", ["v", "0.5", "-1", "2e-1"], (0.5, -1.0, 0.2)),
    ("v", ["v", "+3", ".25", "1."], (3.0, 0.25, 1.0)),
    ("vt", ["vt", "0.25", "0.75"], (0.25, 0.75)),
    ("vn", ["vn", "0", "0", "-1"], (0.0, 0.0, -1.0)),
    ("f", ["f", "1", "2", "3"], ((0, 1, 2), (-1, -1, -1), (-1, -1, -1))),
    ("f", ["f", "3/1", "1/2", "2/13"], ((2, 0, 1), (0, 1, 12), (-1, -1, -1))),
    ("f", ["f", "1//2", "22//1", "3//3"], ((0, 21, 2), (-1, -1, -1), (1, 0, 2))),
    ("f", ["f", "1/4/7", "2/5/8", "3/6/9"], ((0, 1, 2), (3, 4, 5), (6, 7, 8))),
    ("skip", ["#", "v", "9", "9", "9"], None),
    ("skip", ["#f", "1", "2", "3"], None),
    ("skip", [], None),
    ("skip", ["o", '"quoted', "name"], None),
    ("skip", ["#", '"'], None),
    ("skip", ["g", "f", "1", "2", "3"], None),
    ("skip", ["s", "off"], None),
    ("skip", ["usemtl", "v"], None),
    ("skip", ["mtllib", "a.mtl,b.mtl", "'x'"], None),
    ("skip", ["l", "1", "2"], None),
    ("skip", ["vp", "0.5", "1"], None),
]
# layout: (separator, prefix, suffix, line end, end of file)
LAYOUTS = [(" ", "", "", "\n", "\n"), (" ", "", "", "\r\n", "\r\n"), ("  ", " ", " ", "\n", ""), ("\t", "", "", "\n", "\n"), (" \t ", "\t", " \t", "\r\n", ""), (" ", "", "", "\n", "\n\n \n")]


def programs(tier):
    nl = len(LINES)
    for n in range(0, 3):
        for p in itertools.product(range(nl), repeat=n):
            for lay in range(len(LAYOUTS)):
                yield [list(p), lay]
    core = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12]
    for t, p in enumerate(itertools.product(core, repeat=3)):
        for lay in range(len(LAYOUTS)):
            if tier == "thorough" or lay == t % len(LAYOUTS) or lay == (t // 11) % len(LAYOUTS):
                yield [list(p), lay]
    core = [0, 1, 2, 4, 5, 7, 11] if tier == "quick" else core
    for t, p in enumerate(itertools.product(core, repeat=4)):
        yield [list(p), t % len(LAYOUTS)]
    if tier == "thorough":
        for t, p in enumerate(itertools.product([0, 2, 3, 5, 6, 7, 12], repeat=5)):
            yield [list(p), t % len(LAYOUTS)]


def compare(ctx, got, rows, aspect, dtype):
    if not rows:
        ctx.check(empty(got), aspect, lambda: f"got {got!r}, nothing listed")
        return
    ok = isinstance(got, np.ndarray) and got.dtype.kind == dtype and got.shape == (len(rows), len(rows[0])) and np.array_equal(got, np.array(rows))
    ctx.check(ok, aspect, lambda: f"got {got!r}, want {rows!r}")


@scenario("layouts", programs, "every OBJ program of up to 4 lines over all statement kinds, in six text layouts, with every choice of requested outputs",
          nontrivial=lambda c: any(LINES[i][0] == "f" for i in c[0]))
def layouts(case, ctx):
    prog, lay = case
    sep, pre, suf, eol, eof = LAYOUTS[lay]
    text = eol.join(pre + sep.join(LINES[i][1]) + suf for i in prog) + eof
    rows = {k: [LINES[i][2] for i in prog if LINES[i][0] == k] for k in ("v", "vt", "vn", "f")}
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        path = os.path.join(d, "m.obj")
        with open(path, "w", newline="") as f:
            f.write(text)
        for uv, nn in ((False, False), (True, False), (False, True), (True, True)):
            r = G.read_mesh(path, return_UV=uv, return_N=nn, reader=(None, "Python")[lay % 2])
            ctx.eq(len(r), 2 + 2 * uv + 2 * nn, "outputs")
            compare(ctx, r[0], rows["v"], "V", "f")
            compare(ctx, r[1], [x[0] for x in rows["f"]], "F", "i")
            if uv:
                compare(ctx, r[2], rows["vt"], "UV", "f")
                compare(ctx, r[3], [x[1] for x in rows["f"]], "Ft", "i")
            if nn:
                compare(ctx, r[-2], rows["vn"], "N", "f")
                compare(ctx, r[-1], [x[2] for x in rows["f"]], "Fn", "i")
        ctx.eq(sorted(os.listdir(d)), ["m.obj"], "other-files")
    ctx.outcome(tuple(len(rows[k]) for k in rows))


def bad(tier):
    for at in range(3):
        for corners in (1, 2, 4, 5):
            for lay in (0, 3):
                for style in range(4):
                    yield [at, corners, lay, style]


@scenario("not_triangles", bad, "a face that is no triangle is an error wherever it stands")
def not_triangles(case, ctx):
    at, corners, lay, style = case
    sep, pre, suf, eol, eof = LAYOUTS[lay]
    toks = [["v", "0", "0", "0"], ["f", "1", "2", "3"]]
    toks.insert(at, ["f"] + [str(i + 1) + ("", "/1", "//1", "/1/1")[style] for i in range(corners)])
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        path = os.path.join(d, "m.obj")
        with open(path, "w", newline="") as f:
            f.write(eol.join(sep.join(t) for t in toks) + eof)
        ctx.raises(lambda: G.read_mesh(path), "non-triangle-accepted")


# ------------------------------------------------------------------ round trips
VALS = (0.0, 1.0, -0.5, 0.1, 1 / 3, 1e-300, -2.5e300, 123456789.0123456789, 5e-324)
FACES = {3: [[[0, 1, 2]], [[2, 1, 0], [0, 1, 2]]], 4: [[[0, 1, 2], [1, 3, 2]], [[3, 0, 1]]], 12: [[[0, 5, 11], [11, 10, 9], [3, 9, 10]]]}
NAMES = [("m.obj", None), ("M.OBJ", None), ("a.b.obj", None), ("noext", "obj"), ("m.txt", ".obj"), ("m.stl", "OBJ"), ("m.obj", "obj")]


def meshes(tier):
    k = 0
    for n in (3, 4, 12):
        for fi in range(len(FACES[n])):
            # texture: none / same count with default index / other count with index / same count with own index / other count without index
            for tex in range(5):
                for nor in range(5):
                    for name in range(len(NAMES)):
                        for rep in range(3 if tier == "quick" else 9):
                            k += 1
                            yield [n, fi, tex, nor, name, (k * 5 + rep * 3) % 9, k % 4]


def attribute(kind, n, F, dim, s):
    val = lambda m: np.array([[VALS[(i * dim + j + s) % 9] for j in range(dim)] for i in range(m)])
    m = len(F)
    if kind == 0:
        return None, None
    if kind == 1:
        return val(n), None
    if kind == 2:
        return val(n + 2), np.array([[(a + 2 + j) % (n + 2) for j, a in enumerate(t)] for t in F])
    if kind == 3:
        return val(n), np.array([[(a + 1) % n for a in t] for t in F])
    return val(n + 1), None


def expect(kind, F, I):
    if kind == 1:
        return F.tolist()
    return [[-1] * 3 for _ in F] if I is None else I.tolist()


@scenario("roundtrip", meshes, "every small mesh x texture/normal presence and indexing x file name and explicit format x value pattern",
          nontrivial=lambda c: c[2] > 0 or c[3] > 0)
def roundtrip(case, ctx):
    n, fi, tex, nor, name, s, rep = case
    F = np.array(FACES[n][fi], dtype=(np.int64, np.int32, np.uint32, np.int64)[rep])
    V = np.array([[VALS[(i * 3 + j * 2 + s) % 9] for j in range(3)] for i in range(n)])
    if rep == 3:
        V, F = np.asfortranarray(V), np.asfortranarray(F)
    UV, Ft = attribute(tex, n, F.tolist(), 2, s)
    N, Fn = attribute(nor, n, F.tolist(), 3, s + 1)
    fn, fmt = NAMES[name]
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        path = os.path.join(d, fn)
        with open(path, "w") as f:      # an older, longer file of the same name
            f.write("v 7 7 7\n" * 400 + "f 1 2 3\n" * 50)
        G.write_mesh(path, V, F, UV=UV, Ft=Ft, N=N, Fn=Fn, fmt=fmt, writer=(None, "Python")[s % 2])
        V2, F2, UV2, Ft2, N2, Fn2 = G.read_mesh(path, fmt=fmt, return_UV=True, return_N=True)
        V3, F3 = G.read_mesh(path, fmt=fmt)
        with open(path) as f:
            text = f.read()
        ctx.eq(os.listdir(d), [fn], "other-files")
    compare(ctx, V2, V.tolist(), "V", "f")
    compare(ctx, F2, F.tolist(), "F", "i")
    ctx.check(np.array_equal(V2, V3) and np.array_equal(F2, F3), "plain-read")
    compare(ctx, UV2, [] if UV is None else UV.tolist(), "UV", "f")
    compare(ctx, N2, [] if N is None else N.tolist(), "N", "f")
    compare(ctx, Ft2, expect(tex, F, Ft), "Ft", "i")
    compare(ctx, Fn2, expect(nor, F, Fn), "Fn", "i")
    # the text itself, read by an independent parser
    L = [l.split() for l in text.splitlines()]
    ctx.check([[float(x) for x in l[1:]] for l in L if l and l[0] == "v"] == V.tolist(), "text-v")
    fl = [[c.split("/") for c in l[1:]] for l in L if l and l[0] == "f"]
    ctx.check([[int(c[0]) - 1 for c in t] for t in fl] == F.tolist(), "text-f")
    for kind, I, at, asp in ((tex, Ft, 1, "text-ft"), (nor, Fn, 2, "text-fn")):
        ctx.check([[int(c[at]) - 1 if len(c) > at and c[at] else -1 for c in t] for t in fl] == expect(kind, F, I), asp)
    ctx.outcome((tex, nor, name))


def larges(tier):
    for t, spec in enumerate(big.surfaces(tier)):
        if (spec[1] + 1) * (spec[2] + 1) * spec[4] < 80000:
            for tex, nor in ((0, 0), (1, 3), (2, 1), (3, 2), (4, 4)):
                if tier != "quick" or (t + tex) % 3 == 0 or spec[4] > 1 and tex in (0, 2):
                    yield [spec, tex, nor]


@scenario("large", larges, "files of many vertices and faces, indices beyond 16 bits")
def large(case, ctx):
    spec, tex, nor = case
    V, F = big.surface(spec)
    n, F = len(V), np.array(F, int)
    UV, Ft = attribute(tex, n, F.tolist(), 2, 3)
    N, Fn = attribute(nor, n, F.tolist(), 3, 4)
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        path = os.path.join(d, "m.obj")
        G.write_mesh(path, V, F, UV=UV, Ft=Ft, N=N, Fn=Fn, writer="Python")
        V2, F2, UV2, Ft2, N2, Fn2 = G.read_mesh(path, return_UV=True, return_N=True, reader="Python")
    compare(ctx, V2, V.tolist(), "V", "f")
    compare(ctx, F2, F.tolist(), "F", "i")
    compare(ctx, UV2, [] if UV is None else UV.tolist(), "UV", "f")
    compare(ctx, N2, [] if N is None else N.tolist(), "N", "f")
    compare(ctx, Ft2, expect(tex, F, Ft), "Ft", "i")
    compare(ctx, Fn2, expect(nor, F, Fn), "Fn", "i")
    ctx.outcome((tex, nor, n > 65536))
