"""C26 DMAT files: every small matrix in both encodings, every truncation point and header damage."""
import itertools, os, struct, tempfile
import numpy as np
from ..core import scenario, G

PROPERTY = "C26"
ASSUMPTIONS = ["the file format is libigl's: header 'columns rows', then column-major values separated by white space, or header '0 0', 'columns rows' and 8-byte little-endian doubles",
               "a text file cut inside its last number is a different valid file and is not judged"]
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
VALS = (0.0, -0.0, 1.0, -2.5, 1e-300, 0.1, float("inf"), 5e-324, 12345678.901234567, float("-inf"), 1.7976931348623157e308, 3.0, float("nan"))
SHAPES = [(r, c) for r in range(1, 5) for c in range(1, 5)]
EMPTY = [(0, 1), (1, 0), (0, 3), (3, 0)]
SEPS = ["\n", " ", "  ", "\t", "\r\n", "\n\n"]


def matrix(r, c, s):
    if r == 0 or c == 0:
        return np.zeros((r, c))
    return [[VALS[(s + i * c + j) % len(VALS)] for j in range(c)] for i in range(r)]


def encode(M, enc, sep="\n", end=True, fmt="%r", head=None):
    r, c = np.shape(M)
    h = head if head is not None else f"{c} {r}"
    col = [M[i][j] for j in range(c) for i in range(r)]
    if enc == "binary":
        return (f"0 0\n{h}\n").encode() + b"".join(struct.pack("<d", x) for x in col)
    return (f"{h}\n" + sep.join(fmt % x for x in col) + (sep if end else "")).encode()


def read(data):
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        p = os.path.join(d, "m.dmat")
        with open(p, "wb") as f:
            f.write(data)
        return G.read_dmat(p)


def same(ctx, got, M, aspect):
    W = np.array(M, dtype=float)
    ctx.check(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == W.shape and np.array_equal(got, W, equal_nan=True)
              and np.array_equal(np.signbit(got), np.signbit(W)), aspect, lambda: f"got {got!r}, want {M!r}")


def valid(tier):
    for (r, c) in SHAPES + EMPTY + [(1, 9), (9, 1), (300, 2), (2, 300), (17, 16), (33, 40), (1100, 3), (1, 1500)]:
        for s in range(len(VALS) if r * c < 20 else 1):
            for e in range(1 + len(SEPS) * 3):
                if tier == "thorough" or r * c <= 6 or (s + e) % 5 == 0:
                    yield [r, c, s, e]


@scenario("valid", valid, "every shape up to 4x4, value patterns with all special values, binary and six text separators with and without final separator, two number formats",
          nontrivial=lambda c: c[0] != c[1])
def valid_file(case, ctx):
    r, c, s, e = case
    M = matrix(r, c, s)
    if e == 0:
        same(ctx, read(encode(M, "binary")), M, "binary")
    else:
        sep, v = SEPS[(e - 1) // 3], (e - 1) % 3
        same(ctx, read(encode(M, "ascii", sep, end=v != 1, fmt="%r" if v < 2 else "%.17g")), M, "ascii")
    ctx.outcome((r, c, e == 0))


def cuts(tier):
    for (r, c) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 3)] if tier == "thorough" else []):
        for s in range(0, len(VALS), 3):
            for enc in ("binary", "ascii", "ascii-space"):
                yield [r, c, s, enc]


@scenario("truncated", cuts, "every byte prefix of each file (for text: every prefix that lacks a value) must be rejected", nontrivial=lambda c: True)
def truncated(case, ctx):
    r, c, s, enc = case
    M = matrix(r, c, s)
    data = encode(M, enc.split("-")[0], " " if enc.endswith("space") else "\n", end=False)
    n = len(data)
    if enc != "binary":
        n = max(i for i, b in enumerate(data) if b in b" \n") + 2      # cuts inside the last number are not judged
    for k in range(n):
        ctx.state((case, k))
        ctx.raises(lambda: read(data[:k]), "truncated-accepted", f"{enc} {r}x{c} cut at byte {k}")


def headers(tier):
    for enc in ("binary", "ascii"):
        for (r, c) in [(1, 1), (2, 3), (3, 2)]:
            for h in range(len(HEADS(1, 1))):
                yield [enc, r, c, h]


def HEADS(r, c):
    return [f"{c}", "", "x y", f"{c} {r} 1", f"{c}.5 {r}", f"{c},{r}", f"{-c} {r}", f"{c} {-r}", f"{c} {r + 1}", f"{c + 1} {r}", f"{c + 1} {r + 1}", f"{c} x"]


@scenario("headers", headers, "damaged headers: missing, extra, non-numeric, negative or too large sizes must be rejected")
def header(case, ctx):
    enc, r, c, h = case
    M = matrix(r, c, 2)
    ctx.raises(lambda: read(encode(M, enc, head=HEADS(r, c)[h])), "bad-header-accepted", HEADS(r, c)[h])


@scenario("values", lambda t: [[r, c, k, v] for r, c in [(1, 1), (2, 2), (3, 1)] for k in range(r * c) for v in range(6)], "one damaged value in a text file must be rejected")
def values(case, ctx):
    r, c, k, v = case
    toks = ["1.5"] * (r * c)
    toks[k] = ["x", "1.5x", "--1", "1e", "0x10", "1,5"][v]
    for sep in ("\n", " "):
        ctx.raises(lambda: read((f"{c} {r}\n" + sep.join(toks) + "\n").encode()), "bad-value-accepted", toks)
