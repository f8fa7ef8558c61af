"""C37 Images become polylines that separate their bright pixels from their dark ones, whatever the PNG format."""
import itertools, os, struct, tempfile, zlib
import numpy as np
from ..core import scenario, G

PROPERTY = "C37"
ASSUMPTIONS = ["bright means brighter than half of the brightest pixel", "x runs along the rows of the image, y from its last row upwards; one pixel has size one"]
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def bits(row, depth):
    """pack samples of 1, 2 or 4 bits"""
    b = "".join(format(x, f"0{depth}b") for x in row)
    b += "0" * (-len(b) % 8)
    return bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))


# format: colour type, depth, how a pixel value 0..255 is stored
FORMATS = {
    "gray8": (0, 8, lambda r: bytes(r)),
    "gray16": (0, 16, lambda r: b"".join(struct.pack(">H", v * 257) for v in r)),
    "gray4": (0, 4, lambda r: bits([v // 17 for v in r], 4)),
    "gray1": (0, 1, lambda r: bits([int(v > 127) for v in r], 1)),
    "graya8": (4, 8, lambda r: b"".join(bytes([v, 255]) for v in r)),
    "graya16": (4, 16, lambda r: b"".join(struct.pack(">HH", v * 257, 65535) for v in r)),
    "rgb8": (2, 8, lambda r: b"".join(bytes([v] * 3) for v in r)),
    "rgba8": (6, 8, lambda r: b"".join(bytes([v] * 3 + [255]) for v in r)),
    "rgb16": (2, 16, lambda r: b"".join(struct.pack(">HHH", *[v * 257] * 3) for v in r)),
    "pal8": (3, 8, lambda r: bytes(r)),
    "pal1": (3, 1, lambda r: bits([int(v > 127) for v in r], 1)),
}
BINARY = {"gray1", "pal1"}          # formats that hold two values only


def write_png(path, img, fmt):
    ct, depth, row = FORMATS[fmt]
    h, w = len(img), len(img[0])
    raw = b"".join(b"\0" + row([int(v) for v in r]) for r in img)
    pal = b"" if ct != 3 else chunk(b"PLTE", bytes([0] * 3 + [255] * 3) if depth == 1 else b"".join(bytes([v] * 3) for v in range(256)))
    with open(path, "wb") as f:
        f.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ct, 0, 0, 0)) + pal + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def contour(img, fmt):
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        p = os.path.join(d, "image.png")
        write_png(p, img, fmt)
        return G.png2poly(p)


def judge(ctx, img, P, tag):
    h, w = len(img), len(img[0])
    top = max(max(r) for r in img)
    bright = lambda x, y: 2 * img[h - 1 - y][x] > top
    want = set()
    for x in range(w):
        for y in range(h):
            for a, b in ((x + 1, y), (x, y + 1)):
                if a < w and b < h and bright(x, y) != bright(a, b):
                    want.add((x, y, a, b))
    seen = []
    ok = ctx.check(isinstance(P, list), tag + "-list", str(type(P)))
    for c in P:
        c = np.asarray(c)
        if not ctx.check(c.ndim == 2 and c.shape[1] == 2 and len(c) >= 2 and np.isfinite(c).all(), tag + "-shape", str(c.shape)):
            return
        closed = np.allclose(c[0], c[-1])
        ok &= ctx.check(not closed or len(c) > 3, tag + "-degenerate", c.tolist)
        cells = []
        for x, y in c[:-1] if closed else c:
            # on the open segment between two pixel centres
            fx, fy = abs(x - round(x)) < 1e-9, abs(y - round(y)) < 1e-9
            if not ctx.check(fx != fy, tag + "-on-edge", lambda: f"{x},{y}"):
                return
            e = (round(x), int(np.floor(y)), round(x), int(np.floor(y)) + 1) if fx else (int(np.floor(x)), round(y), int(np.floor(x)) + 1, round(y))
            seen.append(e)
            cells.append(e)
        if not closed:
            for e in (cells[0], cells[-1]):
                rim = (e[0] == e[2] and e[0] in (0, w - 1)) or (e[1] == e[3] and e[1] in (0, h - 1))
                ok &= ctx.check(rim, tag + "-open-inside", lambda: str(e))
        if closed:
            cells.append(cells[0])
        for e, f in zip(cells, cells[1:]):      # consecutive points lie on one cell
            xs, ys = [e[0], e[2], f[0], f[2]], [e[1], e[3], f[1], f[3]]
            ok &= ctx.check(e != f and max(xs) - min(xs) <= 1 and max(ys) - min(ys) <= 1, tag + "-jump", lambda: f"{e} {f}")
    ok &= ctx.check(len(seen) == len(set(seen)), tag + "-crossed-twice", lambda: str(seen))
    ok &= ctx.eq(set(seen), want, tag + "-edges")
    return ok


def images(w, h, vals, border=None):
    for p in itertools.product(vals, repeat=w * h):
        a = [list(p[i * w:(i + 1) * w]) for i in range(h)]
        if border is not None:
            a = [[border] * (w + 2)] + [[border] + r + [border] for r in a] + [[border] * (w + 2)]
        yield a


def binary_cases(tier):
    q = tier == "quick"
    sizes = [(2, 2, None), (3, 2, None), (2, 3, None), (3, 3, None), (1, 1, 0), (2, 2, 0), (3, 2, 0), (2, 3, 0), (2, 2, 255)]
    sizes += [] if q else [(4, 4, None), (4, 3, None), (3, 4, None), (3, 3, 0), (4, 2, 255), (3, 3, 255)]
    for w, h, b in sizes:
        for a in images(w, h, (0, 255), b):
            if any(v for r in a for v in r):
                yield [a, "gray8"]


@scenario("binary", binary_cases, "every black and white image up to the bound, with and without a frame: every pair of neighbouring pixels of different "
          "brightness is separated exactly once, nothing else is crossed; contours close or end at the border", nontrivial=lambda c: len(c[0]) > 2)
def binary(case, ctx):
    img, fmt = case
    P = contour(img, fmt)
    judge(ctx, img, P, "binary")
    ctx.outcome(len(P))


def quirk(f, h, b):
    """scikit-image's reader takes two channels and three or four rows for an image stored channel first"""
    return f.startswith("graya") and h + 2 * (b is not None) in (3, 4)


def format_cases(tier):
    q = tier == "quick"
    for f in FORMATS:
        for w, h, b in ((2, 2, None), (2, 3, None), (2, 2, 0), (2, 3, 0)) if q else ((2, 2, None), (3, 3, None), (2, 3, 0), (3, 2, 0), (3, 3, 0)):
            if quirk(f, h, b):
                continue
            for a in images(w, h, (0, 255), b):
                if any(v for r in a for v in r):
                    yield [a, f]
        if f in BINARY:
            continue
        for w, h, b in ((2, 2, None), (2, 2, 0)) if q else ((2, 2, None), (3, 2, None), (2, 2, 0), (2, 2, 255)):
            if quirk(f, h, b):
                continue
            for vals in ((0, 68, 255), (34, 102), (17, 153, 170)):
                for a in images(w, h, vals, b):
                    if any(v for r in a for v in r):
                        yield [a, f]


@scenario("formats", format_cases, "gray, gray with alpha, colour, colour with alpha and palette images of every bit depth, several brightness levels: the same "
          "separation", nontrivial=lambda c: c[1] != "gray8")
def formats(case, ctx):
    img, fmt = case
    P = contour(img, fmt)
    judge(ctx, img, P, fmt)
    ctx.outcome((fmt, len(P)))


COLS = [(0, 0, 0), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 255), (255, 255, 0)]


def color_cases(tier):
    q = tier == "quick"
    for w, h in ((2, 2),) if q else ((2, 2), (3, 2)):
        for p in itertools.product(range(len(COLS) if w == 2 else 4), repeat=w * h):
            for al in (0, 1):
                if any(p):
                    yield [w, h, list(p), al]


@scenario("colours", color_cases, "every small image over a palette of saturated colours: the contours are those of the grey image of its luminance", nontrivial=lambda c: c[3] == 1)
def colours(case, ctx):
    w, h, p, al = case
    lum = [0.2125 * r + 0.7154 * g + 0.0721 * b for r, g, b in COLS]
    img = [[lum[p[i * w + j]] for j in range(w)] for i in range(h)]
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        f = os.path.join(d, "image.png")
        raw = b"".join(b"\0" + b"".join(bytes([*COLS[p[i * w + j]], *([255] * al)]) for j in range(w)) for i in range(h))
        with open(f, "wb") as o:
            o.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6 if al else 2, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))
        P = G.png2poly(f)
    judge(ctx, img, P, "colours")
    ctx.outcome(len(P))


# pixel kinds: brightness and opacity
KINDS = [(0, 255), (255, 255), (0, 0), (255, 0), (0, 102), (51, 204), (204, 51)]


def alpha_cases(tier):
    q = tier == "quick"
    for f in ("rgba8", "graya8"):
        for w, h, n in ((2, 2, 7), (3, 2, 4)) if q else ((2, 2, 7), (3, 2, 5), (2, 5, 3)):
            if quirk(f, h, None):
                continue
            for p in itertools.product(range(n), repeat=w * h):
                yield [w, h, list(p), f]


@scenario("transparency", alpha_cases, "every small image of opaque, transparent and half-transparent pixels: what shows through is white",
          nontrivial=lambda c: any(k > 1 for k in c[2]))
def transparency(case, ctx):
    w, h, p, f = case
    shown = [v * a + 255 * (255 - a) for v, a in KINDS]
    img = [[shown[p[i * w + j]] for j in range(w)] for i in range(h)]
    top = max(max(r) for r in img)
    if top == 0 or any(0 < abs(2 * v - top) < 200 for r in img for v in r):
        return
    with tempfile.TemporaryDirectory(dir=BASE) as d:
        o = os.path.join(d, "image.png")
        n = 3 if f == "rgba8" else 1
        raw = b"".join(b"\0" + b"".join(bytes([KINDS[p[i * w + j]][0]] * n + [KINDS[p[i * w + j]][1]]) for j in range(w)) for i in range(h))
        with open(o, "wb") as s:
            s.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6 if n == 3 else 4, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))
        ctx.transitions += 1
        P = G.png2poly(o)
    judge(ctx, img, P, "transparency")
    ctx.outcome(len(P))
