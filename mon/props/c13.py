"""C13: values of the native block statistics."""
import numpy as np

import oracles
from gen import chance, layout, pick, texture

RULE = ("2D images of 1..40 pixels a side in every memory layout and numeric type (textured, "
        "constant, two-valued, far from zero) with random block size and stride; every pixel of the "
        "four returned maps compared with a direct computation; distinct by size, block, stride, "
        "type, layout and pattern")
ASSUME = ["strides are positive and not larger than the block",
          "nearly constant blocks (deviation below 1e-7 of the values' size) are judged for their "
          "deviation only, as skewness and kurtosis are ill-conditioned there",
          "the neighbourhood of the minimum-deviation map is not fixed by the documentation: its value "
          "must be the deviation of some block reaching from the pixel's own block by less than one "
          "block size, and at most the own block's"]
NEED = {"maps": 2000, "constant_blocks": 200, "uncovered": 200, "noncontiguous": 500,
        "repeated": 500, "long_images": 6}
TYPES = ["float64", "float64", "float32", "float16", "uint8", "uint16", "int16", "int32", "int64",
         "uint32", "bool", ">f8", ">i2"]


def make(rng):
    n, m = (int(v) for v in rng.integers(1, 41, 2))
    if chance(rng, 0.15):
        n = m
    bs = int(rng.integers(1, max(2, min(n, m) + 1)))
    if chance(rng, 0.5):
        bs = min(bs, 9)
    bs = max(bs, 2)
    st = int(rng.integers(1, bs + 1))
    dtype = np.dtype(pick(rng, TYPES))
    how = pick(rng, ["texture", "random", "constant", "patches", "offset", "two"])
    a = texture(rng, (n, m)) if how == "texture" else rng.random((n, m))
    if how == "constant":
        a = np.full((n, m), rng.random())
    if how == "patches":
        a = np.kron(rng.random((n // 6 + 1, m // 6 + 1)), np.ones((6, 6)))[:n, :m]
    if how == "two":
        a = (a > 0.7).astype(float)
    top = 1 if dtype.kind == "b" else min(np.iinfo(dtype).max, 10**6) if dtype.kind in "ui" else \
        pick(rng, [1.0, 255.0, 1e-4, 1e-8, 1e-20, 1e9] if dtype.itemsize > 2 else [1.0, 255.0])
    a = a * top
    if how == "offset" and dtype.kind in "if" and dtype.itemsize > 2:
        a = a - 0.5 * top if chance(rng, 0.5) else a + 5 * top
    return (a > 0.5 if dtype.kind == "b" else np.round(a) if dtype.kind in "ui" else a).astype(dtype), bs, st, how


def compare(ctx, img, bs, st, how, lay="C"):
    from viqa.fr_metrics.stat_utils import statisticscalc as sc
    what = f"{img.dtype} {img.shape} block {bs} stride {st} {lay} {how}"
    res = sc.getstatistics(img, bs, st)
    mind = sc.minstd(img, bs, st)
    ctx.check(len(res) == 3, "getstatistics does not return three maps")
    again = sc.getstatistics(img, bs, st) + (sc.minstd(img, bs, st),)
    for x, y in zip(res + (mind,), again):
        ctx.check(x.shape == img.shape and x.dtype == np.float64, "map has another shape or type: " + what,
                  got=(x.shape, x.dtype))
        ctx.check(x.tobytes() == y.tobytes(), "repeated call differs: " + what)
        ctx.check(not np.shares_memory(x, y) and not np.shares_memory(x, img),
                  "returned maps share memory: " + what)
    ctx.event("repeated")
    f = np.asarray(img, np.float64)
    scale = max(np.abs(f).max(), 1e-300)
    want = oracles.block_stats(f, bs, st)
    cov = np.zeros(f.shape, bool)
    ill = np.zeros(f.shape, bool)
    const = 0
    for (i, j), blk in oracles.blocks(f, bs, st).items():
        cov[i:i + st, j:j + st] = True
        lo, hi = blk.min(), blk.max()
        if lo == hi:
            const += 1
            ill[i:i + st, j:j + st] = False
        else:
            ill[i:i + st, j:j + st] = blk.std() < 1e-6 * scale
    if const:
        ctx.event("constant_blocks", const)
    ctx.close(res[0], want[0], "standard deviation " + what, rtol=1e-8, atol=1e-13 * scale)
    ok = ~ill
    ctx.close(np.where(ok, res[1], 0), np.where(ok, want[1], 0), "skewness " + what, rtol=1e-7, atol=1e-6)
    ctx.close(np.where(ok, res[2], 0), np.where(ok, want[2], 0), "kurtosis " + what, rtol=1e-6, atol=1e-6)
    if not cov.all():
        ctx.event("uncovered")
        for x in res + (mind,):
            ctx.check(not np.any(x[~cov]), "pixels outside all blocks are not zero: " + what)
    # minimum deviation
    tol = 1e-12 * scale
    ctx.check(np.all(mind <= res[0] + 1e-9 * res[0] + tol), "minimum deviation larger than the own block's: " + what)
    ctx.check(np.all(mind >= 0), "negative deviation: " + what)
    for (i, j) in oracles.blocks(f, bs, st):
        tile = mind[i:i + st, j:j + st]
        ctx.check(np.all(tile == tile[0, 0]), "minimum deviation varies inside one block's area: " + what)
        near = res[0][max(0, i - bs + 1):i + bs, max(0, j - bs + 1):j + bs]
        ctx.check(np.any(np.abs(near - tile[0, 0]) <= tol + 1e-9 * near),
                  "minimum deviation is of no block around: " + what, at=(i, j), got=tile[0, 0])
    ctx.event("maps")
    if lay != "C":
        ctx.event("noncontiguous")
    ctx.key(img.shape, bs, st, img.dtype.str, lay, how)
    ctx.sample(type=str(img.dtype), shape=img.shape, block=bs, stride=st, layout=lay, pattern=how)


def maps(ctx, rng):
    img, bs, st, how = make(rng)
    lay = pick(rng, ["C", "F", "strided", "reversed", "transposed", "offset"])
    if min(img.shape) < bs:
        img = np.tile(img, (bs, bs))[:bs + 3, :bs + 2]
    compare(ctx, layout(rng, img, lay), bs, st, how, lay)


def large(ctx, rng):
    """Blocks and images of the sizes used in practice."""
    bs = 16
    shape = tuple(int(v) for v in rng.integers(48, 140, 2))
    img = texture(rng, shape) * 255
    compare(ctx, img, bs, pick(rng, [4, 8, 16, 5]), "large")


def long(ctx, rng):
    """Images far longer than wide, with more rows or columns than 16 bits count."""
    bs = int(rng.integers(3, 9))
    shape = [int(rng.integers(bs, bs + 12)), int(pick(rng, [rng.integers(4000, 9000), rng.integers(66000, 70000)]))]
    if shape[1] > 60000:
        shape[0] = bs
    if chance(rng, 0.5):
        shape.reverse()
    img = rng.random(tuple(shape))
    compare(ctx, img, bs, bs, "long")
    ctx.event("long_images")


def small(ctx, rng):
    """Image smaller than the block: nothing is covered, all maps are zero or it is refused."""
    from viqa.fr_metrics.stat_utils import statisticscalc as sc
    img = rng.random(tuple(int(v) for v in rng.integers(1, 8, 2)))
    bs = max(img.shape) + int(rng.integers(1, 5))
    try:
        res = sc.getstatistics(img, bs, 1) + (sc.minstd(img, bs, 1),)
    except ValueError:
        ctx.event("refusals")
        return
    for x in res:
        ctx.check(not np.any(x), "map of an image without any block is not zero", block=bs, shape=img.shape)
    ctx.key(img.shape, bs)


SCALE = 2
KINDS = [("maps", maps, 3000, 10), ("large", large, 24, 8), ("long", long, 8, 8), ("small", small, 60, 4)]
