"""C07: RMSE and PSNR equal their definitions."""
import math
from fractions import Fraction

import numpy as np

from gen import INTS, chance, layout, pick, ranged

RULE = ("image pairs (2D, 3D, RGB scored in colour) of every integer and floating type with values "
        "over the whole type range, extreme pairs (minimum against maximum), single-pixel "
        "differences, large offsets and identical pairs; integer results compared with exact big "
        "integer arithmetic; distinct by type, pattern, shape and data range")
ASSUME = ["floating images are finite; pixel differences are neither so large nor so small that "
          "their squares leave the range of single precision"]
NEED = {"pairs": 1500, "identical": 100, "single_pixel": 100, "exact_integer": 500}


def make(rng, dtype):
    dt = np.dtype(dtype)
    nd = pick(rng, [2, 2, 3])
    shape = tuple(int(v) for v in rng.integers(1, 24 if nd == 2 else 9, nd))
    if chance(rng, 0.02):  # as large as usual images
        shape = tuple(int(v) for v in rng.integers(*((70, 200) if nd == 2 else (18, 36)), nd))
    colour = chance(rng, 0.15)
    if colour:
        shape = shape[:2] + (3,)
    elif shape[-1] == 3:
        shape = shape[:-1] + (4,)
    how = pick(rng, ["random", "extreme", "single", "same", "offset", "near"])
    if dt.kind in "ui":
        i = np.iinfo(dt)
        lo, hi = (int(i.min), int(i.max))
        a = rng.integers(lo, hi, shape, dtype=dt, endpoint=True)
        b = rng.integers(lo, hi, shape, dtype=dt, endpoint=True)
        if how == "extreme":
            a = np.where(rng.random(shape) < 0.5, lo, hi).astype(dt)
            b = np.where(rng.random(shape) < 0.5, lo, hi).astype(dt)
        if how == "offset":
            b = np.where(a > lo + 7, a - np.minimum(a - lo, 7).astype(dt), a + 1).astype(dt)
        if how == "near":
            b = np.where(a < hi, a + dt.type(1), a).astype(dt)
    else:
        sc = pick(rng, [1.0, 255.0, 1e4])
        off = pick(rng, [0.0, 0.0, -0.5 * sc, 10 * sc])
        a = (rng.random(shape) * sc + off).astype(dt)
        b = (rng.random(shape) * sc + off).astype(dt)
        if how == "near":
            b = (a.astype(np.float64) * (1 + 1e-3)).astype(dt)
            if chance(rng, 0.5):  # neighbouring representable values
                b = np.where(rng.random(shape) < 0.5, np.nextafter(a, dt.type(1e4)), a)
                if chance(rng, 0.5):
                    a, b = b, a
    if how == "same":
        b = a.copy()
    if how == "single":
        b = a.copy()
        p = int(rng.integers(a.size))
        if dt.kind in "ui":
            b.flat[p] = lo if a.flat[p] != lo else hi
            if chance(rng, 0.5):
                b.flat[p] = a.flat[p] - 1 if a.flat[p] > lo else a.flat[p] + 1
        else:
            b.flat[p] = a.flat[p] * dt.type(0.5) + dt.type(1)
    return a, b, how, colour


def pairs(ctx, rng):
    import viqa
    dtype = pick(rng, INTS + ["int64", "float32", "float64", "float16"])
    a, b, how, colour = make(rng, dtype)
    if dtype == "int64":
        a, b = a // 2**20, b // 2**20
    if dtype == "float16" and np.abs(a).max() > 2e4:
        return
    if a.dtype.kind in "ui":
        sq = sum((int(x) - int(y)) ** 2 for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        mse = Fraction(sq, a.size)
        want = math.sqrt(mse)
        ctx.event("exact_integer")
    else:
        want = math.sqrt(math.fsum((float(x) - float(y)) ** 2 for x, y in
                                   zip(a.ravel().tolist(), b.ravel().tolist())) / a.size)
    same = np.array_equal(a, b)
    la, lb = layout(rng, a), layout(rng, b)
    if chance(rng, 0.3):
        la = viqa.ImageArray(la)
    kw = {"chromatic": True} if colour else {}
    dr = pick(rng, [1, 255, 65535, 4095, 1.0, 2.5])
    met_r, met_p = viqa.RMSE(**ranged(rng, dr), **kw), viqa.PSNR(**ranged(rng, dr), **kw)
    got = met_r.score(la, lb)
    what = f"{dtype} {a.shape} {how}"
    ctx.close(got, want, "RMSE of " + what, rtol=2e-6 if dtype in ("float16", "float32") else 1e-11, atol=0)
    ctx.check(same == (got == 0), "RMSE zero exactly for identical images: " + what, got=got)
    ctx.check(got >= 0, "RMSE negative")
    ctx.close(viqa.RMSE(**kw).score(lb, la), got, "RMSE not symmetric: " + what, rtol=1e-12, atol=0)
    p = met_p.score(la, lb)
    if same:
        ctx.check(p == np.inf, "PSNR of identical images is not infinite", got=p)
        ctx.event("identical")
    else:
        ctx.check(np.isfinite(p), "PSNR of different images is not finite: " + what, got=p)
        ctx.close(p, 20 * math.log10(dr / want), "PSNR of " + what, rtol=0, data_range=dr,
                  atol=2e-5 if dtype in ("float16", "float32") else 1e-9)
        ctx.close(viqa.PSNR(data_range=dr, **kw).score(lb, la), p, "PSNR not symmetric", rtol=1e-12,
                  atol=0)
    ctx.check(met_r.score_val == got and met_p.score_val == p, "stored score differs from returned")
    ctx.event("pairs")
    if how == "single":
        ctx.event("single_pixel")
    ctx.key(dtype, how, a.shape, dr)
    ctx.sample(type=dtype, shape=a.shape, how=how, rmse=float(got), psnr=float(p), data_range=dr)


def rgb_grey(ctx, rng):
    """RGB pairs of a metric not set for colour are scored by luminance."""
    import viqa
    shape = tuple(int(v) for v in rng.integers(2, 20, 2)) + (3,)
    dtype = pick(rng, ["uint8", "uint16", "float64"])
    top = 65535 if dtype == "uint16" else 255
    a = (rng.random(shape) * top).astype(dtype)
    b = (rng.random(shape) * top).astype(dtype)
    w = np.array([0.2125, 0.7154, 0.0721])
    d = a.astype(np.float64) @ w - b.astype(np.float64) @ w
    want = math.sqrt(np.mean(d * d))
    ctx.close(viqa.RMSE().score(a, b), want, f"RMSE of {dtype} RGB pair", rtol=1e-5)
    ctx.close(viqa.PSNR(data_range=top).score(a, b), 20 * math.log10(top / want),
              f"PSNR of {dtype} RGB pair", rtol=0, atol=1e-4)
    ctx.event("pairs")
    ctx.key(dtype, shape)


SCALE = 5
KINDS = [("pairs", pairs, 4000, 10), ("rgb_grey", rgb_grey, 200, 10)]
