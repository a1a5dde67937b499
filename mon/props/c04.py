"""C04: normalization."""
from fractions import Fraction

import numpy as np

from gen import chance, layout, pick

RULE = ("images of every integer and floating type (full type range, extremes, narrow ranges far "
        "from zero, negative values, two-valued, already spanning) normalized to each target; every "
        "value is compared with the exact rational rescaling of the input; distinct by type, target, "
        "value pattern and shape")
ASSUME = ["64-bit integers are at most 2^52 in magnitude",
          "floating images hold finite values whose range does not overflow"]
NEED = {"pixels": 100_000, "exact_checks": 20_000, "refusals": 100, "unchanged": 20,
        "explicit_range": 50}
TARGETS = {1: "float32", 255: "uint8", 65535: "uint16"}
TYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
         "float16", "float32", "float64"]


def image(rng, dtype):
    dt = np.dtype(dtype)
    nd = pick(rng, [2, 2, 3])
    shape = tuple(int(v) for v in rng.integers(2, 14 if nd == 2 else 7, nd))
    n = int(np.prod(shape))
    if dt.kind in "ui":
        info = np.iinfo(dt)
        how = pick(rng, ["full", "extremes", "narrow", "two", "low", "high", "ramp"])
        lo, hi = int(info.min), int(info.max)
        if dt.itemsize == 8:  # 64-bit values up to the precision of the arithmetic
            lo, hi = max(lo, -2**52), 2**52
        if how == "narrow":
            w = int(rng.integers(1, 60))
            base = int(rng.integers(lo, hi - w, endpoint=True))
            lo, hi = base, base + w
        elif how == "low":
            hi = lo + int(min(200, hi - lo))
        elif how == "high":
            lo = hi - int(min(200, hi - lo))
        vals = rng.integers(lo, hi, n, dtype=dt, endpoint=True)
        if how == "ramp":
            vals = np.linspace(0, min(hi, 5000), n).astype(dt)
        if how == "two":
            vals = np.where(rng.random(n) < 0.5, vals[0], vals[-1]).astype(dt)
        if how == "extremes":
            vals[0], vals[-1] = lo, hi
    else:
        how = pick(rng, ["unit", "neg", "wide", "offset", "tiny", "two"])
        u = rng.random(n)
        vals = {"unit": u, "neg": u * 200 - 100, "wide": (u - 0.5) * 6e4, "offset": 1000 + u,
                "tiny": u * 1e-3, "two": np.where(u < 0.5, -3.0, 7.0)}[how].astype(dt)
    if vals.min() == vals.max():
        vals[0] = vals[0] - dt.type(1) if vals[0] > 0 else vals[0] + dt.type(1)
    return vals.reshape(shape), how


def judge(ctx, rng, img, out, lo, hi, top, what, limit=60):
    out = np.asarray(out)
    ctx.check(out.dtype == np.dtype(TARGETS[top]), what + ": type", got=out.dtype, want=TARGETS[top])
    ctx.check(out.shape == img.shape, what + ": shape", got=out.shape, want=img.shape)
    ctx.event("pixels", out.size)
    o = out.astype(np.float64)
    ctx.check(np.isfinite(o).all(), what + ": not finite")
    # larger inputs never become smaller outputs
    order = np.argsort(img, axis=None, kind="stable")
    so = o.ravel()[order]
    ctx.check((np.diff(so) >= 0).all(), what + ": not monotone")
    # exact rescaling, vectorised in extended precision, then spot-checked exactly
    idx = rng.choice(img.size, min(limit, img.size), replace=False)
    flo, fhi = Fraction(lo), Fraction(hi)
    tol = Fraction(1, 10**6) * top if top == 1 else Fraction(1) + Fraction(1, 10**6)
    for i in list(idx) + [int(np.argmin(img)), int(np.argmax(img))]:
        v = img.ravel()[i].item()
        want = (Fraction(v) - flo) * top / (fhi - flo)
        ctx.event("exact_checks")
        if abs(Fraction(float(o.ravel()[i])) - want) > tol:
            ctx.fail(what + ": value", input=v, got=float(o.ravel()[i]), want=float(want),
                     range=(lo, hi))


def auto(ctx, rng):
    import viqa
    dtype = pick(rng, TYPES)
    img, how = image(rng, dtype)
    img = layout(rng, img)
    top = pick(rng, [1, 255, 65535])
    spans = dtype == TARGETS[top] and top != 1
    arg = viqa.ImageArray(img) if chance(rng, 0.3) else img
    out = viqa.normalize_data(arg, (0, top))
    what = f"normalize {dtype} ({how}) to {top}"
    if spans:
        ctx.same(out, img, what + ": not left unchanged")
        ctx.event("unchanged")
    else:
        lo, hi = img.min().item(), img.max().item()
        judge(ctx, rng, img, out, lo, hi, top, what)
        o = np.asarray(out)
        ctx.check(o.min() == 0, what + ": minimum is not 0", got=o.min())
        ctx.check(o.max() == top, what + ": maximum is not the upper bound", got=o.max())
        ctx.check(o[img == img.min()].max() == 0, what + ": a minimal pixel is not 0")
        ctx.check(o[img == img.max()].min() == top, what + ": a maximal pixel is not the bound")
    form = int(rng.integers(2))
    if form == 0:
        via = viqa.load_data(arg, data_range=top, normalize=True)
        ctx.same(via, out, what + ": load_data differs from normalize_data")
    else:
        other, _ = image(rng, dtype)
        o2 = np.resize(other, img.shape)
        if o2.min() != o2.max():
            s1 = viqa.RMSE(data_range=top, normalize=True).score(img, o2)
            n1 = np.asarray(viqa.normalize_data(img, (0, top)), np.float64)
            n2 = np.asarray(viqa.normalize_data(o2, (0, top)), np.float64)
            if img.shape[-1] != 3:
                ctx.close(s1, np.sqrt(np.mean((n1 - n2) ** 2)), what + ": metric does not "
                          "score the normalized images", rtol=1e-5, atol=1e-6)
                ctx.event("metric_scores")
    ctx.key(dtype, top, how, img.shape)
    ctx.sample(type=dtype, target=top, pattern=how, shape=img.shape)


def explicit(ctx, rng):
    import viqa
    dtype = pick(rng, ["uint8", "uint16", "int16", "int32", "float32", "float64"])
    img, how = image(rng, dtype)
    top = pick(rng, [1, 255, 65535])
    if dtype == TARGETS[top]:
        return
    lo, hi = img.min().item(), img.max().item()
    w = hi - lo
    if dtype.startswith("float"):
        lo2, hi2 = lo - pick(rng, [0, 0.25, 1.0]) * w, hi + pick(rng, [0, 0.5, 2.0]) * w
    else:
        lo2, hi2 = lo - pick(rng, [0, 1, 17]), hi + pick(rng, [0, 1, 400])
        if np.issubdtype(img.dtype, np.unsignedinteger) and chance(rng, 0.5):
            lo2 = max(lo2, 0)
    out = viqa.normalize_data(img, (0, top), data_range_input=(lo2, hi2), automatic_data_range=False)
    judge(ctx, rng, img, out, lo2, hi2, top, f"normalize {dtype} from given range {(lo2, hi2)} to {top}")
    ctx.event("explicit_range")
    ctx.key(dtype, top, how, lo2 == lo, hi2 == hi)
    ctx.sample(type=dtype, target=top, input_range=(lo2, hi2))


def refuse(ctx, rng):
    import viqa
    dtype = pick(rng, TYPES)
    img, _ = image(rng, dtype)
    bad = pick(rng, [(0, 2), (0, 254), (0, 256), (1, 255), (0, 1023), (0, 65536), (-1, 1), (0, 100),
                     (1, 2), (0, 4095), (10, 65535), (-5, 255)])
    ctx.refused(lambda: viqa.normalize_data(img, bad), ValueError, f"target range {bad} for {dtype}")
    if bad[0] == 0:
        ctx.refused(lambda: viqa.load_data(img, data_range=bad[1], normalize=True), ValueError,
                    f"loading with data range {bad[1]}")
    odd = (img > img.mean()).astype(pick(rng, ["bool", "complex64", "complex128"]))
    top = pick(rng, [1, 255, 65535])
    ctx.refused(lambda: viqa.normalize_data(odd, (0, top)), ValueError, f"normalizing {odd.dtype}")
    if dtype != TARGETS[top]:
        ctx.refused(lambda: viqa.normalize_data(img, (0, top), automatic_data_range=False), ValueError,
                    f"no input range for {dtype} to {top}")
    ctx.key(dtype, bad, top)


SCALE = 4
KINDS = [("auto", auto, 2400, 12), ("explicit", explicit, 500, 12), ("refuse", refuse, 300, 4)]
