"""C22: incompatible pairs are refused; colour is handled as configured."""
import numpy as np

import bench
from gen import chance, distort, layout, pick, texture, to_type

RULE = ("every full-reference metric, unscored or already holding a score, is given pairs that differ in "
        "one or more extents, in dimensions, channels or pixel type (all numeric types), and colour "
        "metrics are given grey images and volumes; RGB pairs of every type and contrast are scored "
        "without colour and compared with the score of their independently computed luminance images; "
        "distinct by metric, types and shapes")
ASSUME = ["an image whose last axis has length three is an RGB image"]
NEED = {"shape_pairs": 250, "type_pairs": 250, "kept_scores": 150, "grey_to_colour": 80, "luminance": 250,
        "bright": 40, "refusals": 500, "weighted": 40, "unweighted": 40}
TYPES = ["uint8", "uint16", "uint32", "int16", "int32", "int64", "float16", "float32", "float64"]
LUM = np.array([0.2125, 0.7154, 0.0721])
COLOURED = ["RMSE", "PSNR", "FSIM", "VSI", "SSIM", "UQI", "VIFp", "MSSSIM"]


def held(ctx, viqa, rng, name, **init):
    """A metric object, often with a score already."""
    met = getattr(viqa, name)(data_range=255, **init)
    if chance(rng, 0.6) and not init.get("chromatic"):
        shape = bench.shape_for(rng, [name])
        r, m, _ = bench.images(rng, shape)
        bench.run(met, r, m, bench.params(rng, name, shape))
        ctx.event("kept_scores")
    return met


def refused(ctx, met, r, m, kw, what, **info):
    was = met.score_val
    ctx.refused(lambda: met.score(r, m, **kw), ValueError, f"{type(met).__name__}: {what}", **info)
    now = met.score_val
    ctx.check((was is None and now is None) or (was is not None and now is not None and bench.eq(now, was)),
              f"{type(met).__name__}: a refused pair changed the stored score", was=was, now=now, what=what)


def shapes(ctx, rng):
    import viqa
    name = pick(rng, bench.FR)
    if name == "MSSSIM" and chance(rng, 0.7):
        name = "PSNR"
    nd = 3 if chance(rng, 0.25) and name in ("RMSE", "PSNR", "SSIM", "GSM", "MAD", "FSIM", "VSI") else 2
    a = bench.shape_for(rng, [name], nd)
    b = list(a)
    how = pick(rng, ["more", "less", "swap", "one", "channels", "dims", "ones"])
    ax = int(rng.integers(nd))
    if how == "more":
        b[ax] += int(rng.integers(1, 9))
    elif how == "less":
        b[ax] -= int(rng.integers(1, 4))
    elif how == "swap":
        b = b[::-1]
    elif how == "one":
        b[ax] = 1  # would broadcast
    elif how == "ones":
        b = [1] * nd
    elif how == "channels":
        b = b[:2] + [3]
    else:
        b = b + [int(rng.integers(1, 5))] if nd == 2 else b[:2]
    b = tuple(b)
    if a == b:
        b = a[:-1] + (a[-1] + 1,)
    dtype = pick(rng, TYPES[:2] + TYPES[-2:])
    top = {"uint8": 255, "uint16": 65535}.get(dtype, 1.0)
    r, m = to_type(texture(rng, a), dtype, top), to_type(texture(rng, b), dtype, top)
    if chance(rng, 0.5):
        r, m = m, r
    met = held(ctx, viqa, rng, name)
    kw = bench.params(rng, name, a)
    with ctx.quiet():
        refused(ctx, met, layout(rng, r), layout(rng, m), kw, "a pair of different shapes is accepted",
                rs=r.shape, ms=m.shape)
    ctx.event("shape_pairs")
    ctx.key(name, a, b, how)
    ctx.sample(metric=name, r=a, m=b)


def types(ctx, rng):
    import viqa
    name = pick(rng, bench.FR[:8] + ["MAD", "MAD"]) if chance(rng, 0.95) else "MSSSIM"
    shape = bench.shape_for(rng, [name])
    colour = chance(rng, 0.2)
    if colour:
        shape = shape + (3,)
    t1, t2 = pick(rng, TYPES), pick(rng, TYPES)
    if t1 == t2:
        t2 = "float64" if t1 != "float64" else "float32"
    img = texture(rng, shape)
    top = pick(rng, [100, 127])
    r = to_type(img, t1, top)
    m = to_type(img if chance(rng, 0.5) else texture(rng, shape), t2, top)
    met = held(ctx, viqa, rng, name)
    with ctx.quiet():
        refused(ctx, met, layout(rng, r), layout(rng, m), bench.params(rng, name, shape[:2]),
                "a pair of different pixel types is accepted", rt=t1, mt=t2)
    ctx.event("type_pairs")
    ctx.key(name, t1, t2, shape)


def configs(ctx, rng):
    """Settings that cannot be scored with are refused when the metric is made."""
    import viqa
    name = pick(rng, bench.FR)
    for bad in ({"data_range": None}, {"data_range": None, "normalize": False},
                {"data_range": None, "normalize": True}):
        if name == "RMSE" and not bad.get("normalize"):
            continue  # needs no data range
        ctx.refused(lambda: getattr(viqa, name)(**bad), ValueError, f"{name} made with {bad}")
        ctx.event("configs")
    nr = pick(rng, bench.NR)
    ctx.refused(lambda: getattr(viqa, nr)(normalize=True, data_range=None), ValueError,
                f"{nr} normalizing without a range")
    ctx.key(name, nr)


def grey(ctx, rng):
    """A colour metric refuses images without three channels."""
    import viqa
    name = pick(rng, COLOURED[:-1])
    shape = bench.shape_for(rng, [name], pick(rng, [2, 2, 3]))
    if chance(rng, 0.3):
        shape = shape[:2] + (pick(rng, [1, 2, 4]),)
    if shape[-1] == 3:
        shape = shape[:-1] + (4,)
    dtype = pick(rng, ["uint8", "float64", "float32"])
    r, m, _ = bench.images(rng, shape, dtype)
    met = getattr(viqa, name)(data_range=255, chromatic=True)
    if chance(rng, 0.5) and name in ("RMSE", "PSNR", "FSIM", "VSI"):
        cr, cm, _ = bench.images(rng, bench.shape_for(rng, [name]) + (3,))
        met.score(cr, cm)
        ctx.event("kept_scores")
    with ctx.quiet():
        refused(ctx, met, r, m, {}, "a colour metric accepts images without three channels", shape=shape)
    ctx.event("grey_to_colour")
    ctx.key(name, shape, dtype)


def weights(ctx, rng):
    """Chromatic SSIM needs its channel weights in every call, whatever was given in earlier ones."""
    import viqa
    shape = bench.shape_for(rng, ["SSIM"]) + (3,)
    top = pick(rng, [255, 1.0])
    dtype = "uint8" if top == 255 else pick(rng, ["float32", "float64"])
    mets = [viqa.SSIM(data_range=top, chromatic=True, **(
        {"normalize": True} if chance(rng, 0.2) and top == 255 else {})) for _ in range(int(rng.integers(1, 4)))]
    for _ in range(int(rng.integers(2, 6))):
        met = pick(rng, mets)
        r, m, _ = bench.images(rng, shape, dtype)
        if chance(rng, 0.5):
            w = rng.random(3) * pick(rng, [1, 3])
            with ctx.quiet():
                got = float(met.score(r, m, color_weights=w))
                each = [float(viqa.SSIM(data_range=top).score(np.ascontiguousarray(r[..., c]),
                                                              np.ascontiguousarray(m[..., c]))) for c in range(3)]
            ctx.close(got, float(np.mean(w * np.array(each))), "weighted chromatic SSIM", 1e-4, 1e-6, weights=w)
            ctx.event("weighted")
        else:
            with ctx.quiet():
                refused(ctx, met, r, m, {}, "chromatic SSIM without channel weights")
            ctx.event("unweighted")
    ctx.key(shape, dtype, len(mets))


def lum(img):
    """The luminance image; rounding never lifts it above the brightest channel value."""
    out = img @ LUM.astype("float32") if img.dtype == np.float32 else np.asarray(img, np.float64) @ LUM
    return np.minimum(out, img.max()).astype(out.dtype)


def luminance(ctx, rng):
    import viqa
    name = pick(rng, bench.FR[:8] + ["MAD"]) if chance(rng, 0.97) else "MSSSIM"
    shape = bench.shape_for(rng, [name]) + (3,)
    dtype = pick(rng, ["uint8", "uint8", "uint16", "float64", "float32", "int16", "uint32"])
    top = {"uint8": 255, "uint16": 65535, "int16": 4000, "uint32": 10**6}.get(dtype, pick(rng, [1.0, 255.0]))
    a = texture(rng, shape)
    b = distort(rng, a, pick(rng, ["noise", "blur", "mix", "spots"]))
    how = pick(rng, ["plain", "bright", "saturated", "channel", "grey"])
    if how == "bright":
        a, b = 0.7 + 0.3 * a, 0.7 + 0.3 * b
        ctx.event("bright")
    elif how == "saturated":
        a, b = np.clip(a * 1.6, 0, 1), np.clip(b * 1.6, 0, 1)
        ctx.event("bright")
    elif how == "channel":
        off = [int(rng.integers(3))]
        a[..., off], b[..., off] = a[..., off] * 0.1, b[..., off] * 0.1
    elif how == "grey":
        a, b = np.repeat(a[..., :1], 3, -1), np.repeat(b[..., :1], 3, -1)
    r, m = to_type(np.clip(a, 0, 1), dtype, top), to_type(np.clip(b, 0, 1), dtype, top)
    data_range = top
    kw = bench.params(rng, name, shape[:2])
    with ctx.quiet():
        want = bench.run(getattr(viqa, name)(data_range=data_range), lum(r), lum(m), kw)
        met = getattr(viqa, name)(data_range=data_range)
        try:
            got = bench.run(met, layout(rng, r), layout(rng, m), kw)
        except Exception as e:
            ctx.fail(f"{name} cannot score an RGB pair", raised=repr(e), dtype=dtype, shape=shape)
    # float32 luminance may be computed at either precision; 32-bit metrics amplify rounding
    tol = 2e-3 if dtype == "float32" else 1e-4 if name in ("FSIM", "VSI", "VIFp", "MSSSIM") else 1e-6
    ctx.check(bench.eq(got, want, tol), f"{name} of an RGB pair is not that of its luminance",
              got=got, want=want, dtype=dtype, shape=shape, how=how, kw=kw)
    ctx.event("luminance")
    ctx.key(name, dtype, shape, how)
    ctx.sample(metric=name, dtype=dtype, shape=shape, contrast=how, score=got)


SCALE = 3
KINDS = [("shapes", shapes, 400, 6), ("types", types, 400, 6), ("grey", grey, 160, 6), ("configs", configs, 40, 2), ("weights", weights, 60, 4),
         ("luminance", luminance, 500, 8)]
