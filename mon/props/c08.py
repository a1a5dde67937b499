"""C08: SSIM and UQI."""
import numpy as np

import oracles
from gen import chance, distort, layout, pick, ranged, texture, to_type

RULE = ("textured pairs with eight kinds of distortion, nearly flat references, 2D, 3D, RGB with "
        "colour weights; random window kind and size, sigma, K1, K2, exponents, data range; score "
        "compared with a double-precision model over all full window positions; swap, identity and "
        "upper bound observed on every pair; distinct by shape, type and settings")
ASSUME = ["with Gaussian weights the window follows from sigma (an explicit win_size is documented as "
          "ignored there and is only exercised for its refusals)",
          "1e-3 absolute tolerance: the implementation works in single precision"]
NEED = {"ssim": 800, "uqi": 100, "flat": 60, "three_d": 100, "colour": 60, "refusals": 150,
        "identical": 100}
TOP = {"uint8": 255, "uint16": 65535, "float32": 1, "float64": 1, "int16": 4000}


def settings(rng, shape):
    kw, model = {}, {}
    if chance(rng, 0.5):
        model["gaussian"] = False
        kw["gaussian_weights"] = False
        sizes = [s for s in (3, 5, 7, 9, 11) if s <= min(shape)]
        if chance(rng, 0.7) or min(shape) < 7:
            kw["win_size"] = model["win_size"] = pick(rng, sizes)
    else:
        if chance(rng, 0.6) or min(shape) < 11:
            hi = min(2.5, (min(shape) - 1) / 2 / 3.5 - 0.15)
            kw["sigma"] = model["sigma"] = round(float(rng.uniform(0.4, max(hi, 0.45))), 3)
    for k, vals in (("K1", [0.005, 0.01, 0.02, 0.1]), ("K2", [0.01, 0.03, 0.05, 0.2])):
        if chance(rng, 0.4):
            kw[k] = model[k] = pick(rng, vals)
    for k in ("alpha", "beta", "gamma"):
        if chance(rng, 0.35):
            kw[k] = model[k] = pick(rng, [1, 2, 3])
            if chance(rng, 0.15):  # cast to integers, as documented
                kw[k] = model[k] + pick(rng, [0.0, 0.25, 0.5, 0.75])
    return kw, model


def shape_of(rng):
    if chance(rng, 0.3):
        return tuple(int(v) for v in rng.integers(7, 15, 2)) + (int(rng.integers(7, 13)),)
    return tuple(int(v) for v in rng.integers(11, 40, 2))


def ssim(ctx, rng):
    import viqa
    shape = shape_of(rng)
    dtype = pick(rng, list(TOP))
    top = TOP[dtype]
    a = texture(rng, shape)
    how = pick(rng, [None, None, None, "same"])
    b = distort(rng, a, how)
    r, m = to_type(a, dtype, top), to_type(b, dtype, top)
    dr = top if dtype != "int16" else 4095
    kw, model = settings(rng, shape)
    met = viqa.SSIM(**ranged(rng, dr))
    got = met.score(layout(rng, r), layout(rng, m), **kw)
    want = oracles.ssim(r, m, dr, **model)
    what = f"SSIM {dtype} {shape} {kw}"
    ctx.close(got, want, what, rtol=0, atol=1e-3)
    ctx.check(got <= 1 + 1e-5, what + ": exceeds 1", got=got)
    ctx.close(viqa.SSIM(data_range=dr).score(m, r, **kw), got, what + ": swapped", rtol=0, atol=1e-5)
    if np.array_equal(r, m):
        ctx.close(got, 1, what + ": identical images", rtol=0, atol=1e-5)
        ctx.event("identical")
    ctx.check(met.score_val == got, "stored score differs")
    ctx.event("ssim")
    if len(shape) == 3:
        ctx.event("three_d")
    ctx.key(shape, dtype, tuple(sorted(kw.items())))
    ctx.sample(shape=shape, type=dtype, settings=kw, score=float(got), model=want)


def flat(ctx, rng):
    """References that are constant or nearly so, as background in CT data is."""
    import viqa
    shape = tuple(int(v) for v in rng.integers(20, 40, 2))
    base = rng.uniform(20, 230)
    noise = pick(rng, [0, 1e-3, 3e-3, 1e-2, 0.1])
    r = base + noise * rng.standard_normal(shape)
    m = np.clip(base + rng.uniform(3, 20) * rng.standard_normal(shape), 0, 255)
    if chance(rng, 0.3):
        half = shape[0] // 2
        r[:half] = np.clip(base + 20 * rng.standard_normal((half, shape[1])), 0, 255)
    if chance(rng, 0.3):
        r = np.round(r)
        r[rng.random(shape) < 0.002] += 1
    if chance(rng, 0.5):
        r, m = m, r
    kw = pick(rng, [{}, {"gaussian_weights": False}, {"gaussian_weights": False, "win_size": 5}])
    model = {"gaussian": kw.get("gaussian_weights", True), "win_size": kw.get("win_size")}
    got = viqa.SSIM(data_range=255).score(r, m, **kw)
    want = oracles.ssim(r, m, 255, **model)
    ctx.close(got, want, f"SSIM of a nearly flat image, noise {noise}, {kw}", rtol=0, atol=5e-3)
    ctx.check(got <= 1 + 1e-5, "exceeds 1", got=got)
    ctx.event("flat")
    ctx.key(shape, noise, repr(kw))


def identical(ctx, rng):
    """Identical images score 1, also where they are constant and the constants vanish."""
    import viqa
    shape = shape_of(rng)
    dtype = pick(rng, ["uint8", "uint16", "float64", "float32"])
    a = texture(rng, shape)
    how = pick(rng, ["blank", "patch", "constant", "texture"])
    if how == "patch":
        a[: shape[0] // 2 + 3] = pick(rng, [0.0, 0.5])
    elif how != "texture":
        a[...] = 0.0 if how == "blank" else float(rng.random())
    r = to_type(a, dtype, TOP[dtype])
    kw, _ = settings(rng, shape)
    kw.update(pick(rng, [{"K1": 0, "K2": 0}, {"K1": 0}, {"K2": 0}, {}]))
    got = viqa.SSIM(data_range=TOP[dtype]).score(layout(rng, r), layout(rng, r.copy()), **kw)
    ctx.close(got, 1, f"SSIM of identical {dtype} {how} images, {kw}", rtol=0, atol=1e-4)
    if min(shape) >= 7:
        got = viqa.UQI(data_range=TOP[dtype]).score(r, r.copy())
        ctx.close(got, 1, f"UQI of identical {dtype} {how} images", rtol=0, atol=1e-4)
    ctx.event("identical")
    ctx.event("identical:" + how)
    ctx.key(shape, dtype, how, repr(kw))


def colour(ctx, rng):
    import viqa
    shape = tuple(int(v) for v in rng.integers(12, 26, 2)) + (3,)
    a = texture(rng, shape)
    r, m = to_type(a, "uint8", 255), to_type(distort(rng, a), "uint8", 255)
    w = rng.uniform(0.1, 1, 3)
    kw, model = settings(rng, shape[:2])
    parts = [oracles.ssim(r[..., c], m[..., c], 255, **model) for c in range(3)]
    got = viqa.SSIM(data_range=255, chromatic=True).score(r, m, color_weights=w, **kw)
    ctx.close(got, np.mean(w * parts), f"colour SSIM, weights {w}", rtol=0, atol=1e-3)
    if chance(rng, 0.3):
        ctx.refused(lambda: viqa.SSIM(data_range=255, chromatic=True).score(r, m), ValueError,
                    "colour SSIM without weights")
    lum = np.array([0.2125, 0.7154, 0.0721])
    got = viqa.SSIM(data_range=255).score(r, m, **kw)
    want = oracles.ssim(r @ lum, m @ lum, 255, **model)
    ctx.close(got, want, "SSIM of the luminance of RGB images", rtol=0, atol=1e-3)
    ctx.event("colour")
    ctx.key(shape, repr(kw))


def uqi(ctx, rng):
    import viqa
    shape = shape_of(rng)
    dtype = pick(rng, ["uint8", "float64", "uint16"])
    top = TOP[dtype]
    how = pick(rng, ["noise", "mix", "offset", "scale", "same"])
    a = texture(rng, shape)
    r, m = to_type(a, dtype, top), to_type(distort(rng, a, how), dtype, top)
    kw = {"win_size": pick(rng, [3, 5, 7])} if chance(rng, 0.5) else {}
    win = kw.get("win_size", 7)
    met = viqa.UQI(data_range=top)
    got = met.score(layout(rng, r), layout(rng, m), **kw)
    want = oracles.ssim(r, m, top, gaussian=False, win_size=win, K1=0, K2=0)
    asis = oracles.ssim(r, m, top, gaussian=False, win_size=win)
    what = f"UQI {dtype} {shape} win {win}"
    if abs(got - want) > 2e-3:
        if abs(got - asis) <= 1e-3:
            ctx.known("uqi-constants", what + ": constants are not zero", got=got, want=want)
        else:
            ctx.fail(what, got=got, want=want, with_default_constants=asis)
    ctx.check(got <= 1 + 1e-5, what + ": exceeds 1", got=got)
    ctx.close(viqa.UQI(data_range=top).score(m, r, **kw), got, what + ": swapped", rtol=0, atol=1e-5)
    if np.array_equal(r, m):
        ctx.close(got, 1, what + ": identical images", rtol=0, atol=1e-5)
        ctx.event("identical")
    ctx.check(met.score_val == got, "stored score differs")
    if chance(rng, 0.2):
        bad = pick(rng, [{"win_size": 4}, {"win_size": 51}])
        ctx.refused(lambda: viqa.UQI(data_range=top).score(r, m, **bad), ValueError, f"UQI with {bad}")
    ctx.event("uqi")
    ctx.key(shape, dtype, win, how)
    ctx.sample(shape=shape, type=dtype, win=win, score=float(got), defined=want)


def refuse(ctx, rng):
    import viqa
    shape = shape_of(rng)
    r = to_type(texture(rng, shape), "uint8", 255)
    m = to_type(texture(rng, shape), "uint8", 255)
    lo = min(shape)
    big = lo + 1 if lo % 2 == 0 else lo + 2
    bad = pick(rng, [{"win_size": 2}, {"win_size": 6}, {"win_size": big}, {"win_size": big + 20},
                     {"win_size": big, "gaussian_weights": False},
                     {"win_size": 4, "gaussian_weights": False}, {"K1": -0.01}, {"K2": -0.03},
                     {"sigma": -1.5}, {"K1": -1e-9}, {"K2": -5, "gaussian_weights": False},
                     {"sigma": 20.0}])
    met = viqa.SSIM(data_range=255)
    ctx.refused(lambda: met.score(r, m, **bad), ValueError, f"SSIM with {bad} on {shape}")
    ctx.check(met.score_val is None, "a refused call stored a score")
    ctx.key(shape, repr(bad))


SCALE = 4
KINDS = [("identical", identical, 160, 10), ("ssim", ssim, 1600, 12), ("flat", flat, 160, 12), ("colour", colour, 160, 12),
         ("uqi", uqi, 300, 12), ("refuse", refuse, 260, 6)]
