"""C15: CNR and SNR over given regions."""
import numpy as np

from gen import chance, layout, pick, texture

RULE = ("2D, RGB and 3D images (all types; textured, constant, constant in the region) with random "
        "centres and radii, half of them touching a border, and every region type name; ratio "
        "recomputed from the pixels of the region chosen by coordinates; centres one step beyond "
        "every border, wrong lengths and types, radii and region names must be refused; distinct by "
        "shape, centre, radius, region and type")
ASSUME = ["CNR is for grey images; colour images are scored by SNR",
          "the SNR of YUV channels divides the mean of Y by the deviation of each channel"]
NEED = {"cnr": 400, "snr": 400, "colour": 150, "refusals": 400, "touching": 200, "zero": 40}
TYPES = ["uint8", "uint16", "int16", "float32", "float64"]
CUBE, BALL, FULL = ("cubic", "cube", "square"), ("spherical", "sphere", "circle"), ("full", "original")
YUV = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436], [0.615, -0.55861, -0.05639]])
LUM = np.array([0.2125, 0.7154, 0.0721])


def make(rng, colour=False):
    nd = 2 if colour else pick(rng, [2, 3])
    shape = tuple(int(v) for v in rng.integers(4, 36 if nd == 2 else 14, nd)) if chance(rng, 0.92) \
        else tuple(int(v) for v in rng.integers(20, 80 if nd == 2 else 32, nd))
    dtype = pick(rng, TYPES)
    top = np.iinfo(dtype).max if dtype[0] in "ui" else pick(rng, [1.0, 255.0, 1.0, 255.0, 1e-5, 1e-9, 1e6])
    how = pick(rng, ["texture", "texture", "texture", "random", "constant"])
    full = shape + (3,) if colour else shape
    a = rng.random(full)
    if how == "texture":
        a = texture(rng, full)
    if how == "constant":
        a[...] = 0.5
    a = a * top
    return (np.round(a) if dtype[0] in "ui" else a).astype(dtype), shape, dtype, how


def place(rng, shape, touch=0.5):
    """A centre and radius whose cube lies inside the image."""
    r = int(rng.integers(1, min(shape) // 2 + 1))
    c = []
    touching = False
    for n in shape:
        lo, hi = r, n - r
        if chance(rng, touch):
            c.append(pick(rng, [lo, hi]))
            touching = True
        else:
            c.append(int(rng.integers(lo, hi + 1)))
    return tuple(c), r, touching


def mask(shape, c, r, region):
    g = np.indices(shape)
    if region in CUBE:
        m = np.ones(shape, bool)
        for ax, cc in zip(g, c):
            m &= (ax >= cc - r) & (ax < cc + r)
        return m
    if region in BALL:
        return sum((ax - cc) ** 2 for ax, cc in zip(g, c)) <= r * r
    return np.ones(shape, bool)


def ratio(num, sd, vals):
    return 0.0 if np.all(vals == vals.flat[0]) else num / sd


def tol(dtype):
    return dict(rtol=2e-4, atol=1e-4) if dtype == "float32" else dict(rtol=1e-7, atol=1e-9)


def conditioned(vals, dtype):
    """Rounding in the mean of nearly constant float pixels is not judged."""
    sd = vals.std()
    return np.all(vals == vals.flat[0]) or sd > 1e-3 * np.abs(vals).max()


def cnr(ctx, rng):
    import viqa
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio
    img, shape, dtype, how = make(rng)
    if shape[-1] == 3:
        return
    (cs, r, t1), region = place(rng, shape), pick(rng, CUBE + BALL + FULL)
    cb = []
    t2 = False
    for n in shape:
        cb.append(pick(rng, [r, n - r]) if chance(rng, 0.4) else int(rng.integers(r, n - r + 1)))
    cb = tuple(cb)
    if chance(rng, 0.1):
        img = img.copy()
        img[mask(shape, cb, r, region)] = img.flat[0]
    f = img.astype(np.float64)
    s, b = f[mask(shape, cs, r, region)], f[mask(shape, cb, r, region)]
    if not conditioned(b, dtype):
        return
    want = ratio(s.mean() - b.mean(), b.std(), b)
    kw = dict(signal_center=cs, background_center=cb, radius=r, region_type=region)
    if chance(rng, 0.2):
        kw["signal_center"] = list(cs)
    if region == "cubic" and chance(rng, 0.5):
        del kw["region_type"]
    what = f"CNR {dtype} {shape} {kw}"
    if chance(rng, 0.5):
        met = viqa.CNR()
        got = met.score(layout(rng, img), **kw)
        ctx.check(met.score_val == got, "stored score differs")
        for k in ("signal_center", "background_center", "radius"):
            ctx.check(met.parameters[k] == kw[k], "stored region differs: " + what)
    else:
        got = contrast_to_noise_ratio(layout(rng, img), **kw)
    ctx.close(got, want, what, **tol(dtype))
    ctx.event("cnr")
    if want == 0:
        ctx.event("zero")
    if t1:
        ctx.event("touching")
    ctx.key(shape, cs, cb, r, region, dtype)
    ctx.sample(type=dtype, shape=shape, signal=cs, background=cb, radius=r, region=region, score=float(got))


def snr(ctx, rng):
    import viqa
    from viqa.nr_metrics.snr import signal_to_noise_ratio
    img, shape, dtype, how = make(rng)
    if shape[-1] == 3:
        return
    (c, r, t), region = place(rng, shape), pick(rng, CUBE + BALL + FULL)
    m = mask(shape, c, r, region)
    if chance(rng, 0.1):
        img = img.copy()
        img[m] = 1
    v = img.astype(np.float64)[m]
    if not conditioned(v, dtype):
        return
    want = ratio(v.mean(), v.std(), v)
    kw = dict(signal_center=c, radius=r, region_type=region)
    what = f"SNR {dtype} {shape} {kw}"
    if chance(rng, 0.5):
        met = viqa.SNR()
        got = met.score(layout(rng, img), **kw)
        ctx.check(met.score_val == got, "stored score differs")
    else:
        got, par = signal_to_noise_ratio(layout(rng, img), **kw)
        sig = par["signal"]
        vals = np.ma.compressed(sig) if np.ma.isMaskedArray(sig) else np.asarray(sig).ravel()
        ctx.same(np.asarray(vals), np.asarray(img[m]), "region returned with " + what)
        ctx.event("region_returned")
    ctx.close(got, want, what, **tol(dtype))
    ctx.event("snr")
    if want == 0:
        ctx.event("zero")
    if t:
        ctx.event("touching")
    ctx.key(shape, c, r, region, dtype)
    ctx.sample(type=dtype, shape=shape, signal=c, radius=r, region=region, score=float(got))


def colour(ctx, rng):
    import viqa
    img, shape, dtype, how = make(rng, True)
    (c, r, t), region = place(rng, shape), pick(rng, CUBE + BALL + FULL)
    m = mask(shape, c, r, region)
    if chance(rng, 0.2):
        img = img.copy()
        img[m] = img[0, 0] if chance(rng, 0.5) else pick(rng, [0, 1, 100])
    kw = dict(signal_center=c, radius=r, region_type=region)
    yuv = chance(rng, 0.5)
    if not yuv or chance(rng, 0.3):
        kw["yuv"] = yuv
    got = viqa.SNR(chromatic=True).score(layout(rng, img), **kw)
    f = img.astype(np.float64)
    if yuv:
        v = (f @ YUV.T)[m]
        want = [ratio(v[:, 0].mean(), v[:, k].std(), v[:, k]) for k in range(3)]
    else:
        lum, v = (f @ LUM)[m], f[m]
        want = [ratio(lum.mean(), lum.std(), lum)]
        want += [ratio(v[:, k].mean(), v[:, k].std(), v[:, k]) for k in range(3)]
    if not all(conditioned(x, dtype) for x in v.T) or not (yuv or conditioned(lum, dtype)):
        return
    least = 1e-4 * np.abs(v).max()  # differences of channels are rounded
    if any(0 < x.std() < least for x in v.T):
        return
    if all(w == 0 for w in want):
        ctx.event("zero")
    ctx.close(np.array(got, float), want, f"SNR colour {dtype} {shape} {kw}", **(tol(dtype) if dtype != "float32" else dict(rtol=5e-4, atol=1e-3)))
    ctx.event("colour")
    ctx.key(shape, c, r, region, dtype, yuv)


def refuse(ctx, rng):
    import viqa
    img, shape, dtype, how = make(rng, chance(rng, 0.25))
    is_rgb = img.ndim > len(shape)
    if img.shape[-1] == 3 and not is_rgb:
        return
    (c, r, _), (c2, _, _) = place(rng, shape), place(rng, shape)
    c2 = tuple(min(max(v, r), n - r) for v, n in zip(c2, shape))
    region = pick(rng, CUBE + BALL + FULL)
    bad = pick(rng, ["low", "high", "beyond", "negative", "short", "long", "float", "string", "r0",
                     "rneg", "rfloat", "rlarge", "region", "nothing", "part"])
    c1, rr = list(c), r
    ax = int(rng.integers(len(shape)))
    exc = (ValueError, TypeError)
    if bad == "low":
        c1[ax] = int(rng.integers(0, r))
    elif bad == "high":
        c1[ax] = shape[ax] - int(rng.integers(0, r))
    elif bad == "beyond":
        c1[ax] = shape[ax] + int(rng.integers(1, 50))
    elif bad == "negative":
        c1[ax] = -int(rng.integers(1, 2 * shape[ax]))
    elif bad == "short":
        c1 = c1[:-1]
    elif bad == "long":
        c1 = c1 + [r]
    elif bad == "float":
        c1[ax] = c1[ax] + 0.5
    elif bad == "string":
        c1[ax] = str(c1[ax])
    elif bad == "r0":
        rr = 0
    elif bad == "rneg":
        rr = -int(rng.integers(1, 5))
    elif bad == "rfloat":
        rr = r - 0.5
    elif bad == "rlarge":
        rr = max(shape)
    elif bad == "region":
        region = pick(rng, ["cubes", "", "Cubic ", "none", "ball"])
    c1 = tuple(c1)
    if is_rgb or chance(rng, 0.5):
        met, kw = viqa.SNR(), dict(signal_center=c1, radius=rr, region_type=region)
    elif chance(rng, 0.5):
        met, kw = viqa.CNR(), dict(signal_center=c1, background_center=c2, radius=rr, region_type=region)
    else:
        met, kw = viqa.CNR(), dict(signal_center=c2, background_center=c1, radius=rr, region_type=region)
    if bad == "nothing":
        kw = {} if chance(rng, 0.5) else {"region_type": region}
    elif bad == "part":
        del kw[pick(rng, [k for k in kw if k != "region_type"])]
    ctx.refused(lambda: met.score(img, **kw), exc, f"{met._name} {img.shape} {bad} {kw}")
    ctx.check(met.score_val is None, "a refused call stored a score")
    ctx.event("refused:" + bad)
    ctx.key(bad, shape, c1, rr, region, met._name)


SCALE = 4
KINDS = [("cnr", cnr, 1600, 10), ("snr", snr, 1600, 10), ("colour", colour, 600, 10),
         ("refuse", refuse, 1200, 10)]
