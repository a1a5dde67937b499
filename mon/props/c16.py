"""C16: automatically found regions."""
import numpy as np

from c15 import BALL, CUBE, LUM, YUV, mask, ratio
from gen import chance, layout, pick, texture

RULE = ("binary images (blobs, several components, holes, salt and pepper, objects touching or "
        "covering the border; 2D and 3D, non-cubic) with 1..12 cleaning steps and every region type, "
        "centre, radius and region compared with brute-force morphology and distances; grey, RGB and "
        "3D images scored with automatic centring compared with the ratios over these regions; "
        "distinct by shape, region type, steps and object")
ASSUME = ["any centre of maximal distance is accepted when there are several",
          "RGB images are scored with cubic and spherical regions only"]
NEED = {"regions": 500, "full": 60, "cnr": 100, "snr": 100, "three_d": 100, "nonempty": 300,
        "rgb": 20, "smaller_background": 15, "smaller_foreground": 50, "refusals": 40}


def cross(img, fn, empty):
    """One step with the 4- (6-)neighbourhood; outside the image counts as empty."""
    p = np.pad(img, 1, constant_values=empty)
    core = tuple(slice(1, -1) for _ in img.shape)
    out = p[core].copy()
    for ax in range(img.ndim):
        for d in (-1, 1):
            out = fn(out, np.roll(p, d, ax)[core])
    return out


def clean(img, steps):
    for _ in range(steps):
        img = cross(img, np.logical_or, False)
    for _ in range(steps + 1):
        img = cross(img, np.logical_and, False)
    return img


def distances(img):
    """Distance of every inside pixel from the nearest outside pixel, axis by axis."""
    d = np.where(img, np.inf, 0.0)
    for ax, n in enumerate(img.shape):
        k = np.arange(n)
        off = ((k[:, None] - k[None, :]) ** 2).astype(float)  # (at, from)
        d = np.moveaxis((np.moveaxis(d, ax, -1)[..., None, :] + off).min(-1), -1, ax)
    return np.sqrt(np.where(img, d, 0.0))


def blob(rng, nd, large=False):
    shape = tuple(int(v) for v in rng.integers(6, 44 if nd == 2 else 16, nd))
    if large:
        shape = tuple(int(v) for v in rng.integers(24, 90 if nd == 2 else 34, nd))
    if shape[-1] <= 3:
        shape = shape[:-1] + (7,)
    g = np.indices(shape)
    img = np.zeros(shape, bool)
    how = pick(rng, ["balls", "boxes", "noise", "texture", "most", "sparse"])
    if how in ("balls", "boxes", "most"):
        for _ in range(int(rng.integers(1, 4))):
            c = [rng.uniform(0, n) for n in shape]
            r = rng.uniform(2, max(3, min(shape) * 0.6))
            if how == "boxes":
                img |= np.all([np.abs(a - b) < r * rng.uniform(0.5, 1.5) for a, b in zip(g, c)], axis=0)
            else:
                img |= sum((a - b) ** 2 for a, b in zip(g, c)) < r * r
        if how == "most":
            img = ~img
        if chance(rng, 0.5):
            img ^= rng.random(shape) < 0.02
    elif how == "noise":
        img = rng.random(shape) < 0.5
    elif how == "sparse":
        img = rng.random(shape) < 0.05
    else:
        img = texture(rng, shape) > rng.uniform(0.2, 0.8)
    if img.all() or not img.any():
        img.flat[0] ^= True
    return img, how


def regions(ctx, rng):
    from viqa.utils import find_largest_region
    nd = pick(rng, [2, 2, 3])
    far = chance(rng, 0.15)
    img, how = blob(rng, nd, far)
    steps = int(rng.integers(6, 13)) if far else int(rng.integers(1, 6))
    region = pick(rng, CUBE + BALL + ("full", "full", "original", "cleaned", None))
    kw = dict(region_type=region, iterations=steps)
    if chance(rng, 0.2):
        kw.pop("iterations")
        steps = 5
    what = f"{img.shape} {how} steps {steps} {region}"
    c, r, reg = find_largest_region(layout(rng, img), **kw)
    ref = clean(img, steps)
    dist = distances(ref)
    ctx.check(len(c) == nd and all(type(v) is int for v in c), "centre is not a tuple of integers", got=c)
    best = dist.max()
    ctx.check(all(0 <= v < n for v, n in zip(c, img.shape)), "centre outside the image " + what, got=c)
    ctx.close(dist[c], best, "centre is not a point of maximal distance: " + what, rtol=1e-12, centre=c)
    ctx.check(r == int(best), "radius is not the distance rounded down: " + what, got=r, want=best)
    if region == "original":
        ctx.same(np.asarray(reg), img, "region original " + what)
    elif region in ("cleaned", None):  # any other value: the cleaned image
        ctx.same(np.asarray(reg), ref, "cleaned region " + what)
        ctx.check(not np.ma.getmaskarray(reg).any(), "cleaned region is masked " + what)
        ctx.event("cleaned")
    else:
        ctx.check(np.ma.isMaskedArray(reg), "region is not a masked array " + what)
        keep = ~np.ma.getmaskarray(reg)
        if region == "full":
            want = cross(cross(ref, np.logical_and, False), np.logical_and, False)
            ctx.event("full")
        else:
            want = mask(img.shape, c, r, region)
        ctx.same(keep, want, "pixels of region " + what)
        ctx.same(reg.data[want], ref[want], "values in region " + what)
    ctx.event("regions")
    if best >= 1:
        ctx.event("nonempty")
    if nd == 3:
        ctx.event("three_d")
    ctx.key(img.shape, region, steps, how, c)
    ctx.sample(shape=img.shape, object=how, steps=steps, region=region, centre=c, radius=r)


def refuse(ctx, rng):
    from viqa.utils import find_largest_region
    img, _ = blob(rng, 2)
    bad = pick(rng, [img.astype(np.uint8), img.astype(float), np.zeros_like(img), np.ones_like(img),
                     img[0], rng.random(img.shape)])
    ctx.refused(lambda: find_largest_region(bad), ValueError, f"{bad.dtype} {bad.shape} {bad.min()} {bad.max()}")
    ctx.key(bad.dtype.str, bad.shape)


def scene(rng, nd, colour=False):
    """Bright objects on a darker background, with texture on both."""
    shape = tuple(int(v) for v in rng.integers(14, 44 if nd == 2 else 18, nd))
    g = np.indices(shape)
    a = 0.25 * texture(rng, shape)
    for _ in range(int(rng.integers(1, 3))):
        c = [rng.uniform(0.2 * n, 0.8 * n) for n in shape]
        r = rng.uniform(0.15, 0.4) * min(shape)
        a[sum((x - y) ** 2 for x, y in zip(g, c)) < r * r] += rng.uniform(0.3, 0.7)
    if colour:
        a = np.stack([a * w + 0.05 * rng.random(shape) for w in rng.uniform(0.6, 1, 3)], -1)
    a = a / a.max()
    dtype, top = pick(rng, [("uint8", 255), ("uint16", 65535), ("float64", 1.0), ("float64", 255.0)])
    a = a * top
    return (np.round(a) if dtype[0] in "ui" else a).astype(dtype), shape, dtype


def striped(rng, nd):
    """A compact bright object on narrow strips of background; the rest is at the minimum."""
    shape = tuple(int(v) for v in rng.integers(*((30, 46) if nd == 2 else (15, 19)), nd))
    g = np.indices(shape)
    a = np.zeros(shape)
    w, gap = int(rng.integers(4, 7)), int(rng.integers(5, 9))
    ax = int(rng.integers(nd))
    strip = (g[ax] % (w + gap)) < w
    a[strip] = 0.1 + 0.3 * rng.random(int(strip.sum()))
    vol = rng.uniform(0.11, 0.16) * np.prod(shape)
    r = np.sqrt(vol / np.pi) if nd == 2 else (vol * 3 / (4 * np.pi)) ** (1 / 3)
    c = [rng.uniform(min(r, n / 2), max(n - r, n / 2)) for n in shape]
    d = np.sqrt(sum((x - y) ** 2 for x, y in zip(g, c)))
    a[d < r] = 1 - 0.4 * d[d < r] / r + 0.02 * rng.random(int((d < r).sum()))
    dtype, top = pick(rng, [("uint8", 255), ("uint16", 65535), ("float64", 1.0)])
    a = a / a.max() * top
    return (np.round(a) if dtype[0] in "ui" else a).astype(dtype), shape, dtype


def binary(img, lo, hi):
    if img.ndim == 3 and img.shape[-1] == 3:
        import skimage as ski
        img = np.minimum(ski.color.rgb2gray(img.astype(np.float64)), img.max())
    return (img > np.percentile(img, lo)) & (img <= np.percentile(img, hi))


def candidates(obj, steps):
    """(cleaned object, radius, all centres of maximal distance) or None."""
    if not obj.any() or obj.all():
        return None
    ref = clean(obj, steps)
    d = distances(ref)
    r = int(d.max())
    if r < 1:
        return None
    return ref, r, [tuple(int(v) for v in c) for c in np.argwhere(d >= d.max() - 1e-9)]


def twice(ref):
    return cross(cross(ref, np.logical_and, False), np.logical_and, False)


def junk(rng, nd):
    """Centres and radius that must be ignored."""
    return pick(rng, [((3,) * nd, (4,) * nd, 2), (None, None, None), ((-1,) * nd, (9999,) * nd, 0),
                      ((0,), (0,), 5)])


def near(got, want):
    return abs(got - want) <= 1e-7 * abs(want) + 1e-9


def cnr(ctx, rng):
    import viqa
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio
    nd = pick(rng, [2, 2, 3])
    stripes = chance(rng, 0.35)
    img, shape, dtype = striped(rng, nd) if stripes else scene(rng, nd)
    if shape[-1] == 3:
        return
    steps = int(rng.integers(1, 3 if stripes else 5))
    region = pick(rng, CUBE + BALL + ("full", "original"))
    fg, bg = candidates(binary(img, 90, 100), steps), candidates(binary(img, 0, 90), steps)
    if fg is None or bg is None:
        ctx.event("no_object")
        return
    f = img.astype(np.float64)
    r = min(fg[1], bg[1])
    if region in CUBE + BALL:
        ctx.event("smaller_background" if bg[1] < fg[1] else "smaller_foreground")
    cs, cb, rr = junk(rng, nd)
    kw = dict(signal_center=cs, background_center=cb, radius=rr, region_type=region, auto_center=True,
              iterations=steps)
    what = f"CNR {dtype} {shape} {region} steps {steps}"
    got = viqa.CNR().score(img, **kw) if chance(rng, 0.5) else contrast_to_noise_ratio(img, **kw)
    if region == "original":
        pairs = [(np.ones(shape, bool),) * 2]
    elif region == "full":
        pairs = [(twice(fg[0]), twice(bg[0]))]
        if not (pairs[0][0].any() and pairs[0][1].any()):
            return
    else:
        pairs = ((mask(shape, a, r, region), mask(shape, b, r, region))
                 for a in fg[2][:40] for b in bg[2][:40])
    first = None
    for s, b in pairs:
        b = f[b]
        want = ratio(f[s].mean() - b.mean(), b.std(), b)
        first = want if first is None else first
        if near(got, want):
            break
    else:
        ctx.fail(what + ": not the ratio over the found regions", got=float(got), want=first,
                 centres=(fg[2][:3], bg[2][:3]), radius=r)
    ctx.event("assertions")
    ctx.event("cnr")
    ctx.key(shape, region, steps, dtype, fg[2][0])
    ctx.sample(shape=shape, region=region, steps=steps, radius=r, score=float(got))


def snr(ctx, rng):
    import viqa
    from viqa.nr_metrics.snr import signal_to_noise_ratio
    nd = pick(rng, [2, 2, 3])
    colour = nd == 2 and chance(rng, 0.3)
    img, shape, dtype = scene(rng, nd, colour)
    if shape[-1] == 3:
        return
    steps = int(rng.integers(1, 5))
    region = pick(rng, CUBE + BALL + (() if colour else ("full", "original")))
    lo, hi = (90, 99) if chance(rng, 0.5) else (int(rng.integers(40, 90)), int(rng.integers(92, 101)))
    if chance(rng, 0.04):  # nothing lies between the thresholds
        lo = hi = int(rng.integers(0, 101))
        ctx.refused(lambda: viqa.SNR().score(img, auto_center=True, lower_threshold=lo, upper_threshold=hi,
                                             region_type=region), ValueError, f"SNR of nothing ({lo} to {hi})")
        return
    obj = candidates(binary(img, lo, hi), steps)
    if obj is None:
        ctx.event("no_object")
        return
    cs, _, rr = junk(rng, nd)
    kw = dict(signal_center=cs, radius=rr, region_type=region, auto_center=True, iterations=steps)
    if (lo, hi) != (90, 99):
        kw.update(lower_threshold=lo, upper_threshold=hi)
    what = f"SNR {dtype} {img.shape} {region} steps {steps} thresholds {lo} {hi}"
    if region == "original":
        masks = [np.ones(shape, bool)]
    elif region == "full":
        masks = [twice(obj[0])]
        if not masks[0].any():
            return
    else:
        masks = [mask(shape, c, obj[1], region) for c in obj[2][:200]]
    f = img.astype(np.float64)
    if colour:
        f = f @ YUV.T
        got = viqa.SNR().score(img, **kw)
        wants = [[ratio(f[m][:, 0].mean(), f[m][:, k].std(), f[m][:, k]) for k in range(3)] for m in masks]
        ok = any(np.allclose(got, w, rtol=1e-5, atol=1e-6) for w in wants)
        ctx.event("rgb")
    else:
        wants = [ratio(f[m].mean(), f[m].std(), f[m]) for m in masks]
        if chance(rng, 0.5):
            got = viqa.SNR().score(img, **kw)
            ok = any(near(got, w) for w in wants)
        else:
            got, par = signal_to_noise_ratio(img, **kw)
            sig = par["signal"]
            keep = ~np.ma.getmaskarray(sig)
            ok = any(near(got, w) and np.array_equal(keep, m) for w, m in zip(wants, masks))
    ctx.check(ok, what + ": not the ratio over the found region", got=got, want=wants[0],
              centre=obj[2][0], radius=obj[1])
    ctx.event("snr")
    ctx.key(img.shape, region, steps, dtype, obj[2][0], lo, hi)
    ctx.sample(shape=img.shape, region=region, steps=steps, thresholds=(lo, hi), radius=obj[1])


SCALE = 3
KINDS = [("regions", regions, 900, 10), ("refuse", refuse, 60, 4), ("cnr", cnr, 400, 10),
         ("snr", snr, 400, 10)]
