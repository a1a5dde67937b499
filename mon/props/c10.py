"""C10: slice and volume scores agree with the two-dimensional metric."""
import numpy as np

from gen import chance, distort, layout, pick, texture, to_type

RULE = ("3D pairs with three different axis lengths whose slices differ strongly; each metric's slice "
        "score (every axis, first, last, inner and negative index) compared with scoring the slice "
        "extracted beforehand as a 2D pair, volume scores with the mean of all 2D scores, missing "
        "and invalid dimensions must be refused; distinct by metric, shape, axis and slice")
ASSUME = ["the 2D score itself is decided by C09, C11 and C12; here 2D and 3D paths are compared"]
NAMES = ["FSIM", "VSI", "VIFp", "MSSSIM", "GSM", "MAD"]
NEED = {**{"slice:" + n: 20 for n in NAMES}, **{"volume:" + n: 8 for n in NAMES},
        "refusals": 150, "planes": 30, "long_volumes": 8}
SMALL = {"FSIM": 20, "VSI": 20, "VIFp": 43, "MSSSIM": 163, "GSM": 9, "MAD": 34}


def volume(rng, name, axis, n_slices, blank=True):
    least = SMALL[name]
    sides = [least + int(v) for v in rng.choice(8, 2, replace=False)]
    if n_slices > 8 and chance(rng, 0.5):  # cubes
        sides = [n_slices, n_slices]
    shape = list(sides)
    shape.insert(axis, n_slices)
    if shape[-1] == 3:
        shape[-1] = 4
    # every slice gets its own distortion, so that each has its own score
    a = np.stack([texture(rng, tuple(sides)) for _ in range(shape[axis])])
    b = np.stack([distort(rng, x, pick(rng, ["noise", "mix", "blur", "spots"])) for x in a])
    if blank and chance(rng, 0.35):  # empty slices, as at the ends of a scan
        for k in {0, int(rng.integers(len(a)))}:
            a[k] = b[k] = 0
            if chance(rng, 0.4):
                a[k] = a[k - 1]
    dtype = pick(rng, ["uint8", "uint16", "uint16", "float32", "float64"])
    top = 65535 if dtype == "uint16" else 255
    a, b = to_type(a, dtype, top), to_type(b, dtype, top)
    if name in ("GSM", "MAD") and dtype[0] == "f" and chance(rng, 0.3):  # an invalid pixel in one slice
        v = pick(rng, [a, b])
        v[int(rng.integers(len(v)))].flat[int(rng.integers(v[0].size))] = np.nan
    r, m = np.moveaxis(a, 0, axis), np.moveaxis(b, 0, axis)
    return layout(rng, r), layout(rng, m), pick(rng, [1, 1, 2, 4]) * top, dtype


def settings(rng, name):
    if name == "GSM" and chance(rng, 0.3):
        return {"c": 100}
    if name == "MAD":
        return {"block_size": 8, "block_overlap": 0.5} if chance(rng, 0.8) else {"block_size": 10}
    if name == "MSSSIM":
        return {"kernel_size": 11} if chance(rng, 0.2) else {}
    if name == "VIFp" and chance(rng, 0.3):
        return {"sigma_n_sq": 1.0}
    if name == "VSI" and chance(rng, 0.3):
        return {"c1": 1.0}
    if name == "FSIM" and chance(rng, 0.3):
        return {"scales": 3}
    return {}


def flat(name, viqa, r, m, top, kw):
    return float(getattr(viqa, name)(data_range=top).score(
        np.ascontiguousarray(r), np.ascontiguousarray(m), **kw))


def tol(name):
    return dict(rtol=1e-9, atol=1e-9) if name in ("GSM", "MAD") else dict(rtol=2e-4, atol=2e-5)


def slices(ctx, rng):
    import viqa
    name = NAMES[ctx.idx % len(NAMES)]
    axis = (ctx.idx // len(NAMES)) % 3
    r, m, top, dtype = volume(rng, name, axis, int(rng.integers(4, 8)))
    n = r.shape[axis]
    kw = settings(rng, name)
    met = getattr(viqa, name)(data_range=top)
    for s in {0, n - 1, int(rng.integers(n)), -1}:
        got = met.score(r, m, dim=axis, im_slice=s, **kw)
        want = flat(name, viqa, np.take(r, s, axis), np.take(m, s, axis), top, kw)
        ctx.close(float(got), want, f"{name} slice {s} of axis {axis}, {r.shape} {dtype} {kw}",
                  **(tol(name) if dtype != "float32" else dict(rtol=1e-3, atol=1e-4)))
        ctx.close(float(met.score_val), float(got), "stored score", rtol=0, atol=0)
        ctx.event("slice:" + name)
        ctx.key(name, axis, s, r.shape)
    ctx.sample(metric=name, axis=axis, shape=r.shape, type=dtype, score=float(got))


def volumes(ctx, rng):
    import viqa
    name = NAMES[ctx.idx % len(NAMES)]
    axis = (ctx.idx // len(NAMES)) % 3
    n = int(rng.integers(2, 5))
    # often more slices than pixels along the other axes
    if chance(rng, {"GSM": 0.6, "FSIM": 0.2, "VSI": 0.2, "VIFp": 0.2, "MAD": 0.2}.get(name, 0.06)):
        n = SMALL[name] + int(rng.integers(1, 14))
    r, m, top, dtype = volume(rng, name, axis, n)
    if r.shape[axis] > max(v for i, v in enumerate(r.shape) if i != axis):
        ctx.event("long_volumes")
    kw = settings(rng, name)
    got = getattr(viqa, name)(data_range=top).score(r, m, dim=axis, **kw)
    parts = [flat(name, viqa, np.take(r, s, axis), np.take(m, s, axis), top, kw)
             for s in range(r.shape[axis])]
    ctx.close(float(got), np.mean(parts), f"{name} volume along axis {axis}, {r.shape} {dtype} {kw}",
              **(tol(name) if dtype != "float32" else dict(rtol=1e-3, atol=1e-4)), parts=parts)
    ctx.event("volume:" + name)
    ctx.event("slices_averaged", len(parts))
    ctx.key(name, axis, r.shape, repr(kw))
    ctx.sample(metric=name, axis=axis, shape=r.shape, score=float(got), slice_scores=parts)


def plane(ctx, rng):
    """A dimension and a slice given with a 2D pair are ignored."""
    import viqa
    name = NAMES[ctx.idx % len(NAMES)]
    r, m, top, dtype = volume(rng, name, 0, 2)
    r, m = np.ascontiguousarray(r[0]), np.ascontiguousarray(m[0])
    kw = settings(rng, name)
    extra = pick(rng, [{"dim": 0}, {"dim": 1, "im_slice": 1}, {"dim": 2, "im_slice": 0}, {"im_slice": 3},
                       {"dim": 2}])
    got = getattr(viqa, name)(data_range=top).score(r, m, **extra, **kw)
    ctx.close(float(got), flat(name, viqa, r, m, top, kw), f"{name} of a 2D pair with {extra}", **tol(name))
    ctx.event("planes")
    ctx.key(name, repr(extra), r.shape)


def refuse(ctx, rng):
    import viqa
    name = NAMES[ctx.idx % len(NAMES)]
    side = SMALL[name] + 2
    shape = (side, side + 1, side + 2) if name not in ("MSSSIM", "VIFp", "MAD") else (side, side + 1, 5)
    r = rng.integers(0, 255, shape).astype(np.uint8)
    met = getattr(viqa, name)()
    args = pick(rng, [{}, {"im_slice": 2}, {"dim": 3, "im_slice": 1}, {"dim": 5, "im_slice": 1},
                      {"dim": 3}, {"dim": -4}, {"dim": 7}, {"dim": "z", "im_slice": 1},
                      {"dim": 1, "im_slice": 1.5}, {"dim": 1, "im_slice": "2"}])
    ctx.refused(lambda: met.score(r, r, **args), ValueError, f"{name} of a volume with {args}")
    ctx.check(met.score_val is None, "a refused call stored a score")
    ctx.key(name, repr(args))


KINDS = [("slices", slices, 288, 10), ("volumes", volumes, 108, 10), ("plane", plane, 60, 6), ("refuse", refuse, 240, 3)]
