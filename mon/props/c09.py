"""C09: GSM."""
import numpy as np

import oracles
from gen import chance, distort, layout, pick, ranged, texture, to_type

RULE = ("textured and random 2D pairs of every integer and floating type, over the whole range of "
        "the type, and 3D volumes in experimental mode; score compared with a double-precision model "
        "and with the score of the same values as float64; random c, p, data range; pairs whose "
        "largest gradient is not clear-cut are not judged; distinct by type, shape and settings")
ASSUME = ["the 3D kernels are taken from viqa.kernels (their structure is decided by C24)",
          "1e-3 relative tolerance for single-precision images, 1e-6 otherwise"]
NEED = {"scores": 600, "types_equal": 400, "identical": 60, "three_d": 40}
TYPES = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float32", "float64", "float16"]


def make(rng, shape, dtype):
    dt = np.dtype(dtype)
    how = pick(rng, ["texture", "random", "same"])
    if dt.kind in "ui":
        i = np.iinfo(dt)
        lo, hi = int(i.min), int(i.max)
        top = pick(rng, [hi, min(hi, 255), min(hi, 100)])
        lo = pick(rng, [0, lo])
    else:
        lo, top = pick(rng, [(0, 255), (0, 1), (-100, 100)])
    a = texture(rng, shape) if how != "random" else rng.random(shape)
    b = a if how == "same" else distort(rng, a)

    def conv(x):
        x = x * (float(top) - lo) + lo
        if dt.kind in "ui":
            return np.clip(np.round(x), lo, top).astype(dt)
        return x.astype(dt)
    return conv(a), conv(b), how, float(top)


def two_d(ctx, rng):
    import viqa
    dtype = pick(rng, TYPES)
    shape = tuple(int(v) for v in rng.integers(5, 40, 2))
    if shape[1] == 3:
        return
    r, m, how, top = make(rng, shape, dtype)
    dr = pick(rng, [255, 1, 65535, max(top, 1), 0.5 * max(top, 1), 0.25])
    kw = {}
    if chance(rng, 0.3):
        kw["c"] = pick(rng, [50, 100, 200, 1000])
    if chance(rng, 0.3):
        kw["p"] = pick(rng, [0.05, 0.1, 0.4])
    met = viqa.GSM(**ranged(rng, dr))
    got = met.score(layout(rng, r), layout(rng, m), **kw)
    what = f"GSM {dtype} {shape} {how} {kw}"
    ctx.check(met.score_val == got or (got != got), "stored score differs")
    if how == "same" and r.min() != r.max():
        ctx.close(got, 1, what + ": identical images", rtol=0, atol=1e-9)
        ctx.event("identical")
        return
    want, margin = oracles.gsm(r, m, oracles.GSM_2D, dr, **kw)
    if margin < 1e-4 or not np.isfinite(want):
        ctx.event("not_judged")
        return
    single = dtype == "float32"
    tol = 2e-3 if single else 1e-6
    if not single or abs(want) < 100:
        ctx.close(got, want, what, rtol=tol, atol=tol, margin=margin)
        ctx.event("scores")
    if not single:
        f = viqa.GSM(data_range=dr).score(r.astype(np.float64), m.astype(np.float64), **kw)
        ctx.close(got, f, what + ": differs from the same values in floating point", rtol=1e-9)
        ctx.event("types_equal")
    ctx.key(dtype, shape, how, repr(kw), dr)
    ctx.sample(type=dtype, shape=shape, how=how, settings=kw, score=float(got), model=want)


def kernels_3d():
    import viqa.kernels as k
    return [np.asarray(getattr(k, "gsm_kernel_" + n)()) for n in
            ("x", "y", "z", "xy1", "xy2", "yz1", "yz2", "xz1", "xz2", "xyz1", "xyz2", "xyz3", "xyz4")]


def three_d(ctx, rng):
    import viqa
    dtype = pick(rng, ["uint8", "uint16", "int16", "float64"])
    shape = tuple(int(v) for v in rng.integers(6, 14, 3))
    r, m, how, top = make(rng, shape, dtype)
    if how == "same":
        m = np.ascontiguousarray(r[::-1])
    dr = pick(rng, [255, 65535])
    got = viqa.GSM(data_range=dr).score(r, m, dim=pick(rng, [0, 1, 2]), experimental=True)
    want, margin = oracles.gsm(r, m, kernels_3d(), dr)
    if margin < 1e-4 or not np.isfinite(want):
        ctx.event("not_judged")
        return
    ctx.close(got, want, f"GSM experimental {dtype} {shape}", rtol=1e-6, atol=1e-6, margin=margin)
    ctx.event("three_d")
    ctx.key(dtype, shape)


SCALE = 4
KINDS = [("two_d", two_d, 1600, 12), ("three_d", three_d, 120, 8)]
