"""C12: MAD."""
import numpy as np

import oracles
from gen import chance, distort, layout, pick, ranged, texture, to_type

RULE = ("textured grey pairs (8 and 16 bit, float32/64; square, rectangular, odd, prime sizes of at "
        "least three blocks) with random block size, overlap, weights, scales, orientations, "
        "thresholds, display and luminance settings; score compared with a double-precision model; "
        "invalid settings must be refused; distinct by size, block, stride, type and settings")
ASSUME = ["two readings of the neighbourhood of the minimum-deviation map are accepted (the "
          "documentation does not fix it)",
          "images hold no negative values (their lightness is undefined) and integer images no "
          "values above the data range",
          "the contrast sensitivity plane is scaled by the number of columns, as in the reference code"]
NEED = {"scores": 250, "identical": 30, "refusals": 40, "rectangular": 150, "settings": 150}


def settings(rng):
    kw, mk = {}, {}
    if chance(rng, 0.35):
        n = int(rng.integers(1, 7))
        kw.update(scales_num=n, weights=[float(v) for v in rng.uniform(0.3, 6, n).round(2)])
    elif chance(rng, 0.2):
        kw["weights"] = [float(v) for v in rng.uniform(0.3, 6, 5).round(2)]
    if chance(rng, 0.3):
        kw["orientations_num"] = int(rng.integers(1, 7))
    if chance(rng, 0.2):
        kw.update(thresh_1=float(rng.uniform(0.5, 8)), thresh_2=float(rng.uniform(1, 30)))
    elif chance(rng, 0.1):  # one threshold alone has no effect
        kw[pick(rng, ["thresh_1", "thresh_2"])] = float(rng.uniform(1, 30))
    elif chance(rng, 0.25):
        kw.update(beta_1=float(rng.uniform(0.1, 1)), beta_2=float(rng.uniform(0.05, 0.4)))
    if chance(rng, 0.25):
        kw.update(account_monitor=True, display_function=dict(
            disp_res=float(rng.uniform(2, 6)), view_dis=float(rng.uniform(200, 900))))
    if chance(rng, 0.25):
        kw["csf_function"] = dict(lambda_csf=float(rng.uniform(0.05, 0.2)),
                                  f_peak=float(rng.uniform(3, 12)))
    if chance(rng, 0.25):
        kw["luminance_function"] = dict(k=float(rng.uniform(0.01, 0.05)),
                                        gamma=float(rng.uniform(1.5, 3)))
        if chance(rng, 0.4):
            kw["luminance_function"]["b"] = float(rng.uniform(0, 0.3))
    if chance(rng, 0.2):
        kw["ms_scale"] = float(rng.uniform(0.5, 4))
    return kw


def make(rng):
    bs = int(pick(rng, [2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16]))
    lo = 3 * bs
    shape = tuple(int(v) for v in rng.integers(lo, lo + 28, 2))
    if chance(rng, 0.25):
        shape = (shape[0], shape[0])
    if shape[1] == 3:
        shape = (shape[0], 4)
    dtype, top = pick(rng, [("uint8", 255), ("uint8", 255), ("uint16", 65535), ("uint16", 4095),
                            ("int32", 1000), ("int16", 2000), ("float64", 255.0), ("float64", 1.0),
                            ("float32", 255.0)])
    a = texture(rng, shape)
    b = distort(rng, a)
    return to_type(a, dtype, top), to_type(b, dtype, top), dtype, top, bs, shape


def judge(ctx, got, r, m, what, tol=1e-6, **kw):
    """Both readings of the neighbourhood; returns the matching one."""
    vals = [oracles.mad(r, m, reading=k, **kw) for k in (0, 1)]
    if not all(np.isfinite(vals)):
        ctx.event("not_judged")
        return
    ok = any(abs(got - v) <= tol * abs(v) + 1e-9 for v in vals)
    ctx.check(ok, what + " differs from its definition", got=float(got), want=vals, kw=kw)
    ctx.check(got >= 0, what + " is negative", got=float(got))
    ctx.event("scores")


def scores(ctx, rng):
    import viqa
    r, m, dtype, top, bs, shape = make(rng)
    if r.min() == r.max() or np.array_equal(r, m):
        return
    ov = float(pick(rng, [0, 0.25, 0.5, 0.75, 0.75, 0.9, rng.uniform(0, 0.99)]))
    kw = settings(rng)
    met = viqa.MAD(**ranged(rng, top if dtype[0] in "ui" else pick(rng, [255, 1])))
    args = dict(block_size=bs, block_overlap=ov, **kw)
    default = chance(rng, 0.15) and min(shape) >= 48
    if default:
        args = kw
    got = met.score(layout(rng, r), layout(rng, m), **args)
    ctx.check(met.score_val == got or got != got, "stored score differs")
    tol = 1e-3 if dtype == "float32" else 1e-6
    judge(ctx, got, r, m, f"MAD {dtype} {shape} block {bs} overlap {ov:.3f}", tol, **args)
    if shape[0] != shape[1]:
        ctx.event("rectangular")
    if kw:
        ctx.event("settings")
    ctx.key(shape, bs, ov, dtype, repr(sorted(kw)))
    ctx.sample(type=dtype, shape=shape, settings=args, score=float(got))


def identical(ctx, rng):
    import viqa
    r, _, dtype, top, bs, shape = make(rng)
    got = viqa.MAD(data_range=top if dtype[0] in "ui" else 255).score(
        r, layout(rng, r.copy()), block_size=bs, block_overlap=pick(rng, [0, 0.5, 0.75]),
        **settings(rng))
    ctx.check(got == 0, f"MAD of identical images {dtype} {shape} block {bs}", got=got)
    ctx.event("identical")
    ctx.key(shape, bs, dtype)


def refuse(ctx, rng):
    import viqa
    r, m, dtype, top, bs, shape = make(rng)
    met = viqa.MAD(data_range=top if dtype[0] in "ui" else 255)
    how = pick(rng, ["zero", "negative", "large", "overlap1", "overlapneg", "weights", "monitor",
                     "large_one_axis"])
    kw = {"zero": dict(block_size=0), "negative": dict(block_size=-int(rng.integers(1, 9))),
          "large": dict(block_size=max(shape) + int(rng.integers(1, 5))),
          "overlap1": dict(block_size=bs, block_overlap=pick(rng, [1, 1.0, 1.5])),
          "overlapneg": dict(block_size=bs, block_overlap=-pick(rng, [0.1, 1])),
          "weights": dict(block_size=bs, weights=[1.0] * pick(rng, [1, 2, 3, 4, 6, 7])),
          "monitor": dict(block_size=bs, account_monitor=True),
          "large_one_axis": dict(block_size=9)}[how]
    if how == "large_one_axis":
        n = int(rng.integers(4, 9))
        if chance(rng, 0.5):
            r, m = np.ascontiguousarray(r.T), np.ascontiguousarray(m.T)
        r = np.resize(r, (40, n)) if chance(rng, 0.5) else np.resize(r, (n, 40))
        m = r.copy()
    ctx.refused(lambda: met.score(r, m, **kw), ValueError, f"MAD with {how} {kw} on {r.shape}")
    ctx.check(met.score_val is None, "a refused call stored a score")
    ctx.key(how, shape)


def module_function(ctx, rng):
    """The functions without the class, and the documented defaults."""
    from viqa.fr_metrics import mad as mod
    r, m, dtype, top, bs, shape = make(rng)
    if r.min() == r.max() or np.array_equal(r, m):
        return
    kw = dict(block_size=bs)
    got = mod.most_apparent_distortion(r, m, data_range=top, **kw)
    judge(ctx, got, r, m, f"most_apparent_distortion {dtype} {shape}",
          1e-3 if dtype == "float32" else 1e-6, **kw)
    ctx.event("function_calls")
    ctx.key(shape, bs, dtype)


def block_one(ctx, rng):
    import viqa
    shape = tuple(int(v) for v in rng.integers(8, 20, 2))
    a = texture(rng, shape)
    r, m = to_type(a, "uint8", 255), to_type(distort(rng, a, "noise"), "uint8", 255)
    got = viqa.MAD().score(r, m, block_size=1, block_overlap=0)
    if not (np.isfinite(got) and got > 0):
        ctx.known("mad-block-one", "MAD of different images with block_size=1 is not positive",
                  got=float(got))


KINDS = [("scores", scores, 440, 14), ("identical", identical, 60, 8), ("refuse", refuse, 120, 4),
         ("module_function", module_function, 60, 12), ("block_one", block_one, 4, 2)]
