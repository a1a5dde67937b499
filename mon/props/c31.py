"""C31: identical images score best, no pair scores better, and stronger distortion scores worse."""
import csv
import os

import numpy as np

import bench
from gen import chance, distort, layout, pick, roi_inside, texture, to_type, write_mhd, write_nifti, write_raster, write_raw

RULE = ("every full-reference metric with random settings, directly and through lists and batches: images "
        "(textured, partly flat, constant, binary, RGB with and without colour, volumes, slices, regions, "
        "normalized, of every type) against themselves (same object, copies in other layouts, image arrays, "
        "tensors, files); random, unrelated, inverted and extreme pairs against the limits of each metric; both "
        "orders of a pair; one distortion at two strengths; distinct by metric, kind of image, route and shape")
ASSUME = ["pixel values lie within the data range",
          "GSM is undefined where neither image has a rising edge",
          "VIFp and MAD treat the two images differently by definition; VIFp has no upper limit"]
NEED = {"best": 800, "bounds": 400, "orders": 250, "strengths": 150, "near": 60, "flat": 60, "colour": 60, "volumes": 50,
        "slices": 50, "from_files": 60, "regions": 40, "normalized": 30, "lists": 60, "batches": 20}
BEST = {"RMSE": 0.0, "MAD": 0.0, "PSNR": np.inf}  # others: 1
LEVEL = {"MSSSIM": "MS-SSIM"}
LIKE = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "MSSSIM"]  # both images play the same part
COLOUR = ["RMSE", "PSNR", "SSIM", "FSIM", "VSI"]
TYPES = ["uint8", "uint16", "int16", "uint32", "float16", "float32", "float64"]
FULL = {"uint8": 255, "uint16": 65535, "int16": 32767, "uint32": 2**32 - 1}


def choose(rng, pool=bench.FR):
    name = pick(rng, pool)
    return name if name != "MSSSIM" or chance(rng, 0.1) else pick(rng, ["RMSE", "PSNR", "SSIM", "GSM"])


def image(rng, shape, kind):
    """Values in [0, 1]."""
    a = texture(rng, shape)
    if kind == "flat":
        a[tuple(slice(0, int(rng.integers(1, n + 1))) for n in shape)] = rng.random()
    elif kind == "binary":
        a = (a > rng.uniform(0.3, 0.7)).astype(float)
    elif kind == "constant":
        a[...] = pick(rng, [0.0, 0.5, 1.0, 0.25])
    elif kind == "faint":
        a = 0.5 + 0.02 * a
    elif kind == "dark":
        a = 0.05 * a
    return a


def is_best(ctx, name, val, **info):
    want = BEST.get(name, 1.0)
    val = float(val)
    ok = val == want if name in ("RMSE", "PSNR", "MAD") else abs(val - want) <= 1e-4
    ctx.check(ok, f"{name} of two identical images is not {want:g}", got=val, **info)
    ctx.event("best")


def setup(ctx, rng, viqa, name, nd, colour=False):
    """A metric, its scoring parameters, and an image pair maker's (shape, dtype, top)."""
    if nd == 3 and name in ("VIFp", "MSSSIM"):
        nd = 2
    shape = bench.shape_for(rng, [name], nd)
    kw = bench.params(rng, name, shape)
    if nd == 3:
        if name in ("GSM", "FSIM", "VSI") and chance(rng, 0.4):
            kw.pop("im_slice")
            ctx.event("volumes")
        elif "im_slice" in kw:
            ctx.event("slices")
        else:
            ctx.event("volumes")
    if "csf_function" in kw and chance(rng, 0.5):
        kw.pop("csf_function")
    init = {}
    if colour:
        shape += (3,)
        ctx.event("colour")
        if name in COLOUR and chance(rng, 0.6):
            init["chromatic"] = True
            if name == "SSIM":
                kw["color_weights"] = np.ones(3)
    dtype = pick(rng, [t for t in TYPES if t != "uint32" or name != "MAD"])
    top = FULL.get(dtype) or pick(rng, [1, 255])
    return init, kw, shape, dtype, top


def undefined(name, kind):
    return name == "GSM" and kind in ("constant", "binary")


def best(ctx, rng):
    import torch
    import viqa
    name = choose(rng)
    colour = chance(rng, 0.2)
    init, kw, shape, dtype, top = setup(ctx, rng, viqa, name, 3 if chance(rng, 0.25) and not colour else 2, colour)
    kind = pick(rng, ["texture", "texture", "flat", "binary", "constant", "faint", "dark"])
    if undefined(name, kind):
        kind = "flat" if min(shape) > 20 else "texture"
    if kind in ("flat", "constant"):
        ctx.event("flat")
    a = to_type(image(rng, shape, kind), dtype, top)
    if name == "GSM" and len(set(np.asarray(a).ravel().tolist())) < 8:
        return
    if kind != "constant" and chance(rng, 0.12) and not colour and np.ptp(a.astype(float)) > 0:
        top = pick(rng, [1, 255, 65535])
        init["normalize"] = True
        ctx.event("normalized")
    nd = len(shape) - colour
    if kind == "texture" and chance(rng, 0.15) and not init.get("normalize"):
        big = bench.LEAST.get(name, 12) if nd == 2 else max(13, bench.LEAST[name])
        init["roi"] = roi_inside(rng, shape[:nd], big, full=0.3)
        if any(k in kw for k in ("im_slice",)):
            kw["im_slice"] = 0
        ctx.event("regions")
    r = m = a
    route = pick(rng, ["same", "copy", "layout", "imagearray", "tensor", "file", "mixed"])
    if route == "copy":
        m = a.copy()
    elif route == "layout":
        r, m = layout(rng, a), layout(rng, a)
    elif route == "imagearray":
        r, m = viqa.ImageArray(a), viqa.ImageArray(a.copy()) if chance(rng, 0.5) else a
    elif route == "tensor" and dtype not in ("uint16", "uint32"):
        m = torch.tensor(np.ascontiguousarray(a))
        r = m.clone() if chance(rng, 0.5) else a
    elif route in ("file", "mixed"):
        paths = files(ctx, rng, a, colour, route == "mixed")
        if paths is None:
            route = "same"
        else:
            r, m = paths if route == "file" else (paths[0], a) if chance(rng, 0.5) else (a, paths[1])
            ctx.event("from_files")
    with ctx.quiet():
        met = getattr(viqa, name)(data_range=top, **init)
        val = met.score(r, m, **kw)
    if name == "GSM" and np.isnan(val):
        ctx.event("undefined")  # a slice without a rising edge
        return
    is_best(ctx, name, val, kind=kind, route=route, shape=shape, dtype=dtype, top=top, init=init, kw=kw)
    is_best(ctx, name, met.score_val, stored=True, kind=kind, route=route)
    ctx.key(name, kind, route, shape, dtype, sorted(init))
    ctx.sample(metric=name, image=kind, route=route, shape=shape, dtype=dtype, score=float(val))


def files(ctx, rng, a, colour, mixed):
    """The image stored twice, or None where no file format holds it."""
    if a.ndim == 3 and not colour:
        how = {"uint8": "8bit", "uint16": "16bit", "float32": "32fbit", "float64": "64fbit", "uint32": "32bit"}
        if a.dtype.name not in how:
            return None
        ways = [lambda s: write_raw(ctx.scratch, s, a, how[a.dtype.name]), lambda s: write_mhd(ctx.scratch, s, a),
                lambda s: write_nifti(ctx.scratch, s, a)]
        if a.dtype == np.uint32:
            ways = ways[:2]
        if mixed or chance(rng, 0.5):
            return [pick(rng, ways[:2])(f"v{i}") for i in range(2)]
        return [ways[-1](f"v{i}") for i in range(2)]  # NIfTI images are given as floating values
    if a.dtype == np.uint8:
        return [write_raster(ctx.scratch, f"i{i}", a, pick(rng, [".png", ".bmp", ".tiff"])) for i in range(2)]
    if a.dtype.name in ("uint16", "float32", "float64"):
        return [write_raster(ctx.scratch, f"i{i}", a, ".tiff") for i in range(2)]
    return None


def bounds(ctx, rng):
    """No pair scores better than an identical one, whatever it shows."""
    import viqa
    name = choose(rng, [n for n in bench.FR if n != "VIFp"])
    colour = chance(rng, 0.12)
    init, kw, shape, dtype, top = setup(ctx, rng, viqa, name, 3 if chance(rng, 0.2) and not colour else 2, colour)
    kinds = ["texture", "flat", "binary", "faint", "dark"]
    a = image(rng, shape, pick(rng, kinds))
    how = pick(rng, ["distort", "distort", "other", "inverse", "brighter", "sharper", "constant", "one", "near", "near"])
    b = {"distort": lambda: distort(rng, a), "other": lambda: image(rng, shape, pick(rng, kinds)),
         "inverse": lambda: 1 - a, "brighter": lambda: np.clip(a + 0.3, 0, 1),
         "sharper": lambda: np.clip((a - 0.5) * 2 + 0.5, 0, 1), "constant": lambda: image(rng, shape, "constant"),
         "one": lambda: a.copy(), "near": lambda: a.copy()}[how]()
    if how == "one":
        at = tuple(int(rng.integers(n)) for n in shape)
        b[at] = 1 - b[at]
    r, m = to_type(a, dtype, top), to_type(b, dtype, top)
    if how == "near":  # the smallest difference the type can hold, in one, some or all pixels
        at = rng.random(shape) < pick(rng, [0, 0.1, 1])
        at.flat[int(rng.integers(at.size))] = True
        if dtype[0] == "f":
            at &= r > 0.01 * top
            m = np.where(at, np.nextafter(r, np.array(-1, r.dtype)), r)
        else:
            m = np.where(at, np.where(r > 0, r - 1, r + 1), r).astype(r.dtype)
        ctx.event("near")
    if name == "MAD" and dtype == "float16":
        return
    with ctx.quiet():
        val = bench.run(getattr(viqa, name)(data_range=top, **init), r, m, kw)
    info = dict(got=val, how=how, shape=shape, dtype=dtype, top=top, kw=kw)
    if name == "GSM" and not np.isfinite(val):
        ctx.event("undefined")
        return
    ctx.check(not np.isnan(val), f"{name} of an ordinary pair is not a number", **info)
    differ = bool(np.any(r != m))
    if name in ("RMSE", "PSNR"):
        plain = (dtype[0] != "f" or how == "near") and (not colour or init.get("chromatic"))
        if name == "RMSE":
            ctx.check(val >= 0 and (val > 0 or not differ or not plain), "RMSE of a different pair is not positive", **info)
            ctx.check(val <= top * (1 + 1e-5), "RMSE beyond the data range", **info)
        else:
            ctx.check(val < np.inf or not differ or not plain, "PSNR of a different pair is infinite", **info)
            ctx.check(val >= -1e-4, "PSNR below that of the largest possible error", **info)
    elif name == "MAD":
        ctx.check(val >= 0, "MAD below zero", **info)
    else:
        ctx.check(val <= 1 + 1e-3, f"{name} above that of identical images", **info)
        low = {"FSIM": -1e-4, "VSI": -1e-4, "SSIM": -1.001, "UQI": -1.001, "MSSSIM": -1e-4}.get(name)
        if low is not None and not init.get("chromatic"):
            ctx.check(val >= low, f"{name} below its lower limit", **info)
    ctx.event("bounds")
    ctx.key(name, how, shape, dtype)


def order(ctx, rng):
    import viqa
    name = choose(rng, LIKE)
    colour = chance(rng, 0.15)
    init, kw, shape, dtype, top = setup(ctx, rng, viqa, name, 3 if chance(rng, 0.2) and not colour else 2, colour)
    a = image(rng, shape, pick(rng, ["texture", "texture", "dark", "faint"]))
    r, m = to_type(a, dtype, top), to_type(distort(rng, a), dtype, top)
    with ctx.quiet():
        met = getattr(viqa, name)(data_range=top, **init)
        one = bench.run(met, r, m, kw)
        two = bench.run(met if chance(rng, 0.5) else getattr(viqa, name)(data_range=top, **init), m, r, kw)
    ctx.check(bench.eq(one, two, 1e-5), f"{name} depends on the order of the images", one=one, two=two, shape=shape,
              dtype=dtype, kw=kw, init=init)
    ctx.event("orders")
    ctx.key(name, shape, dtype)


def strength(ctx, rng):
    import viqa
    name = choose(rng, [n for n in bench.FR if n != "MAD"])
    init, kw, shape, _, _ = setup(ctx, rng, viqa, name, 3 if chance(rng, 0.15) else 2)
    dtype = pick(rng, ["float64", "float32", "uint16"])
    top = FULL.get(dtype) or pick(rng, [1, 255])
    a = 0.2 + 0.6 * texture(rng, shape)
    noise = 0.06 * rng.standard_normal(shape)
    strong = rng.uniform(0.15, 0.8)
    imgs = [to_type(np.clip(a + f * noise, 0, 1), dtype, top) for f in (0, strong / 6, strong)]
    with ctx.quiet():
        met = getattr(viqa, name)(data_range=top, **init)
        same, faint, clear = [bench.run(met, imgs[0], i, kw) for i in imgs]
    sign = -1 if name == "RMSE" else 1
    last = sign * faint > sign * clear
    if name == "GSM":  # divides by gradients that may be small, so it orders noisy images only roughly
        last = sign * same > sign * clear
    ctx.check(sign * same > sign * faint and last, f"{name} does not get worse with more noise", same=same,
              faint=faint, strong=clear, strength=strong, shape=shape, dtype=dtype, kw=kw)
    ctx.event("strengths")
    ctx.key(name, shape, dtype)
    ctx.sample(metric=name, same=same, faint=faint, strong=clear)


def together(ctx, rng):
    """Identical images in lists and batches."""
    import viqa
    names = [n for n in bench.FR if n != "MSSSIM"]
    names = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 6))]]
    shape = bench.shape_for(rng, names)
    dtype = pick(rng, ["uint8", "uint8", "float64", "float32"])
    a = to_type(image(rng, shape, pick(rng, ["texture", "faint", "dark"])), dtype, 255)
    mets = [getattr(viqa, n)(data_range=255) for n in names]
    kws = [bench.params(rng, n, shape) for n in names]
    with ctx.quiet():
        if dtype != "uint8" or chance(rng, 0.5):
            res = viqa.MultipleMetrics(mets, kws).calculate(layout(rng, a), layout(rng, a))
            rows = [res]
            ctx.event("lists")
        else:
            os.makedirs(os.path.join(ctx.scratch, "b"))
            ext = [pick(rng, [".png", ".bmp", ".tiff"]) for _ in range(3)]
            for i, e in enumerate(ext):
                write_raster(os.path.join(ctx.scratch, "b"), f"i{i}", a, e)
            csv_ = os.path.join(ctx.scratch, "pairs.csv")
            with open(csv_, "w", newline="") as f:
                w = csv.writer(f)
                w.writerow(["reference_image", "modified_image"])
                for _ in range(3):
                    w.writerow([f"i{i}{ext[i]}" for i in rng.integers(0, 3, 2)])
            rows = list(viqa.BatchMetrics(os.path.join(ctx.scratch, "b"), csv_, mets, kws).calculate().values())
            ctx.check(len(rows) == 3, "not one result for each row", rows=len(rows))
            ctx.event("batches")
    for row in rows:
        for n in names:
            if n == "GSM" and np.isnan(row[n]):
                continue
            is_best(ctx, n, row[n], together=names, shape=shape)
    ctx.key(tuple(names), shape)


SCALE = 2
KINDS = [("best", best, 700, 6), ("bounds", bounds, 500, 6), ("order", order, 300, 6), ("strength", strength, 180, 6),
         ("together", together, 120, 5)]
