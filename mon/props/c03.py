"""C03: one image gives one result in every accepted input form."""
import os
import pathlib

import numpy as np

from gen import (BITS, LAYOUTS, MET, chance, distort, layout, pick, texture, to_type, write_mhd,
                 write_nifti, write_raster, write_raw)

RULE = ("one random image (2D, RGB, 3D, any type) offered as arrays in six memory layouts, image "
        "array, tensor, and as string or path object naming raw, MHD, NIfTI and raster files; loaded "
        "values compared with the original, and every metric's score compared over all forms; "
        "distinct by image kind, type, shape and metric")
ASSUME = ["scores may differ in the last digits (1e-5 relative) with the memory layout, because "
          "sums are taken in another order"]
NEED = {"forms_loaded": 3000, "scores": 1500, "metrics:12": 1}


def forms(ctx, rng, img, exact_type=True):
    """(label, input) for every form this image can take."""
    import torch
    import viqa
    out = [(f"array-{k}", layout(rng, img, k)) for k in LAYOUTS]
    out.append(("image", viqa.ImageArray(img)))
    out.append(("image-F", viqa.ImageArray(layout(rng, img, "F"))))
    if img.dtype.name in ("uint8", "int16", "int32", "float32", "float64", "int8", "float16"):
        out.append(("tensor", torch.tensor(img)))
        out.append(("tensor-view", torch.tensor(np.ascontiguousarray(np.moveaxis(img, 0, -1))).movedim(-1, 0)))
    paths = []
    stem = pick(rng, ["img", "a b", "scan.1"])
    if img.ndim == 3 and img.dtype.name in BITS:
        paths.append(("raw", write_raw(ctx.scratch, stem, img, pick(rng, BITS[img.dtype.name]))))
    if img.ndim == 3 and img.dtype.name in MET:
        paths.append(("mhd", write_mhd(ctx.scratch, stem, img)))
    if img.ndim == 3 and img.dtype.name == "float64":
        paths.append(("nii", write_nifti(ctx.scratch, stem, img)))
        paths.append(("nii.gz", write_nifti(ctx.scratch, stem, img, True)))
    if img.dtype == np.uint8 and (img.ndim == 2 or img.shape[-1] == 3):
        for ext in (".png", ".bmp", ".tiff"):
            paths.append((ext, write_raster(ctx.scratch, stem, img, ext)))
    if img.dtype == np.uint16 and img.ndim == 2:
        paths.append((".png", write_raster(ctx.scratch, stem, img, ".png")))
        paths.append((".tiff", write_raster(ctx.scratch, stem, img, ".tiff")))
    for label, p in paths:
        out.append((label + "-str", p))
        out.append((label + "-path", pathlib.Path(p)))
    return out


def values(rng, shape, dtype):
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        i = np.iinfo(dt)
        return rng.integers(i.min, i.max, shape, dtype=dt, endpoint=True)
    return ((rng.random(shape) - 0.3) * pick(rng, [1, 1000])).astype(dt)


def load(ctx, rng):
    import viqa
    kind = pick(rng, ["grey", "rgb", "vol", "vol"])
    s = [int(v) for v in rng.integers(1, 12, 3)]
    shape = {"grey": tuple(s[:2]), "rgb": tuple(s[:2]) + (3,), "vol": tuple(s)}[kind]
    dtype = pick(rng, ["uint8", "uint16", "uint32", "int16", "int32", "float16", "float32", "float64"])
    img = values(rng, shape, dtype)
    for label, form in forms(ctx, rng, img):
        if label[0] == "." and min(shape[:2]) < 2:
            continue  # one-pixel-wide raster files are not told apart by the file readers
        got = viqa.load_data(form)
        ctx.same(got, img, f"{dtype} {shape} loaded from {label}")
        ctx.check(isinstance(got, viqa.ImageArray), f"{label}: not an ImageArray")
        ctx.event("forms_loaded")
        ctx.event("form:" + label.split("-")[0])
    if img.ndim == 3 and img.dtype.name in ("uint8", "int16", "uint16", "int32", "float32"):
        for gz in (False, True):
            got = viqa.load_data(write_nifti(ctx.scratch, "n", img, gz))
            ctx.check(got.shape == img.shape and np.array_equal(np.asarray(got), img.astype(np.float64)),
                      f"NIfTI file of {dtype} {shape} loads other values")
            ctx.event("forms_loaded")
            ctx.event("form:nii")
    ctx.key(kind, dtype, shape)
    ctx.sample(kind=kind, type=dtype, shape=shape)


METRICS = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MSSSIM", "MAD", "CNR", "SNR"]


def score(ctx, rng):
    import viqa
    name = METRICS[ctx.idx % len(METRICS)]
    three = chance(rng, 0.5)
    big = {"MSSSIM": 164, "VIFp": 48, "MAD": 54, "FSIM": 28, "VSI": 28}.get(name, 16)
    shape = tuple(int(v) for v in rng.integers(big, big + 10, 2))
    if three:
        shape += (pick(rng, [12, 13, 14]) if name in ("SSIM", "UQI") else pick(rng, [6, 7, 9]),)
    rgb = not three and name not in ("CNR",) and chance(rng, 0.3)
    dtype = pick(rng, ["uint8", "uint16", "float32", "float64"]) if not rgb else "uint8"
    top = 65535 if dtype == "uint16" else 255
    a = texture(rng, shape + ((3,) if rgb else ()))
    b = distort(rng, a, pick(rng, ["noise", "mix", "blur"]))
    r, m = to_type(a, dtype, top), to_type(b, dtype, top)
    kw = {}
    if three and name in ("GSM", "FSIM", "VSI", "VIFp", "MSSSIM", "MAD"):
        kw = {"dim": 2, "im_slice": int(rng.integers(shape[2]))}
        if name in ("FSIM", "VSI", "VIFp", "GSM") and chance(rng, 0.3):
            del kw["im_slice"]
    if name == "CNR":
        kw = {"signal_center": (5,) * len(shape) if not three else (6, 5, 3),
              "background_center": tuple(n - 4 for n in shape) if not three else (4, 8, 3), "radius": 3}
    if name == "SNR":
        kw = {"signal_center": (5, 6) if not three else (6, 5, 3), "radius": 3,
              "region_type": pick(rng, ["cubic", "spherical", "full"])}
    fr = name not in ("CNR", "SNR")

    def run(x, y):
        met = getattr(viqa, name)(data_range=top)
        val = met.score(x, y, **kw) if fr else met.score(x, **kw)
        return np.asarray(val, np.float64)

    fa = forms(ctx, rng, r)
    ref_dir = ctx.scratch
    ctx.scratch = os.path.join(ref_dir, "m")
    os.makedirs(ctx.scratch)
    fb = forms(ctx, rng, m)
    ctx.scratch = ref_dir
    want = run(r, m)
    ctx.check(np.isfinite(want).all(), f"{name} of a textured pair is not finite", got=want)
    tol = 2e-4 if name in ("FSIM", "VSI", "VIFp", "MSSSIM") else 1e-5
    order = rng.permutation(len(fa))[:6 if name not in ("MAD", "MSSSIM") else 4]
    pool = [i for i in range(len(fa)) if not fa[i][0].startswith(("array", "image"))]
    sel = set(order) | set(pool[int(rng.integers(len(pool)))] for _ in range(3) if pool)
    for i in sorted(sel):
        la, xa = fa[i]
        lb, xb = fb[int(rng.integers(len(fb)))] if chance(rng, 0.5) else fb[i]
        got = run(xa, xb)
        ctx.close(got, want, f"{name} of ({la}, {lb}), {dtype} {r.shape}, {kw}", rtol=tol,
                  atol=5e-5 if name in ("CNR", "SNR") else 1e-7)
        ctx.event("scores")
        ctx.event("form:" + la.split("-")[0])
    ctx.event("score:" + name)
    ctx.key(name, dtype, r.shape)
    ctx.sample(metric=name, type=dtype, shape=r.shape, forms=[fa[i][0] for i in sorted(sel)],
               score=want.ravel()[0])


SCALE = 2
KINDS = [("load", load, 400, 10), ("score", score, 360, 10)]
NEED = {"forms_loaded": 3000, "scores": 1500, **{"score:" + n: 10 for n in METRICS}}
