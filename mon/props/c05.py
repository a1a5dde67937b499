"""C05: cropping and regions of interest."""
import os

import numpy as np

from gen import chance, layout, pick, roi_inside, to_type, texture, distort, write_raw, write_raster

RULE = ("random grey, RGB and 3D images cropped to random ranges inside them (single pixels, whole "
        "axes, borders) and compared with the indexed block; loading, every metric, multi-metric and "
        "batch evaluation with a region compared with evaluating pre-cropped images; distinct by "
        "kind, shape and ranges")
NEED = {"crops": 500, "roi_load": 300, "roi_metric": 100, "roi_normalized": 200, "roi_multi": 20, "roi_batch": 20,
        "refusals": 100}


def any_image(rng, lo=2, hi=14):
    kind = pick(rng, ["grey", "rgb", "vol"])
    if kind == "grey":
        shape = tuple(int(v) for v in rng.integers(lo, hi, 2))
    elif kind == "rgb":
        shape = tuple(int(v) for v in rng.integers(lo, hi, 2)) + (3,)
    else:
        shape = tuple(int(v) for v in rng.integers(lo, hi, 2)) + (int(rng.integers(4, max(hi, 6))),)
    dtype = pick(rng, ["uint8", "uint16", "int16", "float32", "float64"])
    return kind, rng.integers(0, 250, shape).astype(dtype)


def block(img, roi):
    if img.ndim == 3 and img.shape[-1] != 3:
        (a, b), (c, d), (e, f) = roi
        return np.asarray(img)[a:b, c:d, e:f]
    (a, b), (c, d) = roi[:2]
    return np.asarray(img)[a:b, c:d]


def crop(ctx, rng):
    import viqa
    kind, img = any_image(rng)
    nd = 3 if kind == "vol" else 2
    roi = roi_inside(rng, img.shape[:nd])
    arg = layout(rng, img)
    if chance(rng, 0.4):
        arg = viqa.ImageArray(arg)
    got = viqa.crop_image(arg, *roi)
    ctx.same(got, block(img, roi), f"crop of {kind} image {img.shape} to {roi}")
    ctx.event("crops")
    if chance(rng, 0.5):
        got = viqa.load_data(arg, roi=roi)
        ctx.same(got, block(img, roi), f"load of {kind} image {img.shape} with roi {roi}")
        ctx.check(isinstance(got, viqa.ImageArray), "load_data with roi does not return an ImageArray")
        ctx.event("roi_load")
    if chance(rng, 0.3) and img.min() != img.max():
        dr = pick(rng, [1, 255, 65535])
        whole = viqa.normalize_data(img.copy(), (0, dr))
        got = viqa.load_data(arg, normalize=True, data_range=dr, roi=roi)
        ctx.same(got, block(whole, roi), f"load of {kind} image {img.shape} normalized to {dr} with roi {roi}")
        ctx.event("roi_normalized")
    if nd == 2 and chance(rng, 0.3):
        got = viqa.crop_image(arg, *roi, (0, 2))
        ctx.same(got, block(img, roi), "crop of a 2D image with an additional z range")
    if nd == 3 and chance(rng, 0.3):
        got = viqa.crop_image(arg, x=roi[0], y=roi[1], z=roi[2])
        ctx.same(got, block(img, roi), "crop with keywords")
    if chance(rng, 0.3):  # from a file
        if kind == "vol" and img.dtype.name in ("uint8", "uint16", "float32", "float64"):
            tok = {"uint8": "8bit", "uint16": "16bit", "float32": "32fbit", "float64": "64fbit"}
            path = write_raw(ctx.scratch, "v", img, tok[img.dtype.name])
        elif kind != "vol" and img.dtype == np.uint8:
            path = write_raster(ctx.scratch, "i", img, ".png")
        else:
            path = None
        if path:
            ctx.same(viqa.load_data(path, roi=roi), block(img, roi), f"{path} with roi {roi}")
            ctx.event("roi_load")
            ctx.event("roi_file")
    ctx.key(kind, img.shape, tuple(roi))
    ctx.sample(kind=kind, shape=img.shape, roi=roi)


def oversize(ctx, rng):
    import viqa
    kind, img = any_image(rng)
    nd = 3 if kind == "vol" else 2
    roi = roi_inside(rng, img.shape[:nd])
    k = int(rng.integers(nd))
    extra = int(rng.integers(1, 5))
    roi[k] = (0, img.shape[k] + extra)
    ctx.refused(lambda: viqa.crop_image(img, *roi), ValueError,
                f"block larger than the {kind} image {img.shape}", roi=roi)
    ctx.refused(lambda: viqa.load_data(img, roi=roi), ValueError, "load with too large roi", roi=roi)
    m = viqa.RMSE(roi=roi)
    ctx.refused(lambda: m.score(img, img), ValueError, "metric with too large roi", roi=roi)
    ctx.key(kind, img.shape, k, extra)


def make(name, viqa, **kw):
    return getattr(viqa, name)(data_range=255, **kw)


def metric_call(name, shape, rng):
    """Scoring parameters for a metric on an image of this shape."""
    if name in ("FSIM", "VSI", "VIFp", "MSSSIM", "GSM", "MAD") and len(shape) == 3 and shape[-1] != 3:
        return {"dim": 2, "im_slice": int(rng.integers(shape[2]))}
    if name == "CNR":
        c = tuple(int(n) // 2 for n in shape)
        return {"signal_center": c, "background_center": tuple(v - 1 for v in c), "radius": 2}
    if name == "SNR":
        return {"signal_center": tuple(int(n) // 2 for n in shape), "radius": 2}
    return {}


def score(ctx, rng):
    import viqa
    name = pick(rng, ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MAD", "CNR", "SNR"])
    three = chance(rng, 0.4) and name not in ("MAD",)
    rgb = not three and chance(rng, 0.25) and name not in ("CNR", "SNR")
    big = {"VIFp": 48, "FSIM": 24, "VSI": 24, "MAD": 56}.get(name, 14)
    least = {"VIFp": 44, "FSIM": 20, "VSI": 20, "MAD": 50}.get(name, 12)
    shape = tuple(int(v) for v in rng.integers(big, big + 14, 2))
    if three:
        shape += (int(rng.integers(12, 18)),)
    a = texture(rng, shape + ((3,) if rgb else ()))
    r = to_type(a, "uint8", 255)
    m = to_type(distort(rng, a), "uint8", 255)
    roi = roi_inside(rng, shape, least)
    br, bm = block(r, roi), block(m, roi)
    kw = metric_call(name, br.shape, rng)
    fr = name not in ("CNR", "SNR")
    norm = name != "MAD" and not rgb and chance(rng, 0.25)
    with_roi = make(name, viqa, roi=roi, **({"normalize": True} if norm else {}))
    if norm:  # the normalization is of the whole image
        br, bm = (block(viqa.normalize_data(v.astype(np.int32), (0, 255)), roi) for v in (r, m))
        r, m = r.astype(np.int32), m.astype(np.int32)
        ctx.event("roi_normalized")
    alone = make(name, viqa)
    got = with_roi.score(r, m, **kw) if fr else with_roi.score(r, **kw)
    want = alone.score(np.ascontiguousarray(br), np.ascontiguousarray(bm), **kw) if fr else \
        alone.score(np.ascontiguousarray(br), **kw)
    ctx.close(float(got), float(want), f"{name} with roi {roi} on {r.shape}", rtol=1e-5, atol=1e-7)
    ctx.event("roi_metric")
    ctx.event("roi_metric:" + name)
    ctx.key(name, r.shape, tuple(roi))
    ctx.sample(metric=name, shape=r.shape, roi=roi, score=float(got))


def metric_set(viqa, nd):
    ms = [viqa.RMSE(), viqa.PSNR(), viqa.SSIM(), viqa.CNR(), viqa.SNR()]
    c = (6,) * nd
    ps = [{}, {}, {}, {"signal_center": c, "background_center": (5,) * nd, "radius": 3},
          {"signal_center": c, "radius": 4}]
    return ms, ps


def multi(ctx, rng):
    import viqa
    nd = pick(rng, [2, 3])
    shape = tuple(int(v) for v in rng.integers(13, 22, nd))
    a = texture(rng, shape)
    r, m = to_type(a, "uint8", 255), to_type(distort(rng, a), "uint8", 255)
    roi = roi_inside(rng, shape, 12)
    ms, ps = metric_set(viqa, nd)
    got = dict(viqa.MultipleMetrics(ms, ps).calculate(r, m, roi=roi))
    ms, ps = metric_set(viqa, nd)
    want = viqa.MultipleMetrics(ms, ps).calculate(block(r, roi), block(m, roi))
    ctx.check(list(got) == list(want), "names", got=list(got), want=list(want))
    for k in want:
        ctx.close(got[k], want[k], f"{k} of multi-metric evaluation with roi {roi}", rtol=1e-6)
    ctx.event("roi_multi")
    ctx.key(shape, tuple(roi))


def batch(ctx, rng):
    import viqa
    nd = pick(rng, [2, 3])
    files = []
    for i in range(3):
        a = texture(rng, (16, 18) if nd == 2 else (15, 16, 14))
        img = to_type(a, "uint8", 255)
        files.append((write_raster(ctx.scratch, f"i{i}", img, ".png") if nd == 2 else
                      write_raw(ctx.scratch, f"i{i}", img, "8bit"), img))
    rows = [(int(rng.integers(3)), int(rng.integers(3))) for _ in range(int(rng.integers(2, 5)))]
    csv = os.path.join(ctx.scratch, "p.csv")
    with open(csv, "w") as f:
        f.write("reference_image,modified_image\n")
        for i, j in rows:
            f.write(f"{os.path.basename(files[i][0])},{os.path.basename(files[j][0])}\n")
    shape = files[0][1].shape
    per_row = chance(rng, 0.6)
    pool = [roi_inside(rng, shape, 12) for _ in range(2)]
    rois = [pick(rng, pool) for _ in rows]
    ms, ps = metric_set(viqa, nd)
    b = viqa.BatchMetrics(ctx.scratch, csv, ms, ps, rois=rois if per_row else None)
    res = b.calculate() if per_row else b.calculate(roi=rois[0])
    if not per_row:
        rois = [rois[0]] * len(rows)
    for n, (i, j) in enumerate(rows):
        ms, ps = metric_set(viqa, nd)
        want = viqa.MultipleMetrics(ms, ps).calculate(block(files[i][1], rois[n]),
                                                      block(files[j][1], rois[n]))
        got = res[str(n)]
        ctx.check(set(got) == set(want), "names", got=list(got), want=list(want))
        for k in want:
            ctx.close(got[k], want[k], f"{k} of batch row {n} with roi {rois[n]}", rtol=1e-6)
    ctx.event("roi_batch")
    ctx.key(nd, tuple(rows), repr(rois))
    ctx.sample(rows=rows, rois=rois)


SCALE = 3
KINDS = [("crop", crop, 1600, 12), ("oversize", oversize, 300, 6), ("score", score, 300, 10),
         ("multi", multi, 60, 10), ("batch", batch, 64, 10)]
