"""C06: nothing that was passed in is modified."""
import copy
import csv
import hashlib
import os

import numpy as np

import bench
from gen import (chance, layout, pick, roi_inside, texture, to_type, write_mhd, write_nifti, write_raster,
                 write_raw)

RULE = ("every public operation (loading, normalizing, cropping, each metric, multi-metric and batch "
        "evaluation, statistics, region finding, filters, native statistics, fusion, drawing, "
        "exporting) with random optional parameters, also refused calls and chains of several "
        "operations on the same inputs; the complete memory behind every array and tensor, every "
        "nested parameter and every file is hashed before and after; distinct by operation, type, "
        "layout and parameters")
ASSUME = ["a metric object's own parameter store is not an input"]
NEED = {"arrays_watched": 1500, "params_watched": 500, "files_watched": 60, "op:load": 40,
        "op:score": 300, "op:locked": 150, "invalid_pixels": 60, "op:multi": 40, "op:batch": 12, "op:normalize": 40, "op:figure": 24,
        "op:export": 30, "op:regions": 30, "op:filters": 30, "op:stats": 30, "refused_calls": 60}
TYPES = ["uint8", "uint16", "float32", "float64"]


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Watch:
    """Snapshot of everything reachable from the inputs."""

    def __init__(self, ctx, **things):
        self.ctx, self.things = ctx, things
        self.before = {k: self.snap(v) for k, v in things.items()}
        for v in things.values():
            self.count(v)

    def count(self, v):
        import torch
        if isinstance(v, (np.ndarray, torch.Tensor)):
            self.ctx.event("arrays_watched")
        elif isinstance(v, (dict, list, tuple)):
            self.ctx.event("params_watched")
            for x in (v.values() if isinstance(v, dict) else v):
                self.count(x)
        elif isinstance(v, (str, os.PathLike)) and os.path.isfile(v):
            self.ctx.event("files_watched")

    def snap(self, v):
        import torch
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                return ("object", [self.snap(x) for x in v.ravel()])
            b = root(v)
            return ("array", v.shape, v.strides, v.dtype.str, v.flags.writeable,
                    hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest(),
                    b.shape, hashlib.sha1(b.tobytes("A")).hexdigest())
        if isinstance(v, torch.Tensor):
            return ("tensor", tuple(v.shape), v.stride(), str(v.dtype), v.requires_grad,
                    hashlib.sha1(v.detach().contiguous().numpy().tobytes()).hexdigest())
        if isinstance(v, dict):
            return ("dict", [(k, id(x), self.snap(x)) for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [(id(x), self.snap(x)) for x in v])
        if isinstance(v, (str, os.PathLike)) and os.path.isfile(v):
            return ("file", hashlib.sha1(open(v, "rb").read()).hexdigest())
        if type(v).__module__.startswith("viqa"):
            return ("object", type(v).__name__)
        return ("value", repr(v))

    def verify(self, op):
        for k, v in self.things.items():
            now = self.snap(v)
            if now != self.before[k]:
                self.ctx.fail(f"{op} modified its input {k!r}", before=self.before[k], after=now)
            self.ctx.event("assertions")


def container(rng, arr):
    """The array in a random container."""
    import torch
    import viqa
    a = layout(rng, arr)
    kind = pick(rng, ["array", "array", "array", "image", "tensor"])
    if kind == "image":
        return viqa.ImageArray(a)
    if kind == "tensor" and arr.dtype.name in ("uint8", "float32", "float64"):
        return torch.tensor(np.ascontiguousarray(arr))
    return a


def on_disk(ctx, rng, arr, stem):
    if arr.ndim == 2:
        return write_raster(ctx.scratch, stem, arr, pick(rng, [".png", ".tiff"]) if
                            arr.dtype.name == "uint8" else ".tiff")
    if arr.shape[-1] == 3:
        return write_raster(ctx.scratch, stem, arr, ".png")
    how = pick(rng, ["raw", "mhd", "nii"])
    if how == "raw":
        return write_raw(ctx.scratch, stem, arr, {"uint8": "8bit", "uint16": "16bit",
                                                  "float32": "32fbit", "float64": "64fbit"}[arr.dtype.name])
    if how == "mhd":
        return write_mhd(ctx.scratch, stem, arr)
    return write_nifti(ctx.scratch, stem, arr)


def picture(rng, colour=0.2, nd=None, dtype=None, least=12):
    nd = nd or pick(rng, [2, 2, 3])
    shape = tuple(int(v) for v in rng.integers(least, least + 10, nd))
    if nd == 2 and chance(rng, colour):
        shape += (3,)
    dtype = dtype or pick(rng, TYPES)
    top = {"uint8": 255, "uint16": 65535}.get(dtype, pick(rng, [1.0, 255.0]))
    return to_type(texture(rng, shape), dtype, top)


def load(ctx, rng):
    from viqa import load_data
    from viqa.utils import crop_image
    arr = picture(rng)
    img = container(rng, arr) if chance(rng, 0.6) else on_disk(ctx, rng, arr, "a") \
        if arr.ndim == 2 and arr.dtype.name == "uint8" or (arr.ndim == 3 and (
            arr.shape[-1] != 3 or arr.dtype.name == "uint8")) else container(rng, arr)
    if isinstance(img, str) and img.endswith(".nii"):
        pass
    roi = [list(p) if chance(rng, 0.5) else p for p in roi_inside(rng, arr.shape[:2] if arr.shape[-1] == 3
                                                                  else arr.shape)]
    kw = {}
    if chance(rng, 0.5):
        kw.update(data_range=pick(rng, [1, 255, 65535]), normalize=True)
    if chance(rng, 0.5):
        kw["roi"] = roi
    w = Watch(ctx, img=img, roi=roi, kw=kw)
    out = load_data(img, **kw)
    w.verify(f"load_data {kw}")
    if isinstance(img, np.ndarray):
        crop_image(img, *roi)
        w.verify("crop_image")
        out = load_data(img, **kw)
        out.calculate_statistics()
        w.verify("load_data + calculate_statistics")
    ctx.event("op:load")
    ctx.key(arr.dtype.str, arr.shape, repr(kw), type(img).__name__)


def normalize(ctx, rng):
    from viqa import normalize_data
    arr = container(rng, picture(rng))
    if not isinstance(arr, np.ndarray):
        arr = arr.numpy()
    rng_out = pick(rng, [(0, 1), (0, 255), (0, 65535), (0, 7)])
    kw = {}
    if chance(rng, 0.4):
        kw = dict(data_range_input=[0, 300], automatic_data_range=False)
    w = Watch(ctx, img=arr, kw=kw)
    try:
        normalize_data(arr, rng_out, **kw)
    except ValueError:
        ctx.event("refused_calls")
    w.verify(f"normalize_data {arr.dtype} {rng_out} {kw}")
    ctx.event("op:normalize")
    ctx.key(arr.dtype.str, rng_out, repr(kw), arr.shape)


def vector(rng, values):
    """Weights as a list, a tuple or an array."""
    kind = pick(rng, ["list", "tuple", "array", "array", "single"])
    if kind == "list":
        return list(values)
    if kind == "tuple":
        return tuple(values)
    return np.array(values, dtype=np.float64 if kind == "array" else np.float32)


def locked(ctx, rng):
    """Images that cannot be written to are scored, drawn and cleaned all the same."""
    import viqa
    from viqa.fr_metrics.stat_utils import statisticscalc as sc
    from viqa.utils import correlate_convolve_abs, find_largest_region, gabor_convolve
    name = pick(rng, bench.CHEAP)
    nd = 3 if name in ("RMSE", "PSNR", "SSIM", "CNR", "SNR") and chance(rng, 0.3) else 2
    shape = bench.shape_for(rng, [name], nd)
    colour = nd == 2 and name not in ("CNR", "MAD", "UQI", "GSM") and chance(rng, 0.25)
    dtype = pick(rng, TYPES)
    full = shape + (3,) if colour else shape
    r, m, top = bench.images(rng, full, dtype)
    kw = bench.params(rng, name, shape)
    init = {"chromatic": True} if colour and name != "SSIM" and chance(rng, 0.5) else {}
    want = bench.run(bench.make(viqa, name, top, **init), r.copy(), m.copy(), kw)
    lr, lm = layout(rng, r), layout(rng, m)
    if chance(rng, 0.3):
        lr, lm = viqa.ImageArray(lr), viqa.ImageArray(lm)
    for v in (lr, lm):
        while isinstance(v, np.ndarray):
            v.flags.writeable = False
            v = v.base
    try:
        got = bench.run(bench.make(viqa, name, top, **init), lr, lm, kw)
    except Exception as e:
        ctx.fail(f"{name} writes to its images (they are read-only)", raised=repr(e), type=dtype, kw=kw)
    ctx.check(bench.eq(got, want, 1e-4), f"{name} scores read-only images differently", got=got, want=want)
    try:
        what = "load_data"
        viqa.load_data(lr, normalize=True, data_range=255)
        what = "calculate_statistics"
        viqa.ImageArray(lr).calculate_statistics()
        if nd == 2 and not colour:
            what = "gabor_convolve"
            gabor_convolve(lr, 2, 2)
            what = "correlate_convolve_abs"
            correlate_convolve_abs(lr, np.ones((3, 3)))
            what = "native statistics"
            sc.getstatistics(lr, 4, 2)
            sc.minstd(lr, 4, 2)
            what = "find_largest_region"
            b = np.asarray(r) > np.percentile(r, 40)
            b.flags.writeable = False
            find_largest_region(b, iterations=1, region_type=pick(rng, ["cubic", "full", "original"]))
    except Exception as e:
        ctx.fail(f"{what} writes to its image (it is read-only)", raised=repr(e), type=dtype)
    ctx.event("op:locked")
    ctx.key(name, dtype, full, repr(kw), lr.strides)


def score(ctx, rng):
    import torch
    import viqa
    name = pick(rng, bench.CHEAP if ctx.idx % 12 else ["MSSSIM"])
    nd = 3 if name in ("RMSE", "PSNR", "SSIM", "CNR", "SNR") and chance(rng, 0.3) else 2
    shape = bench.shape_for(rng, [name], nd)
    colour = nd == 2 and name not in ("CNR", "MAD", "UQI", "GSM") and chance(rng, 0.25)
    dtype = pick(rng, TYPES)
    full = shape + (3,) if colour else shape
    r, m, top = bench.images(rng, full, dtype)
    kw = bench.params(rng, name, shape)
    init = {}
    if colour and chance(rng, 0.6):
        init["chromatic"] = True
        if name == "SSIM":
            kw["color_weights"] = vector(rng, [0.2, 0.5, 0.3])
    if "weights" in kw:
        kw["weights"] = vector(rng, kw["weights"])
    if "scale_weights" in kw:
        kw["scale_weights"] = pick(rng, [list, torch.tensor])(kw["scale_weights"])
    if dtype[0] == "f" and chance(rng, 0.2):  # a few invalid pixels
        for v in (r, m):
            v.flat[int(rng.integers(v.size))] = pick(rng, [np.nan, np.inf, -1.0])
            v.flat[int(rng.integers(v.size))] = np.nan
        ctx.event("invalid_pixels")
    if chance(rng, 0.2) and name not in ("MAD",):
        init["normalize"] = True
        top = pick(rng, [1, 255])
    elif chance(rng, 0.2) and nd == 2 and name in ("RMSE", "PSNR") and not colour:
        init["roi"] = roi_inside(rng, shape)
    img_r, img_m = container(rng, r), container(rng, m)
    if chance(rng, 0.15) and dtype == "uint8" and nd == 2:
        img_r, img_m = on_disk(ctx, rng, r, "r"), on_disk(ctx, rng, m, "m")
    if chance(rng, 0.15):
        img_m = img_r  # the very same object
    w = Watch(ctx, img_r=img_r, img_m=img_m, kw=kw, init=init)
    met = bench.make(viqa, name, top, **init)
    w.verify(f"{name} constructor {init}")
    for _ in range(2):
        try:
            bench.run(met, img_r, img_m, kw)
        except (ValueError, TypeError, AssertionError):
            ctx.event("refused_calls")
        w.verify(f"{name}.score {dtype} {full} {kw} {init}")
    with ctx.quiet():
        met.print_score()
    ctx.event("op:score")
    ctx.event("score:" + name)
    ctx.key(name, dtype, full, repr(kw), repr(init), type(img_r).__name__)
    ctx.sample(metric=name, type=dtype, shape=full, settings=repr(kw))


def refused(ctx, rng):
    """Calls that fail half-way must not have changed anything either."""
    import viqa
    name = pick(rng, bench.CHEAP)
    shape = bench.shape_for(rng, [name])
    r, m, top = bench.images(rng, shape, pick(rng, TYPES))
    how = pick(rng, ["shape", "type", "params", "dims"])
    kw = bench.params(rng, name, shape)
    if how == "shape":
        m = m[:-1]
    elif how == "type":
        m = m.astype(np.int64)
    elif how == "params":
        kw["block_size"] = 10**6
        kw["win_size"] = 4
        kw["radius"] = -1
        kw["weights"] = [1.0, 2.0]
    else:
        r = r[None, None]
    img_r, img_m = layout(rng, r), layout(rng, m)
    w = Watch(ctx, img_r=img_r, img_m=img_m, kw=kw)
    try:
        bench.run(bench.make(viqa, name, top), img_r, img_m, kw)
    except Exception:
        ctx.event("refused_calls")
    w.verify(f"{name}.score ({how})")
    ctx.key(name, how, shape)


def multi(ctx, rng):
    import viqa
    names = list(rng.choice(bench.CHEAP, int(rng.integers(2, 6)), replace=False))
    shape = bench.shape_for(rng, names)
    r, m, top = bench.images(rng, shape, pick(rng, ["uint8", "uint16"]))
    if chance(rng, 0.4):
        m = np.ascontiguousarray(m[: shape[0] - 3, :])
    plist = [bench.params(rng, n, shape) for n in names]
    metrics = [bench.make(viqa, n, top) for n in names]
    for name, metric, kw in zip(names, metrics, plist):
        if name in bench.NR and chance(rng, 0.4):  # the regions are already stored in the metric
            metric.score(r, **kw)
            for k in ("signal_center", "background_center", "radius"):
                kw.pop(k, None)
    img_r, img_m = container(rng, r), container(rng, m)
    kw = {}
    if chance(rng, 0.3):
        kw["roi"] = [(0, n) for n in shape]
    w = Watch(ctx, img_r=img_r, img_m=img_m, params=plist, metrics=metrics, kw=kw)
    mm = viqa.MultipleMetrics(metrics, plist)
    res = mm.calculate(img_r, img_m, **kw)
    w.verify(f"MultipleMetrics.calculate {names}")
    w2 = Watch(ctx, results=res)
    with ctx.quiet():
        mm.report(file_path=ctx.scratch, image=chance(rng, 0.2), export_image=True, img_r=img_r,
                  img_m=img_m, dpi=40)
    w.verify(f"MultipleMetrics.report {names}")
    w2.verify("MultipleMetrics.report")
    mm.calculate(img_r, img_m, **kw)
    w2.verify("a second calculation (earlier results)")
    w.verify(f"MultipleMetrics.calculate twice {names}")
    weights = [float(v) for v in rng.random(len(names))]
    fr = [x for x in metrics if isinstance(x.score_val, float)]
    w3 = Watch(ctx, weights=weights[:len(fr)], scores=[x.score_val for x in fr])
    viqa.fuse_metrics_linear_combination(fr, weights[:len(fr)])
    w3.verify("fusion")
    ctx.event("op:multi")
    ctx.key(tuple(names), shape, repr(plist))


def batch(ctx, rng):
    import viqa
    names = list(rng.choice(["RMSE", "PSNR", "SSIM", "CNR", "SNR"], int(rng.integers(1, 4)), replace=False))
    shape = bench.shape_for(rng, names + ["CNR"])
    files = []
    for k in range(3):
        f = os.path.join(ctx.scratch, f"i{k}.png")
        write_raster(ctx.scratch, f"i{k}", to_type(texture(rng, shape), "uint8", 255), ".png")
        files.append(f)
    pairs = os.path.join(ctx.scratch, "pairs.csv")
    rows = [(pick(rng, files), pick(rng, files)) for _ in range(4)]
    with open(pairs, "w", newline="") as f:
        wr = csv.writer(f)
        wr.writerow(["reference_image", "modified_image"])
        wr.writerows([[os.path.basename(a), os.path.basename(b)] for a, b in rows])
    plist = [bench.params(rng, n, (12, 12)) for n in names]
    rois = [[(0, 12), (0, 12)] for _ in rows] if chance(rng, 0.5) else None
    metrics = [bench.make(viqa, n, 255) for n in names]
    w = Watch(ctx, pairs=pairs, f0=files[0], f1=files[1], f2=files[2], params=plist, rois=rois,
              metrics=metrics)
    b = viqa.BatchMetrics(ctx.scratch, pairs, metrics, plist, rois=rois)
    with ctx.quiet():
        res = b.calculate()
        w.verify(f"BatchMetrics.calculate {names}")
        w2 = Watch(ctx, results=res)
        b.report(file_path=ctx.scratch, project_name="p", image=chance(rng, 0.15))
    w.verify(f"BatchMetrics.report {names}")
    w2.verify("BatchMetrics.report")
    ctx.event("op:batch")
    ctx.key(tuple(names), repr(rows), shape)


def stats(ctx, rng):
    import viqa
    arr = picture(rng)
    base = layout(rng, arr)
    img = viqa.ImageArray(base)
    w = Watch(ctx, img=img, base=base)
    img.calculate_statistics()
    w.verify("calculate_statistics")
    with ctx.quiet():
        img.describe(ctx.scratch, "stats")
    w.verify("describe")
    ctx.event("op:stats")
    ctx.key(arr.dtype.str, arr.shape)


def regions(ctx, rng):
    from viqa.utils import find_largest_region
    from viqa.nr_metrics.snr import signal_to_noise_ratio
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio
    from c16 import scene
    img, shape, dtype = scene(rng, pick(rng, [2, 3]))
    if shape[-1] <= 3:
        return
    img = layout(rng, img)
    kind = pick(rng, ["cubic", "spherical", "full", "original"])
    kw = dict(region_type=kind, iterations=int(rng.integers(1, 4)))
    b = img > np.percentile(img, 60)
    w = Watch(ctx, img=img, binary=b, kw=kw)
    find_largest_region(b, **kw)
    w.verify(f"find_largest_region {kw}")
    kw2 = dict(auto_center=True, signal_center=[1, 2], background_center=[3, 4], radius=1, **kw)
    w2 = Watch(ctx, img=img, kw=kw2)
    for fn in (contrast_to_noise_ratio, signal_to_noise_ratio):
        k = {a: v for a, v in kw2.items() if fn is contrast_to_noise_ratio or a != "background_center"}
        try:
            fn(img, **k)
        except (ValueError, TypeError):
            ctx.event("refused_calls")
        w2.verify(f"{fn.__name__} {kw}")
    ctx.event("op:regions")
    ctx.key(shape, dtype, repr(kw))


def filters(ctx, rng):
    from viqa.fr_metrics.stat_utils import statisticscalc as sc
    from viqa.utils import correlate_convolve_abs, gabor_convolve
    img = layout(rng, picture(rng, colour=0, nd=2))
    ker = layout(rng, rng.standard_normal((3, 3)))
    w = Watch(ctx, img=img, kernel=ker)
    gabor_convolve(img, int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    w.verify("gabor_convolve")
    correlate_convolve_abs(img, ker, mode=pick(rng, ["correlate", "convolve"]),
                           border_mode=pick(rng, ["constant", "reflect", "nearest", "mirror", "wrap"]))
    w.verify("correlate_convolve_abs")
    sc.getstatistics(img, 4, 2)
    sc.minstd(img, 4, 2)
    w.verify(f"native statistics {img.dtype}")
    ctx.event("op:filters")
    ctx.key(img.dtype.str, img.shape, img.strides)


def figure(ctx, rng):
    import viqa
    from viqa.utils import visualize_2d, visualize_3d
    arr = picture(rng, least=12)
    img = layout(rng, arr)
    nd = 2 if arr.ndim == 2 or arr.shape[-1] == 3 else 3
    r = 2
    c1, c2 = [[int(rng.integers(r, n - r)) for n in arr.shape[:nd]] for _ in range(2)]
    region = pick(rng, ["cubic", "spherical"])
    kw = dict(dpi=30)
    w = Watch(ctx, img=img, c1=c1, c2=c2, kw=kw)
    with ctx.quiet():
        if nd == 2:
            visualize_2d(img, **kw)
        else:
            visualize_3d(img, c1, **kw)
        w.verify("visualize")
        viqa.ImageArray(img).visualize(slices=tuple(c1) if nd == 3 else None, **kw)
        w.verify("ImageArray.visualize")
        met = viqa.CNR()
        met.visualize_centers(img, signal_center=c1, background_center=c2, radius=r, region_type=region, **kw)
        w.verify("CNR.visualize_centers")
        viqa.SNR().visualize_centers(img, signal_center=c1, radius=r, region_type=region, **kw)
        w.verify("SNR.visualize_centers")
    ctx.event("op:figure")
    ctx.key(arr.shape, arr.dtype.str, region)


def export(ctx, rng):
    import viqa
    from viqa.utils import export_image, export_metadata, export_results
    names = list(rng.choice(["RMSE", "PSNR", "SSIM", "CNR"], int(rng.integers(1, 4)), replace=False))
    shape = bench.shape_for(rng, names)
    r, m, top = bench.images(rng, shape)
    metrics, plist = [], []
    for n in names:
        met, kw = bench.make(viqa, n, top), bench.params(rng, n, shape)
        if chance(rng, 0.8):
            bench.run(met, r, m, kw)
        metrics.append(met)
        plist.append(kw)
    results = {n: float(rng.random()) for n in names}
    states = [copy.deepcopy(x.__dict__) for x in metrics]
    w = Watch(ctx, metrics=metrics, params=plist, results=results, r=r, m=m)
    out = export_results(metrics, ctx.scratch, "x", return_dict=True)
    w.verify("export_results")
    export_metadata(metrics, plist, ctx.scratch)
    w.verify("export_metadata")
    if chance(rng, 0.3):
        export_image(results, r, m, file_path=ctx.scratch, show_image=False, dpi=40)
        w.verify("export_image")
    for n, met, old in zip(names, metrics, states):
        ctx.check(repr(met.__dict__) == repr(old), f"exporting changed the metric {n}",
                  before=repr(old), after=repr(met.__dict__))
    del out
    ctx.event("op:export")
    ctx.key(tuple(names), shape)


def chain(ctx, rng):
    """A long history of operations on the same two images."""
    import viqa
    names = list(rng.permutation(["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "MAD", "CNR", "SNR"]))
    shape = bench.shape_for(rng, names)
    r, m, top = bench.images(rng, shape, pick(rng, ["uint8", "float64"]))
    r, m = viqa.ImageArray(layout(rng, r)), layout(rng, m)
    w = Watch(ctx, r=r, m=m)
    for n in names:
        kw = bench.params(rng, n, shape)
        bench.run(bench.make(viqa, n, top), r, m, kw)
        w.verify(f"{n} in a chain {kw}")
    ctx.key(tuple(names), shape)


SCALE = 2
KINDS = [("load", load, 120, 10), ("normalize", normalize, 120, 10), ("score", score, 600, 10),
         ("refused", refused, 100, 10), ("locked", locked, 200, 10), ("multi", multi, 80, 10), ("batch", batch, 24, 10),
         ("stats", stats, 60, 10), ("regions", regions, 80, 10), ("filters", filters, 60, 10),
         ("figure", figure, 32, 10), ("export", export, 60, 10), ("chain", chain, 24, 10)]
