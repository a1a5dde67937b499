"""C19: evaluating several metrics together equals evaluating each alone."""
import copy
import os

import numpy as np

import bench
import multi
from gen import chance, layout, pick, roi_inside, texture, to_type, write_mhd, write_raster, write_raw

RULE = ("random lists of 1..6 metrics in random order with random parameters, evaluated repeatedly by "
        "one object on pairs that change size, type, file or array, and size relation; every value "
        "compared with a fresh metric alone on the (independently resized, cropped) images; fused "
        "scores recomputed; ill-formed lists must be refused; distinct by list and pair")
ASSUME = ["metrics of one list have different names",
          "no-reference metrics see colour images as their luminance"]
NEED = {"evaluations": 300, "values": 900, "resized": 60, "regions": 40, "from_files": 60, "colour": 50,
        "chromatic": 15, "volumes": 30, "fusions": 60, "refusals": 60, "normalized": 30, "repeated": 80}


def size(rng, colour, nd):
    if nd == 3:
        return tuple(int(v) for v in rng.integers(14, 19, 3))
    s = tuple(int(v) for v in rng.integers(26, 50, 2))
    return s + (3,) if colour else s


def stored_as_file(ctx, rng, stem, arr):
    if arr.ndim == 3 and arr.shape[-1] != 3:
        if chance(rng, 0.5):
            return write_mhd(ctx.scratch, stem, arr)
        return write_raw(ctx.scratch, stem, arr, {"uint8": "8bit", "uint16": "16bit", "float64": "64fbit",
                                                  "float32": "32fbit"}[arr.dtype.name])
    return write_raster(ctx.scratch, stem, arr, pick(rng, [".png", ".tiff", ".bmp"]))


def evaluate(ctx, rng):
    import viqa
    colour = chance(rng, 0.25)
    nd = 3 if not colour and chance(rng, 0.25) else 2
    dtype = pick(rng, ["uint8", "uint8", "float64", "float32", "uint16"])
    base = size(rng, colour, nd)
    roi = None
    least = base
    norm = pick(rng, [1, 255, 65535]) if chance(rng, 0.15) and not colour else None
    if norm is None and chance(rng, 0.3):
        n = 3 if nd == 3 else 2
        roi = roi_inside(rng, base[:n], 14 if nd == 3 else 20, full=0.15)
        least = tuple(b - a for a, b in roi) + ((3,) if colour else ())
    top = {"uint8": 255, "uint16": 65535}.get(dtype, 1.0)
    sp = multi.specs(rng, least, norm or top, colour)
    mets = [s.make(viqa) for s in sp]
    params = [dict(s.kw) for s in sp]
    keep = copy.deepcopy(params)
    obj = viqa.MultipleMetrics(mets, params)
    old = []
    for step in range(int(rng.integers(1, 5))):
        r, m, _ = bench.images(rng, base, dtype)
        kw = {}
        order = 1
        if norm != 1 and chance(rng, 0.35):  # the modified image has another size
            other = size(rng, colour, nd)
            m = to_type(texture(rng, other), dtype, top)
            if chance(rng, 0.5):
                order = kw["scaling_order"] = pick(rng, [0, 1, 2, 3])
            if r.shape != m.shape:
                ctx.event("resized")
        if roi is not None and chance(rng, 0.8):
            kw["roi"] = roi
            ctx.event("regions")
        elif roi is not None and min(base[:2]) < 26:
            kw["roi"] = roi
        if norm is not None:
            kw.update(normalize=True, data_range=norm)
            ctx.event("normalized")
        gr, gm = layout(rng, r), layout(rng, m)
        if dtype in ("uint8",) and chance(rng, 0.4) or nd == 3 and chance(rng, 0.4):
            gr = stored_as_file(ctx, rng, f"r{step}", r)
            gm = stored_as_file(ctx, rng, f"m{step}", m)
            if chance(rng, 0.3):
                gm = m
            ctx.event("from_files")
        with ctx.quiet():
            want = multi.expected(viqa, sp, r, m, order, kw.get("roi"), norm)
            try:
                got = obj.calculate(gr, gm, **kw)
            except Exception as e:
                ctx.fail("a list of metrics cannot score what each scores alone", raised=repr(e), specs=sp,
                         r=r.shape, m=m.shape, kw=kw)
        multi.agree(ctx, got, want, dtype if norm != 1 else "float32", "the list gives another value than the metric alone",
                    specs=sp, r=r.shape, m=m.shape, kw=kw, step=step)
        multi.agree(ctx, obj.results, want, dtype if norm != 1 else "float32", "stored results differ", specs=sp)
        for g, w in old:
            ctx.check(g == w or all(bench.eq(g[k], w[k]) for k in w), "an earlier result changed", specs=sp)
        old.append((got, dict(got)))
        ctx.check(params == keep, "scoring changed the given parameters", got=params, want=keep)
        for s, met in zip(sp, mets):  # the metric objects hold the scores they gave
            k = s.label + "_m" if s.nr else s.label
            ctx.check(bench.eq(float(met.score_val), got[k]), "a metric of the list holds another score",
                      metric=s, held=met.score_val, result=got[k])
        ctx.event("evaluations")
        if step:
            ctx.event("repeated")
        if colour:
            ctx.event("colour")
            if any(s.init.get("chromatic") for s in sp):
                ctx.event("chromatic")
        if nd == 3:
            ctx.event("volumes")
        ctx.key(tuple(map(repr, sp)), r.shape, m.shape, dtype)
        for f in os.listdir(ctx.scratch):
            os.unlink(os.path.join(ctx.scratch, f))
    ctx.sample(specs=[repr(s) for s in sp], shape=base, dtype=dtype)


def fusion(ctx, rng):
    import viqa
    sp = multi.specs(rng, (30, 30), 255, most=6)
    r, m, _ = bench.images(rng, (30, 30))
    mets = [s.make(viqa) for s in sp]
    for met, s in zip(mets, sp):
        bench.run(met, r, m, dict(s.kw))
    vals = [float(met.score_val) for met in mets]
    if chance(rng, 0.5):
        w = [float(v) for v in rng.normal(size=len(mets))]
    else:
        w = [int(v) for v in rng.integers(-3, 4, len(mets))]
    got = viqa.fuse_metrics_linear_combination(mets, w)
    want = sum(np.longdouble(v) * np.longdouble(x) for v, x in zip(vals, w))
    scale = sum(abs(v * x) for v, x in zip(vals, w)) + 1e-300
    ctx.check(abs(float(got) - float(want)) <= 1e-6 * scale, "the fused score is not the weighted sum",
              got=got, want=want, scores=vals, weights=w)
    ctx.check([float(met.score_val) for met in mets] == vals, "fusing changed a score")
    for bad in (w + [1.0], w[:-1]):
        if len(bad):
            ctx.refused(lambda: viqa.fuse_metrics_linear_combination(mets, bad), ValueError,
                        "weights of another number are accepted")
    ctx.event("fusions")
    ctx.key(tuple(w), tuple(vals))


def refuse(ctx, rng):
    import viqa
    sp = multi.specs(rng, (26, 26), 255, most=4)
    mets = [s.make(viqa) for s in sp]
    par = [dict(s.kw) for s in sp]
    i = int(rng.integers(len(mets)))
    how = pick(rng, ["short", "long", "metric", "params", "type", "none"])
    a, b = list(mets), list(par)
    if how == "short":
        b = b[:-1]
    elif how == "long":
        b = b + [{}]
    elif how == "metric":
        a[i] = pick(rng, ["PSNR", None, viqa.PSNR, 3.0, {}])
    elif how == "params":
        b[i] = pick(rng, [None, [], "x", ("a", 1), 3, [("a", 1)]])
    elif how == "none":
        a = a[:-1]
    if how != "type":
        ctx.refused(lambda: viqa.MultipleMetrics(a, b), ValueError, f"ill-formed lists ({how}) accepted")
    else:
        r, m, _ = bench.images(rng, (30, 31))
        obj = viqa.MultipleMetrics(a, b)
        with ctx.quiet():
            ctx.refused(lambda: obj.calculate(r, m.astype(pick(rng, ["uint16", "float64", "int8"]))),
                        ValueError, "a pair of different pixel types is accepted")
    ctx.key(how, tuple(map(repr, sp)))


SCALE = 2
KINDS = [("evaluate", evaluate, 400, 10), ("fusion", fusion, 150, 10), ("refuse", refuse, 150, 10)]
