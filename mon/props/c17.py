"""C17: a metric object reports exactly its latest score, whatever happened before."""
import re
import warnings

import numpy as np

import bench
from gen import chance, layout, pick, roi_inside
from isolate import Packed, Pristine

RULE = ("random histories of 12..40 steps over 2..6 metric objects of any class (scoring 2D and 3D "
        "images of changing size, type and settings, refused scorings, comparisons, printing, "
        "reconfiguring, reuse of regions); every score compared with that of a fresh object in a "
        "process in which nothing was scored before; distinct by step sequence")
ASSUME = ["comparisons by order are made between scored objects only"]
NEED = {"scorings": 800, "failures": 150, "colour_scorings": 60, "close_comparisons": 100, "comparisons": 500, "prints": 150, "special_comparisons": 6, "unscored_prints": 20,
        "reused_regions": 100, "reused_part": 40, "refused_regions": 40, "loading_settings": 200, "reconfigured": 20, "histories": 60, "class:MAD": 60, "class:SSIM": 60}


COLOUR = ["RMSE", "PSNR", "FSIM", "VSI", "SSIM"]


def alone(name, init, r, m, kw):
    import viqa
    r, m = (v.array() if isinstance(v, Packed) else v for v in (r, m))
    return bench.run(getattr(viqa, name)(**init), r, m, kw)


def task(rng, name, chromatic=False, seen=None):
    nd = 3 if name in ("RMSE", "PSNR", "SSIM", "CNR", "SNR", "GSM") and chance(rng, 0.25) else 2
    if chromatic:
        nd = 2
    shape = bench.shape_for(rng, [name], nd)
    if seen and chance(rng, 0.5):  # sizes met before in this history, also turned
        old = [s for s in seen if len(s) == nd and min(s) >= bench.LEAST.get(name, 12)]
        if old:
            shape = pick(rng, old)
            if chance(rng, 0.3):
                shape = shape[::-1]
    if nd == 3 and shape[-1] == 3:
        shape = shape[:-1] + (4,)
    if seen is not None:
        seen.append(shape)
    dtype = pick(rng, ["uint8", "uint8", "float64", "float32"])
    full = shape + (3,) if chromatic else shape
    r, m, top = bench.images(rng, full, dtype)
    if dtype[0] == "f":
        r, m = r * 255, m * 255
        if name in ("RMSE", "GSM", "SSIM") and chance(rng, 0.12):
            r, m = r.copy(), m.copy()
            for v in pick(rng, [(m,), (r,), (r, m)]):
                v.flat[int(rng.integers(m.size))] = pick(rng, [np.nan, np.inf])
    if name == "PSNR" and chance(rng, 0.2):
        m = r.copy()  # infinite
    kw = bench.params(rng, name, shape)
    if chromatic and name == "SSIM":
        kw["color_weights"] = [float(v) for v in rng.random(3)]
    return r, m, kw, full


def break_it(rng, name, r, m, kw):
    how = pick(rng, ["shape", "type", "dims", "kind", "params"])
    kw = dict(kw)
    if name in bench.NR:
        how = pick(rng, ["dims", "kind", "params"])
    if how == "shape":
        m = m[:, :-1]
    elif how == "type":
        m = m.astype(np.int64)
    elif how == "dims":
        r, m = r[None, None], m[None, None]
    elif how == "kind":
        r = {"a": 1}
    elif name in bench.NR:
        kw["radius"] = pick(rng, [-1, 0, 10**6, 1.5])
    elif name == "MAD":
        kw["block_size"] = pick(rng, [0, -3, 10**6])
    elif name in ("SSIM",):
        if kw.pop("color_weights", None) and chance(rng, 0.7):
            return r, m, kw
        kw.update(gaussian_weights=False, win_size=pick(rng, [4, 10**5 + 1]))
    else:
        m = m[:-1]
    return r, m, kw


def show(ctx, met, decimals=None):
    with ctx.quiet() as buf, warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        met.print_score() if decimals is None else met.print_score(decimals=decimals)
    return buf.getvalue(), caught


class Obj:
    def __init__(self, viqa, rng, name):
        self.name, self.viqa = name, viqa
        self.init = dict(data_range=255)
        if name in ("RMSE", "PSNR") and chance(rng, 0.2):
            self.init["roi"] = [(0, 5), (1, 6), (0, 4)]
        elif chance(rng, 0.15) and name not in ("MAD", "CNR", "SNR"):
            self.init["normalize"] = True
        if name in COLOUR and "roi" not in self.init and chance(rng, 0.2):
            self.init["chromatic"] = True
        self.met = getattr(viqa, name)(**self.init)
        self.score = None
        self.region = None

    def fresh(self, r, m, kw):
        return Pristine.get()(alone, self.name, self.init,
                              *(Packed(v) if isinstance(v, np.ndarray) else v for v in (r, m)), kw)


def stored(ctx, o, step):
    s = o.met.score_val
    if o.score is None:
        ctx.check(s is None, f"{o.name} holds a score it never computed {step}", stored=s)
    else:
        ctx.check(s is not None and bench.eq(s if not isinstance(s, tuple) else list(s), o.score),
                  f"{o.name} does not hold its latest score {step}", stored=s, latest=o.score)


def history(ctx, rng):
    import viqa
    Pristine.get()
    seen = []
    names = [pick(rng, bench.CHEAP) for _ in range(int(rng.integers(2, 7)))]
    if chance(rng, 0.5):
        names[0] = names[1]
    if chance(rng, 0.1):
        names.append("MSSSIM")
    objs = [Obj(viqa, rng, n) for n in names]
    trace = []
    for n in range(int(rng.integers(12, 40))):
        o = pick(rng, objs)
        act = pick(rng, ["score", "score", "score", "score", "fail", "compare", "compare", "print",
                         "config", "reuse"])
        trace.append(f"{o.name}{objs.index(o)}.{act}")
        if o.name == "MSSSIM" and act in ("fail", "reuse"):
            continue
        step = f"after {trace[-6:]}"
        if act in ("score", "reuse"):
            r, m, kw, shape = task(rng, o.name, o.init.get("chromatic"), seen)
            full = kw
            if act == "reuse":
                if o.region is None or len(o.region["signal_center"]) != len(shape):
                    act = "score"
                elif any(c + o.region["radius"] > s for k, v in o.region.items() if k != "radius"
                         for c, s in zip(v, shape)):
                    act = "score"
                else:
                    kw = {k: v for k, v in kw.items() if k not in ("signal_center", "background_center",
                                                                   "radius")}
                    full = {**kw, **o.region}
                    ctx.event("reused_regions")
            lr, lm = layout(rng, r), layout(rng, m)
            want = o.fresh(lr, lm, full)
            if o.init.get("chromatic"):
                ctx.event("colour_scorings")
            ctx.check(want[0] == "ok", f"a fresh {o.name} cannot score its images", result=want,
                      shape=shape, kw=full)
            try:
                got = bench.run(o.met, lr, lm, kw)
            except Exception as e:
                ctx.fail(f"{o.name} refuses what a fresh object scores, {step}", raised=repr(e))
            ctx.check(bench.eq(got, want[1], 1e-12),
                      f"{o.name} scores differently than a fresh object, {step}",
                      got=got, fresh=want[1], shape=shape, kw=full)
            o.score = got
            if o.name in bench.NR:
                o.region = {k: full[k] for k in ("signal_center", "background_center", "radius") if k in full}
            ctx.event("scorings")
            ctx.event("class:" + o.name)
        elif act == "fail":
            r, m, kw, shape = task(rng, o.name, o.init.get("chromatic"))
            r, m, kw = break_it(rng, o.name, r, m, kw)
            want = o.fresh(r, m, kw)
            try:
                got = bench.run(o.met, r, m, kw)
            except Exception as e:
                ctx.check(want[0] != "ok", f"{o.name} refuses what a fresh object scores, {step}", raised=repr(e))
                ctx.event("failures")
            else:  # accepted after all: then it is the latest score
                ctx.check(want[0] == "ok", f"{o.name} scores what a fresh object refuses, {step}", got=got,
                          fresh=want, kw=kw)
                ctx.check(bench.eq(got, want[1], 1e-12), f"{o.name} scores differently than a fresh object, "
                          f"{step}", got=got, fresh=want[1], kw=kw)
                o.score = got
                o.region = None
                ctx.event("not_refused")
        elif act == "config":
            if o.name in ("PSNR", "SSIM", "FSIM", "VIFp", "GSM"):
                o.init["data_range"] = o.met.parameters["data_range"] = pick(rng, [255, 500, 1000]) \
                    if not o.init.get("normalize") else 255
                ctx.event("reconfigured")
        elif act == "print":
            if isinstance(o.score, tuple):
                continue
            dec = pick(rng, [None, 0, 1, 3, 5])
            text, caught = show(ctx, o.met, dec)
            if o.score is None:
                ctx.check(not re.search(r"\d", text), f"{o.name} prints a score it does not have", text=text)
                ctx.check(len(caught) > 0, f"{o.name} without score does not warn when printing")
                ctx.event("unscored_prints")
            else:
                num = re.findall(r"[-+]?(?:inf|nan|[\d.]+(?:e[-+]?\d+)?)(?![\w.])", text.rsplit(":", 1)[-1])
                ctx.check(bool(num), f"{o.name} prints no number", text=text)
                want = float(np.round(o.score, 2 if dec is None else dec))
                ctx.check(bench.eq(float(num[-1]), want, 2e-7) or
                          (abs(o.score) < 1e12 and abs(float(num[-1]) - want) < 1e-12),
                          f"{o.name} prints another value", text=text, want=want)
                ctx.event("prints")
        else:
            p = pick(rng, objs)
            compare(ctx, rng, o, p, step)
        for q in objs:
            stored(ctx, q, step)
        rep = repr(o.met)
        if isinstance(o.score, float):
            num = re.findall(r"[-+]?(?:inf|nan|[\d.]+(?:e[-+]?\d+)?)", rep)
            ctx.check(type(o.met).__name__ in rep and num and bench.eq(float(num[-1]), o.score, 1e-6),
                      "the representation does not show the stored score", text=rep)
    ctx.event("histories")
    ctx.key(tuple(trace))
    ctx.sample(steps=trace[:12], objects=names)


def compare(ctx, rng, o, p, step):
    if not isinstance(o.score, float):
        if o.score is None:
            ctx.check((o.met == None) is True, "an unscored object does not equal None")  # noqa: E711
        return
    others = [float(rng.normal()), o.score, np.nextafter(o.score, 9e99), int(rng.integers(-5, 50)),
              np.float64(o.score)]
    if isinstance(p.score, float):
        others += [p.met, p.met]
    x = pick(rng, others)
    v = p.score if x is p.met else float(x)
    a = o.score
    got = (o.met == x, o.met != x, o.met < x, o.met <= x, o.met > x, o.met >= x)
    want = (a == v, a != v, a < v, a <= v, a > v, a >= v)
    ctx.check(tuple(bool(g) for g in got) == want, f"comparison does not follow the scores {step}",
              left=a, right=v, got=got, want=want)
    ctx.event("comparisons")
    if a != a or v != v or abs(a) == np.inf:
        ctx.event("special_comparisons")


def order(ctx, rng):
    """Metric objects whose scores are equal, adjacent or very close."""
    import viqa
    shape = tuple(int(v) for v in rng.integers(2, 8, 2))
    objs = []
    base = float(rng.uniform(0.5, 200)) * pick(rng, [1, 1e-6, 1e6])
    for k in range(int(rng.integers(3, 7))):
        step = pick(rng, [0, 0, 1e-15, -1e-15, 1e-12, -1e-10, 1e-7, 1e-3, -0.1])
        r = np.zeros(shape)
        m = np.full(shape, base * (1 + step))
        name = pick(rng, ["RMSE", "RMSE", "PSNR"])
        met = getattr(viqa, name)(data_range=pick(rng, [255, 1]))
        s = bench.run(met, r, r if chance(rng, 0.1) else m, {})
        objs.append((met, s))
    for a, va in objs:
        for b, vb in objs:
            got = tuple(bool(g) for g in (a == b, a != b, a < b, a <= b, a > b, a >= b))
            want = (va == vb, va != vb, va < vb, va <= vb, va > vb, va >= vb)
            ctx.check(got == want, "comparison of two metric objects does not follow their scores",
                      left=va, right=vb, got=got, want=want)
            ctx.event("comparisons")
            if va != vb and abs(va - vb) < 1e-6 * abs(va):
                ctx.event("close_comparisons")
    ctx.check([v for _, v in sorted(objs, key=lambda t: t[0])] == sorted(v for _, v in objs),
              "sorting metric objects does not sort their scores")
    ctx.key(tuple(v for _, v in objs))


REGION = ("signal_center", "background_center", "radius")


def reuse(ctx, rng):
    """CNR and SNR keep their last regions, and only these, for later calls."""
    import viqa
    Pristine.get()
    name = pick(rng, bench.NR)
    nd = pick(rng, [2, 3])
    shape = tuple(int(v) for v in rng.integers(12, 24 if nd == 2 else 15, nd))
    if shape[-1] == 3:
        shape = shape[:-1] + (4,)
    objs = [Obj(viqa, rng, name), Obj(viqa, rng, name)]
    trace = []
    for _ in range(8):
        o = pick(rng, objs)
        r, m, _ = bench.images(rng, shape, "uint8")
        load = {}
        size = shape
        if chance(rng, 0.3):  # settings of the loading belong to this call only
            roi = [(int(rng.integers(0, 3)), s - int(rng.integers(0, 3))) for s in shape]
            load["roi"] = roi
            size = tuple(b - a for a, b in roi)
        if chance(rng, 0.2):
            load.update(normalize=True, data_range=pick(rng, [255, 65535]))
        kw = bench.params(rng, name, tuple(min(v, s - 4) for v, s in zip(size, shape)))
        full = kw
        how = "given"
        if o.region and chance(rng, 0.65):
            how = pick(rng, ["all", "all", "part", "refused"])
            if how == "part":
                keep = [k for k in REGION if k in kw and chance(rng, 0.5)]
                kw = {k: v for k, v in kw.items() if k in keep or k not in REGION}
            else:
                kw = {"region_type": pick(rng, ["cubic", "spherical"])} if chance(rng, 0.5) else {}
            full = {**o.region, **kw}
        if load:
            ctx.event("loading_settings")
        trace.append((objs.index(o), how, tuple(load)))
        step = f"after {trace[-5:]}"
        if how == "refused":
            bad = dict(pick(rng, [{"radius": 0}, {"radius": -2}, {"signal_center": (1,) * (nd + 1)},
                                  {"signal_center": (2,) * nd, "radius": 0, "background_center": (2,) * nd}]))
            if name == "SNR":
                bad.pop("background_center", None)
            try:
                bench.run(o.met, r, m, {**bad, **load})
            except Exception:
                ctx.event("refused_regions")
            else:
                ctx.event("not_refused")
                o.score, o.region = o.met.score_val, None
            continue
        want = o.fresh(r, m, {**full, **load})
        if how == "given":
            ctx.check(want[0] == "ok", f"a fresh {name} cannot score its images", result=want, kw=full)
        try:
            got = bench.run(o.met, r, m, {**kw, **load})
        except Exception as e:
            ctx.check(want[0] != "ok", f"{name} refuses what a fresh object scores, {step}", raised=repr(e),
                      given=kw, stored=o.region)
            continue
        ctx.check(want[0] == "ok", f"{name} scores what a fresh object refuses, {step}", got=got, fresh=want)
        ctx.check(bench.eq(got, want[1], 1e-12), f"{name} does not use the region given or else its last one, "
                  f"{step}", got=got, want=want[1], given=kw, region=full, loading=load)
        o.score = got
        o.region = {k: full[k] for k in REGION if k in full}
        for q in objs:
            stored(ctx, q, "in a sequence of reused regions")
        ctx.event("scorings")
        if how != "given":
            ctx.event("reused_regions")
            ctx.event("reused_" + how)
    ctx.key(name, shape, tuple(trace))


KINDS = [("history", history, 200, 12), ("reuse", reuse, 160, 10), ("order", order, 60, 10)]
