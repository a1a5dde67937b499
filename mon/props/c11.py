"""C11: FSIM, VSI, VIFp, MS-SSIM against the wrapped library."""
import numpy as np

from gen import LAYOUTS, chance, distort, layout, pick, ranged, texture, to_type

RULE = ("2D grey and RGB pairs (8/16 bit, float32/64, every memory layout; colour and luminance mode) "
        "with random data range and forwarded settings; score compared with the published "
        "implementation (piq) applied directly to the pixel values; identical pairs must score 1; "
        "distinct by metric, shape, type, colour and settings")
ASSUME = ["piq is the published reference implementation",
          "2e-4 relative tolerance for single precision"]
NAMES = ["FSIM", "VSI", "VIFp", "MSSSIM"]
NEED = {**{"score:" + n: 30 for n in NAMES}, **{"colour:" + n: 6 for n in NAMES},
        **{"luminance:" + n: 6 for n in NAMES}, **{"settings:" + n: 8 for n in NAMES},
        "identical": 20, "asymmetric": 20}
SMALL = {"FSIM": 17, "VSI": 17, "VIFp": 41, "MSSSIM": 161}
LUM = np.array([0.2125, 0.7154, 0.0721])


def settings(rng, name):
    kw = {}

    def maybe(key, values):
        if chance(rng, 0.35):
            kw[key] = pick(rng, values)
    if name == "FSIM":
        maybe("scales", [2, 3, 5])
        maybe("orientations", [2, 3, 6])
        maybe("min_length", [4, 8])
        maybe("mult", [2, 3])
        maybe("sigma_f", [0.4, 0.65])
        maybe("delta_theta", [1.0, 1.5])
        maybe("k", [1.0, 3.0])
    elif name == "VSI":
        maybe("c1", [0.5, 2.0])
        maybe("c2", [200.0, 500.0])
        maybe("c3", [60.0, 200.0])
        maybe("alpha", [0.2, 0.6])
        maybe("beta", [0.05, 0.3])
        maybe("omega_0", [0.01, 0.05])
        maybe("sigma_f", [1.0, 1.6])
        maybe("sigma_d", [100.0, 200.0])
        maybe("sigma_c", [0.0005, 0.01])
    elif name == "VIFp":
        maybe("sigma_n_sq", [0.5, 1.0, 5.0])
    else:
        maybe("kernel_size", [5, 7, 9])
        maybe("kernel_sigma", [1.0, 2.0])
        maybe("k1", [0.02, 0.05])
        maybe("k2", [0.01, 0.06])
        if chance(rng, 0.4):
            n = pick(rng, [2, 3, 4])
            w = rng.uniform(0.1, 1, n)
            kw["scale_weights"] = [float(v) for v in w / w.sum()]
    return kw


def reference(name, r, m, dr, chromatic, kw):
    """The library on double-precision tensors built here."""
    import piq
    import torch
    r, m = np.asarray(r, np.float64), np.asarray(m, np.float64)
    if r.ndim == 3 and not chromatic:
        r, m = r @ LUM, m @ LUM
        # rounding of a white pixel may leave the admitted range by one ulp
        r, m = np.minimum(r, dr), np.minimum(m, dr)

    def t(x):
        x = np.ascontiguousarray(x)
        return torch.tensor(x).permute(2, 0, 1)[None] if x.ndim == 3 else torch.tensor(x)[None, None]
    kw = dict(kw)
    if "scale_weights" in kw:
        kw["scale_weights"] = torch.tensor(kw["scale_weights"])
    if name == "FSIM":
        kw["chromatic"] = chromatic
    fn = {"FSIM": piq.fsim, "VSI": piq.vsi, "VIFp": piq.vif_p, "MSSSIM": piq.multi_scale_ssim}[name]
    return [float(fn(t(r).to(d), t(m).to(d), data_range=dr, **kw)) for d in (torch.float32, torch.float64)]


def scores(ctx, rng):
    import viqa
    name = NAMES[ctx.idx % 4]
    least = SMALL[name]
    shape = tuple(int(v) for v in rng.integers(least, least + 24, 2))
    mode = pick(rng, ["grey", "grey", "colour", "luminance"])
    if mode != "grey":
        shape += (3,)
    dtype, top = pick(rng, [("uint8", 255), ("uint8", 255), ("uint16", 65535), ("float32", 1.0),
                            ("float64", 255.0), ("float32", 255.0), ("int32", 4000)])
    a = texture(rng, shape)
    same = chance(rng, 0.1)
    how = pick(rng, ["noise", "blur", "scale", "mix", "spots", "other"])
    b = a if same else distort(rng, a, how)
    r, m = to_type(a, dtype, top), to_type(b, dtype, top)
    dr = pick(rng, [top, top, 2 * top]) if name != "VSI" else top
    kw = settings(rng, name) if chance(rng, 0.5) else {}
    chrom = mode == "colour"
    met = getattr(viqa, name)(**ranged(rng, dr), **({"chromatic": True} if chrom else {}))
    call = dict(kw)
    if "scale_weights" in kw and chance(rng, 0.5):
        import torch
        call["scale_weights"] = torch.tensor(kw["scale_weights"])
    got = float(met.score(layout(rng, r), layout(rng, m), **call))
    what = f"{name} {dtype} {shape} {mode} range {dr} {kw}"
    ctx.check(met.score_val == got, "stored score differs: " + what, stored=met.score_val)
    wants = reference(name, r, m, dr, chrom, kw)
    ok = any(abs(got - w) <= 2e-4 * abs(w) + 2e-5 for w in wants)
    # single and double precision may disagree with each other on thin margins
    if not ok and abs(wants[0] - wants[1]) > 1e-4:
        ctx.event("not_judged")
        return
    ctx.check(ok, what + ": differs from the library", got=got, want=wants)
    if same:
        ctx.close(got, 1, what + ": identical images", rtol=0, atol=1e-4)
        ctx.event("identical")
    else:
        swapped = reference(name, m, r, dr, chrom, kw)
        if abs(swapped[1] - wants[1]) > 1e-3:
            ctx.event("asymmetric")
    ctx.event("score:" + name)
    if mode != "grey":
        ctx.event(f"{mode}:{name}")
    if kw:
        ctx.event("settings:" + name)
    ctx.key(name, shape, dtype, mode, repr(kw), dr)
    ctx.sample(metric=name, type=dtype, shape=shape, mode=mode, settings=kw, score=got)


SCALE = 2
KINDS = [("scores", scores, 480, 12)]
