"""Random but valid scoring tasks for every metric, shared by several monitors."""
import numpy as np

from gen import chance, distort, pick, texture, to_type

FR = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MSSSIM", "MAD"]
NR = ["CNR", "SNR"]
LEAST = {"RMSE": 6, "PSNR": 6, "SSIM": 13, "UQI": 9, "GSM": 8, "FSIM": 18, "VSI": 18, "VIFp": 42,
         "MSSSIM": 162, "MAD": 26}
# cheap enough to be run thousands of times
CHEAP = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MAD", "CNR", "SNR"]


def shape_for(rng, names, nd=2):
    least = max([LEAST.get(n, 12) for n in names])
    span = 14
    if nd == 2:
        return tuple(int(v) for v in rng.integers(least, least + span, 2))
    return tuple(int(v) for v in rng.integers(max(least, 13), max(least, 13) + 5, 3))


def images(rng, shape, dtype="uint8", how=None):
    top = {"uint8": 255, "uint16": 65535}.get(dtype, 1.0)
    a = texture(rng, shape)
    b = distort(rng, a, how or pick(rng, ["noise", "blur", "mix", "spots", "offset"]))
    return to_type(a, dtype, top), to_type(b, dtype, top), top


def make(viqa, name, top, **kw):
    return getattr(viqa, name)(data_range=top, **kw)


def params(rng, name, shape):
    """Random valid scoring parameters for a 2D (or 3D) image of this shape."""
    nd = len(shape)
    kw = {}
    if name == "SSIM" and chance(rng, 0.6):
        kw["gaussian_weights"] = True if nd == 2 else False
        if chance(rng, 0.5):
            kw.update(alpha=pick(rng, [1, 2]), beta=1, gamma=pick(rng, [1, 1, 2]))
    elif name == "GSM":
        if chance(rng, 0.4):
            kw["c"] = pick(rng, [100, 300])
        if nd == 3:
            kw.update(dim=int(rng.integers(3)), im_slice=int(rng.integers(5)))
    elif name == "FSIM":
        if chance(rng, 0.4):
            kw["scales"] = 3
    elif name == "VIFp":
        if chance(rng, 0.4):
            kw["sigma_n_sq"] = 1.0
    elif name == "MSSSIM":
        if chance(rng, 0.5):
            kw["scale_weights"] = [0.3, 0.3, 0.4]
    elif name == "MAD":
        kw.update(block_size=pick(rng, [4, 6, 8]), block_overlap=pick(rng, [0.5, 0.75, 0]))
        if chance(rng, 0.4):
            kw.update(scales_num=3, weights=[1.0, 2.0, 3.0])
        if chance(rng, 0.3):
            kw.update(account_monitor=True,
                      display_function={"disp_res": 4.0, "view_dis": float(pick(rng, [400, 600]))})
        if chance(rng, 0.25):
            kw["csf_function"] = {"lambda_csf": pick(rng, [0.1, 0.15]), "f_peak": pick(rng, [6.0, 7.8909])}
        if chance(rng, 0.3):
            kw["luminance_function"] = {"k": 0.02, "gamma": 2.0}
    elif name in NR:
        r = int(rng.integers(1, max(2, min(shape) // 4)))
        c = [tuple(int(rng.integers(r, n - r + 1)) for n in shape) for _ in range(2)]
        kw.update(signal_center=c[0], radius=r)
        if name == "CNR":
            kw["background_center"] = c[1]
        if chance(rng, 0.6):
            kw["region_type"] = pick(rng, ["cubic", "spherical", "full"])
    if nd == 3 and name in ("FSIM", "VSI", "VIFp", "MSSSIM", "MAD"):
        kw.update(dim=int(rng.integers(3)), im_slice=int(rng.integers(5)))
    return kw


def run(metric, r, m, kw):
    """Score r (and m) with a metric; a float or a tuple of floats."""
    s = metric.score(r, **kw) if metric.type == "no-reference" else metric.score(r, m, **kw)
    return tuple(float(v) for v in s) if isinstance(s, tuple) else float(s)


def eq(a, b, rtol=0.0):
    """Equal scores (NaN equals NaN), optionally up to rounding."""
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                           (np.abs(a - b) <= rtol * np.abs(b) + rtol * 1e-3)))
