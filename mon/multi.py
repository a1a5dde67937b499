"""Lists of metrics and what evaluating them together has to give (C19, C20, C21)."""
import numpy as np

import bench
from gen import chance, pick

LABEL = {"MSSSIM": "MS-SSIM"}
COLOUR = {"RMSE": "RMSEc", "PSNR": "PSNRc", "FSIM": "FSIMc", "VSI": "VSI"}
FAST = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MAD", "CNR", "SNR"]
SOLID = ["RMSE", "PSNR", "SSIM", "GSM", "CNR", "SNR"]
LUM = np.array([0.2125, 0.7154, 0.0721])


class Spec:
    """One metric of a list: class, constructor settings, scoring parameters, label."""

    def __init__(self, cls, top, kw, **init):
        self.name, self.kw = cls, kw
        self.init = dict(data_range=top, **init)
        self.label = LABEL.get(cls, cls)
        if init.get("chromatic"):
            self.label = COLOUR[cls]
        if "name" in init:
            self.label = init["name"]
        self.nr = cls in bench.NR

    def make(self, viqa):
        return getattr(viqa, self.name)(**self.init)

    def __repr__(self):
        return f"{self.label}{self.kw}"


def specs(rng, shape, top, colour=False, most=5, pool=None):
    """A random list of metrics that can all score images of this (smallest) shape."""
    flat = shape[:2] if colour else shape
    pool = pool or (FAST if len(flat) == 2 else SOLID)
    pool = [n for n in pool if bench.LEAST.get(n, 8) <= min(flat)]
    n = int(rng.integers(1, min(most, len(pool)) + 1))
    names = [pool[i] for i in rng.permutation(len(pool))[:n]]
    out = []
    for name in names:
        kw = bench.params(rng, name, flat)
        init = {}
        if colour and name in COLOUR and chance(rng, 0.5):
            init["chromatic"] = True
        if not colour and chance(rng, 0.08):
            init["normalize"] = True
        out.append(Spec(name, top, kw, **init))
    if "SNR" in names and chance(rng, 0.4):
        out.append(Spec("SNR", top, bench.params(rng, "SNR", flat), name="SNR-b"))
    if chance(rng, 0.5):
        out = [out[i] for i in rng.permutation(len(out))]
    return out


def resized(r, m, order):
    """The modified image at the size and type of the reference."""
    if r.shape == m.shape:
        return m
    from skimage.transform import resize
    return resize(np.asarray(m), r.shape, preserve_range=True, order=order).astype(r.dtype)


def grey(img):
    lum = np.asarray(img, np.float64) @ LUM
    return np.minimum(lum, np.max(img))


def normalized(img, top):
    """The full-range image of an integer or floating image (unchanged if its type is the target)."""
    dtype = {1: np.float32, 255: np.uint8, 65535: np.uint16}[top]
    if np.dtype(img.dtype) == dtype and top != 1:
        return img
    f = np.asarray(img, np.float64)
    lo, hi = f.min(), f.max()
    return ((f - lo) / (hi - lo) * top).astype(dtype)


def expected(viqa, specs_, r, m, order=1, roi=None, norm=None):
    """Each metric alone, on its own fresh object."""
    if norm is not None:
        r, m = normalized(r, norm), normalized(m, norm)
    m = resized(r, m, order)
    if roi is not None:
        cut = tuple(slice(a, b) for a, b in roi[:2 if r.ndim == 2 or r.shape[-1] == 3 else 3])
        r, m = r[cut], m[cut]
    out = {}
    for s in specs_:
        if s.nr:
            for tag, img in (("_r", r), ("_m", m)):
                img = grey(img) if img.ndim == 3 and img.shape[-1] == 3 else img
                out[s.label + tag] = bench.run(s.make(viqa), img, None, dict(s.kw))
        else:
            out[s.label] = bench.run(s.make(viqa), r, m, dict(s.kw))
    return out


def agree(ctx, got, want, dtype, msg, **kw):
    ctx.check(isinstance(got, dict) and set(got) == set(want), msg + ": entries",
              got=sorted(got), want=sorted(want), **kw)
    # single-precision means depend on the memory layout
    single = np.dtype(dtype) == np.float32 or any(
        s.init.get("normalize") and s.init["data_range"] == 1 for s in kw.get("specs", ()))
    for k in want:
        rtol = 1e-9 if not single else 1e-2 if k[-2:] in ("_r", "_m") else 2e-5
        ctx.check(isinstance(got[k], (float, np.floating)) and bench.eq(got[k], want[k], rtol),
                  f"{msg}: {k}", got=got[k], want=want[k], **kw)
        ctx.event("values")
