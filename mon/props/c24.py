"""C24: filters and kernels follow their definitions."""
import itertools

import numpy as np

import oracles
from gen import chance, layout, pick, texture, to_type

RULE = ("log-Gabor banks of random size (even, odd, rectangular), scales, orientations, wavelengths and "
        "bandwidths against an independent transfer-function model, with linearity, mean removal and "
        "layout independence; absolute correlation and convolution in 2D and 3D with asymmetric "
        "kernels, every border mode and value, against a pixel-by-pixel index model; every kernel's zero "
        "response, axis response to ramps, relation between axes and freshness; distinct by settings")
ASSUME = ["kernels given to the absolute correlation have equal extents; of even extents either middle pixel may be the centre"]
NEED = {"banks": 120, "filters": 1000, "linearity": 40, "correlations": 300, "borders": 40, "kernels": 64,
        "reflect": 30, "mirror": 30, "nearest": 30, "wrap": 30, "constant": 30, "convolve": 100,
        "volumes": 60, "applied": 60, "refusals": 20, "even_kernels": 60}


def bank(ctx, rng):
    from viqa.utils import gabor_convolve
    shape = tuple(int(v) for v in rng.integers(4, 40, 2))
    if chance(rng, 0.3):
        shape = (shape[0], shape[0])
    ns, no = int(rng.integers(1, 6)), int(rng.integers(1, 7))
    kw = {}
    if chance(rng, 0.6):
        kw = dict(min_wavelength=pick(rng, [3, 4, 2.5, 6]), wavelength_scaling=pick(rng, [3, 2, 1.6, 2.1]),
                  bandwidth_param=pick(rng, [0.55, 0.74, 0.41]), d_theta_on_sigma=pick(rng, [1.5, 1.2, 2]))
    dtype = pick(rng, ["float64", "float64", "uint8", "float32"])
    img = to_type(texture(rng, shape), dtype, 255)
    src = layout(rng, img)
    keep = np.array(src)
    with np.errstate(all="ignore"):
        got = gabor_convolve(src, ns, no, **kw)
    ctx.same(np.asarray(src), keep, "filtering changed the image")
    ctx.check(np.shape(got) == (ns, no), "not one response per scale and orientation", got=np.shape(got))
    args = [kw[k] for k in ("min_wavelength", "wavelength_scaling", "bandwidth_param", "d_theta_on_sigma")] \
        if kw else []
    want = oracles.gabor(img, ns, no, *args)
    tol = 1e-4 if dtype == "float32" else 1e-8
    scale = float(np.abs(img).max()) + 1e-9
    for (s, o), w in want.items():
        g = np.asarray(got[s, o])
        ctx.check(g.shape == shape, "a response has another size", got=g.shape, want=shape)
        ctx.close(g.real, w.real, "real response differs from the transfer function", rtol=tol, atol=tol * scale,
                  scale_orientation=(s, o), shape=shape, kw=kw)
        ctx.close(g.imag, w.imag, "imaginary response differs from the transfer function", rtol=tol,
                  atol=tol * scale, scale_orientation=(s, o), shape=shape, kw=kw)
        ctx.check(abs(g.mean()) <= tol * scale, "a response has a mean", mean=g.mean(), shape=shape)
        ctx.event("filters")
    if chance(rng, 0.5):  # linear, and blind to a constant
        a, b = float(rng.normal()), float(rng.normal())
        other = texture(rng, shape) * 255
        f = img.astype(np.float64)
        r1, r2 = gabor_convolve(f, ns, no, **kw), gabor_convolve(other, ns, no, **kw)
        r12 = gabor_convolve(a * f + b * other + 17.0, ns, no, **kw)
        for s, o in itertools.product(range(ns), range(no)):
            d = np.abs(r12[s, o] - (a * r1[s, o] + b * r2[s, o]))
            ctx.check(d.max() <= 1e-8 * scale * (1 + abs(a) + abs(b)) + 1e-7, "the bank is not linear",
                      difference=d.max(), shape=shape)
        ctx.event("linearity")
    ctx.event("banks")
    ctx.key(shape, ns, no, tuple(sorted(kw.items())))
    ctx.sample(shape=shape, scales=ns, orientations=no, settings=kw)


def source(i, n, mode):
    """Index in the image of padded position i, None outside."""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode == "wrap":
        return i % n
    if mode == "reflect":  # edge value not repeated
        p = 2 * (n - 1)
        i %= p
        return i if i < n else p - i
    p = 2 * n  # mirror: edge value repeated
    i %= p
    return i if i < n else p - 1 - i


def model(img, kernel, mode, border, value, half=None):
    if mode == "convolve":
        kernel = kernel[(slice(None, None, -1),) * kernel.ndim]
    half = kernel.shape[0] // 2 if half is None else half
    total = np.zeros(img.shape)
    idx = [[[source(i + d, n, border) for i in range(n)] for d in range(-half, kernel.shape[0] - half)] for n in img.shape]
    for off in itertools.product(range(kernel.shape[0]), repeat=img.ndim):
        k = float(kernel[off])
        if k == 0 and border != "constant":
            continue
        axes = [idx[a][off[a]] for a in range(img.ndim)]
        inside = [np.array([v is not None for v in ax]) for ax in axes]
        take = img[np.ix_(*[[0 if v is None else v for v in ax] for ax in axes])].astype(np.float64)
        ok = inside[0][:, None] & inside[1][None, :] if img.ndim == 2 else (
            inside[0][:, None, None] & inside[1][None, :, None] & inside[2][None, None, :])
        total += np.abs(k * np.where(ok, take, value))
    return total / kernel.size


def correlate(ctx, rng):
    from viqa.utils import correlate_convolve_abs
    nd = pick(rng, [2, 2, 2, 3])
    n = pick(rng, [1, 3, 3, 5, 5, 7, 2, 4]) if nd == 2 else pick(rng, [3, 3, 5, 2])
    shape = tuple(int(v) for v in rng.integers(n + 1, n + 9 if nd == 2 else n + 3, nd))
    dtype = pick(rng, ["float64", "float64", "uint8", "uint16", "int16", "float32"])
    img = to_type(texture(rng, shape), dtype, {"uint8": 255, "uint16": 65535, "int16": 3000}.get(dtype, 1.0))
    if dtype in ("float64", "int16") and chance(rng, 0.5):
        img = (img - img.mean()).astype(dtype)
    kernel = rng.integers(-9, 10, (n,) * nd) if chance(rng, 0.5) else rng.normal(size=(n,) * nd)
    mode = pick(rng, ["correlate", "convolve"])
    border = pick(rng, ["constant", "reflect", "nearest", "mirror", "wrap"])
    value = pick(rng, [0, 0, 5, 100, -7, 0.5, -40.25]) if border == "constant" else 0
    kw = {"mode": mode, "border_mode": border}
    if value:
        kw["value"] = value
    if mode == "correlate" and chance(rng, 0.3):
        kw.pop("mode")
    if border == "constant" and chance(rng, 0.3):
        kw.pop("border_mode")
    src, ker = layout(rng, img), layout(rng, kernel)
    keep = np.array(src), np.array(ker)
    got = correlate_convolve_abs(src, ker, **kw)
    ctx.same(np.asarray(src), keep[0], "the image changed")
    ctx.same(np.asarray(ker), keep[1], "the kernel changed")
    want = model(img, kernel, mode, border, value)
    tol = 1e-5 if dtype == "float32" else 1e-10
    if n % 2 == 0:  # either of the middle pixels may be the centre
        other = model(img, kernel, mode, border, value, n // 2 - 1)
        if np.shape(got) == other.shape and np.allclose(got, other, rtol=tol, atol=tol * float(other.max() + 1e-12)):
            want = other
        ctx.event("even_kernels")
    ctx.close(np.asarray(got), want, "not the mean absolute product of kernel and neighbourhood", rtol=tol,
              atol=tol * float(want.max() + 1e-12), shape=shape, kernel=n, **kw)
    ctx.event("correlations")
    ctx.event(border)
    ctx.event("borders", 1 if value else 0)
    ctx.event("borders", 1)
    ctx.event(mode)
    if nd == 3:
        ctx.event("volumes")
    ctx.key(shape, n, mode, border, value, dtype)
    if chance(rng, 0.15):
        ctx.refused(lambda: correlate_convolve_abs(src, ker, border_mode=pick(rng, ["edge", "none", "", None])),
                    ValueError, "an unknown border mode is accepted")
    ctx.sample(shape=shape, kernel=n, mode=mode, border=border, dtype=dtype)


SETS = {"gsm": 5, "sobel": 3, "prewitt": 3, "scharr": 3}
SMOOTH = {"gsm": [1, 3, 8, 3, 1], "sobel": [1, 2, 1], "prewitt": [1, 1, 1], "scharr": [3, 10, 3]}
NAMES = ["gsm_kernel_" + v for v in "x y z yz1 yz2 xz1 xz2 xy1 xy2 xyz1 xyz2 xyz3 xyz4 2d_x 2d_y 2d_xy 2d_yx".split()]
NAMES += [f"{f}_kernel_{v}" for f in ("sobel", "prewitt", "scharr") for v in ("x", "y", "z", "2d_x", "2d_y")]
AXIS3 = {"x": 0, "y": 1, "z": 2}


def ramp_response(k, axis):
    n = k.shape[axis]
    shape = [1] * k.ndim
    shape[axis] = n
    return float((k * (np.arange(n) - n // 2).reshape(shape)).sum())


def unsigned(a, b):
    return np.array_equal(a, b) or np.array_equal(a, -b)


def one_kernel(ctx, rng):
    from viqa import kernels
    names = NAMES
    name = names[ctx.idx % len(names)]
    k = np.array(getattr(kernels, name)())
    ctx.check(k.sum() == 0, f"{name} responds to a constant image", total=k.sum())
    ctx.check(len(set(k.shape)) == 1 and k.shape[0] % 2 == 1 and np.abs(k).sum() > 0, f"{name} has a wrong size",
              shape=k.shape)
    fam, rest = name.split("_kernel_")
    ctx.check(k.shape[0] == SETS[fam] and k.ndim == (2 if rest.startswith("2d") else 3),
              f"{name} has a wrong size", shape=k.shape)
    axes = rest.replace("2d_", "").rstrip("1234")
    lead = {"x": 1, "y": 0} if rest.startswith("2d") else AXIS3
    resp = {a: ramp_response(k, ax) for a, ax in lead.items()}
    ctx.check(np.array_equal(k, -k[(slice(None, None, -1),) * k.ndim]) or len(axes) == 3,
              f"{name} is no antisymmetric gradient kernel", kernel=k.tolist())
    if len(axes) == 1:
        for a in lead:
            ctx.check((resp[a] != 0) == (a == axes), f"{name} responds along another axis", responses=resp)
        sm = np.array(SMOOTH[fam])
        g = np.abs(np.moveaxis(k, lead[axes], -1))
        if k.ndim == 2:
            ctx.check(np.array_equal(g[:, 1 if fam == "gsm" else 0], sm), f"{name} has other weights",
                      kernel=k.tolist())
        elif fam != "scharr" and axes == "z":
            ctx.check(np.array_equal(g[k.shape[0] // 2][:, 1 if fam == "gsm" else 0], sm),
                      f"{name} has other weights", kernel=k.tolist())
    elif len(axes) == 2:
        for a in lead:
            if k.ndim == 3:
                ctx.check((resp[a] != 0) == (a in axes), f"{name} responds along another axis", responses=resp)
                ctx.check(abs(resp[axes[0]]) == abs(resp[axes[1]]), f"{name} prefers an axis", responses=resp)
    # relations between the versions
    if k.ndim == 3 and len(axes) == 1:
        z = np.array(getattr(kernels, fam + "_kernel_z")())
        ctx.check(unsigned(np.moveaxis(k, lead[axes], 2), z) or
                  unsigned(np.swapaxes(k, lead[axes], 2), z), f"{name} is not the z kernel along {axes}",
                  kernel=k.tolist())
    elif k.ndim == 2 and len(axes) == 1:
        o = np.array(getattr(kernels, f"{fam}_kernel_2d_{'y' if axes == 'x' else 'x'}")())
        ctx.check(unsigned(k.T, o), f"{name} is not the other axis' kernel transposed", kernel=k.tolist())
    elif k.ndim == 2:
        o = np.array(getattr(kernels, f"{fam}_kernel_2d_{axes[::-1]}")())
        ctx.check(unsigned(k[:, ::-1], o) or unsigned(k[::-1], o), f"{name} is not the other diagonal mirrored",
                  kernel=k.tolist())
    else:
        base = np.array(getattr(kernels, fam + ("_kernel_yz1" if len(axes) == 2 else "_kernel_xyz1"))())
        turned = [np.transpose(base, p)[tuple(slice(None, None, s) for s in sg)]
                  for p in itertools.permutations(range(3)) for sg in itertools.product([1, -1], repeat=3)]
        ctx.check(any(unsigned(k, t) for t in turned), f"{name} is no turned version of its base kernel",
                  kernel=k.tolist())
    # versions of one family differ, and each call gives its own array
    if len(axes) >= 2 and k.ndim == 3:
        fam_names = [n for n in names if n.split("_kernel_")[0] == fam and n.split("_kernel_")[1].rstrip("1234") == axes]
        for n in fam_names:
            if n != name:
                ctx.check(not np.array_equal(k, np.array(getattr(kernels, n)())), f"{name} and {n} are equal")
    first = getattr(kernels, name)()
    try:
        first[...] = 7
    except ValueError:
        pass
    ctx.same(np.array(getattr(kernels, name)()), k, f"changing a returned {name} changes later ones")
    ctx.event("kernels")
    ctx.key(name)


def applied(ctx, rng):
    """Kernels used as filters: zero on constants, exact slope response on ramps."""
    from scipy.ndimage import correlate as nd_correlate

    from viqa import kernels
    name = NAMES[ctx.idx % len(NAMES)]
    k = getattr(kernels, name)()
    shape = tuple(int(v) for v in rng.integers(k.shape[0] + 1, k.shape[0] + 6, k.ndim))
    c = float(rng.uniform(-50, 50))
    res = nd_correlate(np.full(shape, c), np.asarray(k, float), mode="nearest")
    ctx.close(res, np.zeros(shape), f"{name} responds to a constant image", atol=1e-9)
    ctx.event("applied")
    ctx.key(name, shape)


SCALE = 4
KINDS = [("bank", bank, 260, 8), ("correlate", correlate, 700, 8), ("kernel", one_kernel, 128, 1),
         ("applied", applied, 140, 2)]
