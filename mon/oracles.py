"""Reference models, written from the definitions and independent of the repository."""
import numpy as np
from numpy.lib.stride_tricks import sliding_window_view


# -- SSIM ------------------------------------------------------------------------
def _valid(img, w1d):
    """Separable weighted mean over all full window positions."""
    out = img
    for ax in range(img.ndim):
        out = sliding_window_view(out, len(w1d), axis=ax) @ w1d
    return out


def ssim_window(gaussian, sigma=1.5, win_size=None):
    if gaussian:
        r = int(3.5 * sigma + 0.5)
        x = np.arange(-r, r + 1)
        w = np.exp(-x * x / (2 * sigma * sigma))
        return w / w.sum()
    n = win_size or 7
    return np.full(n, 1 / n)


def ssim(a, b, data_range, gaussian=True, sigma=1.5, win_size=None, K1=0.01, K2=0.03,
         alpha=1, beta=1, gamma=1):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    w = ssim_window(gaussian, sigma, win_size)
    n = len(w) ** a.ndim
    norm = 1.0 if gaussian else n / (n - 1)
    # variances about a common offset, to keep the reference itself exact
    off = a.mean()
    a0, b0 = a - off, b - off
    ua, ub = _valid(a0, w), _valid(b0, w)
    va = norm * np.maximum(_valid(a0 * a0, w) - ua * ua, 0)
    vb = norm * np.maximum(_valid(b0 * b0, w) - ub * ub, 0)
    cov = norm * (_valid(a0 * b0, w) - ua * ub)
    ua, ub = ua + off, ub + off
    c1, c2 = (K1 * data_range) ** 2, (K2 * data_range) ** 2
    c3 = c2 / 2
    sa, sb = np.sqrt(va), np.sqrt(vb)

    def ratio(p, q):
        with np.errstate(all="ignore"):
            return np.where(q == 0, 1.0, p / q)
    lum = ratio(2 * ua * ub + c1, ua ** 2 + ub ** 2 + c1)
    con = ratio(2 * sa * sb + c2, va + vb + c2)
    stru = ratio(cov + c3, sa * sb + c3)
    return float(np.mean(lum ** alpha * con ** beta * stru ** gamma))


# -- GSM -------------------------------------------------------------------------
K5 = np.array([1, 3, 8, 3, 1])
GSM_2D = [
    [[0, -1, 0, 1, 0], [0, -3, 0, 3, 0], [0, -8, 0, 8, 0], [0, -3, 0, 3, 0], [0, -1, 0, 1, 0]],
    [[0, 0, 0, 0, 0], [-1, -3, -8, -3, -1], [0, 0, 0, 0, 0], [1, 3, 8, 3, 1], [0, 0, 0, 0, 0]],
    [[0, 0, -1, 0, 0], [0, 0, -3, -8, 0], [-1, -3, 0, 3, 1], [0, 8, 3, 0, 0], [0, 0, 1, 0, 0]],
    [[0, 0, -1, 0, 0], [0, -8, -3, 0, 0], [1, 3, 0, -3, -1], [0, 0, 3, 8, 0], [0, 0, 1, 0, 0]],
]


def correlate_reflect(img, kernel):
    """Plain correlation, edges mirrored including the edge pixel."""
    k = np.asarray(kernel, np.float64)
    r = [n // 2 for n in k.shape]
    p = np.pad(np.asarray(img, np.float64), [(x, x) for x in r], mode="symmetric")
    win = sliding_window_view(p, k.shape)
    return np.tensordot(win, k, axes=k.ndim)


def gsm(a, b, kernels, data_range=255, c=200, p=0.1):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    ga = [correlate_reflect(a, k) for k in kernels]
    gb = [correlate_reflect(b, k) for k in kernels]

    def strength(g):
        return np.mean(np.abs(g))
    sa, sb = [strength(g) for g in ga], [strength(g) for g in gb]
    ia, ib = int(np.argmax(sa)), int(np.argmax(sb))
    x, y = ga[ia], gb[ib]
    # how clear the choice of the largest gradients was (ties are ambiguous)
    margin = min(_margin(sa), _margin(sb), abs(sa[ia] - sb[ib]) / max(sa[ia], sb[ib]))
    with np.errstate(all="ignore"):
        k = c / max(x.max(), y.max())
        big = x if sa[ia] >= sb[ib] else y
        r = np.abs(x - y) / big
        s = (2 * (1 - r) + k) / (1 + (1 - r) ** 2 + k)
        lum = 1 - ((a - b) / data_range) ** 2
        wgt = p * s
        return float(np.nanmean((1 - wgt) * s + wgt * lum)), margin


def _margin(v):
    v = sorted(v, reverse=True)
    return (v[0] - v[1]) / v[0] if v[0] > 0 else 0.0


# -- block statistics --------------------------------------------------------------
def blocks(img, size, stride):
    """{(i, j): block} of all block positions."""
    n, m = img.shape
    return {(i, j): img[i:i + size, j:j + size]
            for i in range(0, n - size + 1, stride) for j in range(0, m - size + 1, stride)}


def block_stats(img, size, stride):
    img = np.asarray(img, np.float64)
    out = [np.zeros(img.shape) for _ in range(3)]
    for (i, j), blk in blocks(img, size, stride).items():
        d = blk - blk.mean()
        m2 = np.mean(d ** 2)
        sd = np.sqrt(np.sum(d ** 2) / (blk.size - 1))
        if blk.min() == blk.max():
            sd, sk, ku = 0.0, 0.0, 0.0
        else:
            sk, ku = np.mean(d ** 3) / m2 ** 1.5, np.mean(d ** 4) / m2 ** 2
        for o, v in zip(out, (sd, sk, ku)):
            o[i:i + stride, j:j + stride] = v
    return out


# -- log-Gabor bank ----------------------------------------------------------------
def gabor_bank(shape, scales, orientations, min_wavelength=3, mult=3, sigma_on_f=0.55,
               d_theta_on_sigma=1.5):
    rows, cols = shape

    def axis(n):
        if n % 2 == 0:
            return np.arange(-n // 2, n // 2) / (n / 2)
        return (np.arange(n) * n / (n - 1) - n / 2) / (n / 2) if n > 1 else np.array([-1.0])
    x, y = np.meshgrid(axis(cols), axis(rows))
    rad = np.hypot(x, y)
    rad[rad == 0] = 1
    theta = np.arctan2(-y, x)
    ts = np.pi / orientations / d_theta_on_sigma
    res = {}
    for o in range(orientations):
        ang = o * np.pi / orientations
        d = np.abs(np.angle(np.exp(1j * (theta - ang))))
        spread = np.exp(-d ** 2 / (2 * ts ** 2))
        for s in range(scales):
            f0 = 2.0 / (min_wavelength * mult ** s)
            lg = np.exp(-np.log(rad / f0) ** 2 / (2 * np.log(sigma_on_f) ** 2))
            lg[rows // 2, cols // 2] = 0
            H = np.fft.fftshift(lg * spread)
            H[0, 0] = 0
            res[s, o] = H
    return res


def gabor(img, *args, **kw):
    F = np.fft.fft2(np.asarray(img, np.float64))
    return {k: np.fft.ifft2(F * H) for k, H in gabor_bank(img.shape, *args, **kw).items()}


# -- MAD ---------------------------------------------------------------------------
def min_std(img, size, stride, reading=0):
    """Smallest block deviation around each block; two readings of the neighbourhood."""
    img = np.asarray(img, np.float64)
    sd = block_stats(img, size, stride)[0]
    out = np.zeros(img.shape)
    n, m = img.shape
    for (i, j) in blocks(img, size, stride):
        val = sd[i, j]
        top_u = size // 2 if reading == 0 else min(i + size // 2, n)
        top_v = size // 2 if reading == 0 else min(j + size // 2, m)
        for u in range(i, top_u, stride + 1):
            for v in range(j, top_v, stride + 1):
                if reading == 1 and sd[u, v] == 0:
                    continue
                val = min(val, sd[u, v])
        out[i:i + stride, j:j + stride] = val
    return out


def csf_filter(shape, nfreq, lambda_csf=0.114, f_peak=7.8909):
    m, n = shape
    x = np.arange(n) - n / 2 + 0.5
    y = np.arange(m) - m / 2 + 0.5
    X, Y = np.meshgrid(x, y)
    X, Y = X * 2 * nfreq / n, Y * 2 * nfreq / n
    r = np.hypot(X, Y)
    th = np.arctan2(Y, X)
    w = 0.7
    r = r / ((1 - w) / 2 * np.cos(4 * th) + (1 + w) / 2)
    H = 2.6 * (0.0192 + lambda_csf * r) * np.exp(-(lambda_csf * r) ** 1.1)
    H[r < f_peak] = 0.9809
    return H


def mad(a, b, block_size=16, block_overlap=0.75, beta_1=0.467, beta_2=0.13, thresh_1=None,
        thresh_2=None, account_monitor=False, display_function=None, csf_function=None,
        luminance_function=None, ms_scale=1, orientations_num=4, scales_num=5, weights=None,
        reading=0, data_range=255, parts=False):
    A, B = np.asarray(a, np.float64), np.asarray(b, np.float64)
    stride = block_size - int(block_overlap * block_size)
    if thresh_1 and thresh_2:
        beta_1 = np.exp(-thresh_1 / thresh_2)
        beta_2 = 1 / (np.log(10) * thresh_2)
    # detection
    freq = 32
    if account_monitor:
        freq = display_function["disp_res"] * display_function["view_dis"] * np.tan(np.pi / 180) / 2
    H = csf_filter(A.shape, freq, **(csf_function or {}))
    lf = {"b": 0, "k": 0.02874, "gamma": 2.2, **(luminance_function or {})}

    def percept(x):
        L = lf["b"] + lf["k"] * x ** (lf["gamma"] / 3)
        F = np.fft.fftshift(np.fft.fft2(L))
        return np.real(np.fft.ifft2(np.fft.ifftshift(F * H)))
    org = percept(A)
    err = percept(B) - org
    mu, sderr = np.zeros(A.shape), np.zeros(A.shape)
    eb = blocks(err, block_size, stride)
    for (i, j), blk in blocks(org, block_size, stride).items():
        mu[i:i + stride, j:j + stride] = blk.mean()
        sderr[i:i + stride, j:j + stride] = eb[i, j].std(ddof=1)
    with np.errstate(all="ignore"):
        ci_org = np.log(min_std(org, block_size, stride, reading) / mu)
        c_err = np.where(mu > 0.5, sderr / mu, 0)
        ci_err = np.log(c_err)
        msk = np.zeros(A.shape)
        c1 = (ci_err > ci_org) & (ci_org > -5)
        c2 = (ci_err > -5) & (ci_org <= -5)
        msk[c1] = (ci_err - ci_org)[c1]
        msk[c2] = ci_err[c2] + 5
    msk /= ms_scale
    se = (A - B) ** 2
    # window mean as scipy centres it for even sizes
    half = block_size // 2
    lo = block_size - 1 - half
    p = np.pad(se, [(lo, half)] * 2, mode="symmetric")
    mse = sliding_window_view(p, (block_size, block_size)).mean(axis=(2, 3))
    mp = (msk * mse)[block_size:-block_size, block_size:-block_size]
    det = 200 * np.sqrt(np.mean(mp ** 2))
    # appearance
    w = np.array([0.5, 0.75, 1, 5, 6] if weights is None else weights, float)
    w = w / w.sum()
    ga, gb = gabor(A, scales_num, orientations_num), gabor(B, scales_num, orientations_num)
    st = np.zeros(A.shape)
    for s in range(scales_num):
        for o in range(orientations_num):
            x = block_stats(np.abs(ga[s, o]), block_size, stride)
            y = block_stats(np.abs(gb[s, o]), block_size, stride)
            st += w[s] * (np.abs(x[0] - y[0]) + 2 * np.abs(x[1] - y[1]) + np.abs(x[2] - y[2]))
    st = st[block_size:-block_size, block_size:-block_size]
    app = np.sqrt(np.mean(st ** 2))
    alpha = 1 / (1 + beta_1 * det ** beta_2)
    val = det ** alpha * app ** (1 - alpha)
    return (val, det, app) if parts else val
