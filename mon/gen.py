"""Workload generators shared by the property modules."""
import os

import numpy as np

INTS = ["uint8", "uint16", "uint32", "int8", "int16", "int32"]
BITS = {"uint8": ["8bit", "8ubit"], "uint16": ["16bit", "16ubit"],
        "uint32": ["32bit", "32ubit"], "float16": ["16fbit"],
        "float32": ["32fbit"], "float64": ["64fbit"]}
MET = {"uint8": "MET_UCHAR", "uint16": "MET_USHORT", "uint32": "MET_UINT",
       "float32": "MET_FLOAT", "float64": "MET_DOUBLE"}


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def texture(rng, shape):
    """A textured image in [0, 1] without constant regions."""
    grids = np.meshgrid(*[np.linspace(0, 1, n, endpoint=False) for n in shape], indexing="ij")
    img = np.zeros(shape)
    for _ in range(int(rng.integers(1, 4))):
        f = rng.uniform(0.3, 6, len(shape))
        ph = rng.uniform(0, 6.3)
        img += rng.uniform(0.2, 1) * np.sin(2 * np.pi * sum(a * b for a, b in zip(f, grids)) + ph)
    if chance(rng, 0.5):
        c = rng.random(len(shape))
        r = rng.uniform(0.1, 0.4)
        img += 1.5 * (sum((g - a) ** 2 for g, a in zip(grids, c)) < r * r)
    img += rng.uniform(0.1, 0.7) * rng.standard_normal(shape)
    lo, hi = img.min(), img.max()
    return (img - lo) / (hi - lo) if hi > lo else np.full(shape, 0.5)


def to_type(img01, dtype, top):
    dtype = np.dtype(dtype)
    if dtype.kind in "ui":
        return np.clip(np.round(img01 * top), 0, top).astype(dtype)
    return (img01 * top).astype(dtype)


def distort(rng, img01, how=None):
    how = how or pick(rng, ["noise", "blur", "scale", "offset", "spots", "mix", "other", "faint"])
    from scipy.ndimage import gaussian_filter
    if how == "noise":
        out = img01 + rng.uniform(0.02, 0.3) * rng.standard_normal(img01.shape)
    elif how == "blur":
        out = gaussian_filter(img01, rng.uniform(0.5, 2.5))
    elif how == "scale":
        out = img01 * rng.uniform(0.4, 0.95)
    elif how == "offset":
        out = img01 * 0.8 + rng.uniform(0.02, 0.2)
    elif how == "spots":
        out = img01.copy()
        m = rng.random(img01.shape) < 0.05
        m.flat[int(rng.integers(m.size))] = True
        out[m] = 1 - out[m]
    elif how == "faint":
        out = img01 + 0.004 * rng.standard_normal(img01.shape)
    elif how == "mix":
        out = 0.6 * img01 + 0.4 * texture(rng, img01.shape)
    elif how == "same":
        out = img01.copy()
    else:
        out = texture(rng, img01.shape)
    return np.clip(out, 0, 1)


def pair(rng, shape, dtype="uint8", top=255, how=None):
    a = texture(rng, shape)
    b = distort(rng, a, how)
    return to_type(a, dtype, top), to_type(b, dtype, top)


def layout(rng, arr, kind=None):
    """The same values in another memory layout."""
    kind = kind or pick(rng, ["C", "F", "strided", "reversed", "transposed", "offset"])
    if kind == "C":
        return np.ascontiguousarray(arr)
    if kind == "F":
        return np.asfortranarray(arr)
    if kind == "strided":
        big = np.zeros([2 * n for n in arr.shape], arr.dtype)
        v = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        v[...] = arr
        return v
    if kind == "reversed":
        sl = tuple(slice(None, None, -1) for _ in arr.shape)
        return np.ascontiguousarray(arr[sl])[sl]
    if kind == "transposed":
        perm = list(rng.permutation(arr.ndim))
        inv = list(np.argsort(perm))
        return np.ascontiguousarray(arr.transpose(perm)).transpose(inv)
    big = np.zeros([n + 3 for n in arr.shape], arr.dtype)
    v = big[tuple(slice(1, 1 + n) for n in arr.shape)]
    v[...] = arr
    return v


LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "offset"]


# -- files ---------------------------------------------------------------------
def write_raw(folder, stem, arr, token):
    """arr is (X, Y, Z); x varies fastest in the file."""
    name = f"{stem}_{arr.shape[0]}x{arr.shape[1]}x{arr.shape[2]}_{token}.raw"
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(np.ascontiguousarray(arr.transpose(2, 1, 0)).tobytes())
    return path


def write_mhd(folder, stem, arr):
    data = stem + ".bin"
    with open(os.path.join(folder, data), "wb") as f:
        f.write(np.ascontiguousarray(arr.transpose(2, 1, 0)).tobytes())
    path = os.path.join(folder, stem + ".mhd")
    with open(path, "w") as f:
        f.write("ObjectType = Image\nNDims = 3\n"
                f"DimSize = {arr.shape[0]} {arr.shape[1]} {arr.shape[2]}\n"
                f"ElementType = {MET[arr.dtype.name]}\n"
                f"ElementDataFile = {data}\n")
    return path


def write_nifti(folder, stem, arr, gz=False):
    import nibabel as nib
    path = os.path.join(folder, stem + (".nii.gz" if gz else ".nii"))
    nib.save(nib.Nifti1Image(np.ascontiguousarray(arr), np.eye(4)), path)
    return path


def write_raster(folder, stem, arr, ext):
    from PIL import Image
    path = os.path.join(folder, stem + ext)
    if ext == ".tiff":
        import tifffile
        tifffile.imwrite(path, np.ascontiguousarray(arr),
                         photometric="rgb" if arr.ndim == 3 else "minisblack")
    else:
        Image.fromarray(np.ascontiguousarray(arr)).save(path)
    return path


def roi_inside(rng, shape, least=1, full=0.2):
    out = []
    for n in shape:
        if chance(rng, full) or n <= least:
            out.append((0, int(n)))
        else:
            size = int(rng.integers(least, n + 1))
            a = int(rng.integers(0, n - size + 1))
            out.append((a, a + size))
    return out


def ranged(rng, top):
    """The data range of a metric, left out at times where it is the documented default."""
    return {} if top == 255 and chance(rng, 0.4) else {"data_range": top}
