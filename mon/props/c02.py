"""C02: malformed files and unsupported inputs are refused."""
import os
import pathlib

import numpy as np

from gen import BITS, MET, chance, pick, write_mhd, write_raw

RULE = ("valid volumes damaged at every position (each shorter and several longer file lengths), "
        "names and headers with a missing, unsupported or contradicting entry, unsupported "
        "extensions, arrays and tensors of 0, 1, 4 or 5 dimensions, inputs of other kinds; each must "
        "raise ValueError, and the undamaged twin must load; distinct by damage and dimensions")
NEED = {"refusals": 2000, "controls": 200, "truncations": 500}


def vol(rng, dtype):
    shape = tuple(int(v) for v in rng.integers(1, 6, 3))
    return rng.integers(0, 200, shape).astype(dtype)


def sizes(ctx, rng):
    """Every wrong file length is refused; the right one loads the whole image."""
    import viqa
    if chance(rng, 0.5):
        dtype = pick(rng, list(BITS))
        arr = vol(rng, dtype)
        load = data = write_raw(ctx.scratch, "v", arr, pick(rng, BITS[dtype]))
    else:
        dtype = pick(rng, list(MET))
        arr = vol(rng, dtype)
        load = write_mhd(ctx.scratch, "v", arr)
        data = os.path.join(ctx.scratch, "v.bin")
    full = open(data, "rb").read()
    got = viqa.load_data(load)
    ctx.check(got.shape == arr.shape and np.array_equal(got, arr), "control does not load")
    ctx.event("controls")
    n = len(full)
    if n <= 48:
        lengths = list(range(n))
    else:
        lengths = sorted({0, 1, n // 2, n - 1, n - arr.itemsize, n - arr.itemsize - 1,
                          *[int(v) for v in rng.integers(0, n, 20)]})
    lengths += [n + 1, n + 2, n + 3, n + arr.itemsize, n + 2 * arr.itemsize - 1, 2 * n, n + 4096]
    for length in sorted(set(lengths) - {n}):
        with open(data, "wb") as f:
            f.write((full * (length // max(n, 1) + 1) + b"\7" * length)[:length])
        ctx.refused(lambda: viqa.load_data(load), ValueError,
                    f"volume of {n} bytes with a data file of {length} bytes",
                    dims=arr.shape, type=dtype)
        ctx.event("truncations")
    # dimensions that do not fit the data
    ctx.key(arr.shape, dtype, os.path.splitext(load)[1])
    ctx.sample(dims=arr.shape, type=dtype, full=n, lengths=lengths[:8])


def names(ctx, rng):
    import viqa
    arr = vol(rng, "uint8")
    x, y, z = arr.shape
    size = f"{x}x{y}x{z}"
    bad = pick(rng, [
        f"v_{size}.raw", "v_8bit.raw", "v.raw", f"v_{x}x{y}_8bit.raw", f"v_{size}_12bit.raw",
        f"v_{size}_64bit.raw", f"v_{size}_8fbit.raw", f"v_{size}_24bit.raw", f"v_{size}_1bit.raw",
        f"v_{size}_64ubit.raw", f"v_{size}_16.raw", f"v_{x}_{y}_{z}_8bit.raw", f"v_{x}x{y}x_8bit.raw",
        f"v_{size}_128bit.raw", f"v_{size}_bit.raw", f"v_{size}_0bit.raw", f"{x + 1}x{y}x{z}_8bit.raw",
        f"{x}x{y + 1}x{z}_8bit.raw", f"{x}x{y}x{z + 1}_8bit.raw", f"{size}_16bit.raw",
        f"{size}_32fbit.raw"])
    path = os.path.join(ctx.scratch, bad)
    with open(path, "wb") as f:
        f.write(arr.tobytes())
    ctx.refused(lambda: viqa.load_data(pick(rng, [str, pathlib.Path])(path)), ValueError,
                f"raw file name {bad}")
    for metric, args in ((viqa.RMSE(), (path, path)), (viqa.CNR(), (path,))):
        kw = {} if len(args) == 2 else {"signal_center": (1, 1, 1), "background_center": (1, 1, 1),
                                        "radius": 1}
        ctx.refused(lambda: metric.score(*args, **kw), ValueError, f"scoring file {bad}")
        ctx.check(metric.score_val is None, "a refused load stored a score")
    ctx.key(bad)
    ctx.sample(name=bad)


def headers(ctx, rng):
    import viqa
    dtype = pick(rng, list(MET))
    arr = vol(rng, dtype)
    path = write_mhd(ctx.scratch, "v", arr)
    got = viqa.load_data(path)
    ctx.check(np.array_equal(got, arr), "control does not load")
    ctx.event("controls")
    lines = open(path).read().strip().split("\n")
    n, (x, y, z) = arr.nbytes, arr.shape
    head = {ln.split("=")[0].strip(): ln.split("=")[1].strip() for ln in lines}
    how = int(rng.integers(7))
    if how == 0:
        del head["DimSize"]
    elif how == 1:
        del head["ElementType"]
    elif how == 2:
        del head["ElementDataFile"]
    elif how == 3:
        head["ElementType"] = pick(rng, ["MET_FOO", "uint8", "", "MET_STRING", "MET_", "float",
                                         "MET_UCHAR_ARRAY", "MET_OTHER"])
    elif how == 4:
        head["DimSize"] = pick(rng, ["", "a b c", "1.5 2 3", f"{x} {y}", f"{x} {y} {z} 2",
                                     f"{x} {y} {z} 1", f"{-x} {-y} {z}", f"{x},{y},{z}"])
        if head["DimSize"] == f"{x} {y}" and z != 1:
            pass
    elif how == 5:
        k = int(rng.integers(3))
        d = [x, y, z]
        d[k] += pick(rng, [1, 2, 7])
        head["DimSize"] = " ".join(map(str, d))
    else:
        others = [t for t in MET if np.dtype(t).itemsize != arr.itemsize]
        head["ElementType"] = MET[pick(rng, others)]
    keys = list(head)
    keys = [keys[i] for i in rng.permutation(len(keys))]
    with open(path, "w") as f:
        f.write("\n".join(f"{k} = {head[k]}" for k in keys) + "\n")
    ctx.refused(lambda: viqa.load_data(path), ValueError, "damaged MHD header", header=head)
    ctx.key(how, tuple(sorted(head.items())))
    ctx.sample(header=head)


def kinds(ctx, rng):
    import torch
    import viqa
    how = int(rng.integers(7))
    arr = vol(rng, "uint8")
    if how == 6:  # normalization without a range to normalize to
        dtype = pick(rng, ["uint8", "uint16", "float32"])
        a = vol(rng, dtype) if chance(rng, 0.5) else vol(rng, dtype)[0]
        form = pick(rng, ["array", "tensor", "image", "file"])
        if form == "file":
            a = write_raw(ctx.scratch, "n", vol(rng, "uint8"), "8bit")
        elif form != "array":
            a = torch.tensor(a.astype("float32")) if form == "tensor" else viqa.ImageArray(a)
        kw = pick(rng, [{}, {"data_range": None}])
        ctx.refused(lambda: viqa.load_data(a, normalize=True, **kw), ValueError,
                    f"normalization of a {form} without a data range")
        ctx.key("norange", form, dtype)
        return
    if how == 0:
        ext = pick(rng, [".txt", ".npy", ".dcm", ".vol", ".mha", "", ".csv", ".raw2", ".mh", ".gz",
                         ".tar.gz", ".zip", ".webp", ".raw.gz", "_nii.gz", ".nii.tar.gz", "nii.gz", ".nii.raw.gz",
                         ".raw_old", ".raw~", ".mhd-1", ".nii_2", ".raw ", ".xraw"])
        path = os.path.join(ctx.scratch, f"v_{arr.shape[0]}x{arr.shape[1]}x{arr.shape[2]}_8bit{ext}")
        with open(path, "wb") as f:
            f.write(arr.tobytes())
        ctx.refused(lambda: viqa.load_data(path), ValueError, f"extension {ext}")
        ctx.key("ext", ext)
        return
    if how in (1, 2):
        nd = pick(rng, [0, 1, 4, 5])
        a = np.ones([int(v) for v in rng.integers(1, 4, nd)], pick(rng, ["uint8", "float32"]))
        form = pick(rng, ["array", "tensor", "image"])
        a = {"array": lambda: a, "tensor": lambda: torch.tensor(a),
             "image": lambda: viqa.ImageArray(a)}[form]()
        ctx.refused(lambda: viqa.load_data(a), ValueError, f"{nd}-dimensional {form}")
        ctx.refused(lambda: viqa.RMSE().score(a, a), ValueError, f"RMSE of {nd}-dimensional {form}")
        ctx.key("ndim", nd, form, tuple(a.shape))
        return
    if how == 3:  # a NIfTI file with four dimensions
        import nibabel as nib
        path = os.path.join(ctx.scratch, "v.nii")
        nib.save(nib.Nifti1Image(np.ones((3, 4, 2, 2), np.uint8), np.eye(4)), path)
        ctx.refused(lambda: viqa.load_data(path), ValueError, "four-dimensional NIfTI file")
        ctx.key("nii4d")
        return
    bad = [None, 5, 3.25, {"a": 1}, {1, 2}, b"v_1x1x1_8bit.raw", [1, 2], [[1, 2], [3, 4]],
           (np.ones((3, 3)), np.ones((3, 3))), object(), np.float64(3), True, range(4), "".encode()]
    k = int(rng.integers(len(bad)))
    ctx.refused(lambda: viqa.load_data(bad[k]), ValueError, f"input {bad[k]!r}")
    good = np.ones((4, 4))
    ctx.refused(lambda: viqa.RMSE().score(good, bad[k]), ValueError, f"RMSE of array and {bad[k]!r}")
    ctx.key("kind", k)
    ctx.sample(input=repr(bad[k]))


SCALE = 4
KINDS = [("sizes", sizes, 240, 12), ("names", names, 400, 5), ("headers", headers, 500, 10),
         ("kinds", kinds, 400, 5)]
