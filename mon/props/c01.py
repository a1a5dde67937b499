"""C01: raw and MHD volumes load voxel for voxel."""
import os
import pathlib

import numpy as np

from gen import BITS, MET, chance, pick

RULE = ("random volumes (1..14 per axis, slabs, needles, single voxels, some large) of every "
        "supported type filled with random bit patterns, stored under random raw names or MHD "
        "headers (key order, spacing, blank lines, extra keys, no final newline); each voxel read "
        "back from the file at its own offset is compared with the loaded element; histories of volumes stored "
        "anew under the same names, partly with the same size and times; non-trivial: "
        "at least two voxels; distinct by format, type, dimensions and name or header form")
ASSUME = ["files are little-endian, as the sandbox"]
NEED = {"voxels": 50_000, "stored_anew": 300, "raw": 150, "mhd": 150}

STEMS = ["vol", "scan-07", "a b", "sample.v2", "120kV_500uA", "x", "Recon_2024-05-01", "3D_scan"]


def dims(rng):
    how = int(rng.integers(6))
    if how == 0:
        d = [1, 1, 1]
        d[int(rng.integers(3))] = int(rng.integers(1, 1200))
        return d
    if how == 1:
        d = [int(v) for v in rng.integers(1, 15, 3)]
        d[int(rng.integers(3))] = int(rng.choice([1, 3]))
        return d
    if how == 2:
        n = int(rng.integers(1, 10))
        return [n, n, n]
    return [int(v) for v in rng.integers(1, 15, 3)]


def bits(rng, dtype, n):
    return rng.integers(0, 256, n * np.dtype(dtype).itemsize, dtype=np.uint8).tobytes()


def compare(ctx, rng, img, path, dtype, d, what):
    dtype = np.dtype(dtype)
    X, Y, Z = d
    ctx.check(tuple(img.shape) == (X, Y, Z), what + ": shape", got=img.shape, want=d)
    ctx.check(np.asarray(img).dtype == dtype, what + ": type", got=img.dtype, want=dtype)
    data = open(path, "rb").read()
    want = np.frombuffer(data, dtype).reshape(Z, Y, X).transpose(2, 1, 0)
    got = np.ascontiguousarray(np.asarray(img))
    bad = got.view(np.uint8).reshape(X, Y, Z, -1) != np.ascontiguousarray(want).view(
        np.uint8).reshape(X, Y, Z, -1)
    ctx.check(not bad.any(), what + ": voxels differ", count=int(bad.any(-1).sum()),
              first=np.argwhere(bad)[:1].tolist(), dims=d)
    for _ in range(4):  # the position formula itself, spelled out
        x, y, z = (int(rng.integers(n)) for n in d)
        off = (x + X * (y + Y * z)) * dtype.itemsize
        ctx.check(got[x, y, z].tobytes() == data[off:off + dtype.itemsize],
                  what + ": voxel is not the stored one", at=(x, y, z), dims=d)
    ctx.event("voxels", X * Y * Z)


def raw(ctx, rng, d=None):
    import viqa
    dtype = pick(rng, list(BITS))
    token = pick(rng, BITS[dtype])
    d = d or dims(rng)
    size = f"{d[0]}x{d[1]}x{d[2]}"
    stem = pick(rng, STEMS)
    form = int(rng.integers(4))
    name = [f"{stem}_{size}_{token}.raw", f"{token}_{stem}_{size}.raw", f"{size}-{token}.raw",
            f"{stem}_{size}_{token}_final.raw"][form]
    folder = os.path.join(ctx.scratch, pick(rng, ["d", "run_9x9x9_8bit", "a b"]))
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(bits(rng, dtype, d[0] * d[1] * d[2]))
    img = viqa.load_data(path)
    compare(ctx, rng, img, path, dtype, d, f"raw {name}")
    ctx.check(isinstance(img, viqa.ImageArray), "load_data does not return an ImageArray")
    how = int(rng.integers(3))
    if how == 0:
        img = viqa.load_data(pathlib.Path(path))
    elif how == 1:
        img = viqa.utils.load_raw(folder, name)
    else:
        old = os.getcwd()
        os.chdir(folder)
        try:
            img = viqa.load_data(name)
        finally:
            os.chdir(old)
    compare(ctx, rng, img, path, dtype, d, f"raw {name}, access {how}")
    ctx.event("raw")
    if np.prod(d) > 1:
        ctx.key(dtype, tuple(d), form)
    ctx.sample(name=name, dims=d, type=dtype, form=form)


def mhd(ctx, rng, d=None):
    import viqa
    dtype = pick(rng, list(MET))
    d = d or dims(rng)
    sub = pick(rng, ["", "", "data"])
    data_name = pick(rng, ["vol.raw", "vol.bin", "a b.raw", "run=2.raw", "run = 2.raw", "vol_1x1x1_8bit.raw"])
    folder = os.path.join(ctx.scratch, "m")
    os.makedirs(os.path.join(folder, sub), exist_ok=True)
    data_path = os.path.join(folder, sub, data_name)
    with open(data_path, "wb") as f:
        f.write(bits(rng, dtype, d[0] * d[1] * d[2]))
    eq = pick(rng, [" = ", "=", " =", "= ", "  =   "])
    keys = [("DimSize", pick(rng, [" ", "  "]).join(map(str, d))), ("ElementType", MET[dtype]),
            ("ElementDataFile", os.path.join(sub, data_name))]
    extra = [("ObjectType", "Image"), ("NDims", "3"), ("ElementSpacing", "0.5 0.5 1"),
             ("BinaryDataByteOrderMSB", "False"), ("Comment", "size = 9 9 9"),
             ("Offset", "0 0 0"), ("ElementNumberOfChannels", "1"), ("CompressedData", "False")]
    for e in extra:
        if chance(rng, 0.4):
            keys.append(e)
    if chance(rng, 0.7):
        keys = [keys[i] for i in rng.permutation(len(keys))]
    lines = []
    for k, v in keys:
        if chance(rng, 0.1):
            lines.append("")
        lines.append(k + eq + v + ("  " if chance(rng, 0.2) else ""))
    end = pick(rng, ["\n", "", "\n\n"])
    nl = pick(rng, ["\n", "\n", "\r\n"])
    path = os.path.join(folder, pick(rng, ["v.mhd", "scan_2x2x2_16bit.mhd", "a.b.mhd"]))
    with open(path, "w", newline="") as f:
        f.write(nl.join(lines) + end)
    img = viqa.load_data(pick(rng, [str, pathlib.Path])(path))
    compare(ctx, rng, img, data_path, dtype, d, f"mhd {lines} end={end!r}")
    img = viqa.utils.load_mhd(folder, os.path.basename(path))
    compare(ctx, rng, img, data_path, dtype, d, "mhd direct")
    ctx.event("mhd")
    if np.prod(d) > 1:
        ctx.key(dtype, tuple(d), eq, end, tuple(k for k, _ in keys))
    ctx.sample(header=lines, end=end, dims=d, type=dtype)


def large(ctx, rng):
    d = [int(v) for v in rng.integers(60, 160, 3)]
    (raw if chance(rng, 0.5) else mhd)(ctx, rng, d)
    ctx.event("large")


def history(ctx, rng):
    """Volumes stored, loaded and stored anew under the same names: what is loaded is what is stored then."""
    import viqa
    folder = os.path.join(ctx.scratch, "h")
    os.makedirs(folder)
    base = [int(v) for v in rng.permutation([2, 3, 4, 5, 6])[:3]]
    size = "x".join(map(str, base))
    state = {}
    kept = []
    stamp = 1_600_000_000_000_000_000 if chance(rng, 0.7) else None  # files may keep their times
    for step in range(int(rng.integers(3, 9))):
        how = pick(rng, ["raw", "mhd", "mhd"])
        if how == "raw":
            dtype = "uint16"
            d = base
            head = data = os.path.join(folder, f"v_{size}_16bit.raw")
        else:
            dtype = pick(rng, ["uint8", "float32"])
            d = [base[i] for i in rng.permutation(3)] if chance(rng, 0.7) else dims(rng)
            head, data = os.path.join(folder, "v.mhd"), os.path.join(folder, pick(rng, ["v1.bin", "v2.bin"]))
            with open(head, "w") as f:
                f.write(f"DimSize = {d[0]} {d[1]} {d[2]}\nElementType = {MET[dtype]}\n"
                        f"ElementDataFile = {os.path.basename(data)}\n")
        with open(data, "wb") as f:
            f.write(bits(rng, dtype, d[0] * d[1] * d[2]))
        if stamp:
            for p in {head, data}:
                os.utime(p, ns=(stamp, stamp))
        state[head] = (data, dtype, d)
        for p in sorted(state) if chance(rng, 0.5) else [head]:
            data, dtype, d = state[p]
            if os.path.getsize(data) != int(np.prod(d)) * np.dtype(dtype).itemsize:
                continue  # the other header's data file was replaced
            img = viqa.load_data(p)
            compare(ctx, rng, img, data, dtype, d, f"step {step}: stored anew under the same name")
            kept.append((img, np.array(img, copy=True)))
            ctx.event("stored_anew")
        ctx.key(how, dtype, tuple(d), step)
    for img, was in kept:
        ctx.check(np.asarray(img).tobytes() == was.tobytes(), "a loaded image changed when its file was stored anew")


SCALE = 4
KINDS = [("raw", raw, 1200, 15), ("mhd", mhd, 1200, 15), ("large", large, 16, 10),
         ("history", history, 160, 15)]
