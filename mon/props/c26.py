"""C26: the helper scripts keep every voxel and every pair."""
import contextlib
import csv
import os
import runpy
import sys

import numpy as np

from gen import BITS, MET, chance, pick, write_mhd

RULE = ("the real scripts run through their command line (runpy, own argv and folder) on generated "
        "volumes and folders, while os.scandir and os.listdir deliver directory entries in random "
        "order; what they wrote is read back from disk and through viqa.load_data and compared with "
        "the voxels put in; non-trivial: every case (random content, non-cubic sizes); distinct by "
        "script, size, type, factor or folder content")
ASSUME = ["pair lists: reference and modified images have different file names (the copies share "
          "one folder)", "crop factors leave at least two voxels per axis"]
NEED = {"crop": 40, "reduce": 40, "stack": 40, "pairs": 40, "mat": 20, "voxels": 10_000,
        "listings_shuffled": 60, "rows": 60}

SCRIPTS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "scripts")


class _Shuffled:
    def __init__(self, it, rng):
        with it:
            self.entries = list(it)
        rng.shuffle(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.entries)

    def __next__(self):
        if not self.entries:
            raise StopIteration
        return self.entries.pop(0)

    def close(self):
        pass


@contextlib.contextmanager
def shuffled(ctx, rng):
    """Directory listings arrive in random order, as the system may deliver them."""
    scandir, listdir = os.scandir, os.listdir

    def scan(*a, **k):
        res = scandir(*a, **k)
        ctx.event("listings_shuffled")
        return _Shuffled(res, rng)

    def lst(*a, **k):
        res = listdir(*a, **k)
        ctx.event("listings_shuffled")
        rng.shuffle(res)
        return res

    os.scandir, os.listdir = scan, lst
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def run(ctx, rng, script, args, cwd):
    """Run a script as from the shell; returns its exit status."""
    argv, old = sys.argv, os.getcwd()
    sys.argv = [os.path.join(SCRIPTS, script)] + [str(a) for a in args]
    os.chdir(cwd)
    status = 0
    try:
        with ctx.quiet(), shuffled(ctx, rng):
            runpy.run_path(sys.argv[0], run_name="__main__")
    except SystemExit as e:
        status = e.code or 0
    finally:
        sys.argv = argv
        os.chdir(old)
    ctx.event("script_runs")
    return status


def rand(rng, dtype, shape):
    n = int(np.prod(shape))
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        return (rng.standard_normal(n) * 100).astype(dtype).reshape(shape)
    return rng.integers(0, np.iinfo(dtype).max, n, dtype=dtype, endpoint=True).reshape(shape)


def tree(folder):
    res = {}
    for d, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            res[os.path.relpath(p, folder)] = open(p, "rb").read()
    return res


def out_folder(ctx, rng):
    name = pick(rng, ["out", "new/deep", "there"])
    path = os.path.join(ctx.scratch, name)
    if name == "there":
        os.makedirs(path)
    return path


def crop(ctx, rng):
    import viqa
    factor = int(rng.integers(2, 5))
    d = [int(v) for v in rng.integers(2 * factor, 8 * factor, 3)]
    dtype = pick(rng, list(BITS))
    token = pick(rng, BITS[dtype])
    vol = rand(rng, dtype, d[::-1])  # (z, y, x), as stored
    src = os.path.join(ctx.scratch, "in")
    os.makedirs(src)
    stem = pick(rng, ["vol", "scan-07", "a b", "Recon_2024"])
    name = pick(rng, [f"{stem}_{d[0]}x{d[1]}x{d[2]}_{token}.raw",
                      f"{token}_{stem}_{d[0]}x{d[1]}x{d[2]}.raw"])
    vol.tofile(os.path.join(src, name))
    before = tree(src)
    out = out_folder(ctx, rng)
    st = run(ctx, rng, "crop_image.py", [os.path.join(src, name), out, *d, token, factor],
             ctx.scratch)
    ctx.check(st == 0, "crop_image failed", status=st)
    ctx.check(tree(src) == before, "crop_image changed its input")
    got = tree(out)
    ctx.check(len(got) == 1, "crop_image wrote not exactly one file", files=list(got))
    half = [(n // factor) // 2 for n in vol.shape]
    mid = [n // 2 for n in vol.shape]
    want = vol[tuple(slice(c - h, c + h) for c, h in zip(mid, half))]
    what = f"crop_image {d} by {factor} ({token})"
    file = next(iter(got))
    ctx.check(got[file] == np.ascontiguousarray(want).tobytes(),
              what + ": the written voxels are not the central block", bytes=len(got[file]))
    img = viqa.load_data(os.path.join(out, file))
    ctx.same(np.asarray(img), want.transpose(2, 1, 0), what + ": does not load back")
    # the central block leaves equally much on both sides, within one voxel
    ctx.check(all(abs((c - h) - (n - c - h)) <= 1 for n, c, h in zip(vol.shape, mid, half)),
              "model")
    ctx.refused(lambda: run(ctx, rng, "crop_image.py",
                            [os.path.join(src, name), out, d[0], d[1], d[2] + 1, token, factor],
                            ctx.scratch), ValueError, what + ": wrong size given")
    ctx.check(len(tree(out)) == 1, "a refused crop wrote a file")
    ctx.event("crop")
    ctx.event("voxels", want.size)
    ctx.key(tuple(d), dtype, factor)
    ctx.sample(script="crop_image", size=d, type=dtype, factor=factor, file=file)


def reduce(ctx, rng):
    import viqa
    factor = int(rng.integers(2, 8))
    d = [int(v) for v in rng.integers(1, 12, 3)]
    d[2] = int(rng.integers(1, 40))
    dtype = pick(rng, list(BITS))
    token = pick(rng, BITS[dtype])
    vol = rand(rng, dtype, d[::-1])
    src = os.path.join(ctx.scratch, "in")
    os.makedirs(src)
    path = os.path.join(src, pick(rng, ["proj.raw", f"p_{d[0]}x{d[1]}x{d[2]}_{token}.raw"]))
    vol.tofile(path)
    before = tree(src)
    want = vol[::factor]
    n = -(-d[2] // factor)
    name = f"red_{d[0]}x{d[1]}x{n}_{token}.raw"
    if chance(rng, 0.3):
        out = os.path.join(ctx.scratch, "cwd")
        os.makedirs(out)
        arg, cwd = name, out
    else:
        out = out_folder(ctx, rng)
        arg, cwd = os.path.join(out, name), ctx.scratch
    st = run(ctx, rng, "reduce_projections.py", [path, arg, *d, token, factor], cwd)
    what = f"reduce_projections {d} by {factor} ({token})"
    ctx.check(st == 0, what + " failed", status=st)
    ctx.check(tree(src) == before, what + " changed its input")
    got = tree(out)
    ctx.check(list(got) == [name], what + ": wrong files", files=list(got))
    ctx.check(got[name] == np.ascontiguousarray(want).tobytes(),
              what + ": not every n-th projection", bytes=len(got[name]), want=want.nbytes)
    ctx.same(np.asarray(viqa.load_data(os.path.join(out, name))), want.transpose(2, 1, 0),
             what + ": does not load back")
    ctx.refused(lambda: run(ctx, rng, "reduce_projections.py",
                            [path, os.path.join(ctx.scratch, "x", "y.raw"), d[0] + 1, d[1], d[2],
                             token, factor], ctx.scratch), ValueError, what + ": wrong size given")
    ctx.event("reduce")
    ctx.event("voxels", want.size)
    ctx.key(tuple(d), dtype, factor)
    ctx.sample(script="reduce_projections", size=d, type=dtype, factor=factor)


def stack(ctx, rng):
    import viqa
    d = [int(v) for v in rng.integers(1, 12, 2)] + [pick(rng, [1, 1, 1, 2, 3])]
    count = int(rng.integers(1, 14))
    dtype = pick(rng, list(BITS))
    token = pick(rng, BITS[dtype])
    ext_in = pick(rng, ["raw", "raw", "bin", "img"])
    src = os.path.join(ctx.scratch, "in")
    os.makedirs(src)
    form = int(rng.integers(6))
    names = [[f"slice_{i:04d}.{ext_in}" for i in range(count)],
             [f"{i + 95:06d}.{ext_in}" for i in range(count)],
             [f"z{chr(97 + i)}.{ext_in}" for i in range(count)],
             [f"s-{i * 7 + 100}_{d[0]}x{d[1]}.{ext_in}" for i in range(count)],
             [f"slice_{i * 4 + 1}.{ext_in}" for i in range(count)],
             [f"{pick(rng, ['s', 'S', 'slice', 's_'])}{i * 9}.{ext_in}" for i in range(count)]][form]
    parts = {}
    for i in rng.permutation(count):
        parts[names[i]] = rand(rng, dtype, d[::-1])
        parts[names[i]].tofile(os.path.join(src, names[i]))
    for other in ["notes.txt", "old.tmp", f"x.{ext_in}2"]:
        if chance(rng, 0.5):
            open(os.path.join(src, other), "w").write("not an image")
    before = tree(src)
    want = np.concatenate([parts[n] for n in sorted(names)], axis=0)
    out = out_folder(ctx, rng)
    st = run(ctx, rng, "combine_stack.py", [src, out, *d, token, ext_in, "raw"], ctx.scratch)
    what = f"combine_stack of {count} x {d} ({token})"
    ctx.check(st == 0, what + " failed", status=st)
    ctx.check(tree(src) == before, what + " changed its input")
    got = tree(out)
    ctx.check(len(got) == 1, what + ": wrong files", files=list(got))
    file = next(iter(got))
    ctx.check(got[file] == want.tobytes(), what + ": slices lost, altered or out of order",
              bytes=len(got[file]), want=want.nbytes)
    ctx.same(np.asarray(viqa.load_data(os.path.join(out, file))), want.transpose(2, 1, 0),
             what + ": does not load back", file=file)
    ctx.event("stack")
    ctx.event("voxels", want.size)
    ctx.key(tuple(d), count, dtype, form)
    ctx.sample(script="combine_stack", size=d, count=count, type=dtype, file=file)


def pairs(ctx, rng):
    ref, mod = (os.path.join(ctx.scratch, n) for n in ("ref", "mod"))
    os.makedirs(ref)
    os.makedirs(mod)
    ids = []
    while len(ids) < int(rng.integers(0, 7)):
        i = "".join(pick(rng, list("012abIAB")) for _ in range(3))
        if i not in ids:
            ids.append(i)
    content = {}

    def put(folder, name):
        if name not in content:
            content[name] = rng.bytes(int(rng.integers(0, 200)))
            open(os.path.join(folder, name), "wb").write(content[name])
            return name

    exts = [".raw", ".png", ".mhd", ".tar.gz"]
    refs, mods = [], []
    for i in ids:
        for _ in range(int(rng.integers(0, 3))):
            refs.append(put(ref, i + pick(rng, exts)))
    for n in ["0001.raw", "ab.png", "longname.raw"]:
        if chance(rng, 0.3):
            refs.append(put(ref, n))
    for i in ids + ["zzz"]:
        for _ in range(int(rng.integers(0, 5))):
            mods.append(put(mod, i + pick(rng, ["_", "-", "", "x"]) +
                            pick(rng, ["noise", "blur", "1", "a b", 'say "x", y']) +
                            pick(rng, exts)))
    refs, mods = [n for n in refs if n], [n for n in mods if n]
    before = tree(ref), tree(mod)
    want = sorted((r, m) for r in refs for m in mods if r.split(".")[0] == m[:3])
    out = out_folder(ctx, rng)
    copy = chance(rng, 0.6)
    for n in range(int(rng.integers(1, 3))):
        st = run(ctx, rng, "write_to_csv.py", [mod, ref, out] + (["copy"] if copy else []),
                 ctx.scratch)
        ctx.check(st == 0, "write_to_csv failed", status=st, run=n)
        ctx.check((tree(ref), tree(mod)) == before, "write_to_csv changed its inputs")
        with open(os.path.join(out, "pairs.csv"), newline="") as f:
            rows = list(csv.reader(f))
        ctx.check(rows[0] == ["reference_image", "modified_image"], "header", got=rows[0])
        got = sorted(tuple(r) for r in rows[1:])
        ctx.check(got == want, "write_to_csv: the listed pairs are not the matching pairs",
                  extra=[r for r in got if got.count(r) > want.count(r)],
                  missing=[r for r in want if r not in got])
        have = tree(out)
        have.pop("pairs.csv")
        named = {os.path.join("images", n): content[n] for p in want for n in p}
        ctx.check(have == (named if copy else {}),
                  "write_to_csv: the copies are not the listed images", copy=copy,
                  have=sorted(have), want=sorted(named))
    ctx.event("pairs")
    ctx.event("rows", len(want))
    if want:
        ctx.key(tuple(want), copy)
    ctx.sample(script="write_to_csv", pairs=want[:6], copy=copy)


def mat(ctx, rng):
    import scipy.io as sio
    folder = os.path.join(ctx.scratch, "data")
    os.makedirs(folder)
    vols = {}
    custom = chance(rng, 0.4)
    for n in range(int(rng.integers(1, 5))):
        sub = pick(rng, ["s", "case ", "v-"]) + str(n)
        os.makedirs(os.path.join(folder, sub))
        d = [int(v) for v in rng.integers(1, 9, 3)]
        d[int(rng.integers(3))] += 2
        vol = rand(rng, pick(rng, list(MET)), d)
        vol.flat[0] = vol.flat[-1] // 2 + 1 if vol.dtype.kind == "u" else vol.flat[-1] + 1
        vols[sub] = vol
        write_mhd(os.path.join(folder, sub), "img" if custom else "volume", vol)
    before = tree(folder)
    st = run(ctx, rng, "write_to_mat.py", [folder] + (["img.mhd"] if custom else []), ctx.scratch)
    ctx.check(st == 0, "write_to_mat failed", status=st)
    after = tree(folder)
    ctx.check({k: v for k, v in after.items() if not k.endswith("image.mat")} == before,
              "write_to_mat changed its input")
    ctx.check(sorted(k for k in after if k not in before) ==
              sorted(os.path.join(s, "image.mat") for s in vols), "not one MAT file per volume",
              files=sorted(after))
    for sub, vol in vols.items():
        got = sio.loadmat(os.path.join(folder, sub, "image.mat"))["image"]
        v = vol.astype(np.float64)
        want = (v - v.min()) / (v.max() - v.min())
        ctx.check(got.shape == vol.shape, "MAT volume: shape", got=got.shape, want=vol.shape)
        ctx.close(got, want, "MAT volume: not the normalized volume", rtol=1e-5, atol=2e-6)
        ctx.event("voxels", vol.size)
        ctx.key(vol.shape, vol.dtype.name)
    ctx.event("mat")
    ctx.sample(script="write_to_mat", volumes={k: v.shape for k, v in vols.items()})


SCALE = 5
KINDS = [("crop", crop, 300), ("reduce", reduce, 300), ("stack", stack, 300),
         ("pairs", pairs, 300), ("mat", mat, 200)]
