"""Runs a list of native calls in a process of its own (plain, perturbed or sanitized).

argv: extension file, job file, result file.  Needs only numpy, so that it starts
quickly under AddressSanitizer.
"""
import ctypes
import hashlib
import importlib.machinery
import importlib.util
import json
import sys

import numpy as np

ext, job_path, res_path = sys.argv[1:4]
loader = importlib.machinery.ExtensionFileLoader("statisticscalc", ext)
spec = importlib.util.spec_from_file_location("statisticscalc", ext, loader=loader)
sc = importlib.util.module_from_spec(spec)
loader.exec_module(sc)


class Sub(np.ndarray):
    pass


def image(c):
    if c["image"] == "list":
        return [[1.0, 2.0], [3.0, 4.0]]
    if c["image"] == "none":
        return None
    if c["image"] == "object":
        return np.array([[None, 1], [2, "x"]], dtype=object)
    if c["image"] == "string":
        return np.array([["a", "b"], ["c", "d"]])
    if c["image"] == "int":
        return 7
    rng = np.random.default_rng(c["seed"])
    a = np.array(rng.random(c["shape"]) * c.get("top", 200))
    if c.get("flat"):
        a[...] = a.flat[0] if a.size else 0
    a = a.astype(c["dtype"])
    lay = c.get("layout", "C") if c["shape"] else "C"
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "T":
        a = np.ascontiguousarray(a.T).T
    elif lay == "step":
        big = np.zeros([2 * n for n in a.shape], a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        a = v
    elif lay == "rev":
        a = a[tuple(slice(None, None, -1) for _ in a.shape)]
    elif lay == "bcast" and a.ndim == 2:
        a = np.broadcast_to(a[:1], a.shape)
    elif lay == "unaligned":
        raw = np.zeros(a.nbytes + 1, np.uint8)
        v = np.ndarray(a.shape, a.dtype, raw, 1)
        v[...] = a
        a = v
    elif lay == "sub":
        a = a.view(Sub)
    if c.get("readonly"):
        a.flags.writeable = False
    return a


class Mall(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                 "uordblks", "fordblks", "keepcost")]


mallinfo2 = ctypes.CDLL(None).mallinfo2
mallinfo2.restype = Mall


def in_use():
    m = mallinfo2()
    return m.uordblks + m.hblkhd


def call(c, img):
    bs, st = c["block"], c["stride"]
    args = {"normal": (img, bs, st), "float": (img, float(bs) + 0.5, st), "missing": (img, bs),
            "extra": (img, bs, st, 1), "nothing": (), "str": (img, "a", st),
            "huge": (img, 2**40, st), "hugestride": (img, bs, -2**40)}[c.get("args", "normal")]
    try:
        r = getattr(sc, c["fn"])(*args)
    except Exception as e:
        return {"exc": type(e).__name__}
    rs = r if isinstance(r, tuple) else (r,)
    h = hashlib.sha1()
    for x in rs:
        h.update(np.ascontiguousarray(x).tobytes())
    return {"hash": h.hexdigest(), "zero": not any(np.any(x) for x in rs),
            "shapes": [list(np.shape(x)) for x in rs]}


jobs = json.load(open(job_path))
out = []
prog = open(res_path + ".at", "w")
for n, c in enumerate(jobs["calls"]):
    prog.seek(0)
    prog.write(str(n).ljust(8))
    prog.flush()
    img = image(c)
    if not jobs.get("repeat"):
        out.append(call(c, img))
        continue
    before_ref = sys.getrefcount(img)
    for _ in range(30):
        r = call(c, img)
    grow = []
    for _ in range(4):  # a leak shows in every window, caches fill once
        a = in_use()
        for _ in range(jobs["repeat"]):
            r = call(c, img)
        grow.append(in_use() - a)
    r["growth"] = min(grow)
    r["refs"] = sys.getrefcount(img) - before_ref
    out.append(r)
json.dump(out, open(res_path, "w"))
