"""C14: memory safety, argument checking and leaks of the native module."""
import json
import os
import subprocess
import sys

import numpy as np

from gen import chance, pick

RULE = ("batches of native calls in processes of their own, with the module built under "
        "AddressSanitizer and UndefinedBehaviorSanitizer; the same calls under two different fill "
        "patterns of fresh and freed memory must give identical bytes; call histories of 350 "
        "repetitions must not grow the heap or a reference count; sizes 0..40 a side plus long thin "
        "images, every layout and type, admissible and inadmissible block, stride and argument "
        "lists; distinct by call")
ASSUME = ["images whose number of pixels exceeds the range of a C int (16 GB and more) are not tried",
          "gcc 13 sanitizer runtime; a call longer than 60 s counts as running forever"]
NEED = {"sanitized_calls": 2500, "perturbed_calls": 1000, "leak_histories": 60, "inadmissible": 500}
CASE_LIMIT = 400
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(HERE, "native_driver.py")
SAN = {}


def SETUP():
    """Build the sanitized module from the repository's sources."""
    repo = os.environ["VERIF_REPO"]
    folder = os.path.join(repo, "src/viqa/fr_metrics/stat_utils")
    src = [os.path.join(folder, f) for f in sorted(os.listdir(folder)) if f.endswith(".c")]
    out = os.path.join(os.environ["VERIF_SCRATCH"], "ext", "san.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-std=c11", "-O1", "-g", "-w",
                    "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                    "-fno-sanitize-recover=all", "-I" + os.environ["VERIF_PYINC"],
                    "-I" + os.environ["VERIF_NPINC"], *src, "-o", out, "-lm"], check=True)
    lib = [subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
           for n in ("libasan.so", "libubsan.so")]
    SAN.update(ext=out, preload=":".join(lib))


def admissible(rng):
    n, m = (int(v) for v in rng.integers(1, 41, 2))
    if chance(rng, 0.1):
        n, m = pick(rng, [(1, 300), (300, 1), (2, 500), (500, 2), (7, 301), (301, 7)])
    bs = int(rng.integers(1, min(n, m) + 1))
    if chance(rng, 0.3):
        bs = min(n, m)
    st = int(rng.integers(1, bs + 1))
    return dict(fn=pick(rng, ["minstd", "getstatistics"]), image="array", shape=[n, m],
                dtype=pick(rng, ["f8", "f8", "f8", "f4", "u1", "i2", "i8", "f2", ">f8", "bool"]),
                layout=pick(rng, ["C", "C", "F", "T", "step", "rev", "bcast", "unaligned", "sub"]),
                readonly=chance(rng, 0.2), flat=chance(rng, 0.1), block=bs, stride=st,
                seed=int(rng.integers(2**31)), ok=True)


def inadmissible(rng):
    c = admissible(rng)
    n, m = c["shape"]
    how = pick(rng, ["big", "bigone", "zero", "neg", "stride0", "strideneg", "wide", "nd1", "nd3",
                     "nd0", "empty", "list", "none", "object", "string", "int", "float", "missing",
                     "extra", "nothing", "str", "huge", "hugestride", "max", "maxstride", "min",
                     "complex", "bothmax"])
    c["ok"] = False
    c["how"] = how
    if how == "big":
        c.update(block=max(n, m) + int(rng.integers(1, 50)))
        c["stride"] = int(rng.integers(1, c["block"] + 1))
    elif how == "bigone":
        c.update(block=min(n, m) + 1, stride=1)
    elif how == "zero":
        c["block"] = 0
    elif how == "neg":
        c["block"] = -int(rng.integers(1, 60))
    elif how == "stride0":
        c["stride"] = 0
    elif how == "strideneg":
        c["stride"] = -int(rng.integers(1, 60))
    elif how == "wide":
        c["stride"] = c["block"] + int(rng.integers(1, 60))
    elif how == "max":
        c["block"] = 2**31 - 1
    elif how == "bothmax":
        c["block"] = c["stride"] = 2**31 - 1
    elif how == "maxstride":
        c["stride"] = 2**31 - 1
    elif how == "min":
        c["block"] = -2**31
    elif how == "nd1":
        c["shape"] = [n]
    elif how == "nd3":
        c["shape"] = [n, m, 3]
    elif how == "nd0":
        c["shape"] = []
    elif how == "empty":
        c["shape"] = pick(rng, [[0, m], [n, 0], [0, 0]])
    elif how in ("list", "none", "object", "string", "int"):
        c["image"] = how
    elif how == "complex":
        c["dtype"] = "c16"
    else:
        c["args"] = how
    return c


def calls(rng, n):
    return [inadmissible(rng) if chance(rng, 0.35) else admissible(rng) for _ in range(n)]


def drive(ctx, job, san=False, **env):
    """Run the job; violation when the sanitizer, a signal or the clock stops it."""
    base = os.path.join(ctx.scratch, "job")
    json.dump(job, open(base, "w"))
    res = base + ".res"
    e = dict(os.environ, PYTHONMALLOC="malloc", PYTHONPATH="", **env)
    ext = os.environ["VERIF_EXT"]
    if san:
        ext = SAN["ext"]
        e.update(LD_PRELOAD=SAN["preload"],
                 ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=97:abort_on_error=0",
                 UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=97")
    p = subprocess.Popen([sys.executable, DRIVER, ext, base, res], env=e, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        _, err = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        ctx.fail("a native call does not end", call=at(job, res))
    if p.returncode:
        if p.returncode in (97,) or p.returncode < 0 or "Sanitizer" in err or "runtime error" in err:
            keep = [ln.strip() for ln in err.splitlines() if "ERROR: AddressSanitizer" in ln
                    or "runtime error" in ln or "statisticsmodule" in ln][:4]
            ctx.fail("the native call was stopped: " + " / ".join(keep),
                     status=p.returncode, call=at(job, res))
        raise RuntimeError(f"driver failed with {p.returncode}: {err[-2000:]}")
    if not os.path.exists(res):
        ctx.fail("the native call ended the process", call=at(job, res))
    return json.load(open(res))


def at(job, res):
    try:
        return job["calls"][int(open(res + ".at").read())]
    except (OSError, ValueError, IndexError):
        return None


def judge(ctx, c, r):
    if c["ok"]:
        ctx.check("exc" not in r, "an admissible call was refused", call=c, result=r)
        ctx.check(all(s == c["shape"] for s in r["shapes"]), "result of another shape", call=c, result=r)
        ctx.event("admissible")
    else:
        ctx.check("exc" in r or r["zero"] or c["how"] in ("wide", "maxstride", "complex"), "an inadmissible call gave a result", call=c, result=r)
        ctx.event("inadmissible")
        ctx.event("inadmissible:" + c["how"])
    ctx.key(json.dumps(c, sort_keys=True))


def sanitized(ctx, rng):
    job = dict(calls=calls(rng, 60))
    res = drive(ctx, job, san=True)
    for c, r in zip(job["calls"], res):
        judge(ctx, c, r)
        ctx.event("sanitized_calls")
    ctx.sample(**job["calls"][0])


def perturbed(ctx, rng):
    job = dict(calls=calls(rng, 120))
    a = drive(ctx, job, MALLOC_PERTURB_="85")
    b = drive(ctx, job, MALLOC_PERTURB_="170")
    for c, x, y in zip(job["calls"], a, b):
        judge(ctx, c, x)
        ctx.check(x == y, "the result depends on the former content of memory", call=c)
        ctx.event("perturbed_calls")


def leaks(ctx, rng):
    cs = [c for c in calls(rng, 12) if c["shape"] and c.get("layout") != "bcast"]
    for c in cs[:4]:
        if c["ok"]:  # large enough that any forgotten block shows
            c.update(shape=[int(v) for v in rng.integers(60, 120, 2)])
            c["block"] = int(rng.integers(20, 50))
            c["stride"] = int(rng.integers(max(1, c["block"] // 2), c["block"] + 1))
    job = dict(calls=cs, repeat=80)
    for c, r in zip(cs, drive(ctx, job, MALLOC_MMAP_THRESHOLD_="1073741824")):
        ctx.check(r["growth"] < 80 * 8, "memory in use grows with every call", call=c,
                  bytes_over_80_calls=r["growth"])
        ctx.check(r["refs"] == 0, "references to the image are lost or kept", call=c, change=r["refs"])
        judge(ctx, c, r)
        ctx.event("leak_histories")


KINDS = [("sanitized", sanitized, 64, 12), ("perturbed", perturbed, 16, 12), ("leaks", leaks, 16, 12)]
