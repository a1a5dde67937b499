"""C30: calls leave the process as they found it, and do not depend on it."""
import contextlib
import copy
import decimal
import gc
import importlib
import json
import locale
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

import bench
from gen import chance, pick, texture, to_type, write_mhd, write_nifti, write_raster, write_raw
from isolate import isolated

RULE = ("left: random cases of the other properties' workloads (loading, scoring with every metric, lists, batches, "
        "regions, filters, statistics, drawing, exporting, dialogs, scripts and refused calls) with the state of the "
        "process recorded before and after: generators, error handling, warning filters, print options, folder, "
        "environment, drawing settings, attributes of 14 libraries, threads, descriptors, temporary files, standard "
        "streams, signal handlers; surroundings: the same workloads with their own monitors, passing as usual, are "
        "repeated in a process with another such state, other thread or fresh interpreter (hash seed, -O, locale, "
        "folder) and must pass; copies: pickled and copied metric objects; files: images after their files are "
        "rewritten; distinct by workload and state")
ASSUME = ["a workload's monitor judges its results; here only the difference between two surroundings counts",
          "modules imported for the first time are not a change of the process",
          "the monitor thread of the progress bars is tqdm's"]
NEED = {"calls_watched": 280, "state_items": 9000, "workloads": 250, "interruptions": 60, "repeats": 80,
        "fresh_cases": 30, "copies": 60, "files_rewritten": 40}
CASE_LIMIT = 300
# workloads of the other monitors: property -> kinds
WORK = {"c01": ["raw", "mhd"], "c02": ["sizes", "names", "headers", "kinds"], "c03": ["load", "score"],
        "c04": ["auto", "explicit", "refuse"], "c05": ["crop", "oversize", "score", "multi", "batch"],
        "c06": ["load", "normalize", "score", "refused", "multi", "batch", "stats", "regions", "filters", "figure",
                "export", "chain"], "c07": ["pairs", "rgb_grey"], "c08": ["ssim", "uqi", "colour", "refuse"],
        "c09": ["two_d", "three_d"], "c10": ["slices", "volumes", "refuse"], "c11": ["scores"],
        "c12": ["scores", "refuse"], "c13": ["maps"], "c15": ["cnr", "snr", "colour", "refuse"],
        "c16": ["regions", "cnr", "snr", "refuse"], "c17": ["history"], "c19": ["evaluate", "fusion", "refuse"],
        "c20": ["batch", "refuse"], "c21": ["metrics", "several", "batch", "statistics", "settings"],
        "c22": ["shapes", "types", "luminance"], "c23": ["program", "statistics"], "c24": ["bank", "correlate"],
        "c25": ["draw_volume", "draw_flat", "centers", "compare", "report"],
        "c26": ["crop", "reduce", "stack", "pairs", "mat"], "c28": ["session", "refuse", "fallback"],
        "c30": ["warned"]}
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src") + os.sep
SLOW = {"c12", "c17", "c20", "c28"}
LIBS = ["numpy", "numpy.linalg", "numpy.fft", "scipy.ndimage", "scipy.signal", "scipy.fft", "skimage.metrics",
        "skimage.transform", "nibabel", "matplotlib.pyplot", "torch", "piq", "os", "builtins", "csv", "math"]


def warned(ctx, rng):
    """Calls that warn."""
    import viqa
    from viqa.fr_metrics.mad import most_apparent_distortion
    name = pick(rng, ["GSM", "MAD", "FSIM", "VSI", "VIFp", "SSIM", "CNR", "SNR", "RMSE", "PSNR"])
    r, m, top = bench.images(rng, bench.shape_for(rng, ["VIFp"]))
    metric = bench.make(viqa, name, top)
    how = int(rng.integers(5))
    if how == 0:
        getattr(metric, "print_score", lambda: None)()
    elif how == 1:
        for n in ("GSM", "MAD", "FSIM", "VSI", "VIFp"):
            bench.make(viqa, n, top).score(r, m, dim=1, im_slice=3)
    elif how == 2:
        viqa.SSIM(data_range=top).score(r, m, alpha=1.5, beta=1.0, gamma=0.5)
    elif how == 3:
        most_apparent_distortion(r, m, data_range=255, block_size=int(rng.integers(3, 9)),
                                 block_overlap=float(rng.uniform(0, 0.9)), account_monitor=chance(rng, 0.5))
    else:
        v = to_type(texture(rng, (20, 21, 22)), "uint8", 255)
        viqa.GSM(data_range=255).score(v, v[::-1], dim=1)
        viqa.SNR(data_range=255).score(v, signal_center=(9, 9, 9), radius=3, region_type=pick(rng, ["full", "cubic"]))


def kinds_of(prop):
    if prop == "c30":
        return {"warned": warned}
    mod = importlib.import_module(prop)
    return {k[0]: k[1] for k in mod.KINDS}


def choose(rng, fast=False):
    props = [p for p in WORK if not (fast and p in SLOW)]
    prop = pick(rng, props)
    return prop, pick(rng, WORK[prop]), int(rng.integers(2**31))


def inner(ctx, job):
    """Run one case of another property in this process; None or what its monitor says."""
    prop, kind, seed = job
    sub = type(ctx)(prop.upper(), _known(prop))
    sub.kind, sub.idx, sub.scratch = kind, seed % 1000, ctx.scratch
    rng = np.random.default_rng(seed)
    try:
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            kinds_of(prop)[kind](sub, rng)
    except Exception as e:  # noqa: BLE001
        ctx.event("workloads_ended_early")
        return f"{type(e).__name__}: {e}"
    ctx.event("workloads")
    return None


def interrupted(ctx, job, after):
    """Run a case, interrupted by the user at the given line of the repository's code."""
    left_ = [after]

    def local(frame, event, arg):
        if event == "line":
            left_[0] -= 1
            if left_[0] == 0:
                ctx.event("interruptions")
                raise KeyboardInterrupt
        return local

    def begin(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC) and left_[0] > 0 else None
    old = sys.gettrace()
    sys.settrace(begin)
    try:
        inner(ctx, job)
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(old)


def _known(prop):
    out = set()
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "known-findings.txt")
    for line in open(path):
        f = line.split()
        if len(f) > 2 and f[0] == "finding:" and f[1] == "property=" + prop.upper():
            out.add(f[2].removeprefix("id="))
    return out


# -- the state of the process ---------------------------------------------------
def state():
    import matplotlib
    import torch
    s = {
        "random": hash(random.getstate()),
        "numpy generator": repr(np.random.get_state()),
        "torch generator": torch.get_rng_state().numpy().tobytes(),
        "torch gradient mode": torch.is_grad_enabled(),
        "torch default type": str(torch.get_default_dtype()),
        "torch threads": torch.get_num_threads(),
        "floating-point errors": repr(np.geterr()),
        "floating-point callback": repr(np.geterrcall()),
        "buffer size": np.getbufsize(),
        "print options": repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        "warning filters": repr(warnings.filters),
        "warning display": (id(warnings.showwarning), id(warnings.formatwarning)),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "module search path": list(sys.path),
        "arguments": list(sys.argv),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile())),
        "signal handlers": [repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "drawing settings": _rc(),
        "drawing backend": matplotlib.get_backend(),
        "interactive drawing": matplotlib.is_interactive(),
        "threads": sorted(t.name for t in threading.enumerate() if t.name != "tqdm_monitor"),
        "temporary folder": tempfile.gettempdir(),
        "temporary files": sorted(os.listdir(tempfile.gettempdir())),
        "files in the working directory": sorted(os.listdir(".")),
        "umask": _umask(),
    }
    for lib in LIBS:
        m = sys.modules.get(lib)
        if m is not None:
            s["attributes of " + lib] = {k: id(v) for k, v in vars(m).items()
                                         if not k.startswith("_") and not _lazy(v)}
    return s


def _rc():
    import matplotlib
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return {k: repr(v) for k, v in matplotlib.rcParams.items() if k != "backend"}


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _lazy(v):
    return isinstance(v, (int, float, str, bool, type(None)))


def descriptors():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith("/") and not t.startswith(("/dev", "/proc", sys.prefix)):
            out.append(t)
    return sorted(out)


def changes(a, b):
    out = []
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, dict) and k.startswith("attributes"):
            bad = [n for n in x if y is not None and (n not in y or y[n] != x[n])]
        elif isinstance(x, dict):
            bad = [n for n in set(x) | set(y) if x.get(n) != y.get(n)]
        else:
            bad = ["changed"] if x != y else []
        if bad:
            out.append((k, bad[:3], (x, y) if not isinstance(x, dict) else [(x.get(n), y.get(n)) for n in bad[:3]]))
    return out


@contextlib.contextmanager
def own_folders(ctx):
    """A working directory and a folder for temporary files of this case."""
    cwd, tmp = os.path.join(ctx.scratch, "cwd"), os.path.join(ctx.scratch, "tmp")
    os.makedirs(cwd, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    old, oldtmp = os.getcwd(), tempfile.tempdir
    os.chdir(cwd)
    tempfile.tempdir = tmp
    try:
        yield
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtmp


def left(ctx, rng):
    job = choose(rng) if chance(rng, 0.9) else ("c30", "warned", int(rng.integers(2**31)))
    stop = int(10 ** rng.uniform(0, 3)) if chance(rng, 0.4) else 0
    with own_folders(ctx):
        # set by a caller: nothing that equals a default by chance
        random.seed(int(rng.integers(2**31)))
        np.random.seed(int(rng.integers(2**31)))
        np.set_printoptions(precision=int(rng.integers(3, 12)), suppress=chance(rng, 0.5))
        err = {k: pick(rng, ["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}
        with np.errstate(**err), warnings.catch_warnings():
            warnings.filterwarnings("always", "shown by the caller")
            warnings.filterwarnings(pick(rng, ["ignore", "once"]), category=ImportWarning)
            fds = descriptors()
            before = state()
            interrupted(ctx, job, stop) if stop else inner(ctx, job)
            after = state()
            if descriptors() != fds:
                gc.collect()
            fds2 = descriptors()
        np.set_printoptions(precision=8, suppress=False)
    ctx.event("calls_watched")
    ctx.event("state_items", len(before))
    ctx.event("left:" + job[0])
    ctx.key(job[0], job[1])
    ctx.sample(workload=job, interrupted_after_lines=stop, items=len(before))
    diff = changes(before, after)
    ctx.check(not diff, f"a call changed the process it runs in: {diff[0][0] if diff else None}", workload=job,
              interrupted=stop, changes=diff[:2])
    ctx.check(fds2 == fds, "a call left files open", workload=job, interrupted=stop, files=[f for f in fds2 if f not in fds])


# -- other surroundings -----------------------------------------------------------
def s_seeds(rng):
    import torch
    random.seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    torch.manual_seed(int(rng.integers(2**31)))


def s_print(rng):
    np.set_printoptions(precision=2, suppress=True, threshold=3, linewidth=20, floatmode="fixed")


def s_errors(rng):
    np.seterr(all="warn")


def s_folder(rng):
    os.makedirs("elsewhere", exist_ok=True)
    os.chdir("elsewhere")


def s_grad(rng):
    import torch
    torch.set_grad_enabled(False)


def s_locale(rng):
    locale.setlocale(locale.LC_ALL, pick(rng, ["C", "C.utf8", "POSIX"]))
    os.environ["TZ"] = pick(rng, ["Asia/Tokyo", "UTC", "America/Lima"])


def s_decimal(rng):
    decimal.getcontext().prec = 3


def s_gc(rng):
    gc.disable() if chance(rng, 0.5) else gc.set_threshold(1, 1, 1)


def s_drawing(rng):
    import matplotlib.pyplot as plt
    plt.ioff()
    plt.figure(figsize=(1, 1))
    plt.plot([1, 2])


def s_thread(rng):
    pass


def s_other(rng):
    """Another package object and other scores made before."""
    import viqa
    a = to_type(texture(rng, (30, 30)), "uint8", 255)
    for n in ("SSIM", "GSM", "MAD"):
        viqa.__dict__[n](data_range=255).score(a, a[::-1])


SURROUND = [s_seeds, s_print, s_errors, s_folder, s_grad, s_locale, s_decimal, s_gc, s_drawing, s_thread, s_other]


def in_thread(fn):
    out = []

    def body():
        with np.errstate(all="ignore"):
            out.append(fn())
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out[0] if out else "the thread died"


def surroundings(ctx, rng):
    n = int(rng.integers(1, 5))
    chosen = [SURROUND[int(i)] for i in rng.permutation(len(SURROUND))[:n]]
    jobs = [choose(rng, fast=True) for _ in range(4)]
    seed = int(rng.integers(2**31))

    def run(how, tag):
        def body():
            sub = np.random.default_rng(seed)
            out = []
            with own_folders(ctx):
                for i, job in enumerate(jobs):
                    os.makedirs(os.path.join(ctx.scratch, f"{tag}{i}"), exist_ok=True)
                    here, ctx.scratch = ctx.scratch, os.path.join(ctx.scratch, f"{tag}{i}")
                    for s in how:
                        s(sub)
                    res = in_thread(lambda: inner(ctx, job)) if s_thread in how else inner(ctx, job)  # noqa: B023
                    out.append(res)
                    ctx.scratch = here
            return out
        return isolated(body)
    usual = run([], "u")
    ctx.check(usual[0] == "ok", "the workloads end the process", got=usual, jobs=jobs)
    other = run(chosen, "o")
    names = sorted(s.__name__[2:] for s in chosen)
    ctx.check(other[0] == "ok", f"the workloads end a process with other {names}", got=other, jobs=jobs)
    for job, a, b in zip(jobs, usual[1], other[1]):
        ctx.event("repeats")
        ctx.key(job[0], tuple(names))
        if a is None:
            ctx.check(b is None, f"another result in a process with other {names}", workload=job, said=b)
    for s in names:
        ctx.event("with:" + s)


FRESH = """
import sys, json, os
sys.path.insert(0, {mon!r}); sys.path.insert(0, {props!r})
import core
core.import_viqa()
import c30, warnings, numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")
out = []
for i, job in enumerate({jobs!r}):
    ctx = core.Ctx("C30", set())
    ctx.scratch = os.path.join({scratch!r}, "f%d" % i)
    os.makedirs(ctx.scratch)
    with c30.own_folders(ctx):
        out.append(c30.inner(ctx, job))
print("OUT", json.dumps(out))
"""


def fresh(ctx, rng):
    jobs = [choose(rng, fast=True) for _ in range(10)]
    here = os.path.dirname(os.path.abspath(__file__))
    folder = os.path.join(ctx.scratch, pick(rng, ["x", "x y", "ü"]))
    os.makedirs(folder)
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))), TZ=pick(rng, ["UTC", "Asia/Tokyo"]))
    env["PYTHONUTF8"] = "1"
    flags = pick(rng, [[], ["-O"], ["-O", "-B", "-s"]])
    code = FRESH.format(mon=os.path.dirname(here), props=here, jobs=jobs, scratch=folder)
    p = subprocess.run([sys.executable, "-W", "ignore", *flags, "-c", code], capture_output=True, text=True,
                       timeout=280, env=env, cwd=folder)
    ctx.check(p.returncode == 0 and "OUT " in p.stdout, f"the workloads end a fresh interpreter {flags}",
              err=p.stderr[-300:], jobs=jobs)
    other = json.loads(p.stdout[p.stdout.rindex("OUT ") + 4:])

    def usual():
        out = []
        for i, job in enumerate(jobs):
            here, ctx.scratch = ctx.scratch, os.path.join(ctx.scratch, f"u{i}")
            os.makedirs(ctx.scratch)
            with own_folders(ctx):
                out.append(inner(ctx, job))
            ctx.scratch = here
        return out
    want = isolated(usual)
    ctx.check(want[0] == "ok", "the workloads end the process", got=want, jobs=jobs)
    for job, a, b in zip(jobs, want[1], other):
        ctx.event("fresh_cases")
        ctx.key(job[0], tuple(flags))
        if a is None:
            ctx.check(b is None, f"another result in a fresh interpreter {flags}", workload=job, said=b)


# -- copies -----------------------------------------------------------------------
COPIES = [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x))),
          ("old pickle", lambda x: pickle.loads(pickle.dumps(x, 2)))]


def copies(ctx, rng):
    import viqa
    name = bench.CHEAP[ctx.idx % len(bench.CHEAP)]
    shape = bench.shape_for(rng, [name])
    r, m, top = bench.images(rng, shape, pick(rng, ["uint8", "float64"]))
    r2, m2, _ = bench.images(rng, shape, r.dtype.name)
    metric = bench.make(viqa, name, top)
    kw = bench.params(rng, name, shape)
    scored = chance(rng, 0.7)
    if scored:
        bench.run(metric, r, m, kw)
    how, fn = pick(rng, COPIES)
    twin = fn(metric)
    ctx.event("copies")
    ctx.event("copies:" + how)
    ctx.key(name, how, scored)
    ctx.check(type(twin) is type(metric), f"a {how} of {name} is of another class")
    flat = lambda x: None if x is None else np.ravel(np.asarray(x, float)).tolist()  # noqa: E731
    ctx.check(bench_same(flat(twin.score_val), flat(metric.score_val)), f"a {how} of {name} has another score",
              got=twin.score_val, want=metric.score_val)
    ctx.check(repr(twin) == repr(metric), f"a {how} of {name} reads differently", got=repr(twin), want=repr(metric))
    if how == "copy":  # shares the parameter store, as copies do
        return
    before = flat(metric.score_val)
    kw2 = bench.params(rng, name, shape)
    got = bench.run(twin, r2, m2, kw2)
    ctx.check(bench_same(flat(metric.score_val), before), f"scoring with a {how} of {name} changed the score of the "
              "original", got=metric.score_val, want=before)
    want = bench.run(metric, r2, m2, kw2)
    ctx.check(bench.eq(got, want), f"a {how} of {name} scores differently from the original", got=got, want=want,
              params=kw2)
    multi = viqa.MultipleMetrics([metric], [kw2])
    multi.calculate(r, m)
    again = fn(multi)
    ctx.check({k: flat(v) for k, v in again.results.items()} == {k: flat(v) for k, v in multi.results.items()} or
              any(v != v for x in multi.results.values() for v in flat(x)),
              f"a {how} of a list of metrics has other results", got=again.results, want=multi.results)


def bench_same(a, b):
    return a == b or (a is not None and b is not None and len(a) == len(b) and
                      all(x == y or (x != x and y != y) for x, y in zip(a, b)))


# -- images and their files ----------------------------------------------------------
def rewritten(ctx, rng):
    import viqa
    how = pick(rng, ["raw", "mhd", "nii", "nii.gz", "png", "tiff", "bmp"])
    if how in ("png", "tiff", "bmp"):
        a = to_type(texture(rng, tuple(int(v) for v in rng.integers(12, 30, 2))), "uint8", 255)
        path = write_raster(ctx.scratch, "a", a, "." + how)
    else:
        dtype = pick(rng, ["uint8", "uint16", "float32"])
        a = to_type(texture(rng, tuple(int(v) for v in rng.integers(5, 14, 3))), dtype,
                    {"uint8": 255, "uint16": 65535}.get(dtype, 1.0))
        if how == "raw":
            path = write_raw(ctx.scratch, "a", a, {"uint8": "8bit", "uint16": "16bit", "float32": "32fbit"}[dtype])
        elif how == "mhd":
            path = write_mhd(ctx.scratch, "a", a)
        else:
            path = write_nifti(ctx.scratch, "a", a, gz=how == "nii.gz")
    kw = {}
    if chance(rng, 0.3):
        kw = {"roi": [(0, n - 1) for n in a.shape]}
    img = viqa.load_data(path, **kw)
    metric = viqa.RMSE(data_range=255)
    s = metric.score(path, np.asarray(img) if not kw else np.asarray(viqa.load_data(path)))
    keep = np.array(img, copy=True)
    data = [f for f in os.listdir(ctx.scratch) if f.startswith("a")]
    for f in data:
        p = os.path.join(ctx.scratch, f)
        size = os.path.getsize(p)
        what = pick(rng, ["overwrite", "truncate", "remove", "replace"])
        if what == "overwrite":
            with open(p, "r+b") as fh:
                fh.write(b"\x5a" * size)
        elif what == "truncate":  # a mapped file would end the process: keep its size, clear it
            with open(p, "r+b") as fh:
                fh.write(b"\0" * size)
        elif what == "remove":
            os.remove(p)
        else:
            os.remove(p)
            with open(p, "wb") as fh:
                fh.write(b"\xa5" * size)
        ctx.event("files_rewritten")
    ctx.key(how, a.dtype.name, bool(kw))
    ctx.same(np.asarray(img), keep, f"an image changes with its {how} file after it was loaded")
    ctx.check(s == 0 and metric.score_val == 0, "score of an image with its own file", got=s)
    if img.flags.writeable:
        with contextlib.suppress(ValueError):
            np.asarray(img)[...] = 7
    held = [f for f in os.listdir(ctx.scratch) if f.startswith("a")]
    for f in held:
        raw = open(os.path.join(ctx.scratch, f), "rb").read()
        ctx.check(set(raw) <= {0x5a, 0, 0xa5}, f"writing to a loaded image changes its {how} file")


def SETUP():
    """Modules are loaded before the process is watched."""
    for lib in LIBS + ["ipywidgets", "IPython.display", "tifffile", "PIL.Image", "skimage.io", "skimage.color",
                       "skimage.draw", "skimage.morphology", "skimage.measure", "scipy.stats", "pandas", "nibabel",
                       "scipy.io", "skimage.filters", "skimage.util"]:
        with contextlib.suppress(ImportError):
            importlib.import_module(lib)
    for p in WORK.keys() - {"c30"}:
        importlib.import_module(p)


KINDS = [("left", left, 560, 10), ("surroundings", surroundings, 48, 10), ("fresh", fresh, 8, 10),
         ("copies", copies, 154, 8), ("files", rewritten, 120, 8)]
