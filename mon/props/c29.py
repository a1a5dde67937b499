"""C29: the package without its optional interactive packages."""
import builtins
import importlib
import os
import subprocess
import sys
import warnings

import numpy as np

import bench
from gen import chance, pick, texture, to_type, write_mhd
from isolate import isolated

RULE = ("every case loads the package again in a forked process whose imports of a random subset of ipywidgets and "
        "IPython fail, starting from 1..3 random modules of the package, then runs a random workload (scores of every "
        "metric, lists, batches, loading, exports, figures, dialogs inside and outside a notebook session); what was "
        "announced, returned, drawn, written and raised is compared with the same workload with both packages "
        "present; some cases use a fresh interpreter; distinct by absent packages, modules and workload")
ASSUME = ["an absent package is one whose import raises ImportError or ModuleNotFoundError",
          "third-party packages loaded before are not loaded again, except in the fresh interpreters"]
NEED = {"loads": 120, "absent:ipywidgets": 25, "absent:IPython": 25, "absent:both": 25, "absent:none": 15,
        "scores": 25, "figures": 35, "files": 15, "refused_dialogs": 12, "fallbacks": 15, "fresh": 4}
CASE_LIMIT = 300
OPTIONAL = ("ipywidgets", "IPython")
MODULES = ["viqa", "viqa.fr_metrics", "viqa.nr_metrics", "viqa.utils", "viqa.multiple", "viqa.fusion",
           "viqa.nr_metrics.cnr", "viqa.nr_metrics.snr", "viqa.utils.visualization", "viqa.utils.loading",
           "viqa.utils.export", "viqa.utils.misc", "viqa.fr_metrics.mad", "viqa.fr_metrics.psnr",
           "viqa.nr_metrics.utils", "viqa._metrics", "viqa.load_utils", "viqa.utils.deprecation"]


class Absent:
    """Imports of these packages fail."""

    def __init__(self, names, exc):
        self.names, self.exc = names, exc

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in self.names:
            if self.exc is ModuleNotFoundError:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            raise ImportError(f"cannot load {name}")
        return None


def exists(name):
    from importlib.util import find_spec
    try:
        return find_spec(name) is not None
    except ImportError:
        return False


def unload(names):
    for n in list(sys.modules):
        top = n.partition(".")[0]
        if top in names or (top == "viqa" and not str(getattr(sys.modules[n], "__file__", "")).endswith(".so")):
            del sys.modules[n]


def load(absent, exc, first):
    """Load the package without these packages; the warnings of loading it."""
    unload(absent)
    sys.meta_path.insert(0, Absent(absent, exc))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        for name in first:
            importlib.import_module(name)
        viqa = importlib.import_module("viqa")
        for name in MODULES:
            if name in sys.modules:
                continue
            if exists(name):
                importlib.import_module(name)
    said = [(w.category.__name__, str(w.message)) for w in seen]
    return viqa, said


def picture():
    """The pixels of all figures, which are closed."""
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        f.canvas.draw()
        out.append(np.asarray(f.canvas.buffer_rgba()).tobytes())
    plt.close("all")
    return out


def work(viqa, what, a, folder, session):
    """The observations of one workload; anything of the same value in every process."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    os.makedirs(folder, exist_ok=True)
    if session:
        builtins.__IPYTHON__ = True
    kind = what[0]
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        res = RUNS[kind](viqa, what, a, folder)
    return res, picture(), [str(w.message) for w in seen if issubclass(w.category, UserWarning)]


def state(metric):
    return repr(sorted((k, v) for k, v in vars(metric).items()))


def scores(viqa, what, a, folder):
    _, name, kw = what
    metric = bench.make(viqa, name, a["top"])
    return bench.run(metric, a["r"], a["m"], kw), float(np.ravel(metric.score_val)[0])


def listed(viqa, what, a, folder):
    _, names, kws = what
    metrics = [bench.make(viqa, n, a["top"]) for n in names]
    multi = viqa.MultipleMetrics(metrics, list(kws))
    multi.calculate(a["r"], a["m"])
    out = {k: np.ravel(v).tolist() for k, v in multi.results.items()}
    path = os.path.join(folder, "res.csv")
    viqa.export_results(metrics, folder, "res.csv")
    return out, open(path).read()


def files(viqa, what, a, folder):
    path = write_mhd(folder, "img", a["v"])
    img = viqa.load_data(path)
    met = viqa.RMSE(data_range=255)
    met.score(path, a["v"][::-1])
    viqa.export_metadata([met], [{}], folder, "meta.txt")
    text = [ln for ln in open(os.path.join(folder, "meta.txt")).read().splitlines()
            if ":" in ln and "ime" not in ln and "ate" not in ln]
    return np.asarray(img).tobytes(), float(met.score_val), text


def drawn(viqa, what, a, folder):
    _, kind, kw = what
    if kind == "slices":
        viqa.visualize_3d(viqa.ImageArray(a["v"]), slices=kw["slices"])
    elif kind == "plane":
        viqa.visualize_2d(viqa.ImageArray(a["r"]))
    else:
        getattr(viqa, kind)(data_range=a["top"]).visualize_centers(a["r"], **kw)
    return None


def dialog(viqa, what, a, folder):
    _, name, kw = what
    metric = getattr(viqa, name)(data_range=a["top"])
    if kw:
        metric.visualize_centers(a["r"], **kw)
        import matplotlib.pyplot as plt
        plt.close("all")
    before = state(metric)
    made = []
    if "ipywidgets" in sys.modules or exists("ipywidgets"):
        import ipywidgets
        ipywidgets.Widget.on_widget_constructed(made.append)
    extra = {}
    if kw:
        notebook = hasattr(builtins, "__IPYTHON__")
        extra = dict(kw) if name == "CNR" and not notebook else {"vis_kwargs": dict(kw)} if not notebook else {}
    try:
        metric.set_centers(a["r"], **extra)
        end = "opened"
    except ImportError as e:
        end = "ImportError: " + str(e)
    return end, before == state(metric), bool(made), metric.score_val


RUNS = {"scores": scores, "listed": listed, "files": files, "drawn": drawn, "dialog": dialog}


def case(ctx, rng, kinds):
    n = ctx.idx % 4
    absent = [(), ("ipywidgets",), ("IPython",), OPTIONAL][n if chance(rng, 0.85) else int(rng.integers(4))]
    exc = pick(rng, [ImportError, ModuleNotFoundError])
    here = [m for m in MODULES if exists(m)]
    first = [pick(rng, here) for _ in range(int(rng.integers(1, 4)))]
    shape = tuple(int(v) for v in rng.integers(44, 56, 2))
    r, m, top = bench.images(rng, shape, pick(rng, ["uint8", "float64"]))
    a = {"r": r, "m": m, "top": top, "v": to_type(texture(rng, (12, 13, 14)), "uint8", 255)}
    kind = pick(rng, kinds)
    session = chance(rng, 0.5)
    centre = lambda: tuple(int(v) for v in rng.integers(9, 30, 2))  # noqa: E731
    reg = {"radius": int(rng.integers(2, 8)), "signal_center": centre()}
    if kind == "scores":
        name = pick(rng, bench.CHEAP)
        what = (kind, name, bench.params(rng, name, shape))
    elif kind == "listed":
        names = [str(v) for v in rng.permutation(bench.CHEAP)[:3]]
        what = (kind, names, [bench.params(rng, v, shape) for v in names])
    elif kind == "drawn":
        which = pick(rng, ["slices", "plane", "CNR", "SNR"])
        kw = dict(reg)
        if which == "CNR":
            kw["background_center"] = centre()
        if which == "SNR":
            kw["region_type"] = pick(rng, ["cubic", "spherical"])
        if which == "slices":
            kw = {"slices": tuple(int(rng.integers(n)) for n in a["v"].shape)}
        what = (kind, which, kw)
    elif kind == "dialog":
        name = pick(rng, ["CNR", "SNR"])
        kw = dict(reg)
        if name == "CNR":
            kw["background_center"] = centre()
        else:
            kw["region_type"] = pick(rng, ["cubic", "spherical"])
        # Outside a session nothing can be drawn without regions
        what = (kind, name, kw if chance(rng, 0.6) else {})
    else:
        what = (kind,)
    key = (absent, kind, session, what[1] if len(what) > 1 and isinstance(what[1], str) else None)

    def child(names, tag):
        viqa, said = load(names, exc, first)
        has = sorted(viqa.__all__)
        missing = [x for x in has if not hasattr(viqa, x)]
        return said, has, missing, work(viqa, what, a, os.path.join(ctx.scratch, tag), session)

    got = isolated(lambda: child(absent, "got"))
    want = isolated(lambda: child((), "want"))
    where = f"without {absent or 'nothing'} after importing {first}, {what}"
    ctx.check(want[0] == "ok", f"the workload fails with both packages present: {what}", got=want)
    ctx.check(got[0] == "ok", f"the workload fails {where}", got=got)
    said, has, missing, (res, pixels, warned) = got[1]
    wsaid, whas, wmissing, (wres, wpixels, wwarned) = want[1]
    ctx.event("loads")
    ctx.event("absent:" + ("both" if len(absent) == 2 else absent[0] if absent else "none"))
    ctx.key(*key)
    ctx.sample(absent=absent, first=first, work=what, session=session, said=said[:2])
    ctx.check(not missing and not wmissing, "names of viqa.__all__ are missing", names=missing + wmissing, where=where)
    ctx.check(has == whas, f"the package offers other names {where}", got=has, want=whas)
    for p in OPTIONAL:
        told = any(c == "UserWarning" and p in t for c, t in said)
        ctx.check(told == (p in absent), f"a warning about {p} {'is missing' if p in absent else 'is given'} {where}",
                  said=said)
    ctx.check(not any(any(p in t for p in OPTIONAL) for _, t in wsaid), "a present package is announced absent",
              said=wsaid)
    if kind == "dialog" and session:
        end, untouched, made, val = res
        ctx.check(wres[0] == "opened" and wres[2], "the dialog does not open with both packages present", got=wres)
        if absent:
            ctx.check(end.startswith("ImportError"), f"the dialog does not refuse {where}", got=end)
            for p in OPTIONAL:
                ctx.check((p in end) == (p in absent), f"the refusal of the dialog names other packages {where}",
                          got=end)
            ctx.check(untouched and not made and val is None and not pixels,
                      f"a refused dialog leaves traces {where}", untouched=untouched, widgets=made, figures=len(pixels))
            ctx.event("refused_dialogs")
        else:
            ctx.check(end == "opened" and made, f"the dialog does not open {where}", got=end)
        return
    ctx.check(repr(res) == repr(wres), f"another result {where}", got=res, want=wres)
    ctx.check(pixels == wpixels, f"other figures {where}", got=len(pixels), want=len(wpixels))
    ctx.check(warned == wwarned, f"other warnings {where}", got=warned, want=wwarned)
    ctx.event("figures", len(pixels))
    if kind == "dialog":
        end, untouched, made, _ = res
        drawn_ = bool(what[2])
        ctx.check(not made, f"widgets are made outside a notebook session {where}")
        ctx.check(any("non-interactive" in w for w in warned), f"no warning outside a notebook session {where}")
        if drawn_:
            ctx.check(end == "opened" and len(pixels) > 0, f"the given regions are not drawn {where}", got=end)
        else:
            ctx.check(end.startswith("ImportError"), f"nothing to draw, but no ImportError {where}", got=end)
        ctx.event("fallbacks")
    elif kind == "drawn":
        ctx.check(len(pixels) > 0, f"no figure {where}")
    elif kind == "files":
        ctx.event("files")
    else:
        ctx.event("scores")


def works(ctx, rng):
    case(ctx, rng, ["scores", "scores", "listed", "files", "files", "drawn"])


def dialogs(ctx, rng):
    case(ctx, rng, ["dialog", "dialog", "dialog", "drawn"])


FRESH = """
import sys, warnings
sys.path.insert(0, {mon!r}); sys.path.insert(0, {props!r})
import core, c29
sys.meta_path.insert(0, core._ExtFinder)
viqa, said = c29.load({absent!r}, {exc}, {first!r})
import numpy as np
r = np.arange(400, dtype=np.uint8).reshape(20, 20)
print("SAID", [t for c, t in said if c == "UserWarning" and any(p in t for p in c29.OPTIONAL)])
print("SCORE", viqa.RMSE(data_range=255).score(r, r + 1), all(hasattr(viqa, x) for x in viqa.__all__))
print("LOADED", [p for p in c29.OPTIONAL if p in {absent!r} and p in sys.modules])
"""


def fresh(ctx, rng):
    # ipywidgets itself needs IPython
    absent = [(), ("ipywidgets",), OPTIONAL][ctx.idx % 3]
    first = [pick(rng, [m for m in MODULES if exists(m)])]
    here = os.path.dirname(os.path.abspath(__file__))
    code = FRESH.format(mon=os.path.dirname(here), props=here, absent=absent, first=first,
                        exc=pick(rng, ["ImportError", "ModuleNotFoundError"]))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=250)
    ctx.event("fresh")
    ctx.key(absent, first[0])
    ctx.check(p.returncode == 0, f"a fresh interpreter cannot import {first} without {absent or 'nothing'}",
              err=p.stderr[-300:])
    out = dict(ln.split(" ", 1) for ln in p.stdout.splitlines() if ln.split(" ", 1)[0] in ("SAID", "SCORE", "LOADED"))
    for name in OPTIONAL:
        ctx.check((name in out["SAID"]) == (name in absent), f"announcement of {name} without {absent}", said=out["SAID"])
    score, names = out["SCORE"].split()
    r = np.arange(400, dtype=np.uint8).reshape(20, 20)
    d = r.astype(float) - (r + 1).astype(float)
    ctx.close(float(score), np.sqrt(np.mean(d * d)), "score in a fresh interpreter", rtol=1e-9)
    ctx.check(names == "True", "names of viqa.__all__ are missing in a fresh interpreter")


KINDS = [("works", works, 120), ("dialogs", dialogs, 120), ("fresh", fresh, 8)]
