"""C25: figures show the requested slices and regions and every result."""
import os
import pathlib

import numpy as np

import multi
from gen import chance, layout, pick, roi_inside, texture, to_type, write_raster, write_raw

RULE = ("every public drawing call with images of every kind (2D, RGB, non-cubic volumes; types, layouts, "
        "files), random slices, centres, radii, region types, regions of interest, 0..14 results and export "
        "paths; the finished figure (images, axis direction, patches, lines, texts), taken when it is shown "
        "or saved, is compared with the requested slices read by coordinates; showing discards the figure "
        "as an interactive window does; exported files are decoded; distinct by call and arguments")
ASSUME = ["colour images are shown in grey where a grey image is needed",
          "an axis position (c, r) shows element [r, c] of the drawn array"]
NEED = {"volumes": 100, "flat": 60, "colour": 30, "comparisons": 90, "cnr_2d": 25, "cnr_3d": 25, "snr_2d": 25,
        "snr_3d": 25, "markers": 200, "texts": 400, "exports": 80, "refusals": 60, "overlays": 6,
        "batch_figures": 3, "resized": 6, "regions": 6, "partial_regions": 15}
LUM = np.array([0.2125, 0.7154, 0.0721])
CUBE = ["cubic", "cube", "square"]
BALL = ["spherical", "sphere", "circle"]


class Panel:
    def __init__(self, ax):
        self.images = [np.ma.filled(np.ma.asarray(im.get_array()), 0) for im in ax.images]
        self.masks = [np.ma.getmaskarray(np.ma.asarray(im.get_array())).copy() for im in ax.images]
        self.extent = [tuple(im.get_extent()) for im in ax.images]
        lo, hi = ax.get_ylim()
        left, right = ax.get_xlim()
        self.up = lo < hi
        self.right = left < right
        self.title = ax.get_title()
        self.marks = []
        for p in ax.patches:
            if type(p).__name__ == "Circle":
                self.marks.append(("ball", tuple(float(v) for v in p.center), float(p.get_radius())))
            elif type(p).__name__ == "Rectangle":
                w, h = p.get_width(), p.get_height()
                self.marks.append(("cube" if w == h and w > 0 else "box",
                                   (p.get_x() + w / 2, p.get_y() + h / 2), w / 2))
            else:
                self.marks.append((type(p).__name__, None, None))
        self.lines = [(tuple(map(float, ln.get_xdata())), tuple(map(float, ln.get_ydata()))) for ln in ax.lines]


class Shot:
    """What one figure shows."""

    def __init__(self, fig):
        self.panels = [Panel(ax) for ax in fig.axes]
        self.texts = [(t.get_text(), tuple(float(v) for v in t.get_position())) for t in fig.texts]


class Screen:
    """Stands in for the window system: records figures when shown or saved."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.Figure = plt, Figure
        plt.close("all")
        self.shown, self.saved = [], []
        self.show, self.savefig = plt.show, Figure.savefig

        def show(*a, **k):
            for n in plt.get_fignums():
                self.shown.append(Shot(plt.figure(n)))
            plt.close("all")

        def savefig(fig, fname, *a, **k):
            self.saved.append((Shot(fig), fname))
            return self.savefig(fig, fname, *a, **k)
        plt.show, Figure.savefig = show, savefig
        return self

    def __exit__(self, *exc):
        self.left = [Shot(self.plt.figure(n)) for n in self.plt.get_fignums()]
        self.plt.show, self.Figure.savefig = self.show, self.savefig
        self.plt.close("all")
        return False


def figure(ctx, call, path=None, shown=True, closed=False):
    """The one figure drawn by call()."""
    with ctx.quiet(), Screen() as scr:
        try:
            call()
        except Exception as e:
            ctx.fail("a documented visualization call fails", raised=repr(e))
    shots = [s for s, _ in scr.saved] + scr.shown
    if shown:
        ctx.check(len(scr.shown) == 1, "not one figure is shown", shown=len(scr.shown))
    elif not shots:
        shots = scr.left
    if closed:  # saved only: must not come up with the next figure
        ctx.check(not scr.left and not scr.shown, "a figure saved without being shown is left open",
                  left=len(scr.left), shown=len(scr.shown))
        ctx.event("saved_only")
    ctx.check(len(shots) >= 1, "no figure is drawn")
    if path is not None:
        ctx.check(len(scr.saved) == 1, "the export does not contain the figure", saved=len(scr.saved))
        decoded(ctx, path)
        if shown:
            alike(ctx, scr.saved[0][0], scr.shown[0])
    return shots[0]


def alike(ctx, a, b):
    ctx.check(len(a.panels) == len(b.panels), "the exported figure is not the shown one")
    for p, q in zip(a.panels, b.panels):
        ctx.check(len(p.images) == len(q.images) and all(np.array_equal(x, y) for x, y in zip(p.images, q.images))
                  and p.marks == q.marks, "the exported figure is not the shown one")


def decoded(ctx, path):
    from PIL import Image
    ctx.check(os.path.exists(path) and os.path.getsize(path) > 0, "no figure file was written", path=str(path))
    with Image.open(path) as im:
        px = np.asarray(im.convert("RGB"))
    ctx.check(px.shape[0] > 10 and px.shape[1] > 10 and len(np.unique(px.reshape(-1, 3), axis=0)) > 5,
              "the exported file is blank", size=px.shape)
    ctx.event("exports")


def is_image(panel, want, n=0):
    """The panel shows this array, rows upwards."""
    got = panel.images[n] if len(panel.images) > n else None
    if got is None or got.shape != want.shape:
        return False
    rows, cols = want.shape[:2]
    ext = panel.extent[n]
    if (min(ext[:2]), max(ext[:2]), min(ext[2:]), max(ext[2:])) != (-0.5, cols - 0.5, -0.5, rows - 0.5):
        return False
    if ext[0] > ext[1]:
        got = got[:, ::-1]
    if ext[2] < ext[3]:
        got = got[::-1]
    return bool(np.allclose(np.asarray(got, float), np.asarray(want, float), rtol=1e-6, atol=1e-9))


def shows(ctx, panel, want, what, **kw):
    ctx.check(is_image(panel, want), what, got=[i.shape for i in panel.images], want=want.shape, **kw)
    ctx.check(panel.up and panel.right, what + " (axis directions)", **kw)


def volume(rng, dtype=None):
    shape = tuple(int(v) for v in rng.integers(5, 15, 3))
    if shape[-1] == 3:
        shape = shape[:-1] + (4,)
    dtype = dtype or pick(rng, ["uint8", "uint16", "float64", "float32"])
    return to_type(texture(rng, shape), dtype, {"uint8": 255, "uint16": 65535}.get(dtype, 1.0))


def flat(rng, colour=False, lo=8, hi=24):
    shape = tuple(int(v) for v in rng.integers(lo, hi, 2)) + ((3,) if colour else ())
    dtype = pick(rng, ["uint8", "float64"])
    return to_type(texture(rng, shape), dtype, 255 if dtype == "uint8" else 1.0)


def out_file(ctx, rng):
    if chance(rng, 0.4):
        return None
    p = os.path.join(ctx.scratch, f"fig{ctx.idx}.png")
    return pathlib.Path(p) if chance(rng, 0.3) else p


def small(rng):
    return {"dpi": int(rng.integers(15, 30))}


def lines_at(ctx, panel, x, y):
    v = sorted({ln[0][0] for ln in panel.lines if len(set(ln[0])) == 1})
    h = sorted({ln[1][0] for ln in panel.lines if len(set(ln[1])) == 1})
    if panel.lines:
        ctx.check(float(x) in v and float(y) in h, "the lines do not mark the other slices", vertical=v,
                  horizontal=h, want=(x, y))


def three(ctx, shot, img, at, what, off=0, lines=True):
    x, y, z = at
    cuts = [(img[x], (y, z)), (img[:, y], (x, z)), (img[:, :, z], (x, y))]
    for i, (cut, pos) in enumerate(cuts):
        panel = shot.panels[off + i]
        shows(ctx, panel, cut.T, f"{what}: panel {i} does not show the requested slice", slices=at,
              shape=img.shape)
        if lines and min(at) >= 0:
            lines_at(ctx, panel, *pos)
        ctx.check(str(at[i]) in panel.title, f"{what}: the title names another slice", title=panel.title,
                  want=at[i])


def draw_volume(ctx, rng):
    from viqa.utils import load_data, visualize_3d
    img = volume(rng)
    at = tuple(int(rng.integers(n)) for n in img.shape)
    if chance(rng, 0.15):
        at = tuple(pick(rng, [0, n - 1]) for n in img.shape)
    src = layout(rng, img)
    path = out_file(ctx, rng)
    if chance(rng, 0.5):
        shot = figure(ctx, lambda: visualize_3d(src, at, path, **small(rng)), path)
    else:
        im = load_data(src)
        kw = {} if path is None else {"export_path": path}
        shot = figure(ctx, lambda: im.visualize(slices=at, **kw, **small(rng)), path)
    ctx.check(len(shot.panels) == 3, "not three panels", got=len(shot.panels))
    three(ctx, shot, img, at, "volume")
    bad = list(at)
    ax = int(rng.integers(3))
    bad[ax] = pick(rng, [img.shape[ax], img.shape[ax] + 7, -img.shape[ax] - 1])
    with ctx.quiet(), Screen():
        ctx.refused(lambda: visualize_3d(src, tuple(bad), dpi=20), ValueError,
                    "a slice index outside the image is accepted", slices=bad, shape=img.shape)
        if chance(rng, 0.3):
            ctx.refused(lambda: load_data(src).visualize(slices=tuple(bad), dpi=20), ValueError,
                        "a slice index outside the image is accepted", slices=bad, shape=img.shape)
        if chance(rng, 0.3):
            wrong = pick(rng, [(1, 1), (1, 1, 1, 1), (1.0, 1, 1), ("1", 1, 1)])
            ctx.refused(lambda: visualize_3d(src, wrong, dpi=20), ValueError, "ill-formed slices are accepted",
                        slices=wrong)
        if chance(rng, 0.3):
            ctx.refused(lambda: load_data(src).visualize(dpi=20), ValueError, "a volume is drawn without slices")
    ctx.event("volumes")
    ctx.key(img.shape, at, img.dtype.name)
    ctx.sample(shape=img.shape, slices=at)


def draw_flat(ctx, rng):
    from viqa.utils import load_data, visualize_2d, visualize_3d
    colour = chance(rng, 0.4)
    img = flat(rng, colour)
    src = layout(rng, img)
    path = out_file(ctx, rng)
    if chance(rng, 0.5):
        kw = {"cmap": pick(rng, ["viridis", "gray", "jet"])} if chance(rng, 0.3) else {}
        if chance(rng, 0.3):
            kw["figsize"] = (3, 4)
        if chance(rng, 0.4):  # settings of the drawing library
            kw.update(pick(rng, [{"vmin": 1, "vmax": 200}, {"interpolation": "nearest"}, {"alpha": 0.8},
                                 {"vmin": 0, "vmax": 300, "interpolation": "bilinear"}]))
        shot = figure(ctx, lambda: visualize_2d(src, path, **kw, **small(rng)), path)
    else:
        im = load_data(src)
        kw = {"slices": (1, 2, 3)} if chance(rng, 0.3) else {}  # of no use for a flat image
        shot = figure(ctx, lambda: im.visualize(export_path=path, **kw, **small(rng)), path)
    ctx.check(len(shot.panels) == 1, "not one panel")
    shows(ctx, shot.panels[0], img, "the image is not drawn as it is", shape=img.shape)
    with ctx.quiet(), Screen():
        ctx.refused(lambda: visualize_2d(np.zeros(pick(rng, [(4, 5, 6), (4,), (2, 3, 4, 3)])), dpi=20),
                    ValueError, "an image that is not 2D is drawn as 2D")
        ctx.refused(lambda: visualize_3d(np.zeros(pick(rng, [(4, 5), (4,), (2, 3, 4, 3)])), (0, 0, 0), dpi=20),
                    ValueError, "an image that is not 3D is drawn as 3D")
    ctx.event("colour" if colour else "flat")
    ctx.key(img.shape, img.dtype.name)


def marks(ctx, panel, kind, at, radius, what):
    want = [] if kind is None else [(kind, tuple(float(v) for v in at), float(radius))]
    ctx.check(panel.marks == want, f"{what}: the marker is not the given region", got=panel.marks, want=want)
    ctx.event("markers")


def kind_of(region):
    return "cube" if region in CUBE else "ball" if region in BALL else None


def region_panel(ctx, panel, img, center, radius, kind, what, known=None):
    """A 2D panel whose marker has to enclose the region that is scored."""
    ctx.check(panel.up and panel.right, what + ": axis directions")
    if kind is None:
        ctx.check(any(is_image(panel, w) for w in (img, img.T, img[:, ::-1])), f"{what}: another image is drawn",
                  shape=img.shape)
        ctx.check(panel.marks == [], f"{what}: a marker is drawn", got=panel.marks)
        return
    swapped = (center[1], center[0])
    if is_image(panel, img.T):
        return marks(ctx, panel, kind, center, radius, what)
    if is_image(panel, img) and panel.marks == [(kind, tuple(map(float, swapped)), float(radius))]:
        ctx.event("markers")
        return
    # as drawn at present: see the known finding
    ctx.check(is_image(panel, known(img)), f"{what}: another image is drawn", shape=img.shape)
    marks(ctx, panel, kind, center, radius, what)
    ctx.known("regions-2d", "2D CNR and SNR figures draw the image untransposed (signal panels also mirrored), "
              "so the marker does not enclose the scored pixels", center=center, shape=img.shape)


def center_in(rng, shape, r):
    return tuple(int(rng.integers(r, n - r + 1)) if n - r >= r else n // 2 for n in shape)


def centers(ctx, rng):
    import viqa
    name = pick(rng, ["CNR", "SNR"])
    solid = chance(rng, 0.5)
    colour = not solid and chance(rng, 0.3)
    img = volume(rng) if solid else flat(rng, colour)
    space = img.shape if solid else img.shape[:2]
    r = int(rng.integers(1, max(2, min(space) // 3)))
    sig, bg = ((tuple(min(c, n - 1) for c, n in zip(center_in(rng, space, r), space))) for _ in range(2))
    region = pick(rng, CUBE + BALL + (["full", "original"] if name == "SNR" else []))
    met = getattr(viqa, name)(data_range=255)
    grey = img if not colour else np.minimum(np.asarray(img, float) @ LUM, img.max())
    kw = {"signal_center": sig, "radius": r}
    if name == "CNR":
        kw["background_center"] = bg
    path = out_file(ctx, rng)
    src = layout(rng, img)
    give = dict(kw)
    if chance(rng, 0.5) and not colour and region not in ("full", "original"):
        with ctx.quiet():  # regions of the latest scoring
            met.score(img, region_type=region, **kw)
        give = {"region_type": region} if chance(rng, 0.3) else {}
        ctx.event("stored_regions")
        if chance(rng, 0.8):  # part of them given anew, the rest as stored
            part = pick(rng, list(kw))
            if part == "radius":
                r = give["radius"] = int(rng.integers(1, r + 1))
            else:
                new = tuple(min(c, n - 1) for c, n in zip(center_in(rng, space, r), space))
                give[part] = new
                sig, bg = (new, bg) if part == "signal_center" else (sig, new)
            ctx.event("partial_regions")
    else:
        give["region_type"] = region
    overlay = None
    if name == "SNR" and region == "full" and chance(rng, 0.7):
        overlay = np.ma.array(grey, mask=rng.random(grey.shape) < 0.5) if chance(rng, 0.5) \
            else (rng.random(grey.shape) < 0.5).astype(float)
        give["signal"] = overlay
        ctx.event("overlays")
    shot = figure(ctx, lambda: met.visualize_centers(src, export_path=path, **give, **small(rng)), path)
    kind = kind_of(region)
    if solid:
        rows = [bg, sig] if name == "CNR" else [sig]
        ctx.check(len(shot.panels) == 3 * len(rows), "another number of panels", got=len(shot.panels))
        for i, c in enumerate(rows):
            three(ctx, shot, img, c, f"{name} {'signal' if c is sig else 'background'}", 3 * i)
            x, y, z = c
            for j, pos in enumerate([(y, z), (x, z), (x, y)]):
                marks(ctx, shot.panels[3 * i + j], kind, pos, r, f"{name} panel {3 * i + j}")
        if overlay is not None:
            x, y, z = sig
            for p, cut in zip(shot.panels, [overlay[x], overlay[:, y], overlay[:, :, z]]):
                over(ctx, p, cut.T)
        ctx.event(name.lower() + "_3d")
    else:
        n = 2 if name == "CNR" else 1
        ctx.check(len(shot.panels) == n, "another number of panels", got=len(shot.panels))
        if name == "CNR":
            region_panel(ctx, shot.panels[0], grey, bg, r, kind, "CNR background", lambda a: a)
        region_panel(ctx, shot.panels[-1], grey, sig, r, kind, f"{name} signal", lambda a: a[:, ::-1])
        if overlay is not None:
            p = shot.panels[0]
            ctx.check(len(p.images) == 2 and
                      any(is_image(p, np.ma.filled(w, 0), 1) for w in (overlay, overlay.T, overlay[:, ::-1])),
                      "the given signal region is not drawn over the image")
        ctx.event(name.lower() + "_2d")
    with ctx.quiet(), Screen():
        bad = dict(kw)
        how = pick(rng, ["dims", "border", "radius", "none"])
        if how == "dims":
            bad["signal_center"] = sig + (1,) if not solid else sig[:2]
        elif how == "border":
            bad["signal_center"] = (r - 1,) + sig[1:]
        elif how == "radius":
            bad["radius"] = pick(rng, [-2, 1.5])
        fresh = getattr(viqa, name)(data_range=255)
        if name == "SNR" and chance(rng, 0.3):
            wrong = np.ones(tuple(n + 1 for n in space))
            ctx.refused(lambda: fresh.visualize_centers(src, region_type="full", signal=wrong, dpi=20, **kw),
                        ValueError, "a signal region of another shape is drawn")
        if how == "none":
            ctx.refused(lambda: fresh.visualize_centers(src, region_type="cubic", dpi=20), ValueError,
                        "centres are drawn without being given")
        else:
            ctx.refused(lambda: fresh.visualize_centers(src, region_type="cubic", dpi=20, **bad),
                        (ValueError, TypeError), f"ill-formed regions ({how}) are drawn", args=bad)
    ctx.key(name, img.shape, sig, bg, r, region)
    ctx.sample(metric=name, shape=img.shape, signal=sig, radius=r, region=region)


def over(ctx, panel, want):
    ctx.check(len(panel.images) == 2 and is_image(panel, np.ma.filled(want, 0), 1) and
              np.array_equal(panel.masks[1], np.ma.getmaskarray(np.ma.asarray(want))),
              "the given signal region is not drawn over the slice", images=len(panel.images))


def some_results(rng):
    names = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "VSI", "VIFp", "MAD", "MS-SSIM", "extra", "more"]
    fr = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(0, 13))]]
    nr = [n + t for n in ["CNR", "SNR", "Q-Measure"][:int(rng.integers(0, 3))] for t in ("_r", "_m")]
    keys = fr + nr if chance(rng, 0.5) else nr + fr
    if chance(rng, 0.3):
        keys = [keys[i] for i in rng.permutation(len(keys))]
    return {k: float(pick(rng, [rng.normal() * 10, rng.uniform(0, 1), np.inf, 12345.678])) for k in keys}


def comparison(ctx, shot, r, m, results, at, what):
    """r and m are the images after resizing and cropping."""
    ctx.check(len(shot.panels) == 2, f"{what}: not two panels", got=len(shot.panels))
    imgs = []
    for img in (r, m):
        if img.ndim == 3 and img.shape[-1] == 3:
            img = np.minimum(np.asarray(img, float) @ LUM, img.max())
        if img.ndim == 3:
            ax, i = at
            img = np.take(img, i, axis=ax).T
            imgs.append([img])
        else:
            imgs.append([img[:, ::-1], img])
    ok = [v for v in range(len(imgs[0])) if is_image(shot.panels[0], imgs[0][v]) and
          is_image(shot.panels[1], imgs[1][v])]
    left = any(is_image(shot.panels[0], v) for v in imgs[0])
    ctx.check(bool(ok), f"{what}: the {'right' if left else 'left'} panel does not show the requested slice",
              slice=at, shape=r.shape, got=[i.shape for p in shot.panels for i in p.images])
    ctx.check(all(p.up and p.right for p in shot.panels), f"{what}: axis directions")
    ctx.check("ref" in shot.panels[0].title.lower() and "mod" in shot.panels[1].title.lower(),
              f"{what}: the panels are named wrongly", titles=[p.title for p in shot.panels])
    texts = {}
    for t, pos in shot.texts:
        texts.setdefault(t, []).append(pos)
    used = set()
    for k, v in results.items():
        t = f"{k}: {v:.2f}"
        ctx.check(len(texts.get(t, [])) == 1, f"{what}: a result is not shown exactly once", result=t,
                  texts=sorted(texts))
        pos = texts[t][0]
        ctx.check(pos not in used and 0 <= pos[0] <= 1, f"{what}: a result is drawn over another", result=t)
        used.add(pos)
        ctx.event("texts")
    ctx.event("comparisons")


def compare(ctx, rng):
    from viqa.utils import export_image
    kind = pick(rng, ["flat", "flat", "colour", "solid", "solid", "solid"])
    r = volume(rng) if kind == "solid" else flat(rng, kind == "colour")
    m = to_type(texture(rng, r.shape), r.dtype, 255 if r.dtype == np.uint8 else 65535 if r.dtype == np.uint16 else 1.0)
    kw = small(rng)
    order = 1
    if chance(rng, 0.3):
        shape = tuple(int(n + d) for n, d in zip(r.shape[:2 if kind != "solid" else 3], rng.integers(-2, 5, 3)))
        m = to_type(texture(rng, shape + ((3,) if kind == "colour" else ())), r.dtype,
                    255 if r.dtype == np.uint8 else 65535 if r.dtype == np.uint16 else 1.0)
        if chance(rng, 0.5):
            order = kw["scaling_order"] = pick(rng, [0, 2, 3])
    m2 = multi.resized(r, m, order)
    if m.shape != r.shape:
        ctx.event("resized")
    cut_r, cut_m = r, m2
    if chance(rng, 0.3):
        roi = roi_inside(rng, r.shape if kind == "solid" else r.shape[:2], 4)
        if kind == "solid" and roi[2][1] - roi[2][0] == 3:
            roi[2] = (0, r.shape[2])
        kw["roi"] = roi
        sl = tuple(slice(a, b) for a, b in roi)
        cut_r, cut_m = r[sl], m2[sl]
        ctx.event("regions")
    at = None
    if kind == "solid":
        ax = int(rng.integers(3))
        at = (ax, int(rng.integers(cut_r.shape[ax])))
        if chance(rng, 0.2):
            at = (ax, 0)
        kw["xyz"[ax]] = at[1]
    results = some_results(rng)
    path = None
    show = True
    if chance(rng, 0.5):
        kw["file_path"] = ctx.scratch
        fname = "image_comparison.png"
        if chance(rng, 0.5):
            fname = kw["file_name"] = pick(rng, ["a.png", "b c.png", "x.y.png"])
        path = os.path.join(ctx.scratch, fname)
        if chance(rng, 0.5):
            show = kw["show_image"] = False
    gr, gm = layout(rng, r), layout(rng, m)
    if chance(rng, 0.25) and r.dtype == np.uint8:
        if kind == "solid":
            gr, gm = write_raw(ctx.scratch, "r", r, "8bit"), write_raw(ctx.scratch, "m", m, "8bit")
        else:
            gr, gm = (write_raster(ctx.scratch, "r", r, ".png"), write_raster(ctx.scratch, "m", m, ".png"))
    keep = dict(results)
    shot = figure(ctx, lambda: export_image(results, gr, gm, **kw), path, shown=show, closed=not show)
    ctx.check(results == keep, "drawing changed the results")
    comparison(ctx, shot, cut_r, cut_m, results, at, "comparison")
    with ctx.quiet(), Screen() as scr:
        if kind == "solid":
            base = {k: v for k, v in kw.items() if k not in ("x", "y", "z", "file_path", "file_name", "show_image")}
            two = pick(rng, [{}, {"x": 1, "y": 1}, {"y": 0, "z": 2}, {"x": 0, "y": 1, "z": 2}])
            ctx.refused(lambda: export_image(results, r, m, **two, **base), ValueError,
                        "no or several axes are accepted", axes=two)
            ax = at[0]
            ctx.refused(lambda: export_image(results, r, m, **{"xyz"[ax]: cut_r.shape[ax] + 3}, **base),
                        (ValueError, IndexError), "a slice index outside the image is accepted")
        if chance(rng, 0.3):
            ctx.refused(lambda: export_image(results, flat(rng), volume(rng), x=0, dpi=20), ValueError,
                        "images of different dimensions are accepted")
        if chance(rng, 0.3):
            ctx.refused(lambda: export_image(results, gr, gm, **{**kw, "file_path": ctx.scratch,
                                                                 "file_name": pick(rng, ["a.jpg", "a", "a.png.txt"])}),
                        ValueError, "a file name with a wrong extension is accepted")
    ctx.check(not scr.left and not scr.shown and not scr.saved, "a refused comparison leaves a figure")
    ctx.key(kind, r.shape, m.shape, at, tuple(results))
    ctx.sample(kind=kind, shape=r.shape, at=at, results=list(results))


def report(ctx, rng):
    """Comparison figures made by the reports of multi-metric and batch evaluation."""
    import viqa
    solid = chance(rng, 0.5)
    dtype = "uint8"
    n = int(rng.integers(2, 4))
    arrs, files = [], []
    for i in range(n):
        a = volume(rng, dtype) if solid else to_type(texture(rng, tuple(int(v) for v in rng.integers(10, 20, 2))),
                                                     dtype, 255)
        if i and chance(rng, 0.6):
            a = to_type(texture(rng, arrs[0].shape), dtype, 255)
        arrs.append(a)
        files.append(write_raw(ctx.scratch, f"v{i}", a, "8bit") if solid else
                     write_raster(ctx.scratch, f"v{i}", a, ".png"))
    mets, par = [viqa.RMSE(), viqa.PSNR(data_range=255), viqa.SNR()], [{}, {}]
    least = tuple(min(a.shape[k] for a in arrs) for k in range(arrs[0].ndim))
    rois = None
    if chance(rng, 0.4):
        rois = [roi_inside(rng, least, 5, 0.1) for _ in range(2)]
        if solid:
            rois = [[a, b, (0, max(4, c[1]))] for a, b, c in rois]
        least = tuple(min(r[k][1] - r[k][0] for r in rois) for k in range(len(least)))
    par.append({"signal_center": tuple(v // 2 for v in least), "radius": 1})
    at = (int(rng.integers(3)), 1) if solid else None
    axis = {"xyz"[at[0]]: at[1]} if solid else {}
    if chance(rng, 0.6):
        rows = [(int(rng.integers(n)), int(rng.integers(n))) for _ in range(2)]
        pairs = os.path.join(ctx.scratch, "pairs.csv")
        with open(pairs, "w") as f:
            f.write("reference_image,modified_image\n" + "".join(
                f"{os.path.basename(files[a])},{os.path.basename(files[b])}\n" for a, b in rows))
        obj = viqa.BatchMetrics(ctx.scratch, pairs, mets, par, rois=rois)
        project = {"project_name": pick(rng, ["p", "my run", "v1.2"])} if chance(rng, 0.5) else {}
        stem = project["project_name"] + "_" if project else ""
        if rois is not None and chance(rng, 0.4):  # one region instead of those of the rows
            rois = [rois[1]] * 2
            one = {"roi": rois[0]}
            ctx.event("global_regions")
        else:
            one = {}
        with ctx.quiet():
            obj.calculate(**one)
            with Screen() as scr:
                try:
                    obj.report(csv=False, metadata=False, image=True, file_path=ctx.scratch, **axis, **project)
                except Exception as e:
                    ctx.fail("a batch report with figures fails", raised=repr(e))
        ctx.check(not scr.left, "the figures of a batch report are left open", left=len(scr.left))
        ctx.check(len(scr.saved) == len(rows), "not one figure per row", saved=len(scr.saved), rows=len(rows))
        for i, (a, b) in enumerate(rows):
            p = os.path.join(ctx.scratch, f"{stem}image_comparison_{i}.png")
            decoded(ctx, p)
            shot = [s for s, f in scr.saved if os.path.basename(str(f)) == os.path.basename(p)]
            ctx.check(len(shot) == 1, "a row has not one figure", row=i)
            r, m = arrs[a], multi.resized(arrs[a], arrs[b], 1)
            if rois is not None:
                sl = tuple(slice(*v) for v in rois[i])
                r, m = r[sl], m[sl]
            comparison(ctx, shot[0], r, m, obj.results[str(i)], at, f"row {i}")
            ctx.event("batch_figures")
    else:
        obj = viqa.MultipleMetrics(mets, par)
        kw = {} if rois is None else {"roi": rois[0]}
        with ctx.quiet():
            res = obj.calculate(arrs[0], arrs[1], **kw)
        keep = chance(rng, 0.5)
        project = {"project_name": pick(rng, ["p", "my run", "v1.2"])} if chance(rng, 0.5) else {}
        stem = project["project_name"] + "_" if project else ""
        path = os.path.join(ctx.scratch, stem + "image_comparison.png") if keep else None
        ctx.refused(lambda: obj.report(csv=False, metadata=False, text=False, image=True, file_path=ctx.scratch,
                                       **pick(rng, [{}, {"img_r": arrs[0]}, {"img_m": arrs[1]}])),
                    ValueError, "a report with figures but without images is made")
        shot = figure(ctx, lambda: obj.report(csv=False, metadata=False, text=False, image=True,
                                              file_path=ctx.scratch, export_image=keep, img_r=files[0],
                                              img_m=arrs[1], dpi=20, **axis, **kw, **project), path)
        r, m = arrs[0], multi.resized(arrs[0], arrs[1], 1)
        if kw:
            sl = tuple(slice(*v) for v in rois[0])
            r, m = r[sl], m[sl]
        comparison(ctx, shot, r, m, res, at, "report")
    ctx.key(tuple(a.shape for a in arrs), at)


KINDS = [("draw_volume", draw_volume, 200, 10), ("draw_flat", draw_flat, 140, 10), ("centers", centers, 300, 10),
         ("compare", compare, 220, 10), ("report", report, 32, 10)]
