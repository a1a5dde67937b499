"""C28: regions chosen in the interactive dialogs."""
import builtins
import contextlib

import numpy as np

from c25 import Screen, flat, volume
from gen import chance, layout, pick

RULE = ("1..3 metric objects (CNR, SNR) whose dialogs are open at the same time on images of different size and "
        "dimension; random histories of 8..24 user actions on the real widgets (moving sliders to ends and inner "
        "positions, changing radius and region type, calculating the full region, saving, reopening) with IPython "
        "announced; widgets are observed as they are constructed and figures as they are shown; after every action "
        "the stored parameters of all objects, the slider limits and the drawn figure are compared with a model of "
        "the dialogs; refused starting points and the non-interactive fallback; distinct by action sequence")
ASSUME = ["a dialog's controls are found by their labels", "the drawing itself is decided by C25",
          "images have at least four pixels a side"]
NEED = {"actions": 600, "saves": 100, "foreign_saves": 40, "figures": 300, "radius_changes": 60, "full_regions": 20,
        "reopened": 20, "scores": 60, "refusals": 30, "fallbacks": 15, "dialogs:CNR": 40, "dialogs:SNR": 40,
        "edge_positions": 60}
AXES = "XYZ"
WATCHED = ("signal_center", "background_center", "radius", "region_type", "auto_center", "iterations",
           "lower_threshold", "upper_threshold")


@contextlib.contextmanager
def notebook():
    """The interpreter announces IPython, and every widget made is noted."""
    import ipywidgets
    made = []
    builtins.__IPYTHON__ = True
    ipywidgets.Widget.on_widget_constructed(made.append)
    try:
        yield made
    finally:
        ipywidgets.Widget.on_widget_constructed(None)
        del builtins.__IPYTHON__
        for w in made:
            with contextlib.suppress(Exception):
                w.close()


def controls(widgets):
    import ipywidgets as W
    found = {}
    for w in widgets:
        if isinstance(w, W.VBox) and len(w.children) == 2 and isinstance(w.children[0], W.Label):
            found[w.children[0].value] = w.children[1]
        elif isinstance(w, (W.Button, W.IntSlider, W.Dropdown)) and w.description:
            found[w.description.rstrip(":")] = w
    return found


def like(a, b):
    return a.shape == b.shape and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-6, atol=1e-9)


def sliders(d, role):
    return [d.ui[k] for a in AXES for k in [f"{a} Coordinate ({role})"] if k in d.ui]


class Dialog:
    def __init__(self, ctx, rng, met, name, img, made, scr, start=None, vis=None):
        self.met, self.name, self.img = met, name, img
        self.colour = img.ndim == 3 and img.shape[-1] == 3
        self.space = img.shape[:2] if self.colour else img.shape
        self.signal = None
        self.calc = None
        before = dict(met.parameters)
        del made[:-1]
        n = len(made)
        del scr.shown[:]
        kw = dict(start or {})
        if vis:
            kw.update(vis if name == "CNR" else {"vis_kwargs": vis})
        self.vis = vis or {}
        try:
            with ctx.quiet():
                met.set_centers(layout(rng, img), **kw)
        except Exception as e:
            ctx.fail(f"{name}.set_centers does not open", raised=repr(e), shape=img.shape, start=kw,
                     stored={k: before.get(k) for k in WATCHED if k in before})
        self.ui = controls(made[n:])
        roles = ["Signal"] + (["Background"] if name == "CNR" else [])
        for r in roles:
            ctx.check(len(sliders(self, r)) == len(self.space), f"{name}: no slider for every coordinate",
                      role=r, shape=img.shape, controls=sorted(self.ui))
        for b in ["Radius", "Save Current Values"]:
            ctx.check(b in self.ui, f"{name}: the dialog has no {b}")
        ctx.event("dialogs:" + name)
        self.legal(ctx)
        self.drawn(ctx, scr, "opening")
        # starting values that the sliders can take are shown
        want = {}
        if name == "CNR" and {"signal_center", "background_center", "radius"} <= set(before):
            want = before
        elif name == "CNR":
            want = start or {}
        else:
            want = {**{k: v for k, v in before.items() if v is not None}, **(start or {})}
        now = self.values()
        top = self.ui["Radius"].max
        ctx.check(now["radius"] == min(want.get("radius", 1), top), f"{name}: another starting radius",
                  got=now["radius"], want=want.get("radius", 1))
        for role, key in (("Signal", "signal_center"), ("Background", "background_center")):
            if key in now:
                w = want.get(key) or tuple(s // 2 for s in self.space)
                for sl, v, got in zip(sliders(self, role), w, now[key]):
                    if sl.min <= v <= sl.max:
                        ctx.check(got == v, f"{name}: another starting position", got=now[key], want=w)
        if name == "SNR":
            ctx.check(now["region_type"] == want.get("region_type", "cubic"), "another starting region type",
                      got=now["region_type"], want=want.get("region_type", "cubic"))
            for lab, key in (("Lower Threshold", "lower_threshold"), ("Upper Threshold", "upper_threshold"),
                             ("Iterations", "iterations")):
                if want.get(key) is not None:
                    ctx.check(self.ui[lab].value == want[key], f"another starting {key}",
                              got=self.ui[lab].value, want=want[key])

    def values(self):
        v = {"radius": self.ui["Radius"].value,
             "signal_center": tuple(s.value for s in sliders(self, "Signal"))}
        if self.name == "CNR":
            v["background_center"] = tuple(s.value for s in sliders(self, "Background"))
        else:
            v["region_type"] = self.ui["Region Type"].value
        return v

    def legal(self, ctx):
        """Every position the sliders permit can be scored."""
        r = self.ui["Radius"].value
        ctx.check(r >= 1 and self.ui["Radius"].min >= 1, "the radius slider permits no region", radius=r)
        for role in ("Signal", "Background"):
            for s, n in zip(sliders(self, role), self.space):
                ctx.check(s.min <= s.value <= s.max, "a slider outside its limits", value=s.value)
                ctx.check(s.min - r >= 0 and s.max + r <= n, f"{self.name}: the sliders permit positions whose "
                          "region leaves the image", limits=(s.min, s.max), radius=r, size=n)

    def drawn(self, ctx, scr, what):
        """The latest figure is the one visualize_centers draws for the values shown."""
        import viqa
        ctx.check(len(scr.shown) >= 1, f"{self.name}: nothing is drawn after {what}")
        got = scr.shown[-1]
        del scr.shown[:]
        kw = self.values()
        if self.name == "SNR" and kw["region_type"] == "full" and self.signal is not None:
            kw["signal"] = self.signal
        kw.setdefault("region_type", self.vis.get("region_type", "cubic"))
        with ctx.quiet():
            getattr(viqa, self.name)(data_range=255).visualize_centers(self.img, **kw)
        want = scr.shown[-1]
        del scr.shown[:]
        ctx.check(len(got.panels) == len(want.panels), f"{self.name}: another figure after {what}")
        for n, (p, q) in enumerate(zip(got.panels, want.panels)):
            same = p.marks == q.marks and p.lines == q.lines and p.title == q.title and \
                len(p.images) == len(q.images) and all(
                    like(a, b) and np.array_equal(c, d)
                    for a, b, c, d in zip(p.images, q.images, p.masks, q.masks))
            ctx.check(same, f"{self.name}: panel {n} does not show the values of the dialog after {what}",
                      got=p.marks, want=q.marks, values=self.values())
        ctx.event("figures")

    def saved(self):
        """Parameters that saving has to store."""
        v = self.values()
        if self.name == "CNR":
            return v
        if v["region_type"] in ("cubic", "spherical"):
            return v
        res = {"region_type": v["region_type"]}
        if v["region_type"] == "full" and self.calc:
            res.update(self.calc)
        return res


def numbers(rng, s):
    """A position of this slider, often an end."""
    if chance(rng, 0.4):
        return pick(rng, [s.min, s.max])
    return int(rng.integers(s.min, s.max + 1))


def region_signal(img, it, lo, hi):
    """The region the metric itself scores with these settings."""
    import viqa
    return viqa.nr_metrics.snr.signal_to_noise_ratio(
        img, signal_center=None, radius=None, region_type="full", auto_center=True, iterations=it,
        lower_threshold=lo, upper_threshold=hi)[1]["signal"]


def session(ctx, rng):
    import viqa
    with notebook() as made, Screen() as scr:
        objs = []
        for _ in range(int(rng.integers(1, 4))):
            name = pick(rng, ["CNR", "SNR"])
            objs.append(open_new(ctx, rng, getattr(viqa, name)(data_range=255), name, made, scr))
        trace = [f"{d.name}{d.img.ndim}" for d in objs]
        state = [snapshot(d.met) for d in objs]
        for _ in range(int(rng.integers(8, 25))):
            k = int(rng.integers(len(objs)))
            d = objs[k]
            acts = ["move", "move", "move", "radius", "save", "save", "score"]
            if d.name == "SNR":
                acts += ["type", "calc"]
            if chance(rng, 0.15):
                acts = ["reopen"]
            act = pick(rng, acts)
            trace.append(f"{k}.{act}")
            what = f"{trace[-5:]}"
            before = d.values()
            del scr.shown[:]
            try:
                with ctx.quiet():
                    target = do(ctx, rng, d, act)
            except Exception as e:
                if type(e).__name__ in ("Violation",):
                    raise
                ctx.fail(f"{d.name}: the action '{act}' fails", raised=repr(e), shape=d.img.shape, values=before,
                         trace=trace[-6:])
            ctx.event("actions")
            if act == "reopen":
                objs[k] = reopen(ctx, rng, d, made, scr)
                d = objs[k]
                state[k] = snapshot(d.met)
                ctx.event("reopened")
            after = d.values()
            d.legal(ctx)
            if act in ("move", "radius", "type"):
                label, val = target
                ctx.check(d.ui[label].value == val, f"{d.name}: {label} does not keep its value",
                          got=d.ui[label].value, want=val, trace=trace[-6:])
                if act != "radius":
                    for key in after:
                        if not (key == "region_type" and act == "type") and not (key.endswith("center") and act == "move"):
                            ctx.check(after[key] == before[key], f"{d.name}: {act} changes {key}")
                else:
                    ctx.event("radius_changes")
                    for key in ("signal_center", "background_center"):
                        for c, e, n in zip(before.get(key, ()), after.get(key, ()), d.space):
                            if val + 1 <= c <= n - val - 1:
                                ctx.check(c == e, f"{d.name}: a new radius moves a centre that fits", got=after[key],
                                          want=before[key], radius=val, shape=d.space)
                            else:
                                ctx.check(abs(e - c) <= max(val + 1 - c, c - (n - val - 1)) + 1,
                                          f"{d.name}: a new radius moves a centre too far", got=after[key],
                                          want=before[key], radius=val, shape=d.space)
                if after != before:
                    d.drawn(ctx, scr, what)
            elif act == "calc":
                ctx.check(after["region_type"] == "full", "the calculated region is not the one shown",
                          got=after["region_type"])
                if scr.shown:
                    d.drawn(ctx, scr, what)
            if act == "save":
                want = d.saved()
                got = {key: d.met.parameters.get(key) for key in want}
                ctx.check(got == want, f"{d.name}: saving stores other values than the dialog shows", got=got,
                          want=want, trace=trace[-8:])
                ctx.event("saves")
                if len(objs) > 1:
                    ctx.event("foreign_saves")
                state[k] = snapshot(d.met)
                if d.name == "SNR" and want["region_type"] == "full":
                    stored_full(ctx, d, scr)
            elif act == "score":
                state[k] = snapshot(d.met)
            for j, o in enumerate(objs):
                ctx.check(snapshot(o.met) == state[j], f"{o.name}: '{act}' in "
                          f"{'the' if j == k else 'another'} dialog changes the stored regions", before=state[j],
                          now=snapshot(o.met), trace=trace[-6:])
        ctx.key(tuple(trace), tuple(d.img.shape for d in objs))
        ctx.sample(actions=trace[:14])


def snapshot(met):
    return {k: met.parameters.get(k) for k in WATCHED if k in met.parameters}


def image(rng):
    if chance(rng, 0.45):
        return volume(rng)
    return flat(rng, chance(rng, 0.2), 5, 26)


def open_new(ctx, rng, met, name, made, scr):
    img = image(rng)
    space = img.shape[:2] if img.ndim == 3 and img.shape[-1] == 3 else img.shape
    start = {}
    r = int(rng.integers(1, max(2, min(space) // 2)))
    if chance(rng, 0.5):
        keys = ["signal_center", "radius"] + (["background_center"] if name == "CNR" else [])
        for k in keys:
            start[k] = r if k == "radius" else tuple(int(rng.integers(r, n - r + 1)) for n in space)
        if name == "SNR" and chance(rng, 0.5):
            start["region_type"] = pick(rng, ["cubic", "spherical", "full", "original"])
            if chance(rng, 0.5):
                start.update(lower_threshold=pick(rng, [0, int(rng.integers(0, 60))]), upper_threshold=int(rng.integers(60, 101)),
                             iterations=int(rng.integers(1, 6)))
    vis = {}
    if chance(rng, 0.3):
        vis["dpi"] = 40
    if chance(rng, 0.2):
        vis["figsize"] = (5, 4)
    return Dialog(ctx, rng, met, name, img, made, scr, start, vis)


def reopen(ctx, rng, d, made, scr):
    img = d.img
    if chance(rng, 0.5):
        for _ in range(20):
            img = image(rng)
            n = 2 if img.ndim == 3 and img.shape[-1] == 3 else img.ndim
            if n == len(d.space):
                break
        else:
            img = d.img
    start = {}
    if chance(rng, 0.3):
        space = img.shape[:len(d.space)]
        start = {"signal_center": tuple(n // 2 for n in space), "radius": 1}
        if d.name == "CNR":
            start["background_center"] = start["signal_center"]
    return Dialog(ctx, rng, d.met, d.name, img, made, scr, start)


def do(ctx, rng, d, act):
    if act == "move":
        lab = pick(rng, sorted(k for k in d.ui if "Coordinate" in k))
        s = d.ui[lab]
        v = numbers(rng, s)
        if v in (s.min, s.max):
            ctx.event("edge_positions")
        s.value = v
        return lab, v
    if act == "radius":
        s = d.ui["Radius"]
        v = numbers(rng, s)
        s.value = v
        return "Radius", v
    if act == "type":
        s = d.ui["Region Type"]
        v = pick(rng, list(s.options))
        s.value = v
        return "Region Type", v
    if act == "calc":
        if d.colour:
            d.ui["Region Type"].value = "full"
            return None
        it, lo = int(rng.integers(1, 4)), int(rng.integers(0, 80))
        hi = int(rng.integers(lo + 10, 101))
        for lab, v in (("Iterations", it), ("Lower Threshold", lo), ("Upper Threshold", hi)):
            d.ui[lab].value = v
        try:
            want = region_signal(d.img, it, lo, hi)
        except Exception:
            ctx.event("no_region")
            d.ui["Region Type"].value = "full"
            return None
        d.ui["Calculate Full Region"].click()
        d.signal, d.calc = want, {"iterations": it, "lower_threshold": lo, "upper_threshold": hi}
        ctx.event("full_regions")
        return None
    if act == "save":
        d.ui["Save Current Values"].click()
    if act == "score" and not d.colour:
        import viqa
        p = d.met.parameters
        if all(p.get(k) is not None for k in (["signal_center", "radius"] +
                                              (["background_center"] if d.name == "CNR" else []))):
            kw = {k: p[k] for k in ("signal_center", "background_center", "radius") if k in p}
            r = kw["radius"]
            if all(c - r >= 0 and c + r <= n for k, cs in kw.items() if k != "radius" for c, n in zip(cs, d.space)):
                got = d.met.score(d.img)
                want = getattr(viqa, d.name)(data_range=255).score(d.img, **kw)
                ctx.check(got == want, f"{d.name}: the score is not that of the saved regions", got=got, want=want,
                          regions=kw)
                ctx.event("scores")
    return None


def stored_full(ctx, d, scr):
    """The saved full region is the one the metric draws (and scores) later."""
    import viqa
    if d.signal is None:
        return
    del scr.shown[:]
    with ctx.quiet():
        d.met.visualize_centers(d.img)
        viqa.SNR(data_range=255).visualize_centers(d.img, region_type="full", signal=d.signal)
    got, want = scr.shown[-2:]
    del scr.shown[:]
    for p, q in zip(got.panels, want.panels):
        ctx.check(len(p.images) == len(q.images) and all(
            like(a, b) and np.array_equal(e, f) for a, b, e, f in zip(p.images, q.images, p.masks, q.masks)),
            "the saved region is not the calculated one")


def refuse(ctx, rng):
    import viqa
    name = pick(rng, ["CNR", "SNR"])
    met = getattr(viqa, name)(data_range=255)
    img = image(rng)
    colour = img.ndim == 3 and img.shape[-1] == 3
    space = img.shape[:2] if colour else img.shape
    good = {"signal_center": tuple(n // 2 for n in space), "radius": 1}
    if name == "CNR":
        good["background_center"] = good["signal_center"]
    bad = dict(good)
    how = pick(rng, ["dims", "border", "radius", "float", "type"] if name == "SNR" else
               ["dims", "border", "radius", "float", "background"])
    exc = (ValueError, TypeError)
    if how == "dims":
        bad["signal_center"] = good["signal_center"][:-1] if chance(rng, 0.5) else good["signal_center"] + (2,)
    elif how == "border":
        bad["signal_center"] = (0,) + good["signal_center"][1:]
    elif how == "background":
        bad["background_center"] = good["signal_center"][:-1] + (0,)
    elif how == "radius":
        bad["radius"] = pick(rng, [0, -1, 1.5])
    elif how == "float":
        bad["signal_center"] = tuple(float(v) for v in good["signal_center"])
    else:
        bad["region_type"] = pick(rng, ["cylinder", "", 3])
    before = snapshot(met)
    with notebook(), Screen(), ctx.quiet():
        ctx.refused(lambda: met.set_centers(img, **bad), exc, f"{name}.set_centers accepts a bad start ({how})",
                    start=bad, shape=img.shape)
    ctx.check(snapshot(met) == before, f"{name}: refused starting points are stored", start=bad)
    ctx.key(name, img.shape, how)


def fallback(ctx, rng):
    """Without IPython the regions are drawn, and nothing is stored."""
    import viqa
    name = pick(rng, ["CNR", "SNR"])
    met = getattr(viqa, name)(data_range=255)
    img = image(rng)
    colour = img.ndim == 3 and img.shape[-1] == 3
    space = img.shape[:2] if colour else img.shape
    r = int(rng.integers(1, max(2, min(space) // 3)))
    kw = {"signal_center": tuple(int(rng.integers(r, n - r)) for n in space), "radius": r}
    if name == "CNR":
        kw["background_center"] = tuple(int(rng.integers(r, n - r)) for n in space)
    region = pick(rng, ["cubic", "spherical"])
    with Screen() as scr, ctx.quiet():
        before = snapshot(met)
        ctx.refused(lambda: met.set_centers(img), ImportError, f"{name}.set_centers without anything to show")
        ctx.check(snapshot(met) == before, "the refused call stores something")
        if name == "CNR":
            call = lambda: met.set_centers(img, region_type=region, dpi=30, **kw)
        else:
            call = lambda: met.set_centers(img, {"region_type": region, "dpi": 30, **kw})
        try:
            call()
        except Exception as e:
            ctx.fail(f"{name}.set_centers fails without IPython", raised=repr(e), start=kw)
        ctx.check(snapshot(met) == before, f"{name}.set_centers without IPython stores something")
        getattr(viqa, name)(data_range=255).visualize_centers(img, region_type=region, dpi=30, **kw)
        ctx.check(len(scr.shown) == 2, "not one figure is drawn without IPython", shown=len(scr.shown))
        a, b = scr.shown
        for p, q in zip(a.panels, b.panels):
            ctx.check(p.marks == q.marks and all(like(x, y) for x, y in zip(p.images, q.images)),
                      "another figure without IPython")
    ctx.event("fallbacks")
    ctx.key(name, img.shape, region, r)


SCALE = 1.5
KINDS = [("session", session, 120, 10), ("refuse", refuse, 60, 3), ("fallback", fallback, 48, 5)]
