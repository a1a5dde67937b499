"""C20: a batch equals the independent evaluation of each of its rows."""
import os

import numpy as np

import multi
from gen import chance, pick, roi_inside, texture, to_type, write_mhd, write_raster, write_raw

RULE = ("directories of 3..6 images (raster, MHD, raw; grey, colour, volumes; two or three sizes, "
        "subdirectories) and pairs files of 2..14 rows with runs of equal references, equal modified "
        "images and equal pairs, every delimiter, extra and swapped columns; no, one global or one "
        "region per row; calculated once or several times with images changed in between; every value "
        "compared with fresh metrics on the arrays written to the files; distinct by row sequence")
ASSUME = ["metrics of one list have different names",
          "images keep their kind (grey, colour, volume) within one batch; images of one size but different "
          "type are not paired (they are refused)"]
NEED = {"batches": 60, "rows": 350, "values": 900, "same_reference": 60, "same_modified": 50,
        "same_pair": 30, "resized": 60, "row_regions": 60, "global_regions": 20, "recalculated": 20,
        "changed_files": 10, "normalized": 8, "same_name_elsewhere": 20, "mixed_types": 12, "spaced_names": 60, "rows_without_region": 40, "refusals": 30, "delim:,": 10, "delim:;": 10, "delim:\t": 10}


class Store:
    def __init__(self, ctx, rng, mixed=False):
        self.dir = os.path.join(ctx.scratch, "img")
        os.makedirs(os.path.join(self.dir, "sub"))
        self.kind = pick(rng, ["grey", "grey", "grey", "colour", "volume"])
        self.space = pick(rng, [" ", ", ", "; ", "-"])  # in file names
        self.types = None
        if mixed:  # references of several types and one size, modified images of another
            self.kind = "grey"
            self.types = ["uint8", "float32", "float64"]
            self.refs, self.mods = [], []
        self.dtype = "uint8" if self.kind != "volume" else pick(rng, ["uint8", "uint16", "float64"])
        self.top = {"uint8": 255, "uint16": 65535}.get(self.dtype, 1.0)
        if self.kind == "volume":
            self.shapes = [tuple(int(v) for v in rng.integers(14, 18, 3)) for _ in range(2)]
        else:
            tail = (3,) if self.kind == "colour" else ()
            self.shapes = [tuple(int(v) for v in rng.integers(26, 44, 2)) + tail for _ in range(3)]
        if mixed:
            self.shapes[1] = (self.shapes[0][0] + int(rng.integers(1, 5)), self.shapes[1][1])
        self.arr = {}
        for i in range(int(rng.integers(3, 7))):
            if mixed:
                shapes = self.shapes
                self.shapes = shapes[:1] if i % 2 else shapes[1:2]
                self.write(rng, f"im{i}", to=self.refs if i % 2 else self.mods)
                self.shapes = shapes
                continue
            self.write(rng, f"im{self.space}{i}" if chance(rng, 0.3) else f"im{i}")
        self.twins = []
        for name in sorted(self.arr):
            if chance(rng, 0.35) and not mixed:  # another image under the same file name in another folder
                folder, base = os.path.split(name)
                other = pick(rng, [d for d in ("", "sub", "sub2", "im") if d != folder])
                os.makedirs(os.path.join(self.dir, other), exist_ok=True)
                twin = os.path.join(other, base)
                if twin not in self.arr and not os.path.exists(os.path.join(self.dir, twin)):
                    self.arr[twin] = self.arr[name]
                    self.write(rng, os.path.splitext(base)[0].split("_")[0], twin)
                    self.twins.append((name, twin))

    def write(self, rng, stem, name=None, to=None):
        shape = pick(rng, self.shapes) if name is None else self.arr[name].shape
        a = to_type(texture(rng, shape), self.dtype, self.top)
        if self.types:
            a = to_type(texture(rng, shape), pick(rng, self.types), 255)
        if name is not None:
            folder, base = os.path.split(os.path.join(self.dir, name))
            ext = os.path.splitext(base)[1]
        else:
            folder = os.path.join(self.dir, "sub") if chance(rng, 0.3) else self.dir
            ext = pick(rng, [".mhd", ".raw"] if self.kind == "volume" else [".png", ".tiff", ".bmp"])
            if self.types:
                ext = ".tiff"
        if ext == ".mhd":
            p = write_mhd(folder, stem, a)
        elif ext == ".raw":
            p = write_raw(folder, stem, a, {"uint8": "8bit", "uint16": "16bit", "float64": "64fbit"}[self.dtype])
        else:
            p = write_raster(folder, stem, a, ext)
        rel = os.path.relpath(p, self.dir)
        assert name is None or rel == name
        self.arr[rel] = a
        if to is not None:
            to.append(rel)

    def least(self):
        return tuple(min(s[i] for s in self.shapes) for i in range(2 if self.kind != "volume" else 3))


def rows_of(rng, names, twins=()):
    rows = []
    for _ in range(int(rng.integers(2, 15))):
        r, m = pick(rng, names), pick(rng, names)
        if rows:
            how = rng.random()
            if how < 0.2:
                r = rows[-1][0]
            elif how < 0.4:
                m = rows[-1][1]
            elif how < 0.55:
                r, m = rows[-1]
            elif how < 0.65:
                m, r = rows[-1]
            elif how < 0.75 and len(rows) > 1:
                r, m = rows[-2]
            elif how < 0.9 and twins:  # the same name in another folder
                for a, b in twins:
                    if rows[-1][1] in (a, b):
                        r, m = rows[-1][0] if how < 0.85 else r, b if rows[-1][1] == a else a
                    elif rows[-1][0] in (a, b):
                        r, m = b if rows[-1][0] == a else a, rows[-1][1] if how < 0.85 else m
        rows.append((r, m))
    return rows


def write_pairs(rng, path, rows, delim, drop=None):
    cols = ["reference_image", "modified_image"]
    if chance(rng, 0.3):
        cols.reverse()
    if chance(rng, 0.3):
        cols.insert(int(rng.integers(3)), "note")
    if drop:
        cols = [c if c != drop else "other_column" for c in cols]
    eol = pick(rng, ["\n", "\r\n"])
    lines = [delim.join(cols)]
    rows = [tuple(f'"{v}"' if delim in v else v for v in row) for row in rows]
    for i, (r, m) in enumerate(rows):
        lines.append(delim.join({"reference_image": r, "modified_image": m, "note": f"row {i}"}.get(c, "x")
                                for c in cols))
    text = eol.join(lines) + (eol if chance(rng, 0.7) else "")
    with open(path, "w", newline="") as f:
        f.write(text)


def batch(ctx, rng):
    import viqa
    mixed = chance(rng, 0.12)
    store = Store(ctx, rng, mixed)
    names = sorted(store.arr)
    rows = rows_of(rng, names, store.twins)
    if mixed:
        rows = []
        for _ in range(int(rng.integers(3, 10))):
            row = [pick(rng, store.refs), pick(rng, store.mods)]
            if rows and chance(rng, 0.6):
                row[1] = rows[-1][1]
            rows.append(tuple(row))
        ctx.event("mixed_types")
    if any(" " in v for row in rows for v in row):
        ctx.event("spaced_names")
    delim = pick(rng, [",", ";", "\t"])
    pairs = os.path.join(ctx.scratch, "pairs.csv")
    write_pairs(rng, pairs, rows, delim)
    small = store.least()
    mode = pick(rng, ["none", "none", "rows", "rows", "rows", "global"])
    least = 14 if store.kind == "volume" else 20
    rois = None
    if mode == "rows":
        some = [roi_inside(rng, small, least) for _ in range(2)]
        rois = []
        for i in range(len(rows)):
            # often the previous row's region, as an equal but different object
            rois.append([tuple(v) for v in ((rois[-1] if rois and chance(rng, 0.5) else None) or pick(rng, some))])
            if chance(rng, 0.15):
                rois[-1] = None  # the whole image
                ctx.event("rows_without_region")
        size = tuple(min([small[i]] + [r[i][1] - r[i][0] for r in rois if r]) for i in range(len(small)))
    elif mode == "global":
        glob = roi_inside(rng, small, least)
        size = tuple(b - a for a, b in glob)
    else:
        size = small
    tail = (3,) if store.kind == "colour" else ()
    norm = pick(rng, [255, 65535]) if mode == "none" and not mixed and store.kind != "colour" and chance(rng, 0.4) else None
    sp = multi.specs(rng, size + tail, norm or store.top, store.kind == "colour",
                     pool=multi.FAST if store.kind != "volume" else multi.SOLID)
    if not any(s.nr for s in sp) and chance(rng, 0.7):
        import bench
        sp.append(multi.Spec("SNR", norm or store.top, bench.params(rng, "SNR", size)))
    try:
        obj = viqa.BatchMetrics(store.dir, pairs, [s.make(viqa) for s in sp], [dict(s.kw) for s in sp],
                                **({} if rois is None and chance(rng, 0.5) else {"rois": rois}))
    except Exception as e:
        ctx.fail("a well-formed batch is refused", raised=repr(e), delim=repr(delim), rows=len(rows))
    memo = {}
    for turn in range(1 if chance(rng, 0.6) else int(rng.integers(2, 4))):
        kw = {}
        order = 1
        if mode == "global":
            kw["roi"] = glob
        elif rois is not None and chance(rng, 0.15):
            kw["roi"] = some[0]  # replaces the regions of the rows
        if chance(rng, 0.2):
            order = kw["scaling_order"] = pick(rng, [0, 2, 3])
        if norm is not None:
            kw.update(normalize=True, data_range=norm)
            ctx.event("normalized")
        if turn and chance(rng, 0.6):
            victim = pick(rng, names)
            stem = os.path.splitext(os.path.basename(victim))[0].split("_")[0]
            store.write(rng, stem, victim)
            memo.clear()
            ctx.event("changed_files")
        with ctx.quiet():
            try:
                got = obj.calculate(**kw)
            except Exception as e:
                ctx.fail("a batch cannot be calculated", raised=repr(e), rows=rows, kw=kw, specs=sp)
        ctx.check(list(got) == [str(i) for i in range(len(rows))], "not one entry per row in row order",
                  got=list(got), rows=len(rows))
        for i, (rn, mn) in enumerate(rows):
            roi = kw.get("roi") or (rois[i] if rois is not None else None)
            key = (rn, mn, repr(roi), order, norm)
            if key not in memo:
                with ctx.quiet():
                    memo[key] = multi.expected(viqa, sp, store.arr[rn], store.arr[mn], order, roi, norm)
            multi.agree(ctx, got[str(i)], memo[key], store.arr[rn].dtype,
                        f"row {i} differs from the independent evaluation",
                        row=(rn, mn), before=rows[i - 1] if i else None, roi=roi, specs=sp, turn=turn)
            if store.arr[rn].shape != store.arr[mn].shape:
                ctx.event("resized")
            if i and rows[i] == rows[i - 1]:
                ctx.event("same_pair")
            elif i and rn == rows[i - 1][0]:
                ctx.event("same_reference")
            elif i and mn == rows[i - 1][1]:
                ctx.event("same_modified")
            if i and any(x != y and os.path.basename(x) == os.path.basename(y)
                         for x, y in zip(rows[i], rows[i - 1])):
                ctx.event("same_name_elsewhere")
            ctx.event("rows")
            if roi is not None:
                ctx.event("global_regions" if "roi" in kw else "row_regions")
        if turn:
            ctx.event("recalculated")
        ctx.key(tuple(rows), mode, tuple(map(repr, sp)))
    ctx.event("batches")
    ctx.event("delim:" + delim)
    ctx.sample(rows=rows[:6], regions=mode, metrics=[repr(s) for s in sp], kind=store.kind)


def refuse(ctx, rng):
    import viqa
    rows = [(f"a{i}.png", f"b{i}.png") for i in range(int(rng.integers(1, 5)))]
    pairs = os.path.join(ctx.scratch, "pairs.csv")
    how = pick(rng, ["reference_image", "modified_image", "few", "many", "none", "list", "metric", "dict"])
    write_pairs(rng, pairs, rows, pick(rng, [",", ";", "\t"]),
                how if how.endswith("_image") else None)
    rois = None
    roi = [(0, 5), (0, 5)]
    if how == "few":
        rois = [roi] * (len(rows) - 1)
    elif how == "many":
        rois = [roi] * (len(rows) + int(rng.integers(1, 3)))
    elif how == "none":
        rois = []
    mets, par = [viqa.PSNR(data_range=255), viqa.RMSE()], [{}, {}]
    if how == "list":
        par.pop()
    elif how == "metric":
        mets[1] = "RMSE"
    elif how == "dict":
        par[0] = None
    ctx.refused(lambda: viqa.BatchMetrics(ctx.scratch, pairs, mets, par, rois=rois), ValueError,
                f"an ill-formed batch ({how}) is accepted")
    ctx.key(how, len(rows))


def broken(ctx, rng):
    """A row that cannot be evaluated raises, and leaves nothing behind for the next calculation."""
    import viqa
    store = Store(ctx, rng)
    names = sorted(store.arr)
    rows = rows_of(rng, names, store.twins)
    bad = int(rng.integers(len(rows)))
    victim = rows[bad][int(rng.integers(2))]
    pairs = os.path.join(ctx.scratch, "pairs.csv")
    write_pairs(rng, pairs, rows, ",")
    sp = multi.specs(rng, store.least() + ((3,) if store.kind == "colour" else ()), store.top,
                     store.kind == "colour", most=3,
                     pool=["RMSE", "PSNR", "SSIM", "SNR", "CNR", "GSM"])
    obj = viqa.BatchMetrics(store.dir, pairs, [s.make(viqa) for s in sp], [dict(s.kw) for s in sp])
    path = os.path.join(store.dir, victim)
    os.rename(path, path + ".away")
    with ctx.quiet():
        try:
            obj.calculate()
        except Exception:
            ctx.event("failed_batches")
        else:
            ctx.fail("a batch with a missing file gives a result", missing=victim)
    os.rename(path + ".away", path)
    with ctx.quiet():
        got = obj.calculate()
        for i, (rn, mn) in enumerate(rows):
            want = multi.expected(viqa, sp, store.arr[rn], store.arr[mn])
            multi.agree(ctx, got[str(i)], want, store.dtype, f"row {i} differs after a failed calculation",
                        specs=sp)
    ctx.key(tuple(rows), victim)


SCALE = 2
KINDS = [("batch", batch, 160, 12), ("refuse", refuse, 100, 5), ("broken", broken, 40, 8)]
