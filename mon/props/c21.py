"""C21: exported tables and metadata state exactly what was computed."""
import copy
import csv
import importlib.metadata
import os
import re

import numpy as np

import bench
import multi
from gen import chance, pick, texture, to_type, write_raster

RULE = ("random metric lists (scored, unscored, rescored; infinite and not-a-number scores; names with "
        "commas and quotes), multi-metric and batch results with random parameters, image statistics; "
        "exported once or repeatedly, also over longer older files; files are read back with the csv "
        "module and compared value by value with the results in memory; distinct by content")
ASSUME = ["parameter values print on one line"]
NEED = {"metric_tables": 80, "multi_tables": 60, "batch_tables": 25, "batch_rows": 80, "metadata": 100,
        "statistics": 40, "values": 800, "overwritten": 80, "refusals": 80, "unscored": 60, "printed": 60,
        "special_names": 20, "nan_scores": 20, "repeated_metrics": 60}


def stale(ctx, rng, path):
    """An older, longer file of that name."""
    if chance(rng, 0.5):
        with open(path, "w") as f:
            f.write("\n".join(f"old{i},{i},{i},{i},{i}" for i in range(400)))
        ctx.event("overwritten")


def table(path):
    with open(path, newline="") as f:
        return list(csv.reader(f))


def exact(ctx, text, value, what, **kw):
    """The written text denotes exactly this value."""
    ctx.event("values")
    try:
        got = float(text)
    except ValueError:
        ctx.fail(f"{what}: not a number in the file", text=text, want=value, **kw)
    v = float(value)
    ok = got == v or (got != got and v != v)
    if not ok and isinstance(value, np.floating) and value.dtype.itemsize < 8:
        ok = value.dtype.type(got) == value
    ctx.check(ok, f"{what}: another value in the file", text=text, want=value, **kw)


def state(mets):
    return [(type(m).__name__, None if m.score_val is None else repr(m.score_val), m._name,
             repr(sorted(m.parameters.items(), key=lambda kv: kv[0]))) for m in mets]


def scored(viqa, rng, sp, shape=(30, 30), dtype="uint8"):
    r, m, _ = bench.images(rng, shape, dtype)
    if chance(rng, 0.2):
        m = r.copy()  # PSNR becomes infinite
    return r, m


def metrics(ctx, rng):
    import viqa
    from viqa.utils import export_results
    sp = multi.specs(rng, (30, 30), 255, most=7)
    if chance(rng, 0.4):
        name = pick(rng, ["SNR, left", 'SNR "b"', "SNR;x", "a b", "1.5", "SNR\tz"])
        sp.append(multi.Spec("SNR", 255, bench.params(rng, "SNR", (30, 30)), name=name))
        ctx.event("special_names")
    mets = [s.make(viqa) for s in sp]
    for s, met in zip(sp, mets):
        for _ in range(int(rng.integers(0, 3))):
            r, m = scored(viqa, rng, sp)
            if s.name in ("RMSE", "PSNR", "CNR", "SNR") and chance(rng, 0.12):  # the score is not a number
                r, m = r.astype(np.float64), m.astype(np.float64)
                r[...] = m[...] = np.nan
            with ctx.quiet(), np.errstate(all="ignore"):
                bench.run(met, r, m, dict(s.kw))
            if met.score_val != met.score_val:
                ctx.event("nan_scores")
    single = chance(rng, 0.3)
    for turn in range(int(rng.integers(1, 4))):
        use = list(range(len(mets)))
        if single:
            use = [int(rng.integers(len(mets)))]
        elif turn:  # another selection to the same file
            use = sorted(rng.permutation(len(mets))[:int(rng.integers(1, len(mets) + 1))].tolist())
        fname = pick(rng, ["out.csv", "out.csv", "out", "OUT.CSV"])
        path = os.path.join(ctx.scratch, fname if fname.lower().endswith(".csv") else fname + ".csv")
        stale(ctx, rng, path)
        before = state(mets)
        back = None
        if single:
            mets[use[0]].export_results(ctx.scratch, fname)
        else:
            back = export_results([mets[i] for i in use], ctx.scratch, fname, return_dict=True)
        ctx.check(state(mets) == before, "exporting changed a metric")
        ctx.check(os.path.exists(path), "no table was written", name=fname, files=os.listdir(ctx.scratch))
        rows = table(path)
        have = [i for i in use if mets[i].score_val is not None]
        ctx.check(len(rows) >= 1 and len(rows) - 1 == len(have), "not one entry per computed result",
                  rows=rows[:20], computed=[sp[i].label for i in have])
        seen = {r[0]: r for r in rows[1:]}
        for i in have:
            row = seen.get(sp[i].label)
            ctx.check(row is not None and len(row) == 2, "a result is not listed under its name",
                      name=sp[i].label, rows=rows)
            exact(ctx, row[1], mets[i].score_val, "metric table", name=sp[i].label)
        if not single:
            ctx.check(set(back) == {sp[i].label for i in use}, "the returned dictionary has other entries",
                      got=list(back))
            for i in use:
                if i in have:
                    ctx.check(bench.eq(float(back[sp[i].label]), float(mets[i].score_val)),
                              "the returned dictionary has another value", name=sp[i].label)
                else:
                    ctx.check(back[sp[i].label] == "n/a", "an unscored metric has a value", got=back)
        ctx.event("metric_tables")
        ctx.event("unscored", len(use) - len(have))
        ctx.key(tuple(map(tuple, rows)))
    ctx.sample(metrics=[s.label for s in sp], rows=rows[:4])


def check_metadata(ctx, path, sp):
    text = open(path).read()
    lines = [ln.rstrip() for ln in text.split("\n")]
    ver = importlib.metadata.version("viqa")
    ctx.check(any("version" in ln.lower() and ln.split(":", 1)[-1].strip() == ver for ln in lines),
              "the metadata do not state the package version", version=ver, text=text[:200])
    pos = 0
    for s in sp:
        try:
            i = next(j for j in range(pos, len(lines)) if lines[j].strip() == s.name)
        except StopIteration:
            ctx.fail("a metric is missing in the metadata", metric=s.name, text=text)
        end = i + 1
        while end < len(lines) and lines[end].strip():
            end += 1
        block = lines[i + 1:end]
        entries = dict(ln.split(": ", 1) for ln in block if ": " in ln)
        want = {"data_range": str(s.init["data_range"]), **{k: str(v) for k, v in s.kw.items()}}
        ctx.check(want.items() <= entries.items(), "the metadata list other parameters", metric=s.name, got=entries,
                  want=want)
        pos = end
    ctx.event("metadata")


def settings(ctx, rng):
    """Metadata of arbitrary parameters, also of metrics that are listed several times."""
    import viqa
    from viqa.utils import export_metadata
    sp, mets = [], []
    for _ in range(int(rng.integers(1, 7))):
        kw = {}
        for k in rng.permutation(["alpha", "dim", "im_slice", "yuv", "iterations", "mode", "weights", "c"]):
            if chance(rng, 0.4):
                kw[str(k)] = pick(rng, [None, False, True, 0, 0.0, -1, 1e-9, 123456789.125, "text", "a: b", (1, 2), [],
                                        [0.5, 3], {"x": 1}, np.float64(2.5), 10**12])
        name = pick(rng, ["RMSE", "PSNR", "SSIM", "SNR", "CNR", "MAD", "MSSSIM", "VIFp"])
        sp.append(multi.Spec(name, pick(rng, [1, 255, 65535]), kw))
        mets.append(sp[-1].make(viqa))
        if len(mets) > 1 and chance(rng, 0.2):  # the same object with other parameters
            k = int(rng.integers(len(mets) - 1))
            sp[-1] = multi.Spec(sp[k].name, sp[k].init["data_range"], kw)
            mets[-1] = mets[k]
            ctx.event("repeated_metrics")
    given = [dict(s.kw) for s in sp]
    path = os.path.join(ctx.scratch, "metadata.txt")
    stale(ctx, rng, path)
    before = state(mets)
    export_metadata(mets, given, ctx.scratch)
    check_metadata(ctx, path, sp)
    ctx.check(given == [s.kw for s in sp] and state(mets) == before, "exporting metadata changed the parameters")
    ctx.key(tuple(map(repr, sp)))


def names_left(ctx, before):
    return sorted(set(os.listdir(ctx.scratch)) - before)


def several(ctx, rng):
    import viqa
    sp = multi.specs(rng, (30, 30), 255, most=6)
    mets = [s.make(viqa) for s in sp]
    obj = viqa.MultipleMetrics(mets, [dict(s.kw) for s in sp])
    for turn in range(int(rng.integers(1, 4))):
        r, m = scored(viqa, rng, sp)
        with ctx.quiet():
            obj.calculate(r, m)
        keep = copy.deepcopy(obj.results)
        before = state(mets)
        pre = pick(rng, [None, "proj", "a.b", "run 1"])
        full = (pre + "_" if pre else "") + "results.csv"
        meta = (pre + "_" if pre else "") + "metadata.txt"
        for f in (full, meta):
            stale(ctx, rng, os.path.join(ctx.scratch, f))
        if chance(rng, 0.6):
            dec = pick(rng, [0, 1, 2, 4])
            with ctx.quiet() as buf:
                obj.report(csv=True, metadata=True, text=True, image=False, file_path=ctx.scratch,
                           project_name=pre, decimals=dec)
            printed = {}
            for ln in buf.getvalue().splitlines():
                mt = re.match(r"(.+): (\S+)$", ln)
                if mt:
                    printed[mt[1]] = mt[2]
            for k, v in keep.items():
                ctx.check(printed.get(k) == f"{v:.{dec}f}", "a printed value differs", name=k,
                          got=printed.get(k), want=f"{v:.{dec}f}")
                ctx.event("printed")
        else:
            obj.export_results(ctx.scratch, full)
            obj.export_metadata(ctx.scratch, meta)
        rows = table(os.path.join(ctx.scratch, full))
        ctx.check(len(rows) == 2 and len(rows[0]) == len(rows[1]) == len(keep) and set(rows[0]) == set(keep),
                  "the table has other entries than the results", rows=rows, results=keep)
        for k, t in zip(*rows):
            exact(ctx, t, keep[k], "multi-metric table", name=k)
        check_metadata(ctx, os.path.join(ctx.scratch, meta), sp)
        ctx.check(list(obj.results) == list(keep) and all(bench.eq(obj.results[k], keep[k]) for k in keep), "exporting changed the results")
        ctx.check(state(mets) == before, "exporting changed a metric")
        ctx.event("multi_tables")
        ctx.key(tuple(rows[1]))
    there = set(os.listdir(ctx.scratch))
    for fn in (lambda: obj.export_results(ctx.scratch, pick(rng, ["r.txt", "r", "r.csv.bak", "r.xlsx"])),
               lambda: obj.export_metadata(ctx.scratch, pick(rng, ["m.csv", "m", "m.md", "txt"]))):
        ctx.refused(fn, ValueError, "a file name with a wrong extension is accepted")
    ctx.check(not names_left(ctx, there), "a refused export wrote a file", files=names_left(ctx, there))
    ctx.sample(metrics=[repr(s) for s in sp], table=rows)


def batch(ctx, rng):
    import viqa
    folder = os.path.join(ctx.scratch, "img")
    os.makedirs(folder)
    n = int(rng.integers(2, 5))
    names = []
    for i in range(n):
        stem = f"im{i}" if chance(rng, 0.6) else pick(rng, [f"im {i}", f"im,{i}", f"im.{i}"])
        a = to_type(texture(rng, (30, 28)), "uint8", 255)
        names.append(os.path.basename(write_raster(folder, stem, a, ".png")))
    rows = [(pick(rng, names), pick(rng, names)) for _ in range(int(rng.integers(1, 13)))]
    if chance(rng, 0.3):
        rows = rows[:1] * 2 + rows[1:]
    pairs = os.path.join(ctx.scratch, "pairs.csv")
    delim = pick(rng, [";", "\t"])
    with open(pairs, "w") as f:
        f.write(f"reference_image{delim}modified_image\n")
        for r, m in rows:
            f.write(f"{r}{delim}{m}\n")
    sp = multi.specs(rng, (30, 28), 255, most=4,
                     pool=["RMSE", "PSNR", "SSIM", "UQI", "GSM", "FSIM", "CNR", "SNR"])
    mets = [s.make(viqa) for s in sp]
    obj = viqa.BatchMetrics(folder, pairs, mets, [dict(s.kw) for s in sp])
    with ctx.quiet():
        obj.calculate()
    keep = copy.deepcopy(obj.results)
    before = state(mets)
    pre = pick(rng, [None, "p"])
    full = (pre + "_" if pre else "") + "results.csv"
    meta = (pre + "_" if pre else "") + "metadata.txt"
    for f in (full, meta):
        stale(ctx, rng, os.path.join(ctx.scratch, f))
    for _ in range(int(rng.integers(1, 3))):
        with ctx.quiet():
            if chance(rng, 0.5):
                obj.report(csv=True, metadata=True, image=False, file_path=ctx.scratch, project_name=pre)
            else:
                obj.export_results(ctx.scratch, full)
                obj.export_metadata(ctx.scratch, meta)
        tab = table(os.path.join(ctx.scratch, full))
        head = tab[0]
        ctx.check(len(tab) == len(rows) + 1, "not one line per row", lines=len(tab), rows=len(rows))
        ctx.check(sorted(head) == sorted(["pair_num", "reference_image", "modified_image"] + list(keep["0"])),
                  "the table has other columns", got=head, want=list(keep["0"]))
        for i, ln in enumerate(tab[1:]):
            ctx.check(len(ln) == len(head), "a line has another number of fields", line=ln)
            d = dict(zip(head, ln))
            ctx.check((d["reference_image"], d["modified_image"]) == rows[i] and d["pair_num"] == str(i),
                      "a line names other images", line=ln, want=rows[i], row=i)
            for k, v in keep[str(i)].items():
                exact(ctx, d[k], v, "batch table", name=k, row=i)
            ctx.event("batch_rows")
        check_metadata(ctx, os.path.join(ctx.scratch, meta), sp)
        ctx.event("batch_tables")
    ctx.check(list(obj.results) == list(keep) and
              all(bench.eq(obj.results[i][k], v) for i in keep for k, v in keep[i].items()),
              "exporting changed the results")
    ctx.check(state(mets) == before, "exporting changed a metric")
    there = set(os.listdir(ctx.scratch))
    for fn in (lambda: obj.export_results(ctx.scratch, pick(rng, ["r.txt", "r", "r.csv.bak"])),
               lambda: obj.export_metadata(ctx.scratch, pick(rng, ["m.csv", "m", "m.md"]))):
        ctx.refused(fn, ValueError, "a file name with a wrong extension is accepted")
    ctx.check(not names_left(ctx, there), "a refused export wrote a file", files=names_left(ctx, there))
    ctx.key(tuple(map(tuple, tab)))
    ctx.sample(rows=rows[:4], header=head)


def statistics(ctx, rng):
    from viqa.utils import load_data
    shape = tuple(int(v) for v in rng.integers(3, 12, pick(rng, [2, 3])))
    img = load_data(to_type(texture(rng, shape), pick(rng, ["uint8", "float64", "float32"]), 255))
    img.calculate_statistics()
    attr = {"mean": "mean_value", "median": "median", "variance": "variance", "standarddev": "standarddev",
            "skewness": "skewness", "kurtosis": "kurtosis", "minimum": "minimum", "maximum": "maximum"}
    values = {k: getattr(img, v) for k, v in attr.items()}
    fname = pick(rng, ["stat.csv", "stat"])
    path = os.path.join(ctx.scratch, "stat.csv")
    stale(ctx, rng, path)
    pixels = np.array(img, copy=True)
    with ctx.quiet():
        got = img.describe(ctx.scratch, fname)
    ctx.same(np.asarray(img), pixels, "describing changed the image")
    rows = table(path)
    ctx.check(len(rows) == 2 and sorted(rows[0]) == sorted(values) and len(rows[1]) == len(values),
              "the statistics table has other entries", rows=rows)
    for k, t in zip(*rows):
        exact(ctx, t, values[k], "statistics table", name=k)
    ctx.check(set(got) == set(values) and all(bench.eq(float(got[k]), float(values[k])) for k in values),
              "the description differs from the statistics", got=got, want=values)
    ctx.event("statistics")
    ctx.key(tuple(rows[1]))


SCALE = 3
KINDS = [("metrics", metrics, 160, 8), ("several", several, 130, 8), ("batch", batch, 70, 8),
         ("statistics", statistics, 100, 8),
         ("settings", settings, 150, 8)]
