"""C23: image arrays behave as arrays and report true statistics."""
import copy
import pickle
import warnings

import numpy as np

from gen import chance, layout, pick, texture, to_type

RULE = ("random programs of 15..40 array operations (arithmetic with scalars, arrays and images, ufuncs "
        "with one and two results, out= and where=, reduce/accumulate/outer/at/reduceat, in-place "
        "operators, views, fancy and boolean indexing and assignment, reductions, shape and type "
        "functions) run in step on image arrays and plain arrays, all variables compared after every "
        "step; statistics recomputed independently; distinct by program")
ASSUME = ["statistics are read after calculate_statistics() on the array itself"]
NEED = {"operations": 4000, "inplace": 400, "outs": 200, "views": 400, "reductions": 500, "errors": 40,
        "at": 60, "two_results": 60, "masks": 80, "statistics": 200, "histograms": 200, "descriptions": 60,
        "derived": 60}
TYPES = ["uint8", "uint16", "int16", "int32", "float32", "float64"]


class Pair:
    """The same variables held as plain arrays and as image arrays."""

    def __init__(self, viqa, rng):
        from viqa.utils import ImageArray
        self.cls = ImageArray
        self.p, self.i = [], []
        for _ in range(3):
            nd = pick(rng, [2, 2, 3])
            shape = self.p[0].shape if self.p and chance(rng, 0.7) else tuple(
                int(v) for v in rng.integers(2, 6, nd))
            a = to_type(texture(rng, shape), pick(rng, TYPES), pick(rng, [1, 20, 100]))
            src = layout(rng, a)
            self.p.append(src.copy(order="K") if chance(rng, 0.7) else np.array(src))
            self.i.append(ImageArray(self.p[-1].copy(order="K")))

    def sync(self, ctx, what):
        for k, (a, b) in enumerate(zip(self.p, self.i)):
            ctx.same(np.asarray(b), a, f"variable {k} differs after {what}")


def form(rng, st, k):
    """Operand k as (plain, image-side) value; the image side may mix in plain arrays."""
    if chance(rng, 0.2):
        s = pick(rng, [2, 3.5, np.float32(1.5), np.uint8(7), -1, 0.25])
        return s, s
    return st.p[k], (st.i[k] if chance(rng, 0.75) else st.p[k].copy())


BINARY = [np.add, np.subtract, np.multiply, np.true_divide, np.floor_divide, np.maximum, np.minimum,
          np.remainder, np.arctan2, np.hypot, np.greater, np.less_equal, np.equal, np.not_equal,
          np.logical_and, np.fmax, np.copysign, np.power]
UNARY = [np.negative, np.abs, np.sqrt, np.exp, np.square, np.sign, np.floor, np.isnan, np.isfinite, np.rint,
         np.log1p, np.sin, np.logical_not, np.positive]
REDUCE = ["sum", "min", "max", "mean", "std", "var", "prod", "argmax", "argmin", "any", "all"]
FUNCS = [("median", lambda x: np.median(x)), ("percentile", lambda x: np.percentile(x, 30)),
         ("clip", lambda x: np.clip(x, 2, 9)), ("ravel", lambda x: x.ravel()), ("T", lambda x: x.T),
         ("flip", lambda x: np.flip(x, 0)), ("rot90", lambda x: np.rot90(x)), ("cumsum", lambda x: np.cumsum(x)),
         ("sort", lambda x: np.sort(x, axis=None)), ("concat", lambda x: np.concatenate([x, x], 0)),
         ("stack", lambda x: np.stack([x, x])), ("where", lambda x: np.where(x > 3, x, 0)),
         ("astype", lambda x: x.astype(np.float64)), ("copy", lambda x: x.copy()), ("pad", lambda x: np.pad(x, 1)),
         ("dot", lambda x: np.dot(x.reshape(-1), x.reshape(-1))), ("diff", lambda x: np.diff(x, axis=0)),
         ("unique", lambda x: np.unique(x)), ("nonzero", lambda x: np.nonzero(x > 2)[0]),
         ("tolist", lambda x: np.array(x.tolist())), ("deepcopy", lambda x: copy.deepcopy(x)),
         ("pickle", lambda x: pickle.loads(pickle.dumps(x))), ("zeros_like", lambda x: np.zeros_like(x)),
         ("matmul", lambda x: x.reshape(x.shape[0], -1) @ x.reshape(x.shape[0], -1).T),
         ("ptp", lambda x: np.ptp(x)), ("round", lambda x: np.round(x, 1)), ("fft", lambda x: np.abs(np.fft.fft(x))),
         ("histogram", lambda x: np.histogram(x, 7)[0]), ("bytes", lambda x: np.frombuffer(x.tobytes(), np.uint8)),
         ("iterate", lambda x: np.array([np.asarray(v).sum() for v in x])), ("len", lambda x: len(x)),
         ("norm", lambda x: np.linalg.norm(x.astype(float))), ("mean_where", lambda x: np.sum(x, where=x > 2)),
         ("masked", lambda x: np.ma.array(x, mask=x > 3).filled(0)),
         ("max_float", lambda x: float(x.max())), ("truth", lambda x: bool((x > 1).any())),
         ("masked_mean", lambda x: np.ma.array(x, mask=x > x.max() / 2 + 1).mean())]


def both(ctx, st, what, f, g):
    """Run f on plain and g on image values; results or exceptions must match."""
    try:
        want = f()
    except Exception as e:
        ctx.event("errors")
        try:
            got = g()
        except Exception as e2:
            ctx.check(isinstance(e2, type(e)) or isinstance(e, type(e2)), f"{what}: another exception",
                      got=repr(e2), want=repr(e))
        else:
            ctx.fail(f"{what}: accepted where a plain array refuses", plain=repr(e), got=got)
        return None
    try:
        got = g()
    except Exception as e2:
        ctx.fail(f"{what}: refused where a plain array is accepted", raised=repr(e2))
    if isinstance(want, tuple):
        ctx.check(isinstance(got, tuple) and len(got) == len(want), f"{what}: number of results")
        for a, b in zip(got, want):
            ctx.same(np.asarray(a), np.asarray(b), what)
    else:
        ctx.check((got is None) == (want is None), f"{what}: result kind", got=got, want=want)
        if want is not None:
            ctx.same(np.asarray(got), np.asarray(want), what)
            if np.isscalar(want):
                ctx.check(np.isscalar(got) or np.ndim(got) == 0, f"{what}: not a scalar", got=type(got))
    return want, got


def step(ctx, rng, st):
    k = int(rng.integers(len(st.p)))
    j = int(rng.integers(len(st.p)))
    P, I = st.p, st.i
    act = pick(rng, ["binary", "binary", "unary", "inplace", "inplace", "operator", "out", "reduce", "reduce",
                     "method", "view", "assign", "boolean", "func", "func", "at", "two", "where", "rebind"])
    what = act
    if act in ("binary", "operator"):
        u = pick(rng, BINARY)
        (pa, ia), (pb, ib) = form(rng, st, k), form(rng, st, j)
        if chance(rng, 0.5):
            ia = I[k]
            pa = P[k]
        elif not (isinstance(ia, st.cls) or isinstance(ib, st.cls)):
            ib, pb = I[j], P[j]
        what = u.__name__
        if act == "operator":
            ops = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
                   "divide": lambda a, b: a / b, "greater": lambda a, b: a > b, "equal": lambda a, b: a == b,
                   "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b}
            what, op = pick(rng, sorted(ops.items(), key=lambda kv: kv[0]))
            both(ctx, st, "operator " + what, lambda: op(pa, pb), lambda: op(ia, ib))
        else:
            both(ctx, st, what, lambda: u(pa, pb), lambda: u(ia, ib))
    elif act == "unary":
        u = pick(rng, UNARY)
        what = u.__name__
        both(ctx, st, what, lambda: u(P[k]), lambda: u(I[k]))
    elif act == "inplace":
        op = pick(rng, ["__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__"])
        pb, ib = form(rng, st, j)
        what = op
        ident = I[k]
        res = both(ctx, st, op, lambda: getattr(P[k], op)(pb), lambda: getattr(I[k], op)(ib))
        if res is not None:
            ctx.check(res[1] is ident, f"{op} does not return the array itself", got=type(res[1]))
        ctx.event("inplace")
    elif act == "out":
        u = pick(rng, [np.add, np.multiply, np.maximum, np.subtract])
        pb, ib = form(rng, st, j)
        how = pick(rng, ["image", "plain", "self"])
        po = P[k] if how == "self" else np.zeros(P[k].shape, np.float64)
        io = I[k] if how == "self" else (st.cls(np.zeros(P[k].shape)) if how == "image" else np.zeros(P[k].shape))
        cast = pick(rng, [{}, {"casting": "unsafe"}])
        what = f"{u.__name__} out={how}"
        res = both(ctx, st, what, lambda: u(P[k], pb, out=po, **cast), lambda: u(I[k], ib, out=io, **cast))
        if res is not None:
            ctx.check(res[1] is io, f"{what}: the result is not the given output", got=type(res[1]))
            ctx.same(np.asarray(io), po, f"{what}: output")
        ctx.event("outs")
    elif act == "reduce":
        name = pick(rng, REDUCE)
        kw = {}
        if chance(rng, 0.5):
            kw["axis"] = int(rng.integers(-P[k].ndim, P[k].ndim))
        if chance(rng, 0.2) and not name.startswith("arg"):
            kw["keepdims"] = True
        what = f"{name} {kw}"
        both(ctx, st, what, lambda: getattr(P[k], name)(**kw), lambda: getattr(I[k], name)(**kw))
        ctx.event("reductions")
    elif act == "method":
        u = pick(rng, [np.add, np.maximum, np.multiply])
        how = pick(rng, ["reduce", "accumulate", "outer", "reduceat"])
        ax = int(rng.integers(P[k].ndim))
        what = f"{u.__name__}.{how}"
        if how == "outer":
            both(ctx, st, what, lambda: u.outer(P[k][0], P[j][0]), lambda: u.outer(I[k][0], I[j][0]))
        elif how == "reduceat":
            both(ctx, st, what, lambda: u.reduceat(P[k], [0, 1], axis=ax),
                 lambda: u.reduceat(I[k], [0, 1], axis=ax))
        else:
            both(ctx, st, what, lambda: getattr(u, how)(P[k], axis=ax), lambda: getattr(u, how)(I[k], axis=ax))
        ctx.event("reductions")
    elif act == "view":  # a view, changed in place: the base must change as well
        ax = int(rng.integers(P[k].ndim))
        sl = tuple(slice(None) if a != ax else pick(rng, [slice(1, None), slice(None, None, 2), slice(0, 1),
                                                           slice(None, None, -1)]) for a in range(P[k].ndim))
        pv, iv = P[k][sl], I[k][sl]
        what = f"view {sl}"
        ctx.same(np.asarray(iv), pv, what)
        ctx.check(isinstance(iv, st.cls) and np.shares_memory(iv, I[k]) == np.shares_memory(pv, P[k]),
                  f"{what}: not a view of the image")
        if chance(rng, 0.6):
            both(ctx, st, what + " +=", lambda: pv.__iadd__(1), lambda: iv.__iadd__(1))
        else:
            pv[...] = 3
            iv[...] = 3
        ctx.event("views")
    elif act == "assign":
        ix = [int(v) for v in rng.integers(0, P[k].shape[0], 2)]
        val = pick(rng, [0, 5, 2.7])
        P[k][ix] = val
        I[k][ix] = val
        what = f"fancy assignment {ix}"
    elif act == "boolean":
        pm, im = P[k] > val_of(P[k]), I[k] > val_of(P[k])
        ctx.same(np.asarray(I[k][im]), P[k][pm], "boolean indexing")
        if chance(rng, 0.5):
            P[k][pm] = 1
            I[k][im] = 1
        ctx.event("masks")
        what = "boolean assignment"
    elif act == "func":
        what, f = pick(rng, FUNCS)
        both(ctx, st, what, lambda: f(P[k]), lambda: f(I[k]))
    elif act == "at":
        u = pick(rng, [np.add, np.maximum])
        ix = rng.integers(0, P[k].shape[0], 3)
        what = f"{u.__name__}.at"
        both(ctx, st, what, lambda: u.at(P[k], ix, 1), lambda: u.at(I[k], ix, 1))
        ctx.event("at")
    elif act == "two":
        u = pick(rng, [np.divmod, np.modf, np.frexp])
        what = u.__name__
        if u is np.divmod:
            both(ctx, st, what, lambda: u(P[k], 3), lambda: u(I[k], 3))
        else:
            both(ctx, st, what, lambda: u(P[k]), lambda: u(I[k]))
        ctx.event("two_results")
    elif act == "where":
        c = val_of(P[k])
        what = "where="
        both(ctx, st, "masked sum", lambda: np.sum(P[k], where=P[k] > c), lambda: np.sum(I[k], where=I[k] > c))
        both(ctx, st, "masked add", lambda: np.add(P[k], 1, where=P[k] > c, out=np.zeros(P[k].shape)),
             lambda: np.add(I[k], 1, where=I[k] > c, out=np.zeros(P[k].shape)))
        ctx.event("masks")
    else:  # keep a result as a new variable
        what, f = pick(rng, [("add", lambda x: x + 1), ("half", lambda x: x * 0.5), ("copy", lambda x: x.copy()),
                             ("transpose", lambda x: x.T), ("view", lambda x: x[::-1]),
                             ("float", lambda x: x.astype(np.float32)), ("mod", lambda x: np.mod(x, 11))])
        if P[k].size:
            P[j], I[j] = f(P[k]), f(I[k])
            ctx.check(isinstance(I[j], st.cls), "an operation on an image is no image any more", op=what,
                      got=type(I[j]))
            if not np.isfinite(P[j].astype(float)).all():
                P[j], I[j] = np.ones((3, 4)), st.cls(np.ones((3, 4)))
    st.sync(ctx, what)
    ctx.event("operations")
    return what


def val_of(a):
    with np.errstate(all="ignore"):
        return float(np.nanmedian(a.astype(float))) if a.size else 0.0


def program(ctx, rng):
    import viqa
    st = Pair(viqa, rng)
    trace = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(int(rng.integers(15, 41))):
            trace.append(step(ctx, rng, st))
    ctx.key(tuple(trace), tuple(a.shape for a in st.p))
    ctx.sample(steps=trace[:15])


def shares(ctx, rng):
    """An image made from an array shows this array, as a view does."""
    from viqa.utils import ImageArray
    a = to_type(texture(rng, tuple(int(v) for v in rng.integers(2, 6, 2))), pick(rng, TYPES), 100)
    src = layout(rng, a)
    img = ImageArray(src)
    ctx.same(np.asarray(img), np.asarray(src), "an image array holds other values")
    ctx.check(img.dtype == src.dtype and img.shape == src.shape, "an image array has another type")
    img2 = ImageArray(img)
    ctx.same(np.asarray(img2), np.asarray(src), "an image of an image holds other values")
    ctx.event("operations")
    ctx.key(a.shape, a.dtype.name, src.strides)


def moments(values):
    v = np.asarray(values, np.longdouble).ravel()
    n = v.size
    mean = v.sum() / n
    d = v - mean
    m2, m3, m4 = ((d ** p).sum() / n for p in (2, 3, 4))
    return dict(mean_value=mean, median=np.median(np.sort(v).astype(np.float64)), variance=m2,
                standarddev=np.sqrt(m2), skewness=m3 / m2 ** np.longdouble(1.5), kurtosis=m4 / m2 ** 2 - 3,
                minimum=v.min(), maximum=v.max())


NAMES = {"mean_value": "mean", "median": "median", "variance": "variance", "standarddev": "standarddev",
         "skewness": "skewness", "kurtosis": "kurtosis", "minimum": "minimum", "maximum": "maximum"}


def stats_of(ctx, img, plain, **info):
    want = moments(plain)
    single = plain.dtype == np.float32
    spread = float(want["standarddev"]) + abs(float(want["mean_value"])) * (1 if single else 1e-6)
    for k, w in want.items():
        tol = 1e-9 if not single else 2e-4
        if k in ("minimum", "maximum"):
            ctx.check(float(getattr(img, k)) == float(w), f"{k} is not that of the values",
                      got=getattr(img, k), want=w, **info)
            continue
        scale = {"variance": spread ** 2, "skewness": 1, "kurtosis": 1}.get(k, spread)
        ctx.close(float(getattr(img, k)), float(w), f"{k} is not that of the values", rtol=tol,
                  atol=tol * scale, **info)
    counts, edges = img.histogram
    counts, edges = np.asarray(counts), np.asarray(edges)
    ctx.check(counts.sum() == plain.size and len(edges) == len(counts) + 1 and np.all(np.diff(edges) >= 0),
              "the histogram does not count every pixel once", counted=counts.sum(), pixels=plain.size, **info)
    ctx.check(float(edges[0]) <= float(plain.min()) and float(edges[-1]) >= float(plain.max()),
              "the histogram does not cover the values", edges=(edges[0], edges[-1]), **info)
    bins = np.iinfo(plain.dtype).max if plain.dtype.kind in "ui" else 255
    ctx.check(len(counts) == bins, "the histogram has another number of bins", got=len(counts), want=bins, **info)
    # cumulated counts at the edges (values on an edge belong to the bin above)
    v = np.sort(plain.ravel().astype(np.float64))
    probe = edges[1:-1:max(1, len(edges) // 64)]
    cum = np.cumsum(counts)
    idx = np.arange(1, len(edges) - 1, max(1, len(edges) // 64))
    slack = np.spacing(np.abs(edges).max()) * 8 if not single else float(np.ptp(v)) * 1e-5
    lo = np.searchsorted(v, probe - slack, "left")
    hi = np.searchsorted(v, probe + slack, "right")
    got = cum[idx - 1]
    ctx.check(bool(np.all((got >= lo) & (got <= hi))), "the histogram counts other values", **info)
    ctx.event("histograms")


def statistics(ctx, rng):
    from viqa.utils import load_data
    nd = pick(rng, [2, 2, 3])
    shape = tuple(int(v) for v in (rng.integers(1, 4, nd) if chance(rng, 0.15) else rng.integers(3, 16 if nd == 2 else 9, nd)))
    dtype = pick(rng, ["uint8", "uint8", "int8", "uint16", "int16", "float32", "float64"])
    top = {"uint8": 255, "int8": 127, "uint16": 65535, "int16": 32767}.get(dtype, pick(rng, [1.0, 255.0, 1e5]))
    t = texture(rng, shape)
    if np.dtype(dtype).kind in "if" and chance(rng, 0.5):
        t = t * 2 - 1
    a = (np.clip(np.round(t * top), -top, top) if np.dtype(dtype).kind in "ui" else t * top).astype(dtype)
    if a.min() == a.max() or a.size < 4:
        return
    img = load_data(layout(rng, a))
    for name in list(NAMES) + ["histogram"]:
        ctx.check(not isinstance(getattr(img, name), (int, float, np.number)),
                  "statistics are set before they are calculated", name=name)
    with ctx.quiet():
        img.calculate_statistics()
    ctx.same(np.asarray(img), a, "calculating statistics changed the image")
    stats_of(ctx, img, a, dtype=dtype, shape=shape)
    ctx.event("statistics")
    if chance(rng, 0.5):  # after a change, calculated again
        b = a.copy()
        b[0] = a.max()
        img[0] = a.max()
        b[-1, 0], img[-1, 0] = a.min(), a.min()
        if b.min() != b.max():
            img.calculate_statistics()
            stats_of(ctx, img, b, dtype=dtype, shape=shape, after="a change")
            ctx.event("derived")
    if chance(rng, 0.4):
        c = img[1:] if shape[0] > 3 else img.T
        plain = np.array(c)
        if plain.min() != plain.max():
            c.calculate_statistics()
            stats_of(ctx, c, plain, dtype=dtype, after="a slice")
            ctx.event("derived")
            img.calculate_statistics()
    with ctx.quiet():
        d = img.describe() if chance(rng, 0.5) else img.describe(ctx.scratch, "s.csv")
    ctx.check(set(d) == set(NAMES.values()), "the description has other entries", got=sorted(d))
    for k, n in NAMES.items():
        ctx.check(float(d[n]) == float(getattr(img, k)), "the description differs from the statistics",
                  name=n, got=d[n], want=getattr(img, k))
    ctx.event("descriptions")
    ctx.key(shape, dtype, float(img.mean_value))
    ctx.sample(shape=shape, dtype=dtype, description={k: float(v) for k, v in d.items()})


SCALE = 3
KINDS = [("program", program, 500, 10), ("shares", shares, 100, 5), ("statistics", statistics, 400, 8)]
