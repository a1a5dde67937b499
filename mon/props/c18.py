"""C18: concurrent scoring equals sequential scoring."""
import os
import random
import sys
import threading
import time

import numpy as np

import bench
from gen import chance, pick
from isolate import isolated

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src") + os.sep
RULE = ("preempt: thread A is stopped at a chosen line of the repository until thread B has finished "
        "a complete scoring, then resumed (lines sampled over A's whole execution, same and different "
        "metric classes, different sizes and settings); storm: 4 to 8 threads score several pairs "
        "each with a switch interval of 1 us and random yields at repository lines; every score is "
        "compared with that of a single-threaded forked process; distinct by stop line and tasks")
ASSUME = ["threads own their metric objects and use different or shared read-only images",
          "the native module holds the interpreter lock, so it is switched around, not inside"]
NEED = {"preemptions": 300, "storms": 10, "switches": 5000, "scores": 900, "same_size_tasks": 15, "preempt:MAD": 60}


def task(viqa, rng, name, shape=None):
    shape = shape or bench.shape_for(rng, [name])
    r, m, top = bench.images(rng, shape, pick(rng, ["uint8", "float64"]))
    kw = bench.params(rng, name, shape)
    mode = "class"
    if chance(rng, 0.3):
        mode = "function"

    def run():
        from viqa.fr_metrics.mad import most_apparent_distortion
        from viqa.fr_metrics.gsm import gradient_similarity
        from viqa.nr_metrics.cnr import contrast_to_noise_ratio
        from viqa.nr_metrics.snr import signal_to_noise_ratio
        if mode == "function" and name == "MAD":
            return float(most_apparent_distortion(r, m, data_range=255, **kw))
        if mode == "function" and name == "GSM":
            return float(gradient_similarity(r, m, data_range=top, **kw))
        if mode == "function" and name == "CNR":
            return float(contrast_to_noise_ratio(r, **kw))
        if mode == "function" and name == "SNR":
            return float(signal_to_noise_ratio(r, **kw)[0])
        met = bench.make(viqa, name, top)
        res = bench.run(met, r, m, kw)
        if not bench.eq(met.score_val, res):
            return ("stored", met.score_val, res)
        return res
    run.shape = shape
    return run, f"{name} {shape} {kw}"


class Tracer:
    """Calls hook(file, line) at every line of the repository in this thread."""

    def __init__(self, hook):
        self.hook = hook

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.hook(frame.f_code.co_filename[len(SRC):], frame.f_lineno)
        return self.local


def traced(fn, hook):
    old = sys.gettrace()
    sys.settrace(Tracer(hook))
    try:
        return fn()
    finally:
        sys.settrace(old)


def in_thread(fn, out, i):
    try:
        out[i] = ("ok", fn())
    except BaseException as e:
        out[i] = ("err", repr(e))


def judge(ctx, got, want, what):
    ctx.check(got is not None and got[0] == "ok", f"{what} fails when scored concurrently", got=got)
    ctx.check(not (isinstance(got[1], tuple) and got[1][0] == "stored"),
              f"{what}: another score is stored than returned", got=got)
    ctx.check(bench.eq(got[1], want[1], 1e-12), f"{what} scores differently when scored concurrently",
              got=got[1], alone=want[1])
    ctx.event("scores")


def preempt(ctx, rng):
    import viqa
    a = bench.CHEAP[ctx.idx % len(bench.CHEAP)] if ctx.idx % 3 else "MAD"
    b = a if chance(rng, 0.7) else pick(rng, bench.CHEAP)
    fa, wa = task(viqa, rng, a)
    same = a == b and chance(rng, 0.6)  # so that work arrays kept per size would be shared
    fb, wb = task(viqa, rng, b, fa.shape if same else None)
    if same:
        ctx.event("same_size_tasks")
    ea, eb = isolated(fa), isolated(fb)
    if ea[0] != "ok" or eb[0] != "ok":
        ctx.fail("a task cannot be scored alone", a=(wa, ea), b=(wb, eb))
    lines = []
    traced(fa, lambda f, n: lines.append((f, n)))
    if not lines:
        return
    first = {}
    for k, ln in enumerate(lines):
        first.setdefault(ln, k)
    spots = [int(v) for v in rng.permutation(sorted(first.values()))[:6]]
    spots += [int(v) for v in rng.integers(0, len(lines), 3)]
    for k in spots:
        reached, go = threading.Event(), threading.Event()
        seen = [0]

        def hook(f, n):
            if seen[0] == k:
                reached.set()
                go.wait(60)
            seen[0] += 1
        out = {}
        ta = threading.Thread(target=in_thread, args=(lambda: traced(fa, hook), out, 0))
        tb = threading.Thread(target=in_thread, args=(fb, out, 1))
        ta.start()
        reached.wait(60)
        tb.start()
        tb.join()
        go.set()
        ta.join()
        where = f"{lines[k][0]}:{lines[k][1]}"
        judge(ctx, out.get(0), ea, f"{wa} stopped at {where} for {wb}")
        judge(ctx, out.get(1), eb, f"{wb} while {wa} waits at {where}")
        ctx.event("preemptions")
        ctx.event("preempt:" + a)
        ctx.key(lines[k], a, b)
    ctx.sample(a=wa, b=wb, stop_lines=len(first), stopped_at=[f"{lines[k][0]}:{lines[k][1]}" for k in spots[:4]])


def storm(ctx, rng):
    import viqa
    n = int(rng.integers(4, 9))
    names = [pick(rng, bench.CHEAP) for _ in range(n)]
    if chance(rng, 0.6):
        names[: n // 2] = ["MAD"] * (n // 2)
    jobs, shapes = [], {}
    for name in names:
        old = shapes.get(name) if chance(rng, 0.6) else None
        jobs.append([task(viqa, rng, name, old) for _ in range(2)])
        shapes[name] = jobs[-1][0][0].shape
    want = [[isolated(f) for f, _ in js] for js in jobs]
    out = {}
    last = [None]
    switches = [0]
    points = set()
    start = threading.Barrier(n)

    def work(i):
        rnd = random.Random(int(i) + ctx.idx)
        me = threading.get_ident()

        def hook(f, ln):
            if last[0] != me:
                switches[0] += 1
                points.add((f, ln))
                last[0] = me
            if rnd.random() < 0.15:
                time.sleep(0)
        start.wait()
        return [traced(f, hook) for f, _ in jobs[i]]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=in_thread, args=(lambda i=i: work(i), out, i)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i in range(n):
        res = out.get(i)
        ctx.check(res is not None and res[0] == "ok", f"thread {i} ({names[i]}) failed", got=res)
        for k, (f, what) in enumerate(jobs[i]):
            judge(ctx, ("ok", res[1][k]), want[i][k], what)
    ctx.event("switches", switches[0])
    ctx.event("storms")
    for p in points:
        ctx.key(*p)


KINDS = [("preempt", preempt, 110, 14), ("storm", storm, 24, 14)]
