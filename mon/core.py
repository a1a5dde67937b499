"""Driver of the runtime monitors: shards, monitors, verdict, evidence.

A property module (props/cNN.py) defines

  RULE    how cases are made and what makes one non-trivial
  SCALE   multiplies the quick counts (VERIF_SCALE overrides it)
  KINDS   list of (name, function(ctx, rng), quick count[, thorough factor])
  NEED    {event: minimum}: below these the run observed too little to answer
  ASSUME  optional list of assumptions for the evidence file
  SETUP   optional function(), run in the parent before forking

A case is one call of a kind's function with a generator derived from the
seed, the property, the kind and the index, so each can be replayed alone.
"""
import contextlib
import importlib
import importlib.machinery
import importlib.util
import io
import json
import os
import random
import re
import signal
import sys
import time
import traceback
import zlib

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src") + os.sep
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "evidence"))
SCRATCH = os.environ["VERIF_SCRATCH"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "420" if TIER == "quick" else "3000"))
CASE_LIMIT = 200.0  # seconds after which one (millisecond-sized) case counts as hung
MAX_VIOL = 3
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # development: stop at the first violation


class Violation(Exception):
    """The property does not hold for this case."""


class Refused(Exception):
    """Internal: wrong kind of refusal."""


class Ctx:
    def __init__(self, prop, known):
        self.prop = prop
        self.known_listed = known
        self.events = {}
        self.keys = set()
        self.case_keys = set()
        self.combos = set()
        self.samples = []
        self.known_seen = {}
        self.scratch = None
        self.kind = self.idx = None

    # -- observations -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def key(self, *parts):
        """Note what makes this case non-trivial (several notes make one case)."""
        self.case_keys.add(zlib.crc32(repr((self.kind,) + parts).encode()))

    def sample(self, **kw):
        if sum(s["kind"] == self.kind for s in self.samples) < 1:
            self.samples.append({"kind": self.kind, "index": self.idx,
                                 **{k: _plain(v) for k, v in kw.items()}})

    # -- verdicts -----------------------------------------------------------
    def fail(self, msg, **kw):
        if kw:
            msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in kw.items())
        raise Violation(msg)

    def check(self, cond, msg, **kw):
        self.event("assertions")
        if not cond:
            self.fail(msg, **kw)

    def same(self, got, want, msg, **kw):
        """Equal shape, type and every element (NaN equals NaN)."""
        import numpy as np
        self.event("assertions")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(msg + ": shape", got=g.shape, want=w.shape, **kw)
        if g.dtype != w.dtype:
            self.fail(msg + ": type", got=g.dtype, want=w.dtype, **kw)
        eq = (g == w)
        if g.dtype.kind in "fc":
            eq = eq | ((g != g) & (w != w))
        if not np.all(eq):
            bad = np.argwhere(~np.asarray(eq))
            pos = tuple(int(v) for v in bad[0])
            self.fail(msg + f": {len(bad)} of {g.size} values differ", at=pos,
                      got=g[pos], want=w[pos], **kw)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, **kw):
        import numpy as np
        self.event("assertions")
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            self.fail(msg + ": shape", got=g.shape, want=w.shape, **kw)
        with np.errstate(all="ignore"):
            ok = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (
                np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            bad = np.argwhere(~ok)
            pos = tuple(int(v) for v in bad[0])
            self.fail(msg + f": {len(bad)} of {g.size} values differ", at=pos,
                      got=float(g[pos]), want=float(w[pos]), **kw)

    def refused(self, fn, exc, msg, **kw):
        """fn must raise exc (a class or tuple of classes)."""
        self.event("assertions")
        self.event("refusals")
        try:
            res = fn()
        except exc:
            return
        except Violation:
            raise
        except Exception as e:
            self.fail(msg + ": wrong exception", raised=repr(e), **kw)
        self.fail(msg + ": accepted", returned=res, **kw)

    def known(self, fid, what, **kw):
        """A violation that is a listed known finding; else a violation."""
        if fid not in self.known_listed:
            self.fail(what, finding=fid, **kw)
        self.known_seen[fid] = self.known_seen.get(fid, 0) + 1
        self.event("known_finding_observed")

    @contextlib.contextmanager
    def quiet(self):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            yield buf


def _short(v):
    s = repr(v)
    return s if len(s) <= 240 else s[:240] + "..."


def _plain(v):
    import numpy as np
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    if isinstance(v, np.generic):
        return v.item() if not isinstance(v, np.complexfloating) else str(v)
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    return _short(v)


def known_findings(prop):
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                res[m[2]] = m[3]
    return res


# -- the code under test ------------------------------------------------------
class _ExtFinder:
    """Serve the freshly built native extension, never a stale one."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "viqa.fr_metrics.stat_utils.statisticscalc":
            loader = importlib.machinery.ExtensionFileLoader(name, os.environ["VERIF_EXT"])
            return importlib.util.spec_from_file_location(
                name, os.environ["VERIF_EXT"], loader=loader)
        if name == "viqa.nr_metrics.qmeasure" and REPO != "/repo":
            # scratch copies of the repository only: QMeasure's native part is absent
            import types

            class L:
                @staticmethod
                def create_module(spec):
                    m = types.ModuleType(spec.name)
                    m.QMeasure = None
                    return m

                @staticmethod
                def exec_module(m):
                    pass
            return importlib.util.spec_from_loader(name, L)
        return None


def import_viqa():
    sys.meta_path.insert(0, _ExtFinder)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    import viqa
    if not os.path.abspath(viqa.__file__).startswith(SRC):
        print("wrong viqa:", viqa.__file__)
        sys.exit(2)
    return viqa


# -- line monitor: which lines of the repository actually ran -----------------
class LineMonitor:
    def __init__(self):
        self.lines = set()
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.tool, "verif")
        except ValueError:
            self.tool = None
            return

        def on_line(code, line):
            if code.co_filename.startswith(SRC):
                self.lines.add((code.co_filename[len(SRC):], line))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)


# -- cases --------------------------------------------------------------------
def case_rng(prop, kind, idx):
    import numpy as np
    return np.random.default_rng(
        [SEED, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), idx])


def _unusable(e):
    """Did a monitor fail because of what the code under test returned or wrote?

    The monitors handle every result of the right kind, so a result of the
    wrong kind (None, a tuple, a wrong shape, no file) is a violation. A name
    that is missing in a module is not: that is a question of how the code is
    written.
    """
    import types
    if isinstance(e, AttributeError) and isinstance(getattr(e, "obj", None), types.ModuleType):
        return False
    if isinstance(e, FileNotFoundError):
        return str(e.filename).startswith(SCRATCH)
    return isinstance(e, (TypeError, ValueError, AttributeError, IndexError, KeyError,
                          ZeroDivisionError))


def run_case(ctx, fn, kind, idx):
    """Run one case; return None or (message, traceback)."""
    import warnings

    import numpy as np
    ctx.kind, ctx.idx = kind, idx
    ctx.case_keys = set()
    case_dir = os.path.join(SCRATCH, f"case-{os.getpid()}")
    os.makedirs(case_dir, exist_ok=True)
    ctx.scratch = case_dir
    rng = case_rng(ctx.prop, kind, idx)
    random.seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    import shutil
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(ctx, rng)
        ctx.event("cases")
        ctx.event(f"cases:{kind}")
        if ctx.case_keys:
            ctx.combos |= ctx.case_keys
            ctx.keys.add(zlib.crc32(repr(sorted(ctx.case_keys)).encode()))
        return None
    except Violation as e:
        return str(e), traceback.format_exc()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(SRC) for f in tb):
            return (f"unexpected {type(e).__name__}: {_short(str(e))}",
                    traceback.format_exc())
        if _unusable(e):
            return (f"unusable result, {type(e).__name__}: {_short(str(e))}",
                    traceback.format_exc())
        raise
    finally:
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        shutil.rmtree(case_dir, ignore_errors=True)


def plan(mod):
    """All cases of this tier, interleaved over the kinds."""
    cases = []
    for entry in mod.KINDS:
        name, fn, count = entry[:3]
        factor = entry[3] if len(entry) > 3 else 12
        n = int(count * (float(os.environ.get("VERIF_SCALE") or getattr(mod, "SCALE", 1)) if TIER == "quick" else factor))
        for i in range(n):
            cases.append(((i + 0.5) / n, name, fn, i))
    cases.sort(key=lambda c: (c[0], c[1]))
    return [(name, fn, i) for _, name, fn, i in cases]


def shard_main(num, mod, prop, cases, out_path, cur_path):
    if not os.environ.get("VERIF_DEBUG"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    sys.stdout = os.fdopen(os.dup(1), "w")
    os.chdir(os.path.join(SCRATCH, f"cwd-{num}"))
    ctx = Ctx(prop, known_findings(prop))
    lines = LineMonitor()
    viol, err, done = [], None, 0
    for n in range(num, len(cases), SHARDS):
        if time.time() - T0 > BUDGET:
            ctx.event("cases_cut_by_time", len(range(n, len(cases), SHARDS)))
            break
        if FAILFAST and os.path.exists(os.path.join(SCRATCH, "stop")):
            break
        kind, fn, idx = cases[n]
        with open(cur_path, "w") as f:
            json.dump([kind, idx, time.time()], f)
        try:
            res = run_case(ctx, fn, kind, idx)
        except BaseException:
            err = f"{kind}[{idx}]\n" + traceback.format_exc()
            break
        done += 1
        if res:
            viol.append({"kind": kind, "index": idx, "message": res[0], "trace": res[1]})
            if FAILFAST:
                open(os.path.join(SCRATCH, "stop"), "w").close()
            if len(viol) >= MAX_VIOL:
                break
    with open(cur_path, "w") as f:
        f.write("null")
    with open(out_path + ".tmp", "w") as f:
        json.dump({"events": ctx.events, "keys": sorted(ctx.keys),
                   "combos": sorted(ctx.combos), "samples": ctx.samples,
                   "known": ctx.known_seen, "violations": viol, "error": err,
                   "done": done, "lines": sorted(lines.lines)}, f)
    os.replace(out_path + ".tmp", out_path)
    os._exit(0)


def main():
    args = sys.argv[1:]
    prop = args[0]
    sys.path.insert(0, os.path.join(HERE, "props"))
    if "--replay" in args:
        return replay(prop, args[args.index("--replay") + 1])
    ev_path = os.path.join(OUT, prop + ".json")
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    import_viqa()
    mod = importlib.import_module(prop.lower())
    if hasattr(mod, "SETUP"):
        mod.SETUP()
    cases = plan(mod)
    procs = {}
    for num in range(SHARDS):
        os.makedirs(os.path.join(SCRATCH, f"cwd-{num}"), exist_ok=True)
        paths = (os.path.join(SCRATCH, f"out-{num}.json"), os.path.join(SCRATCH, f"cur-{num}.json"))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                shard_main(num, mod, prop, cases, *paths)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        procs[pid] = (num, paths)
    status = {}
    hung = {}
    while len(status) < len(procs):
        for pid, (num, paths) in procs.items():
            if pid in status:
                continue
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status[pid] = st
                continue
            try:
                cur = json.load(open(paths[1]))
            except (OSError, ValueError):
                cur = None
            if cur and time.time() - cur[2] > getattr(mod, "CASE_LIMIT", CASE_LIMIT):
                hung[pid] = cur
                os.kill(pid, signal.SIGKILL)
        time.sleep(0.05)

    events, keys, samples, known, viol, errors, lines = {}, set(), [], {}, [], [], set()
    combos = set()
    for pid, (num, paths) in procs.items():
        st = status[pid]
        if os.path.exists(paths[0]):
            r = json.load(open(paths[0]))
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
            keys.update(r["keys"])
            combos.update(r["combos"])
            for s in r["samples"]:
                if sum(x["kind"] == s["kind"] for x in samples) < 2:
                    samples.append(s)
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
            viol += r["violations"]
            lines.update(map(tuple, r["lines"]))
            if r["error"]:
                errors.append(r["error"])
        else:
            try:
                cur = json.load(open(paths[1]))
            except (OSError, ValueError):
                cur = None
            cur = hung.get(pid, cur)
            if pid in hung:
                viol.append({"kind": cur[0], "index": cur[1], "trace": "",
                             "message": f"no answer within {CASE_LIMIT:.0f} s"})
            elif os.WIFSIGNALED(st) and cur and os.WTERMSIG(st) in (
                    signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                viol.append({"kind": cur[0], "index": cur[1], "trace": "",
                             "message": f"the process was ended by signal {os.WTERMSIG(st)}"})
            else:
                errors.append(f"shard {num} ended with status {st} at {cur}")
    return verdict(prop, mod, len(cases), events, keys, samples, known, viol, errors, lines, ev_path,
                   len(combos))


def verdict(prop, mod, planned, events, keys, samples, known, viol, errors, lines, ev_path,
            combos):
    listed = known_findings(prop)
    short = {k: (events.get(k, 0), n) for k, n in mod.NEED.items() if events.get(k, 0) < n}
    files = {}
    for f, _ in lines:
        files[f] = files.get(f, 0) + 1
    viol.sort(key=lambda v: (v["kind"], v["index"]))
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": events.get("cases", 0),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:12],
            "cases_planned": planned,
            "distinct_configurations_inside_cases": combos,
            "monitor_events": {k: v for k, v in sorted(events.items())},
            "repo_lines_executed": dict(sorted(files.items())),
            "known_findings_observed": known,
            "exhaustive": False,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_LINES"):  # development: where did the workload go
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump(sorted(lines), f)
    for fid, what in listed.items():
        if known.get(fid):
            print(f"KNOWN-FINDING: property={prop} {what}")
    for n, v in enumerate(viol[:MAX_VIOL]):
        path = os.path.join(OUT, "replays", f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, **v}, f, indent=1)
        print(f"  {v['kind']}[{v['index']}]: {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {TIER}: {events.get('cases', 0)}/{planned} cases, {len(keys)} distinct, "
          f"{events.get('assertions', 0)} assertions, {len(lines)} repository lines, "
          f"{time.time() - T0:.1f} s")
    if viol:
        return 1
    if errors:
        print("ERROR in the check itself:")
        for e in errors[:3]:
            print(e)
        return 2
    if short:
        print("too little was observed:", short)
        return 2
    return 0


def replay(prop, path):
    global SEED, TIER
    r = json.load(open(path))
    SEED, TIER = r["seed"], r["tier"]
    import_viqa()
    mod = importlib.import_module(prop.lower())
    if hasattr(mod, "SETUP"):
        mod.SETUP()
    fn = {e[0]: e[1] for e in mod.KINDS}[r["kind"]]
    os.makedirs(os.path.join(SCRATCH, "cwd-r"), exist_ok=True)
    os.chdir(os.path.join(SCRATCH, "cwd-r"))
    ctx = Ctx(prop, known_findings(prop))
    res = run_case(ctx, fn, r["kind"], r["index"])
    if res:
        print(res[1])
        print(res[0])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.modules["core"] = sys.modules["__main__"]
    try:
        code = main()
    except Exception:
        traceback.print_exc(limit=-12)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
