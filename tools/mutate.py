#!/usr/bin/env python3
"""Mutation campaign (a development tool, no check uses it).

mutate.py OUT.jsonl [--files a,b] [--sample N] [--seed S] [--jobs J] [--shards K]

Makes small changes in private copies of the repository's sources, runs the checks that concern the file one
after another until one reports a violation, and writes one line per change; survivors are to be read by a human.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/viqa/"
CHECKS = {
    V + "fr_metrics/rmse.py": "C07 C22 C17 C05", V + "fr_metrics/psnr.py": "C07 C22 C17 C05",
    V + "fr_metrics/uqi.py": "C08 C22 C17 C05", V + "fr_metrics/ssim.py": "C08 C22 C17 C05",
    V + "fr_metrics/vif.py": "C11 C22 C05 C17 C10", V + "fr_metrics/vsi.py": "C11 C22 C05 C17 C10",
    V + "fr_metrics/fsim.py": "C11 C22 C05 C17 C10", V + "fr_metrics/msssim.py": "C11 C22 C05 C17 C10",
    V + "fr_metrics/gsm.py": "C09 C22 C05 C06 C17 C10", V + "fr_metrics/mad.py": "C22 C12 C05 C06 C17 C10 C18",
    V + "fr_metrics/stat_utils/statisticsmodule.c": "C13 C14 C12",
    V + "kernels.py": "C24 C09", V + "utils/misc.py": "C15 C24 C16 C22 C08 C12 C25",
    V + "utils/loading.py": "C01 C02 C04 C05 C03 C23 C22 C06 C25 C07",
    V + "nr_metrics/cnr.py": "C15 C16 C05 C28 C17 C25", V + "nr_metrics/snr.py": "C15 C16 C05 C28 C17 C25",
    V + "utils/visualization.py": "C25 C28 C06", V + "utils/export.py": "C21 C25 C20",
    V + "multiple.py": "C19 C05 C21 C20 C25", V + "_metrics.py": "C17 C22 C21 C05", V + "fusion.py": "C19",
    "src/scripts/crop_image.py": "C26", "src/scripts/combine_stack.py": "C26", "src/scripts/write_to_csv.py": "C26",
    "src/scripts/reduce_projections.py": "C26", "src/scripts/write_to_mat.py": "C26",
}
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is",
       "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "FloorDiv": "/", "Pow": "*", "Mod": "//"}


def mutants(path, text):
    """(line, start, end, new, kind)"""
    if path.endswith(".c"):
        return c_mutants(text)
    tree = ast.parse(text)
    offs = [0]
    data = text.encode()
    for l in data.split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    def a(n): return offs[n.lineno - 1] + n.col_offset
    def z(n): return offs[n.end_lineno - 1] + n.end_col_offset
    def src(n): return data[a(n):z(n)].decode()
    out = []
    def add(n, new, kind, s=None, e=None):
        s = a(n) if s is None else s
        e = z(n) if e is None else e
        out.append((n.lineno, s, e, new, kind))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("warn", "print", "set_tooltip"):
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, ast.Assign) and any(getattr(t, "id", "") == "__all__" for t in n.targets):
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                for m in ast.walk(d): skip.add(m)
            for ar in n.args.args + n.args.kwonlyargs:
                if ar.annotation:
                    for m in ast.walk(ar.annotation): skip.add(m)
            if n.returns:
                for m in ast.walk(n.returns): skip.add(m)
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation): skip.add(m)
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                if m is not n: skip.add(m)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n); skip.add(n.value)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                add(left, " " + CMP[type(op).__name__] + " ", "compare", z(left), a(right))
                left = right
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            if not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
                # keep the parentheses between the operands
                mid = data[z(n.left):a(n.right)].decode()
                sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Pow": "**", "Mod": "%"}[type(n.op).__name__]
                if sym in mid:
                    add(n.left, mid.replace(sym, BIN[type(n.op).__name__], 1), "arith", z(n.left), a(n.right))
        elif isinstance(n, ast.BoolOp):
            w = "or" if isinstance(n.op, ast.And) else "and"
            old = "and" if w == "or" else "or"
            mid = data[z(n.values[0]):a(n.values[1])].decode()
            if re.search(rf"\b{old}\b", mid):
                add(n.values[0], re.sub(rf"\b{old}\b", w, mid, count=1), "bool", z(n.values[0]), a(n.values[1]))
            add(n, "(" + src(n.values[0]) + ")", "drop-condition")
            add(n, "(" + src(n.values[-1]) + ")", "drop-condition")
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "(not (" + src(n.test) + "))", "negate")
            if isinstance(n, ast.If):
                add(n.test, "False", "never")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flag")
            elif isinstance(n.value, int):
                add(n, f"({n.value + 1})", "plus-one")
                if n.value: add(n, f"({n.value - 1})", "minus-one")
            elif isinstance(n.value, float):
                add(n, f"({n.value * 1.25 + (n.value == 0)})", "scale")
            elif isinstance(n.value, str) and n.value and len(n.value) < 20:
                add(n, repr(n.value + "_"), "text")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                add(n.args[0], src(n.args[1]) + ", " + src(n.args[0]), "swap-args", a(n.args[0]), z(n.args[1]))
            for k in n.keywords:
                s = a(k)
                e = z(k)
                rest = data[e:e + 40]
                m = re.match(rb"\s*,\s*", rest)
                if m:
                    e += m.end()
                add(k, "", "drop-keyword", s, e)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                                                            and n.value not in skip):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2:
            e = n.slice.elts
            add(e[0], src(e[1]) + ", " + src(e[0]), "swap-index", a(e[0]), z(e[1]))
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) >= 2:
            e = n.value.elts
            add(e[0], src(e[1]) + ", " + src(e[0]), "swap-results", a(e[0]), z(e[1]))
    return out


def c_mutants(text):
    out = []
    line = 0
    off = 0
    for l in text.split("\n"):
        line += 1
        if not l.strip().startswith(("*", "/", "#")) and '"' not in l:
            for pat, reps in ((r"(?<![<>=!+\-])<(?![<=])", ["<="]), (r"<=", ["<"]), (r">=", [">"]), (r"(?<![\->])>(?![>=])", [">="]),
                              (r"==", ["!="]), (r"!=", ["=="]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
                              (r" / ", [" * "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\b\d+\b", ["{+1}", "{-1}"]), (r"\+=", ["-="]),
                              (r"\+\+", ["+=2"])):
                for m in re.finditer(pat, l):
                    for r in reps:
                        new = r if "{" not in r else str(int(m[0]) + (1 if "+" in r else -1))
                        out.append((line, off + m.start(), off + m.end(), new, "c"))
            if re.match(r"\s+[A-Za-z_].*;\s*$", l) and not re.match(r"\s+(return|int|double|npy|Py|float|static|const|break|goto)", l):
                out.append((line, off + len(l) - len(l.lstrip()), off + len(l.rstrip()), ";", "delete"))
        off += len(l.encode()) + 1
    return out


def run(job):
    n, path, (line, s, e, new, kind), shards, seed = job
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree("/repo/src", w + "/repo/src", ignore=shutil.ignore_patterns("*.so", "__pycache__", "build"))
        f = w + "/repo/" + path
        data = open(f, "rb").read()
        with open(f, "wb") as h:
            h.write(data[:s] + new.encode() + data[e:])
        ls = data.rfind(b"\n", 0, s) + 1
        le = data.find(b"\n", e)
        old = data[ls:le].decode().strip()
        now = (data[ls:s] + new.encode() + data[e:le]).decode().strip()
        rec = {"n": n, "file": path, "line": line, "kind": kind, "old": old, "new": now}
        if path.endswith(".py"):
            try:
                compile(open(f).read(), f, "exec")
            except SyntaxError:
                rec["result"] = "syntax"
                return rec
        t = time.time()
        env = {**os.environ, "VERIF_REPO": w + "/repo", "VERIF_OUT": w + "/out", "VERIF_SHARDS": str(shards),
               "VERIF_FAILFAST": "1", "VERIF_SCALE": "1", "TMPDIR": w, "VERIF_SEED": str(seed)}
        rec["result"] = "SURVIVED"
        rec["other"] = []
        for c in CHECKS[path].split():
            p = subprocess.run(["timeout", "-k", "5", "800", HERE + "/run.sh", c, "quick"], env=env, capture_output=True, text=True)
            if p.returncode == 1:
                rec["result"] = "killed " + c
                m = re.search(r"^  (.*)\nVIOLATION", p.stdout, re.M)
                rec["message"] = m[1][:160] if m else ""
                break
            if p.returncode:
                rec["other"].append(f"{c}={p.returncode} " + p.stdout[-300:])
        rec["s"] = round(time.time() - t, 1)
        return rec
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--shards", type=int, default=4)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--redo", default="", help="only changes that survived in this earlier result file")
    o = ap.parse_args()
    jobs = []
    rnd = random.Random(o.seed)
    for path in CHECKS:
        if o.files and not any(x in path for x in o.files.split(",")):
            continue
        text = open("/repo/" + path).read()
        ms = mutants(path, text)
        if o.count:
            print(len(ms), path)
        jobs += [(path, m) for m in ms]
    if o.redo:
        want = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(o.redo)) if r["result"] == "SURVIVED"}
        sel = []
        for path, m in jobs:
            data = open("/repo/" + path, "rb").read()
            ls = data.rfind(b"\n", 0, m[1]) + 1
            le = data.find(b"\n", m[2])
            if (path, m[0], (data[ls:m[1]] + m[3].encode() + data[m[2]:le]).decode().strip()) in want:
                sel.append((path, m))
        jobs = sel
    else:
        done = set()
        if os.path.exists(o.out):
            done = {(r["file"], r["line"], r["n"]) for r in map(json.loads, open(o.out))}
        rnd.shuffle(jobs)
        jobs = jobs[:o.sample]
    print(len(jobs), "changes", flush=True)
    if o.count:
        return
    with open(o.out, "a") as f, ThreadPoolExecutor(o.jobs) as ex:
        for fut in as_completed([ex.submit(run, (i, p, m, o.shards, o.seed)) for i, (p, m) in enumerate(jobs)]):
            rec = fut.result()
            f.write(json.dumps(rec) + "\n")
            f.flush()


main()
