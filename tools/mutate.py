#!/usr/bin/env python3
"""Systematic small mutations of ein, to find what the checks miss.

mutate.py list                       numbers of mutants per file
mutate.py filter OUT.json [-n N] [-s SEED] [-f FILE-SUBSTRING]
                                     samples N mutants, keeps those that pass the existing tests
mutate.py hunt OUT.json [-j JOBS]    runs the checks on the kept ones until one reports; updates OUT.json
Works in scratch copies under /tmp only."""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "1"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.BitOr: "&", ast.BitAnd: "|"}


def mutants(path):
    src = path.read_text()
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    data = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, n.lineno, what))

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        # annotations, raises, asserts and type-only code do not count
        if isinstance(n, (ast.Raise, ast.AnnAssign)) or isinstance(n, ast.If) and ast.unparse(n.test) in ("TYPE_CHECKING", "__name__ == '__main__'"):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.FunctionDef, ast.arg)):
            for f in ("returns", "annotation", "args"):
                a = getattr(n, f, None)
                if isinstance(a, ast.AST) and f != "args":
                    for m in ast.walk(a):
                        skip.add(m)
            for d in getattr(n, "decorator_list", []):
                for m in ast.walk(d):
                    skip.add(m)
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                for m in ast.walk(b):
                    skip.add(m)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP[type(n.ops[0])]:
                put(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "binop")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1 :]
                op0 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + op0.join(f"({text(v)})" for v in rest) + ")", "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"bool({text(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, f"+{text(n.operand)}", "usub")
        elif isinstance(n, ast.Constant):
            if type(n.value) is int:
                put(n, str(n.value + 1), "const")
                if n.value:
                    put(n, str(n.value - 1), "const")
            elif type(n.value) is bool:
                put(n, str(not n.value), "const")
            elif type(n.value) is float:
                put(n, repr(n.value + 1.0), "const")
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, "True", "cond")
            put(n.test, "False", "cond")
        elif isinstance(n, ast.Call):
            args = n.args
            for i in range(len(args) - 1):
                if isinstance(args[i], ast.Starred) or isinstance(args[i + 1], ast.Starred):
                    continue
                a, b = span(args[i])[0], span(args[i + 1])[1]
                out.append((a, b, f"{text(args[i + 1])}, {text(args[i])}", n.lineno, "swap-args"))
            if n.keywords:
                for kw in n.keywords:
                    if kw.arg and len(args) + len(n.keywords) > 1:
                        a, b = span(kw)
                        rest = data[b:]
                        k = len(rest) - len(rest.lstrip())
                        if rest[k : k + 1] == b",":
                            out.append((a, b + k + 1, "", n.lineno, "drop-kwarg"))
            f = text(n.func)
            if len(args) == 1 and not n.keywords and f.split(".")[-1] in ("substitute_renaming", "sorted", "reversed", "tuple", "set", "int", "abs", "go", "f", "elim"):
                put(n, text(args[0]), "unwrap-call")
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in n.elts):
            a, b = span(n.elts[0])[0], span(n.elts[1])[1]
            out.append((a, b, f"{text(n.elts[1])}, {text(n.elts[0])}", n.lineno, "swap-tuple"))
        elif isinstance(n, ast.Tuple) and len(n.elts) > 2 and isinstance(n.ctx, ast.Load):
            for i, e in enumerate(n.elts[:-1]):
                out.append((span(e)[0], span(n.elts[i + 1])[0], "", n.lineno, "drop-elem"))
        elif isinstance(n, ast.Attribute) and n.attr in ("first", "second", "min", "max", "minimum", "maximum", "init", "body", "x", "y", "size", "free_symbols", "free_indices", "starts", "stops", "lefts", "rights", "less", "less_equal", "add", "subtract", "amin", "amax"):
            other = {"first": "second", "second": "first", "min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "init": "body", "body": "init", "x": "y", "y": "x", "free_symbols": "free_indices", "free_indices": "free_symbols", "starts": "stops", "stops": "starts", "lefts": "rights", "rights": "lefts", "less": "less_equal", "less_equal": "less", "add": "subtract", "subtract": "add", "amin": "amax", "amax": "amin"}.get(n.attr)
            if other:
                t = text(n)
                put(n, t[: -len(n.attr)] + other, "attr")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) and not isinstance(getattr(n, "value", None), ast.Lambda):
            put(n, "pass", "drop-stmt")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop-stmt")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and n.value.args:
            pass
    seen, uniq = set(), []
    for m in out:
        if m[:3] in seen:
            continue
        seen.add(m[:3])
        new = data[: m[0]] + m[2].encode() + data[m[1] :]
        try:
            compile(new.decode(), str(path), "exec")
        except SyntaxError:
            continue
        uniq.append(dict(file=str(path.relative_to(REPO)), a=m[0], b=m[1], new=m[2], old=data[m[0] : m[1]].decode(), line=m[3], what=m[4]))
    return uniq


def every():
    out = []
    for p in sorted((REPO / "ein").rglob("*.py")):
        out += mutants(p)
    return out


def scratch(tag):
    d = pathlib.Path(f"/tmp/mut-{tag}")
    if d.exists():
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    return d


def apply(d, m):
    p = d / m["file"]
    data = (REPO / m["file"]).read_bytes()
    old, a = m["old"].encode(), m["a"]
    if data[a : m["b"]] != old:  # the tree has moved on: the nearest place with that text
        at = [k for k in range(len(data)) if data.startswith(old, k)]
        if not at:
            return p
        a = min(at, key=lambda k: abs(k - a))
    p.write_bytes(data[:a] + m["new"].encode() + data[a + len(old) :])
    return p


def undo(d, m):
    (d / m["file"]).write_bytes((REPO / m["file"]).read_bytes())


def passes(d):
    stable = [t.split("::")[0] for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if False else []
    try:
        r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=ENV, capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def pool(jobs, items, f):
    dirs = [scratch(i) for i in range(jobs)]
    free = list(dirs)

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            f(d, m)
        finally:
            undo(d, m)
            free.append(d)

    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, items))
    finally:
        for d in dirs:
            shutil.rmtree(d)
            shutil.rmtree(str(d) + "-out", ignore_errors=True)


# the checks that look at a file first; the ones of ALL follow with --all
MAP = {
    "jax_backend": "C03,C20,C05,C13", "torch_backend": "C02,C20,C13,C05", "numpy_backend": "C01,C13,C05,C07",
    "naive": "C04,C10", "array_backend": "C01,C02,C07,C13", "array_indexing": "C05,C11,C01", "axial": "C01,C08,C16",
    "phi_to_yarr": "C06,C01,C11,C13,C16,C05", "yarr": "C17,C01,C12", "debug": "C17", "comprehension": "C09,C10,C08",
    "functions": "C14", "layout": "C08,C10,C19", "ndarray": "C15,C10,C08,C05,C14", "std": "C19,C10", "equiv": "C21,C05,C11",
    "size_classes": "C21,C05,C11", "lining": "C12,C01", "structs": "C08,C12", "substitution": "C12,C09,C06",
    "phi.py": "C10,C12,C17,C22", "type_system": "C10,C14", "term": "C22,C12", "value": "C22,C13,C17",
}  # fmt: skip


def opt(flag, default):
    return sys.argv[sys.argv.index(flag) + 1] if flag in sys.argv else default


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        from collections import Counter

        for k, v in Counter(m["file"] for m in every()).items():
            print(v, k)
        return
    path = pathlib.Path(sys.argv[2])
    if cmd == "filter":
        ms = [m for m in every() if opt("-f", "") in m["file"]]
        random.Random(int(opt("-s", "1"))).shuffle(ms)
        ms = ms[: int(opt("-n", "200"))]
        kept = []

        def f(d, m):
            if passes(d):
                kept.append(m)
                path.write_text(json.dumps(kept, indent=1))
                print(len(kept), m["file"], m["line"], m["what"], repr(m["old"][:50]), "->", repr(m["new"][:50]), flush=True)

        pool(int(opt("-j", "8")), ms, f)
        print(f"{len(kept)} of {len(ms)} pass the tests")
    elif cmd == "hunt":
        ms = json.loads(path.read_text())
        todo = [m for m in ms if "caught" not in m or "--again" in sys.argv and not m["caught"]]
        order = opt("-c", "C01,C05,C06,C12,C11,C08,C02,C03,C04,C07,C10,C13,C09,C14,C15,C16,C17,C19,C20,C21,C22").split(",")
        scale = opt("--cases", None)

        def f(d, m):
            t = time.time()
            m["caught"] = []
            first = [c for k, v in MAP.items() if k in m["file"] for c in v.split(",")][: int(opt("--first", 99))]
            for c in [*dict.fromkeys(first), *(x for x in order if x not in first and ("--all" in sys.argv or not first))]:
                cmdline = [PY, str(HERE / "run.py"), "check", c, "--tier", "quick"] + (["--cases", scale] if scale else [])
                r = subprocess.run(cmdline, env={**ENV, "EINPBT_REPO": str(d), "EINPBT_OUT": str(d) + "-out", "EINPBT_HURRY": "1"}, capture_output=True, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m["caught"].append(c)
                    break
                if r.returncode not in (0, 1):
                    m.setdefault("errors", []).append(c)
            path.write_text(json.dumps(ms, indent=1))
            print(m["caught"] or "MISSED", m.get("errors", ""), f"{time.time() - t:.0f}s", m["file"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)

        pool(int(opt("-j", "2")), todo, f)


main()
