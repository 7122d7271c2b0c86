#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and keeps those that count.

plant.py new SPEC.py [ID...]     SPEC defines BUGS = [dict(id, prop, edits, demo, needs, what)]
plant.py try [ID...] [-c CHECK]  runs the property's check (or CHECK) against a patched scratch copy
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
SEEDED = HERE / "seeded"
PY = "/opt/venv/bin/python"
ENV = {
    **os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "JAX_PLATFORMS": "cpu", "CUDA_VISIBLE_DEVICES": "",
}  # fmt: skip


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch(name):
    d = pathlib.Path(f"/tmp/scr-{name}")
    if d.exists():
        shutil.rmtree(d)
    sh(["cp", "-a", "/repo", str(d)])
    return d


def new(bug):
    d = scratch(bug["id"])
    try:
        for f, old, new in bug["edits"]:
            p = d / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"edit does not match once ({s.count(old)}): {old[:60]!r}"
            p.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=d).stdout
        # lines of the original repository only
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=d).stdout.strip()[:7]
        for f in {e[0] for e in bug["edits"]}:
            blame = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], cwd=d).stdout.split("\n")
            hunks = sh(["git", "diff", "-U0", "--", f], cwd=d).stdout
            removed = []
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                removed += range(a, a + n)
            ours = [k for k in removed if base not in blame[k - 1].split(" ")[0]]
            if ours and len(ours) == len(removed):
                return f"{f}: changes only lines of our commits: {[blame[k-1] for k in ours]}"
            if ours:
                print(f"  note {bug['id']} {f}: some of our lines: {[blame[k-1] for k in ours]}")
        out = SEEDED / bug["id"]
        tmp = pathlib.Path(f"/tmp/demo-{bug['id']}")
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        (tmp / "demo.py").write_text(bug["demo"])
        (tmp / "demo.sh").write_text(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES=\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        os.chmod(tmp / "demo.sh", 0o755)
        r = sh(["bash", str(tmp / "demo.sh")], cwd="/repo", env=ENV)
        if r.returncode:
            return f"demo fails on the unchanged tree: {r.stdout[-300:]}{r.stderr[-600:]}"
        r = sh(["bash", str(tmp / "demo.sh")], cwd=d, env={**ENV, "PYTHONPATH": str(d)})
        if not r.returncode:
            return "demo passes with the change"
        shown = (r.stdout + r.stderr).strip().split("\n")[-1]
        r = sh(
            [PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300"],
            cwd=d, env={**ENV, "PYTHONPATH": str(d)},
        )  # fmt: skip
        if "247 passed" not in r.stdout:
            return "tests notice: " + " | ".join(
                ln for ln in r.stdout.split("\n") if ln.startswith("FAILED") or "passed" in ln
            )[:300]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(
            json.dumps(dict(property=bug["prop"], needs=bug["needs"], what_it_breaks=bug["what"]), indent=1) + "\n"
        )
        return f"KEPT ({shown[:140]})"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/demo-{bug['id']}", ignore_errors=True)


def attempt(id, check=None):
    meta = json.loads((SEEDED / id / "meta.json").read_text())
    check = check or meta["property"]
    d = scratch("try-" + id)
    try:
        r = sh(["git", "apply", str(SEEDED / id / "patch.diff")], cwd=d)
        if r.returncode:
            return f"patch does not apply: {r.stderr}"
        r = sh([str(HERE / "run.py"), "check", check], env={**ENV, "EINPBT_REPO": str(d)})
        tail = [ln for ln in r.stdout.strip().split("\n")]
        verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"ERROR {r.returncode} {r.stderr[-500:]}")
        return f"{verdict} by {check}: " + " / ".join(tail[:2])[:260]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    mode, *args = sys.argv[1:]
    if mode == "new":
        ns = {}
        exec(pathlib.Path(args[0]).read_text(), ns)
        bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
        with ThreadPoolExecutor(6) as ex:
            for b, res in zip(bugs, ex.map(new, bugs)):
                print(b["id"], res, flush=True)
    else:
        check = None
        if "-c" in args:
            k = args.index("-c")
            check = args[k + 1]
            del args[k : k + 2]
        for i in args or sorted(p.name for p in SEEDED.iterdir() if (p / "meta.json").exists()):
            print(i, attempt(i, check), flush=True)
