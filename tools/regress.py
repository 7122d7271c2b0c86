#!/usr/bin/env python3
"""Undoes each repair in a scratch copy: does the check of its property report it again?

regress.py [COMMIT...]   writes the minimal failing cases to corpus/<property>.jsonl"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def one(item):
    prop, commit, what = item
    d = pathlib.Path(f"/tmp/reg-{commit}")
    out = pathlib.Path(f"/tmp/reg-{commit}-out")
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    try:
        r = subprocess.run(["git", "revert", "-n", commit], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return f"{prop} {commit} cannot be undone alone: {what}"
        env = {**os.environ, "EINPBT_REPO": str(d), "EINPBT_OUT": str(out)}
        res = []
        for seed in ("1", "2"):
            r = subprocess.run([PY, str(HERE / "run.py"), "check", prop, "--seed", seed], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                m = re.search(r"replay=(\S+)", r.stdout)
                case = json.load(open(m[1]))["case"]
                line = json.dumps(dict(case=case, fixed=commit))
                f = HERE / "corpus" / f"{prop}.jsonl"
                f.parent.mkdir(exist_ok=True)
                old = f.read_text().splitlines() if f.exists() else []
                old = [x for x in old if json.loads(x).get("fixed") != commit]
                f.write_text("\n".join([*old, line]) + "\n")
                res.append("seed " + seed + " reported: " + r.stdout.strip().splitlines()[-2][:150])
                break
            res.append(f"seed {seed} rc={r.returncode} quiet")
        return f"{prop} {commit} {what[:80]} -- {'; '.join(res)}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


items = []
for line in open(HERE / "known-findings.jsonl"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m and (len(sys.argv) == 1 or m[2] in sys.argv[1:]):
        items.append((m[1], m[2], m[3]))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, items):
        print(r, flush=True)
