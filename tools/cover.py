#!/opt/venv/bin/python
"""Which lines of /repo/ein do the checks never execute?

cover.py [-n CASES] [ID...]   (run from a shell; reexecutes itself in the checks' environment)"""
import os
import pathlib
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
REPO = os.environ.get("EINPBT_REPO", "/repo")


def one(check_id, cases, out):
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")
    prefix = os.path.join(REPO, "ein") + os.sep

    def line(code, n):
        if code.co_filename.startswith(prefix):
            hit.add((code.co_filename, n))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    from einpbt.checks import load
    from einpbt.core import explore

    explore(load(check_id), seed=1, shard=0, cases=cases, wall=600)
    with open(out, "w") as f:
        for name, n in sorted(hit):
            f.write(f"{name}:{n}\n")


def code_lines(path):
    """Line numbers on which there is code."""
    out = set()
    todo = [compile(path.read_text(), str(path), "exec")]
    while todo:
        c = todo.pop()
        out |= {n for _, _, n in c.co_lines() if n}
        todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
    return out


def main(argv):
    import run

    if argv[:1] == ["--one"]:
        return one(argv[1], int(argv[2]), argv[3])
    cases = 200
    if argv[:1] == ["-n"]:
        cases, argv = int(argv[1]), argv[2:]
    ids = argv or [l.split('"id": "')[1][:3] for l in open(ROOT / "properties.jsonl")]
    import tempfile

    hit = set()
    with tempfile.TemporaryDirectory() as tmp:
        procs = []
        for i in ids:
            env = run.environment()
            procs.append(
                subprocess.Popen(
                    [run.PYTHON, __file__, "--one", i, str(cases), f"{tmp}/{i}"], env=env, cwd=tmp
                )
            )
            while sum(p.poll() is None for p in procs) >= 8:
                import time

                time.sleep(0.2)
        for p in procs:
            p.wait()
        for i in ids:
            try:
                hit |= set(open(f"{tmp}/{i}").read().split("\n"))
            except OSError:
                print("no result from", i)
    total = missed = 0
    for path in sorted(pathlib.Path(REPO, "ein").rglob("*.py")):
        text = path.read_text().split("\n")
        lines = code_lines(path)
        miss = sorted(n for n in lines if f"{path}:{n}" not in hit)
        total += len(lines)
        missed += len(miss)
        for n in miss:
            print(f"{path}:{n}: {text[n - 1]}")
    print(f"{missed} of {total} lines never executed")


if __name__ == "__main__":
    main(sys.argv[1:])
