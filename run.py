#!/opt/venv/bin/python
"""check <ID> [--tier quick|thorough] [--seed N] | replay <file> | list"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter

ROOT = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("EINPBT_REPO", "/repo")  # another tree only for trying planted bugs
OUT = os.environ.get("EINPBT_OUT", ROOT)  # likewise
ENV = {
    "JAX_PLATFORMS": "cpu",
    "CUDA_VISIBLE_DEVICES": "",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent-hypothesis",
}


def environment():
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(ENV)
    env["PYTHONPATH"] = os.pathsep.join([ROOT, os.path.join(ROOT, "vendor"), REPO])
    return env


def reexec():
    """Run under the interpreter and environment the checks are defined for."""
    if os.environ.get("EINPBT") != "1":
        env = environment()
        env["EINPBT"] = "1"
        os.chdir("/")
        os.execve(PYTHON, [PYTHON, os.path.join(ROOT, "run.py"), *sys.argv[1:]], env)


def known_findings(prop):
    """Findings of this property that were recorded rather than repaired."""
    out = []
    path = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    entry = json.loads(line)
                    if entry["property"] == prop:
                        out.append(entry)
    return out


def check(args):
    from einpbt import core

    started = time.monotonic()
    c = core.load(args.id)
    tier = args.tier
    cases = args.cases or c.cases[tier]
    wall = {"quick": 240, "thorough": 3000}[tier]
    hard = {"quick": 640, "thorough": 6 * 3600}[tier]
    corpus = os.path.join(ROOT, "corpus", f"{c.id}.jsonl")
    shards = c.shards
    with tempfile.TemporaryDirectory(prefix="einpbt-") as tmp:
        procs = []
        for s in range(shards):
            out = os.path.join(tmp, f"{s}.json")
            err = open(os.path.join(tmp, f"{s}.err"), "w")
            procs.append(
                (
                    s,
                    out,
                    subprocess.Popen(
                        [
                            PYTHON, "-m", "einpbt.worker", c.id, str(args.seed), str(s),
                            str(cases), str(wall), corpus, out,
                        ],  # fmt: skip
                        env=environment(), cwd=tmp, stdout=err, stderr=err,
                    ),
                )
            )
        reports, dead, killed = {}, {}, []
        pending = {s: (out, p) for s, out, p in procs}
        first_failure = None
        while pending:
            time.sleep(0.05)
            for s, (out, p) in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[s]
                if p.returncode == 0 and os.path.exists(out):
                    with open(out) as f:
                        reports[s] = json.load(f)
                    if reports[s]["failures"] and first_failure is None:
                        first_failure = time.monotonic()
                else:
                    with open(os.path.join(tmp, f"{s}.err")) as f:
                        dead[s] = (p.returncode, f.read()[-3000:])
            late = time.monotonic() - started > hard
            enough = first_failure and time.monotonic() - first_failure > (0 if os.environ.get("EINPBT_HURRY") == "1" else 5)
            if late or enough:
                for s, (out, p) in pending.items():
                    p.kill()
                    p.wait()
                    killed.append(s)
                pending = {}
    failures = [f for r in reports.values() for f in r["failures"]]
    known = known_findings(c.id)
    for k in known:
        print(f"KNOWN-FINDING: property={c.id} {k['what']}")
    keys = {core.canon(k["case"]) for k in known}
    fresh = [f for f in failures if core.canon(f["case"]) not in keys]
    fresh.sort(key=lambda f: len(core.canon(f["case"])))
    nontrivial = set()
    skips, labels = Counter(), Counter()
    samples, evaluations, cut = [], 0, 0
    for s in sorted(reports):
        r = reports[s]
        nontrivial.update(r["nontrivial"])
        skips.update(r["skips"])
        labels.update(r["labels"])
        samples += r["samples"]
        evaluations += r["evaluations"]
        cut += r["cut"]
    violations = []
    if fresh:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        f = fresh[0]
        path = os.path.join(OUT, "replays", f"{c.id}-{args.seed}-{tier}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=c.id, message=f["message"], case=f["case"], original=f.get("original")), fh, indent=1)
        violations.append(dict(replay=path, message=f["message"], origin=f["origin"]))
    evidence = dict(
        property=c.id,
        tier=tier,
        seed=args.seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(nontrivial),
            rule=c.rule,
            samples=samples[:6] or ["(none)"],
            skipped=dict(skips),
            labels=dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            shards=shards,
            cases_per_shard=cases,
            not_run_for_time=cut,
            shards_without_report=len(dead) + len(killed),
            violation_details=violations,
        ),
        wall_s=round(time.monotonic() - started, 2),
        violations=len(violations),
        assumptions=list(c.assumptions),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{c.id}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    print(
        f"{c.id} [{tier}, seed {args.seed}]: {evaluations} cases, "
        f"{len(nontrivial)} distinct non-trivial, {sum(skips.values())} skipped, "
        f"{cut} cut, {evidence['wall_s']} s"
    )
    if args.verbose:
        for k, v in evidence["coverage"]["labels"].items():
            print(f"   {k}: {v}")
        for k, v in skips.items():
            print(f"   skip {k}: {v}")
    if violations:
        print(f"  {violations[0]['message']}")
        print(f"VIOLATION property={c.id} replay={violations[0]['replay']}")
        return 1
    if dead:
        s, (rc, err) = sorted(dead.items())[0]
        print(f"shards {sorted(dead)} failed; {s} exited with {rc}:\n{err}", file=sys.stderr)
        return 3
    if not evaluations:
        print("nothing was evaluated", file=sys.stderr)
        return 4
    return 0


def replay(args):
    from einpbt import core

    with open(args.path) as f:
        doc = json.load(f)
    c = core.load(doc["property"])
    core.setup()
    try:
        labels = c.run(doc["case"])
    except core.Violation as e:
        print(f"  {e}")
        print(f"VIOLATION property={c.id} replay={os.path.abspath(args.path)}")
        return 1
    except core.Skip as e:
        print(f"outside the domain: {e}")
        return 0
    print("holds:", sorted(set(labels)))
    return 0


def selftest():
    """The framework is all Python: see that it and what it needs can be imported."""
    import hypothesis
    import jax
    import numpy
    import torch

    import ein
    from einpbt import checks

    assert ein.__file__.startswith(REPO + os.sep), ein.__file__
    print(
        f"hypothesis {hypothesis.__version__}, numpy {numpy.__version__}, "
        f"torch {torch.__version__}, jax {jax.__version__}; checks: {' '.join(checks.ids())}"
    )
    return 0


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest="cmd", required=True)
    q = sub.add_parser("check")
    q.add_argument("id")
    q.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    q.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    q.add_argument("--cases", type=int)
    q.add_argument("-v", "--verbose", action="store_true")
    q = sub.add_parser("replay")
    q.add_argument("path")
    sub.add_parser("list")
    sub.add_parser("selftest")
    args = p.parse_args()
    if args.cmd == "replay":
        args.path = os.path.join(os.environ.get("EINPBT_CWD", "/"), args.path)
    if args.cmd == "check":
        return check(args)
    if args.cmd == "replay":
        return replay(args)
    if args.cmd == "selftest":
        return selftest()
    from einpbt import checks

    for i in checks.ids():
        print(i, checks.load(i).title)
    return 0


if __name__ == "__main__":
    if "EINPBT_CWD" not in os.environ:
        os.environ["EINPBT_CWD"] = os.getcwd()
    reexec()
    sys.exit(main())
