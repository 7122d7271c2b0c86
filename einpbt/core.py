"""What a check is, and how a shard of one is explored.

A check draws JSON-able cases from Hypothesis' choice sequence and runs each against an
oracle.  `run` returns a list of labels (classification) or raises:
  Violation  the property fails on the case
  Skip       the case is outside the domain where the oracle has a definite answer
Anything else that escapes is an error of the harness, never a violation."""
import hashlib
import json
import os
import re
import signal
import time
import traceback
import warnings
from collections import Counter

from .ref import IllTyped, Skip  # noqa: F401

CASE_CPU_SECONDS = 8


class Violation(Exception):
    pass


class Slow(BaseException):
    """The case used up its time: inconclusive."""


class Stop(BaseException):
    """The shard used up its time."""


class Check:
    id = "?"
    title = ""
    rule = ""  # what makes a case non-trivial
    assumptions = ()
    # cases per shard
    cases = {"quick": 100, "thorough": 1000}
    shards = 8
    cpu = CASE_CPU_SECONDS  # per case

    def draw(self, ch):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def reduce(self, case, fails, seconds):
        return case

    def nontrivial(self, case, labels):
        return "nontrivial" in labels

    def sample(self, case):
        return case


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def short(e):
    """One line for an exception that came out of ein."""
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if os.sep + "ein" + os.sep in fr.filename:
            where = f" at {os.path.relpath(fr.filename, '/repo')}:{fr.lineno} in {fr.name}"
            break
    text = " ".join(str(e).split())
    return f"{type(e).__name__}: {text[:200]}{where}"


def failure_sort(message):
    """A reduction keeps to one sort of failure, so as not to wander into another."""
    if " raised " in message:
        rest = message.split(" raised ", 1)[1]
        what, where = rest.split(":", 1)[0], re.search(r" at ([\w/.]+):\d+ in (\S+)", rest)
        return f"raised {what} {where.group(1, 2) if where else ''}"
    return "accepted" if " was accepted " in message else "wrong"


def attempt(what, f):
    """Run code under test: any exception of its own is a violation."""
    try:
        return f()
    except (Slow, Violation, Skip, IllTyped, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        raise Violation(f"{what} raised {short(e)}") from e


def expect_error(what, kinds, f):
    """Run code under test that has to be rejected with one of the given exceptions."""
    try:
        r = f()
    except kinds:
        return
    except (Slow, Violation, Skip, IllTyped, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        names = "/".join(k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,)))
        raise Violation(f"{what} raised {short(e)} instead of {names}") from e
    names = "/".join(k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,)))
    raise Violation(f"{what} was accepted instead of raising {names}: {str(r)[:80]}")


def setup():
    warnings.filterwarnings("ignore")
    import numpy

    numpy.seterr(all="ignore")
    try:
        import torch

        torch.set_num_threads(1)
    except ImportError:
        pass


class Timer:
    def __init__(self, seconds):
        self.seconds = seconds

        def fire(*_):
            raise Slow("out of time")

        signal.signal(signal.SIGPROF, fire)

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 2)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0, 0)


def shard_seed(seed, check_id, shard):
    h = hashlib.sha256(f"{seed}/{check_id}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def explore(check, *, seed, shard, cases, wall, corpus=()):
    """-> a JSON-able report of one shard."""
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    from .gen import Ch

    engine.MAX_SHRINKING_SECONDS = 25
    hurry = os.environ.get("EINPBT_HURRY") == "1"  # trying many changes: a failure is enough, as found
    setup()
    timer = Timer(check.cpu)
    started = time.monotonic()
    rep = dict(
        evaluations=0, nontrivial=[], skips=Counter(), labels=Counter(), samples=[],
        failures=[], cut=0,
    )  # fmt: skip
    hashes = set()
    best = None  # smallest failure: (len, case, message)

    def run_case(case):
        with timer:
            return check.run(case)

    def one(case, origin):
        nonlocal best
        try:
            labels = run_case(case)
        except Skip as e:
            rep["skips"][str(e) or "skip"] += 1
            return
        except Slow:
            rep["skips"]["slow (inconclusive)"] += 1
            return
        except Violation as e:
            size = len(canon(case))
            if best is None or size < best[0]:
                best = (size, case, str(e), origin)
            raise
        rep["evaluations"] += 1
        for la in set(labels):
            rep["labels"][la] += 1
        if check.nontrivial(case, labels):
            h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                k = len(hashes)
                if k in (1, 5, 20):
                    rep["samples"].append(check.sample(case))

    for k, case in enumerate(corpus):
        try:
            one(case, f"corpus {k}")
            rep["labels"]["from corpus"] += 1
        except Violation:
            pass

    @hypothesis.seed(shard_seed(seed, check.id, shard))
    @settings(
        max_examples=max(cases, 1),
        database=None,
        deadline=None,
        report_multiple_bugs=False,
        phases=[Phase.generate] if hurry else [Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(st.data())
    def search(data):
        if time.monotonic() - started > wall and best is None:
            rep["cut"] = max(cases - sum(rep["skips"].values()) - rep["evaluations"], 1)
            raise Stop
        case = check.draw(Ch(data))
        # through JSON, so that a replay sees exactly what was run
        case = json.loads(json.dumps(case))
        one(case, "generated")

    if best is None and cases:
        try:
            search()
        except (Violation, Stop):
            pass
        except Exception as e:
            # flaky for Hypothesis (a case that was slow only once): what was seen stands
            if not type(e).__module__.startswith("hypothesis"):
                raise
            rep["labels"]["ended early: " + type(e).__name__] += 1
    if best is not None:
        _, case, msg, origin = best
        messages = {}
        sort = failure_sort(msg)

        def fails(c):
            try:
                run_case(c)
            except Violation as e:
                if failure_sort(str(e)) != sort:
                    return False
                messages[canon(c)] = str(e)
                return True
            except (Skip, Slow, IllTyped):
                return False
            except Exception:
                return False
            return False

        try:
            small = case if hurry else check.reduce(case, fails, 20.0)
        except Exception:
            traceback.print_exc()
            small = case
        msg = messages.get(canon(small), msg if canon(small) == canon(case) else "")
        if not msg:
            small, msg = case, best[2]
        rep["failures"].append(dict(case=small, message=msg, origin=origin, original=case))
    rep["nontrivial"] = sorted(hashes)
    rep["wall"] = time.monotonic() - started
    return rep


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def load(check_id):
    from . import checks

    return checks.load(check_id)
