"""C15: scalar operators on all values, special ones included."""
import math

import numpy

import ein
from ein.frontend import std

from .. import build as B
from ..core import Check, Skip, Violation, attempt

INF, NAN = math.inf, math.nan
TINY = 1e-290  # libraries may flush what is smaller to zero
SPECIAL = [0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, 0.5, -0.5, 2.0, -3.0, 1e300, -1e300, 1e-280, 2.0**53, 1e16, 710.5, -746.0, math.pi]
INTS = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 255, -256, 2**31, -(2**31), 2**31 - 1, 2**53 + 1, -(2**53) - 1, 2**60, -(2**60)]


class Undefined(Exception):
    """No definite value (or one that libraries may round differently)."""


def approx(v, rel=0.0, abs_=0.0):
    return (v, rel, abs_)


def fdiv(x, y):
    if x != x or y != y:
        return approx(NAN)
    if y == 0:
        if x == 0:
            return approx(NAN)
        return approx(math.copysign(INF, x) * math.copysign(1, y))
    if math.isinf(y):
        return approx(NAN if math.isinf(x) else 0.0)
    if abs(y) > 1e290 or abs(y) < 1e-290:
        raise Undefined  # the reciprocal leaves the normal range
    if math.isinf(x):
        return approx(math.copysign(INF, x) * math.copysign(1, y))
    n, d = math.frexp(x), math.frexp(y)
    if n[1] - d[1] > 1020:
        raise Undefined
    return approx(x / y, 1e-14, TINY)


def fpow(x, y):
    if y == 0 or x == 1:
        return approx(1.0)
    if x != x or y != y:
        return approx(NAN)
    if x == 0 and y < 0 or x == -INF or x == -1 and math.isinf(y):
        raise Undefined  # the sign and the special cases for roots differ
    if x < 0 and math.isfinite(y) and y != int(y):
        return approx(NAN)
    try:
        v = math.pow(x, y)
    except OverflowError:
        return approx(INF if x > 0 or int(y) % 2 == 0 else -INF)
    if abs(v) > 1e290 and math.isfinite(v):
        raise Undefined
    return approx(v, 1e-11, TINY)


def ipow(x, k):
    if k == 0:
        return approx(1.0 if isinstance(x, float) else 1)
    if isinstance(x, int):
        v = x**k
        if abs(v) >= 2**62:
            raise Undefined
        return approx(v)
    if k < 0:
        x, rel, _ = fdiv(1.0, x)
        k = -k
    v = x
    for _ in range(k - 1):
        v *= x
    if math.isfinite(v) and v and (abs(v) > 1e290 or abs(v) < 1e-290):
        raise Undefined
    return approx(v, 1e-13 * k, TINY)


def fexp(x):
    if x != x or x == INF:
        return approx(x)
    if x > 705:
        if x < 715:
            raise Undefined
        return approx(INF)
    return approx(math.exp(x), 1e-11, TINY)


def trig(f):
    def do(x):
        if x != x or math.isinf(x):
            return approx(NAN)
        if abs(x) > 1e5:
            raise Undefined
        return approx(f(x), 0.0, 1e-10)

    return do


def fmin(x, y):
    return approx(NAN if x != x or y != y else min(x, y))


def fmax(x, y):
    return approx(NAN if x != x or y != y else max(x, y))


def iadd(f):
    def do(x, y):
        v = f(x, y)
        if isinstance(v, int) and abs(v) >= 2**62:
            raise Undefined
        if isinstance(v, float) and v and abs(v) < TINY:
            return approx(v, 0.0, TINY)
        return approx(v)

    return do


def imod(x, y):
    if y == 0:
        raise Undefined
    return approx(x % y)


def cmp(f):
    return lambda x, y: approx(f(x, y))


def fneg(x):
    return approx(-x)


# name: (operand kinds, ein function, model, literals allowed on the left)
BINARY = {
    "add": ("fi", lambda x, y: x + y, iadd(lambda x, y: x + y), True),
    "sub": ("fi", lambda x, y: x - y, iadd(lambda x, y: x - y), True),
    "mul": ("fi", lambda x, y: x * y, iadd(lambda x, y: x * y), True),
    "div": ("f", lambda x, y: x / y, fdiv, True),
    "mod": ("i", lambda x, y: x % y, imod, False),
    "pow": ("f", lambda x, y: x**y, fpow, False),
    "min": ("fi", lambda x, y: x.min(y), fmin, False),
    "max": ("fi", lambda x, y: x.max(y), fmax, False),
    "std.min": ("fi", lambda x, y: std.min(x, y), fmin, True),
    "std.max": ("fi", lambda x, y: std.max(x, y), fmax, True),
    "lt": ("fi", lambda x, y: x < y, cmp(lambda x, y: x < y), True),
    "le": ("fi", lambda x, y: x <= y, cmp(lambda x, y: x <= y), True),
    "gt": ("fi", lambda x, y: x > y, cmp(lambda x, y: x > y), True),
    "ge": ("fi", lambda x, y: x >= y, cmp(lambda x, y: x >= y), True),
    "eq": ("fi", lambda x, y: x == y, cmp(lambda x, y: x == y), True),
    "ne": ("fi", lambda x, y: x != y, cmp(lambda x, y: x != y), True),
    "and": ("b", lambda x, y: x & y, cmp(lambda x, y: x and y), False),
    "or": ("b", lambda x, y: x | y, cmp(lambda x, y: x or y), False),
    "where": ("fib", lambda x, y: ein.where(ein.wrap(True), x, y), cmp(lambda x, y: x), True),
    "otherwise": ("fib", lambda x, y: ein.where(ein.wrap(False), x, y), cmp(lambda x, y: y), True),
    "method where": ("fi", lambda x, y: (x < y).where(x, y), cmp(lambda x, y: x if x < y else y), False),
}
UNARY = {
    "neg": ("fi", lambda x: -x, fneg),
    "abs": ("fi", lambda x: abs(x), lambda x: approx(abs(x))),
    "abs method": ("fi", lambda x: x.abs(), lambda x: approx(abs(x))),
    "exp": ("f", lambda x: x.exp(), fexp),
    "sin": ("f", lambda x: x.sin(), trig(math.sin)),
    "cos": ("f", lambda x: x.cos(), trig(math.cos)),
    "tanh": ("f", lambda x: x.tanh(), lambda x: approx(math.tanh(x), 0.0, 1e-12)),
    "recip": ("f", lambda x: 1.0 / x, lambda x: fdiv(1.0, x)),
    "not": ("b", lambda x: ~x, lambda x: approx(not x)),
    "float": ("i", lambda x: x.float(), lambda x: approx(float(x))),
}
for _k in (0, 1, 2, 3, 4, 5, 6, 7, 9, 12):
    UNARY[f"pow {_k}"] = ("fi", lambda x, k=_k: x**k, lambda x, k=_k: ipow(x, k))
for _k in (-1, -2, -3, -5):
    UNARY[f"pow {_k}"] = ("f", lambda x, k=_k: x**k, lambda x, k=_k: ipow(x, k))


def total(xs):
    s, m = 0.0, 0.0
    for x in xs:
        s, m = s + x, m + abs(x)
    if math.isfinite(s) and m > 1e300:
        raise Undefined
    if s != s and not any(x != x for x in xs) and not (INF in xs and -INF in xs):
        raise Undefined
    if math.isinf(s) and all(map(math.isfinite, xs)):
        raise Undefined
    return approx(s, 0.0, 1e-12 * m + TINY if math.isfinite(m) else 0.0)


def least(xs):
    return approx(NAN if any(x != x for x in xs) else min([INF, *xs]))


def most(xs):
    return approx(NAN if any(x != x for x in xs) else max([-INF, *xs]))


# reductions of a whole vector
OVER = {
    "fold_sum": (lambda v: std.fold_sum(lambda i: v[i]), total),
    "fold_min": (lambda v: std.fold_min(lambda i: v[i]), least),
    "fold_max": (lambda v: std.fold_max(lambda i: v[i]), most),
    "reduce_sum": (lambda v: std.reduce_sum(lambda i: v[i]), total),
    "reduce_min": (lambda v: std.reduce_min(lambda i: v[i]), least),
    "reduce_max": (lambda v: std.reduce_max(lambda i: v[i]), most),
    "loop min": (lambda v: ein.fold(INF, lambda i, a: v[i].min(a)), least),
    "loop max": (lambda v: ein.fold(-INF, lambda i, a: a.max(v[i])), most),
}


def draw_value(ch, kind):
    if kind == "b":
        return bool(ch.int(0, 1))
    if kind == "i":
        if ch.chance(50):
            return ch.pick(INTS)
        return ch.int(-(2 ** ch.int(1, 40)), 2 ** ch.int(1, 40))
    r = ch.int(0, 9)
    if r < 5:
        return ch.pick(SPECIAL)
    if r < 8:
        return ch.int(-4096, 4096) / 2 ** ch.int(0, 10)
    m = ch.int(1, 2**53 - 1) * (1 if ch.chance(50) else -1)
    return math.ldexp(m, ch.int(-300, 300) - 53)


class C15(Check):
    id = "C15"
    title = "Scalar operators follow their mathematical meaning on all values"
    cases = {"quick": 800, "thorough": 8000}
    rule = (
        "a case is an operator (or fold of one) with operand values drawn from special values, wide-range floats and "
        "integers, and a way of supplying them (literals, scalars, vectors, two axes); non-trivial: some operand is "
        "infinite, NaN, zero, negative or beyond 2**31 and at least one element has a definite expected value"
    )
    assumptions = (
        "Python's float, int and math functions; min and max of NaN are NaN; the sign of zero is ignored in results",
        "results near the ends of the exponent range, and last digits of library functions, are not compared",
    )

    def draw(self, ch):
        r = ch.int(0, 9)
        backends = ["numpy"]
        for b, pct in (("torch", 60), ("naive", 50), ("jax", 12)):
            if ch.chance(pct):
                backends.append(b)
        n = ch.int(1, 8)
        if r == 0:
            op = ch.pick(sorted(OVER))
            n = ch.int(0, 9)
            few = ch.chance(40)
            vals = [ch.int(-64, 64) / 8 if few and ch.chance(80) else draw_value(ch, "f") for _ in range(n)]
            return dict(sort="over", op=op, a=vals, form="vector", backends=backends, kind="f", arg=ch.int(0, 1))
        if r < 4:
            op = ch.pick(sorted(UNARY))
            kind = ch.pick(UNARY[op][0])
            form = ch.pick(["vector", "scalar", "matrix"])
            return dict(
                sort="unary", op=op, kind=kind, form=form, a=[draw_value(ch, kind) for _ in range(n)],
                backends=backends, arg=ch.int(0, 1),
            )  # fmt: skip
        op = ch.pick(sorted(BINARY))
        kind = ch.pick(BINARY[op][0])
        forms = ["vv", "vs", "sv", "outer", "ss", "lit right", "same"]
        if BINARY[op][3]:
            forms += ["lit left"] * 2
        a = [draw_value(ch, kind) for _ in range(n)]
        b = [draw_value(ch, kind) for _ in range(n)]
        if n > 1 and ch.chance(30):
            b[0] = a[0]
        return dict(sort="binary", op=op, kind=kind, form=ch.pick(forms), a=a, b=b, backends=backends, arg=ch.int(0, 1))

    # the pairs of operands at each element of the result, and the program
    def plan(self, case, A, Bv):
        import itertools

        form = case["form"]
        if case["sort"] == "over":
            f, model = OVER[case["op"]]
            return (), [tuple(case["a"])], lambda a, b: f(a), lambda *xs: model(list(xs))
        if case["sort"] == "unary":
            _, f, model = UNARY[case["op"]]
            n = len(A)
            if form == "scalar":
                return (), [(A[0],)], lambda a, b: f(a[0]), model
            if form == "matrix":
                return (
                    (2, n),
                    [(x,) for x in A] * 2,
                    lambda a, b: ein.array(lambda i, j: f(a[j]), size=(2, n)),
                    model,
                )
            return (n,), [(x,) for x in A], lambda a, b: ein.array(lambda i: f(a[i]), size=n), model
        _, f, model, _ = BINARY[case["op"]]
        n = len(A)
        if form == "vv":
            return (n,), list(zip(A, Bv)), lambda a, b: ein.array(lambda i: f(a[i], b[i]), size=n), model
        if form == "vs":
            return (n,), [(x, Bv[0]) for x in A], lambda a, b: ein.array(lambda i: f(a[i], b[0]), size=n), model
        if form == "sv":
            return (n,), [(A[0], y) for y in Bv], lambda a, b: ein.array(lambda i: f(a[0], b[i]), size=n), model
        if form == "outer":
            return (
                (n, n),
                list(itertools.product(A, Bv)),
                lambda a, b: ein.array(lambda i, j: f(a[i], b[j]), size=(n, n)),
                model,
            )
        if form == "ss":
            return (), [(A[0], Bv[0])], lambda a, b: f(a[0], b[0]), model
        if form == "same":
            return (n,), [(x, x) for x in A], lambda a, b: ein.array(lambda i: f(a[i], a[i]), size=n), model
        if form == "lit right":
            return (n,), [(x, Bv[0]) for x in A], lambda a, b: ein.array(lambda i: f(a[i], Bv[0]), size=n), model
        return (n,), [(A[0], y) for y in Bv], lambda a, b: ein.array(lambda i: f(A[0], b[i]), size=n), model

    def run(self, case):
        kind = case["kind"]
        A = case["a"]
        Bv = case.get("b", A)
        dtype = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}[kind]
        if kind == "f":
            A, Bv = [float(x) for x in A], [float(x) for x in Bv]
        shape, operands, make, model = self.plan(case, A, Bv)
        wants = []
        for xs in operands:
            try:
                w = model(*xs)
            except Undefined:
                w = None
            wants.append(w)
        if all(w is None for w in wants):
            raise Skip("no definite value")
        arrays = [numpy.array(A, dtype=dtype), numpy.array(Bv, dtype=dtype)]
        what = f"{case['op']} ({case['form']})"
        if case["arg"]:
            ty = ein.ndarray_type(1, B.KINDS[kind])
            vs, expr = attempt("building " + what, lambda: ein.with_varargs([ty, ty], make))
            p = B.Program(expr, None, dict(zip(vs, arrays)))
        else:
            out = attempt("building " + what, lambda: make(*map(ein.wrap, arrays)))
            p = B.Program(out.expr, out, {})
        labels = {"op " + case["op"], "form " + case["form"]}
        wanted_kind = type(next(w for w in wants if w is not None)[0])
        for bk in case["backends"]:
            labels.add(bk)
            got = attempt(f"evaluating {what} with {bk}", lambda: p.eval(bk))
            if got.shape != shape:
                raise Violation(f"{bk}: {what} has shape {got.shape}, expected {shape}")
            k = {bool: "b", int: "i", float: "f"}[wanted_kind]
            if got.dtype.kind != k:
                raise Violation(f"{bk}: {what} has dtype {got.dtype}, expected kind {k}")
            for xs, w, g in zip(operands, wants, got.reshape(-1).tolist()):
                if w is None:
                    continue
                v, rel, ab = w
                if v != v:
                    ok = g != g
                elif k == "f" and math.isfinite(v):
                    ok = abs(g - v) <= rel * abs(v) + ab
                else:
                    ok = g == v
                if not ok:
                    raise Violation(f"{bk}: {what} of {xs} is {g!r}, expected {v!r}")
        flat = [x for xs in operands for x in xs]
        if kind == "b" or any(x != x or abs(x) > 2**31 or x <= 0 for x in flat):
            labels.add("nontrivial")
        return labels

    def reduce(self, case, fails, seconds):
        for b in case["backends"]:
            if len(case["backends"]) > 1 and fails({**case, "backends": [b]}):
                case = {**case, "backends": [b]}
        k = len(case["a"]) - 1
        while k >= 0 and len(case["a"]) > 1:
            c = {**case, "a": case["a"][:k] + case["a"][k + 1 :]}
            if "b" in case:
                c["b"] = case["b"][:k] + case["b"][k + 1 :]
            if fails(c):
                case = c
            k -= 1
        for key in ("a", "b"):
            for k in range(len(case.get(key, ()))):
                for v in {"f": (1.0, 0.0), "i": (1, 0), "b": (False,)}[case["kind"]]:
                    xs = list(case[key])
                    if xs[k] == v:
                        break
                    xs[k] = v
                    if fails({**case, key: xs}):
                        case = {**case, key: xs}
                        break
        return case


CHECKS = [C15]
