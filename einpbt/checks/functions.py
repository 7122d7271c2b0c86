"""C14: decorated functions equal direct evaluation for every call history."""
import functools

import numpy

import ein
from ein.frontend import functions as ein_functions

from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import Check, Skip, Violation, attempt, expect_error
from ..reduce import reduce as ast_reduce
from .programs import compare, shape_labels

HOWS = ("call", "numpy", "torch", "tensors", "mixed", "jax", "jaxarrays")
NP = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}


# ------------------------------------------------------- polymorphic functions
def t_double(a):
    if isinstance(a, ein.Vec):
        return ein.array(lambda i: t_double(a[i]))
    return a + a


def t_zip(a, b):
    """Elementwise difference; the lower-rank operand is reused along outer axes."""

    def rank(x):
        n = 0
        while isinstance(x, ein.Vec):
            x, n = x[0], n + 1
        return n

    ra, rb = rank(a), rank(b)
    if ra > rb:
        return ein.array(lambda i: t_zip(a[i], b))
    if rb > ra:
        return ein.array(lambda i: t_zip(a, b[i]))
    if ra:
        return ein.array(lambda i: t_zip(a[i], b[i]))
    return a - b


def t_total(a):
    if isinstance(a, ein.Vec):
        zero = a
        while isinstance(zero, ein.Vec):
            zero = zero[0]
        z = zero - zero
        return ein.fold(z * 0 if kind_of(z) == "i" else z * 0.0, lambda i, s: s + t_total(a[i]))
    return a


def t_reverse(a):
    """Reverses every axis."""
    r, x = 0, a
    while isinstance(x, ein.Vec):
        x, r = x[0], r + 1
    sizes = [a.size(k) for k in range(r)]

    def at(x, k):
        if k == r:
            return x
        return ein.array(lambda i: at(x[sizes[k] - 1 - i], k + 1), size=sizes[k])

    return at(a, 0)


def t_outer(a, b):
    return ein.array(lambda i, j: a[i] * b[j])


def kind_of(x):
    """The scalar kind of an ein scalar, observed by what it can be added to."""
    try:
        x + 1
        return "i"
    except TypeError:
        return "f"


def n_zip(a, b):
    return a - b


def n_reverse(a):
    return a[(slice(None, None, -1),) * a.ndim].copy() if a.ndim else a


TEMPLATES = {
    "double": (1, t_double, lambda a: a + a, lambda ks: ks[0] != "b"),
    "zip": (2, t_zip, n_zip, lambda ks: ks[0] == ks[1] != "b"),
    "total": (1, t_total, lambda a: a.sum(), lambda ks: ks[0] != "b"),
    "reverse": (1, t_reverse, n_reverse, lambda ks: True),
    "outer": (2, t_outer, lambda a, b: a[:, None] * b[None, :], lambda ks: ks[0] == ks[1] != "b"),
}


def template_shapes(ch, name, n):
    d = [ch.int(1, 3) if not ch.chance(8) else 0 for _ in range(3)]
    if name == "outer":
        return [[d[0]], [d[1]]]
    if name == "zip":
        r = [ch.int(0, 3), ch.int(0, 3)]
        hi = max(r)
        full = d[:hi]
        return [full[hi - x :] for x in r]
    return [d[: ch.int(1 if name == "total" else 0, 3)] for _ in range(n)]


def poly_array(kind, shape, salt):
    n = int(numpy.prod(shape, dtype=int))
    x = (numpy.arange(n) * (salt + 2) + salt) % 11 - 4
    if kind == "f":
        return (x / 4).reshape(shape)
    if kind == "b":
        return (x > 0).reshape(shape)
    return x.astype(numpy.int64).reshape(shape)


class Boom(Exception):
    pass


class C14(Check):
    id = "C14"
    title = "Decorated functions equal direct evaluation for every call history"
    cases = {"quick": 320, "thorough": 3000}
    rule = (
        "a case is a history of calls of decorated functions (generated bodies over arguments of symbolic "
        "sizes, or functions polymorphic in rank and kind) with changing sizes, elements, kinds and array "
        "libraries; non-trivial: at least two calls were accepted, in different shapes, kinds or libraries"
    )
    assumptions = ("arguments are float64, int64 or bool arrays",)
    boom = False

    def guarded(self, fun):
        @functools.wraps(fun)
        def g(*args):
            r = fun(*args)
            if self.boom:
                raise Boom
            return r

        return g

    def draw(self, ch):
        jax = ch.chance(12)
        hows = [(5, "call"), (3, "numpy"), (3, "torch"), (3, "tensors"), (1, "mixed"), (2, "mixed1"), (1, "mixed2"), (1, "grad"), (1, "boom")]
        if jax:
            hows += [(3, "jax"), (3, "jaxarrays")]
        if ch.chance(45):
            name = ch.pick(sorted(TEMPLATES))
            n = TEMPLATES[name][0]
            calls = []
            for _ in range(ch.int(8, 24) if ch.chance(15) else ch.int(2, 6)):
                if n == 2 and not ch.chance(12):
                    ks = [ch.pick(["f", "i"])] * 2
                else:
                    ks = [ch.weighted([(4, "f"), (4, "i"), (1, "b")]) for _ in range(n)]
                calls.append(
                    dict(how=ch.weighted(hows), kinds=ks, shapes=template_shapes(ch, name, n), salt=ch.int(0, 5))
                )
            return dict(template=name, calls=calls)
        prof = dict(sym=True, arg=100, fuel=(3, 18), inputs=(1, 3), dims=(0, 4), static=jax)
        if ch.chance(30):
            prof.update(w_fold=12, w_dot=12)
        g = G.Gen(ch, **prof)
        prog = g.program()
        for s in prog["inputs"]:
            if all(isinstance(d, int) for d in s["dims"]) and ch.chance(30):
                s["mode"] = "const"
        typed = ch.chance(40)
        calls = []
        for _ in range(ch.int(2, 5)):
            if ch.chance(12):
                calls.append(dict(how="misfit", which=ch.int(0, 3), at=ch.int(0, 3), dims=dict(prog["dims"]), salt=0))
                continue
            dims = {s: (g.dimval() if ch.chance(60) else d) for s, d in prog["dims"].items()}
            calls.append(dict(how=ch.weighted(hows), dims=dims, salt=ch.int(0, 4)))
        return dict(prog=prog, typed=typed, calls=calls)

    def call(self, f, how, args):
        import torch

        if how == "call":
            return f(*args), numpy.ndarray
        if how == "numpy":
            return f.numpy(*args), numpy.ndarray
        if how == "torch":
            return f.torch(*args), torch.Tensor
        if how == "tensors":
            r = f(*(torch.from_numpy(a) for a in args))
            return r, torch.Tensor if args else numpy.ndarray
        if how in ("mixed", "mixed1", "mixed2"):
            n = len(args)
            which = {"mixed": range(0, n, 2), "mixed1": [n - 1], "mixed2": range(1, n, 2)}[how]
            some = [torch.from_numpy(a) if k in which else a for k, a in enumerate(args)]
            if how == "mixed2":
                return f.torch(*some), torch.Tensor
            return f(*some), torch.Tensor if args else numpy.ndarray
        if how == "grad":
            ts = [torch.from_numpy(a) for a in args]
            for t in ts:
                if t.is_floating_point():
                    t.requires_grad_(True)
            r = f(*ts)
            return r, torch.Tensor if args else numpy.ndarray
        if how == "boom":  # a body that fails once
            self.boom = True
            try:
                return f(*args), numpy.ndarray
            except Boom:
                self.boom = False
                return f(*args), numpy.ndarray
            finally:
                self.boom = False
        import jax

        if how == "jax":
            return f.jax(*args), jax.Array
        return f.jax(*(jax.numpy.asarray(a, dtype=a.dtype) for a in args)), jax.Array

    def run(self, case):
        return self.run_template(case) if "template" in case else self.run_program(case)

    def run_template(self, case):
        name = case["template"]
        _, fun, model, accepts = TEMPLATES[name]
        f = ein.function(self.guarded(fun))
        labels = {"polymorphic", "template " + name}
        seen = set()
        for n, c in enumerate(case["calls"]):
            args = [poly_array(k, s, c["salt"] + j) for j, (k, s) in enumerate(zip(c["kinds"], c["shapes"]))]
            copies = [a.copy() for a in args]
            what = f"call {n} of {name} ({c['how']}, {c['kinds']}, {c['shapes']})"
            if not accepts(c["kinds"]):
                expect_error(what, (TypeError, ValueError, AssertionError), lambda: self.call(f, c["how"], args))
                labels.add("rejected call")
                continue
            got, cls = attempt(what, lambda: self.call(f, c["how"], args))
            if not isinstance(got, (cls, numpy.generic) if cls is numpy.ndarray else cls):
                raise Violation(f"{what} gave a {type(got).__name__}, expected {cls.__name__}")
            want = numpy.asarray(model(*copies))
            out = B.to_numpy(got)
            if out.shape != want.shape or out.dtype.kind != want.dtype.kind:
                raise Violation(f"{what} gave {out.dtype}{out.shape}, expected {want.dtype}{want.shape}")
            if not numpy.allclose(out, want, rtol=1e-12, atol=1e-12):
                raise Violation(f"{what} gave {out.tolist()}, expected {want.tolist()}")
            seen.add((tuple(c["kinds"]), str(c["shapes"]), c["how"]))
            labels.add(c["how"])
        if len(seen) > 1:
            labels.add("nontrivial")
        return labels

    def run_program(self, case):
        prog = case["prog"]
        specs = prog["inputs"]
        is_arg = [s.get("mode", "const") != "const" for s in specs]
        consts = [None if a else B.input_array(s, {}) for a, s in zip(is_arg, specs)]

        def fun(*args):
            it = iter(args)
            vals = [next(it) if a else ein.wrap(c) for a, c in zip(is_arg, consts)]
            return B.Builder(vals).go(prog["expr"], {})

        fun = self.guarded(fun)
        types = [
            ein.ndarray_type(len(s["dims"]), B.KINDS[s["kind"]]) for a, s in zip(is_arg, specs) if a
        ]
        typed = case["typed"]
        if typed:
            make = getattr(ein_functions, "typed_function", None)
            if make is None:
                raise Skip("no typed_function")
            f = make(*types)(fun)
        else:
            f = ein.function(fun)
        labels = {"generated body", "typed" if typed else "untyped"} | shape_labels(prog)
        seen = set()
        for n, c in enumerate(case["calls"]):
            dims = c["dims"]
            now = [self.salted(s, c["salt"]) if a else s for a, s in zip(is_arg, specs)]
            arrays = [B.input_array(s, dims) for s in now]
            args = [x for a, x in zip(is_arg, arrays) if a]
            what = f"call {n} ({c['how']}, sizes {dims})"
            if c["how"] == "misfit":
                if not typed or not args:
                    continue
                bad, why = self.misfit(args, c)
                expect_error(f"call {n} with {why}", (TypeError,), lambda: f(*bad))
                labels.add("rejected call")
                continue
            r = R.Ref({**prog, "inputs": now}, dims=dims)
            T, v = r.run()
            if R.has_rec(T):
                raise Skip("record result")
            copies = [a.tobytes() for a in args]
            got, cls = attempt(what, lambda: self.call(f, c["how"], args))
            if not isinstance(got, (cls, numpy.generic) if cls is numpy.ndarray else cls):
                raise Violation(f"{what} gave a {type(got).__name__}, expected {cls.__name__}")
            try:
                compare(c["how"], T, v, dims, B.to_numpy(got))
            except Violation as e:
                raise Violation(f"{what}: {e}") from None
            if [a.tobytes() for a in args] != copies:
                raise Violation(f"{what} changed its arguments")
            seen.add((str(dims), c["how"]))
            labels.add(c["how"])
        if len(seen) > 1:
            labels.add("nontrivial")
        return labels

    @staticmethod
    def salted(spec, salt):
        if not salt:
            return spec
        data = spec["data"]
        data = data[salt % len(data) :] + data[: salt % len(data)]
        if spec["kind"] == "f":
            data = [x + 0.25 * ((i * salt) % 5) for i, x in enumerate(data)]
        elif spec["kind"] == "i":
            data = [x + (i * salt) % 3 for i, x in enumerate(data)]
        return {**spec, "data": data}

    @staticmethod
    def misfit(args, c):
        k = c["at"] % len(args)
        bad = list(args)
        if c["which"] == 0:
            bad[k] = bad[k][None]
            return bad, f"an axis too many in argument {k}"
        if c["which"] == 1 and bad[k].ndim:
            bad[k] = bad[k].sum(axis=0, dtype=bad[k].dtype)
            return bad, f"an axis too few in argument {k}"
        if c["which"] == 2:
            return bad[:-1], "an argument missing"
        kind = bad[k].dtype.kind
        bad[k] = bad[k].astype(numpy.int64 if kind == "f" else numpy.float64)
        return bad, f"argument {k} of another kind"

    def reduce(self, case, fails, seconds):
        for k in reversed(range(len(case["calls"]))):
            c = {**case, "calls": case["calls"][:k] + case["calls"][k + 1 :]}
            if fails(c):
                case = c
        if "prog" in case:
            back = lambda p: {**case, "prog": p}  # noqa

            def ok(p):
                if len(p["inputs"]) != len(case["prog"]["inputs"]) or p["dims"] != case["prog"]["dims"]:
                    return False
                return fails(back(p))

            prog, _ = ast_reduce(case["prog"], ok, seconds)
            case = back(prog)
        return case


CHECKS = [C14]
