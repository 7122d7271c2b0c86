"""C16: external functions are applied to exactly the element values."""
import functools
import math

import numpy

import ein

from .. import build as B
from .. import ref as R
from ..core import attempt
from ..ref import F, I, f_add, f_mul, f_sub, fl, wrap_int
from .programs import FOLDS, INDEXING, ProgramCheck, compare, shape_labels

TWO = fl(2.0)


# Written with operators only, these accept the arrays of any library.
def lin2(x, y):
    return x * y - 2.0 * x


def lin3(x, y, z):
    return x + 2.0 * y - x * z


def square(x):
    return x * x + 1.0


def imix(i, j):
    return i * 3 - j


def above(x, y):
    return x > y


def weigh(k, x):
    if hasattr(k, "double"):
        k = k.double()  # torch multiplies integers by a float in single precision
    return 1.0 * k * x


def vsum(v):
    return v.sum(-1)


def vdot(u, v):
    return (u * v).sum(-1)


def vmix(u, v):
    return u + 2.0 * v


def mcols(m):
    return m.sum(-2)


def mturn(m):
    return m.swapaxes(-1, -2)


def mouter(u, v):
    return u[..., :, None] * v[..., None, :]


def scaler(k):
    """Functions that differ only in what they close over."""

    def scale(x):
        return x * k

    return scale


scale2, scale3 = scaler(2.0), scaler(3.0)
shift = functools.partial(lambda x, by: x + by, by=0.5)  # has no name


def lib(backend):
    if backend == "torch":
        import torch

        return torch
    if backend == "jax":
        import jax.numpy

        return jax.numpy
    return numpy


def select(backend):
    return lib(backend).where


def hypot(backend):
    return lib(backend).hypot


def vcum(backend):
    m = lib(backend)
    if backend == "torch":
        return lambda v: m.cumsum(v, -1)
    return functools.partial(m.cumsum, axis=-1)


def vflip(backend):
    m = lib(backend)
    if backend == "torch":
        return lambda v: m.flip(v, (-1,))
    return functools.partial(m.flip, axis=-1)


def any_backend(f):
    return lambda backend: f


def r_hypot(x, y):
    R._fin(x, y)
    v = math.hypot(x.v, y.v)
    return R._finish(v, 0, x.M + y.M, x.e + y.e + R.U * (v + 1e-9))


def r_sum(xs):
    r = fl(0.0)
    for x in xs:
        r = f_add(r, x)
    return r


def r_cum(xs):
    out, r = [], fl(0.0)
    for x in xs:
        r = f_add(r, x)
        out.append(r)
    return out


def r_gt(x, y):
    a, b = R.cmp_guard(x, y)
    return a > b


def vec(n):
    return lambda T: T[0] == "v" and R.rank(T) == n and R.leaf(T) == F


def is_(K):
    return lambda T: T == K


def to(K):
    return lambda ts: K


def some(g, T):
    return ("v", g.newdim(), F)


def need(cond):
    if not cond:
        raise R.IllTyped("external function")


def eqdim(ts):
    need(ts[0] == ts[1])
    return ts[0]


K = {F: float, I: int, R.B: bool}
f0, i0, b0 = (ein.scalar_type(k) for k in (float, int, bool))
f1, f2 = ein.vector_type(float), ein.matrix_type(float)


# name: (function per library, signature in, out, reference, result type, generates, operands)
EXTS = {
    "lin2": (any_backend(lin2), (f0, f0), f0, lambda x, y: f_sub(f_mul(x, y), f_mul(TWO, x)),
             to(F), is_(F), lambda g, T: [F, F]),
    "lin3": (any_backend(lin3), (f0, f0, f0), f0,
             lambda x, y, z: f_sub(f_add(x, f_mul(TWO, y)), f_mul(x, z)), to(F), is_(F), lambda g, T: [F, F, F]),
    "square": (any_backend(square), (f0,), f0, lambda x: f_add(f_mul(x, x), fl(1.0)), to(F), is_(F), lambda g, T: [F]),
    "scale2": (any_backend(scale2), (f0,), f0, lambda x: f_mul(x, TWO), to(F), is_(F), lambda g, T: [F]),
    "scale3": (any_backend(scale3), (f0,), f0, lambda x: f_mul(x, fl(3.0)), to(F), is_(F), lambda g, T: [F]),
    "shift": (any_backend(shift), (f0,), f0, lambda x: f_add(x, fl(0.5)), to(F), is_(F), lambda g, T: [F]),
    "imix": (any_backend(imix), (i0, i0), i0, lambda i, j: wrap_int(i * 3 - j), to(I), is_(I), lambda g, T: [I, I]),
    "above": (any_backend(above), (f0, f0), b0, r_gt, to(R.B), is_(R.B), lambda g, T: [F, F]),
    "weigh": (any_backend(weigh), (i0, f0), f0, lambda k, x: f_mul(fl(wrap_int(k)), x), to(F), is_(F), lambda g, T: [I, F]),
    "select": (select, (b0, f0, f0), f0, lambda c, x, y: x if c else y, to(F), is_(F), lambda g, T: [R.B, F, F]),
    "hypot": (hypot, (f0, f0), f0, r_hypot, to(F), is_(F), lambda g, T: [F, F]),
    "vsum": (any_backend(vsum), (f1,), f0, r_sum, to(F), is_(F), lambda g, T: [some(g, T)]),
    "vdot": (any_backend(vdot), (f1, f1), f0, lambda u, v: r_sum([f_mul(a, b) for a, b in zip(u, v)]),
             lambda ts: eqdim(ts) and F, is_(F), lambda g, T: [some(g, T)] * 2),
    "vcum": (vcum, (f1,), f1, r_cum, lambda ts: ts[0], vec(1), lambda g, T: [T]),
    "vflip": (vflip, (f1,), f1, lambda v: v[::-1], lambda ts: ts[0], vec(1), lambda g, T: [T]),
    "vmix": (any_backend(vmix), (f1, f1), f1, lambda u, v: [f_add(a, f_mul(TWO, b)) for a, b in zip(u, v)],
             eqdim, vec(1), lambda g, T: [T, T]),
    "mcols": (any_backend(mcols), (f2,), f1, None, lambda ts: ts[0][2], vec(1), lambda g, T: [("v", g.newdim(), T)]),
    "mturn": (any_backend(mturn), (f2,), f2, None, lambda ts: ("v", ts[0][2][1], ("v", ts[0][1], F)), vec(2),
              lambda g, T: [("v", T[2][1], ("v", T[1], F))]),
    "mouter": (any_backend(mouter), (f1, f1), f2, lambda u, v: [[f_mul(a, b) for b in v] for a in u],
               lambda ts: ("v", ts[0][1], ts[1]), vec(2), lambda g, T: [("v", T[1], F), T[2]]),
}  # fmt: skip


class ExtRef(R.Ref):
    """Some external functions need sizes that an empty value does not show."""

    def c_ext(self, node, tenv):
        _, fn, args = node
        cs = [self.comp(a, tenv) for a in args]
        types_in = EXTS[fn][1]
        need(len(cs) == len(types_in))
        for (T, _), t in zip(cs, types_in):
            need(not R.has_rec(T) and ein.ndarray_type(R.rank(T), K[R.leaf(T)]) == t)
        if fn not in ("mcols", "mturn"):
            return super().c_ext(node, tenv)
        T, f = cs[0]
        out = EXTS[fn][4]([T])

        def run(env):
            x = f(env)
            n = R.dim_val(T[2][1], self.dims) if R.dim_parts(T[2][1]) is not None else None
            if n is None:
                if not x:
                    raise R.Skip("dynamic dim of empty")
                n = len(x[0])
            if R.contains_poison(x):
                return self.poison(out)
            if fn == "mcols":
                return [r_sum([row[j] for row in x]) for j in range(n)]
            return [[row[j] for row in x] for j in range(n)]

        return out, run


def specs(backend=None, full=False):
    out = {}
    for name, (per, t_in, t_out, ref, typ, _, _) in EXTS.items():
        e = dict(type=typ, ref=ref)
        if backend:
            f = per(backend)
            e["ein"] = ein.ext(f, (t_in, t_out) if full else t_out)
        out[name] = e
    return out


class C16(ProgramCheck):
    id = "C16"
    title = "External functions are applied to exactly the element values"
    cases = {"quick": 480, "thorough": 4500}
    BASE = dict(
        w_ext=25, exts=tuple((n, e[5], e[6]) for n, e in EXTS.items()), extspecs=specs(), fuel=(3, 18),
    )  # fmt: skip
    profiles = [
        (5, "default", BASE),
        (2, "small", {**BASE, "fuel": (2, 8)}),
        (1, "indexing", {**INDEXING, **BASE, "fuel": (3, 14)}),
        (2, "folds", {**FOLDS, **BASE, "fuel": (3, 14)}),
    ]
    rule = ProgramCheck.rule + ", and it applies an external function"
    assumptions = ProgramCheck.assumptions + (
        "functions are elementwise over leading axes and work on their last axes; operands of vectors or matrices "
        "have equal rank",
    )

    def draw(self, ch):
        return {**super().draw(ch), "full": ch.int(0, 1)}

    def draw_backends(self, ch):
        out = ["numpy"]
        if ch.chance(40):
            out.append("torch")
        if ch.chance(40):
            out.append("naive")
        if ch.chance(5):
            out.append("jax")
        return out

    def run(self, case):
        prog = case["prog"]
        r = ExtRef(prog, exts=specs())
        T, v = r.run()
        if R.has_rec(T):
            raise R.Skip("record result")
        labels = shape_labels(prog)
        labels.update("ext " + n for n in used(prog["expr"]))
        for bk in case["backends"]:
            exts = specs(bk, case["full"])
            labels.add(bk)
            p = attempt("building the program", lambda: B.build(prog, exts=exts))
            got = attempt(f"evaluating with {bk}", lambda: p.eval(bk))
            compare(bk, T, v, prog["dims"], got)
        if r.steps and any(x is not R.POISON for x in R.flatten(v)):
            labels.add("nontrivial")
        return labels

    def nontrivial(self, case, labels):
        return "nontrivial" in labels and any(x.startswith("ext ") for x in labels)


def used(node):
    out = set()

    def go(n):
        if isinstance(n, list):
            if len(n) == 3 and n[0] == "ext":
                out.add(n[1])
            for x in n:
                go(x)

    go(node)
    return out


CHECKS = [C16]
