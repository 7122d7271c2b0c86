"""Builds ein programs from the AST through ein's public frontend only."""
import dataclasses
import functools

import numpy

import ein
from ein.frontend import std
from ein.phi.type_system import ndarray_type

from . import ref as R

try:
    from ein.frontend import typed

    TYPED = {1: typed.array1, 2: typed.array2, 3: typed.array3, 4: typed.array4}
except (ImportError, AttributeError):
    TYPED = {n: ein.array for n in (1, 2, 3, 4)}
DTYPES = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}
KINDS = {"f": float, "i": int, "b": bool}


@functools.cache
def record_class(names):
    return dataclasses.make_dataclass("Rec_" + "_".join(names), names, frozen=True)


def input_array(spec, dims):
    shape = R.input_shape(spec, dims)
    dtype = spec.get("dtype") or DTYPES[spec["kind"]]
    return numpy.array(R.input_flat(spec, dims), dtype=dtype).reshape(shape)


class Builder:
    def __init__(self, inputs, exts=None, *, force_infer=None):
        self.inputs = inputs
        self.exts = exts or {}
        self.force_infer = force_infer  # None: as written, False: always explicit
        self.turn = len(inputs)  # some things are written in different ways in turn

    def infer(self, flag):
        return bool(flag) if self.force_infer is None else (flag and self.force_infer)

    def lit(self, node):
        _, k, v = node
        return {"f": float, "i": int, "b": bool}[k](v)

    def raw(self, node, env):
        """Python literals stay Python literals."""
        return self.lit(node) if node[0] == "lit" else self.go(node, env)

    def go(self, node, env):
        return getattr(self, "b_" + node[0])(node, env)

    def b_lit(self, node, env):
        return ein.wrap(self.lit(node))

    def b_in(self, node, env):
        return self.inputs[node[1]]

    def b_v(self, node, env):
        return env[node[1]]

    def b_un(self, node, env):
        _, op, e = node
        x = self.go(e, env)
        if op == "neg":
            return -x
        if op == "not":
            return ~x
        if op == "recip":
            return 1.0 / x
        if op == "abs":
            return abs(x)
        return getattr(x, op)()

    def b_pow(self, node, env):
        return self.go(node[1], env) ** node[2]

    def b_fpow(self, node, env):
        return self.go(node[1], env) ** self.raw(node[2], env)

    def b_bin(self, node, env):
        _, op, a, b = node
        if a[0] == "lit" and (b[0] == "lit" or op in ("%", "&", "|", "min", "max")):
            x = self.go(a, env)
        else:
            x = self.raw(a, env)
        y = self.raw(b, env)
        match op:
            case "+":
                return x + y
            case "-":
                return x - y
            case "*":
                return x * y
            case "/":
                return x / y
            case "%":
                return x % y
            case "<":
                return x < y
            case "<=":
                return x <= y
            case ">":
                return x > y
            case ">=":
                return x >= y
            case "==":
                return x == y
            case "!=":
                return x != y
            case "&":
                return x & y
            case "|":
                return x | y
            case "min":
                return x.min(y)
            case "max":
                return x.max(y)
        raise AssertionError(op)

    def b_where(self, node, env):
        _, c, a, b = node
        return ein.where(self.go(c, env), self.raw(a, env), self.raw(b, env))

    def b_get(self, node, env):
        v = self.go(node[1], env)
        self.turn += 1
        if self.turn % 17 == 0:
            v = v[()]
        ids = tuple(slice(None) if i is None else self.raw(i, env) for i in node[2])
        return v[ids[0]] if len(ids) == 1 else v[ids]

    def b_size(self, node, env):
        return self.go(node[1], env).size(node[2])

    def size(self, node, env):
        return self.raw(node, env)

    def b_arr(self, node, env):
        _, names, sizes, body, infer = node

        def at(*ids):
            return self.raw(body, {**env, **dict(zip(names, ids, strict=True))})

        self.turn += 1
        if self.infer(infer):
            # the arity of the function tells ein how many indices there are
            fs = {
                1: lambda i: at(i),
                2: lambda i, j: at(i, j),
                3: lambda i, j, k: at(i, j, k),
                4: lambda i, j, k, l: at(i, j, k, l),
            }
            if self.turn % 3 == 0:
                return TYPED[len(names)](fs[len(names)])
            return ein.array(fs[len(names)])
        sz = tuple(self.size(s, env) for s in sizes)
        return ein.array(at, size=sz[0] if len(sz) == 1 else sz)

    def b_fold(self, node, env):
        _, k, acc, count, init, body, infer = node
        return ein.fold(
            self.raw(init, env),
            lambda i, a: self.raw(body, {**env, k: i, acc: a}),
            **({} if self.infer(infer) else {"count": self.size(count, env)}),
        )

    def b_red(self, node, env):
        _, v, init, x, y, body = node
        return self.go(v, env).reduce(
            self.raw(init, env), lambda a, b: self.raw(body, {**env, x: a, y: b})
        )

    def b_cat(self, node, env):
        vs = [self.go(e, env) for e in node[1]]
        self.turn += 1
        return vs[0].concat(vs[1]) if len(vs) == 2 and self.turn % 2 else std.concat(*vs)

    def b_rec(self, node, env):
        _, kind, fields = node
        # a field may be a Python literal, as in the README
        vals = [self.raw(e, env) for _, e in fields]
        if kind == "t":
            return tuple(vals)
        if kind == "l":
            return list(vals)
        names = tuple(n for n, _ in fields)
        if kind == "d":
            return dict(zip(names, vals, strict=True))
        return record_class(names)(*vals)

    def b_proj(self, node, env):
        x = self.go(node[1], env)
        name = node[2]
        if isinstance(x, (tuple, list)):
            r = x[int(name)]
        elif isinstance(x, dict):
            r = x[name]
        else:
            r = getattr(x, name)
        return ein.wrap(r) if isinstance(r, (bool, int, float)) else r

    def b_let(self, node, env):
        _, name, e1, e2 = node
        return self.go(e2, {**env, name: self.go(e1, env)})

    def b_orempty(self, node, env):
        _, v, i, d = node
        return self.go(v, env).or_empty(self.raw(i, env), self.raw(d, env))

    def b_assume(self, node, env):
        return self.go(node[1], env).assume(self.raw(node[2], env))

    def b_ext(self, node, env):
        _, fn, args = node
        return self.exts[fn]["ein"](*(self.go(a, env) for a in args))

    def b_std(self, node, env):
        _, fn, k, count, body, infer = node
        return getattr(std, fn)(
            lambda i: self.go(body, {**env, k: i}),
            **({} if self.infer(infer) else {"count": self.size(count, env)}),
        )

    def b_mm(self, node, env):
        _, op, args = node
        return getattr(std, op)(*(self.raw(a, env) for a in args))


class Program:
    """A built program: evaluates through the public entry points."""

    def __init__(self, expr, out, env, turn=0):
        self.turn = turn
        self.expr, self.out, self.env = expr, out, env

    def eval(self, backend, env=None):
        env = dict(self.env if env is None else env)
        if self.out is not None:
            if backend != "naive" and self.turn % 2:
                return to_numpy(getattr(self.out, backend)(env=env))
            return to_numpy(self.out.eval(env=env, backend=backend))
        return to_numpy(
            {
                "naive": ein.interpret_with_naive,
                "numpy": ein.interpret_with_numpy,
                "torch": ein.interpret_with_torch,
                "jax": ein.interpret_with_jax,
            }[backend](self.expr, env)
        )


def build(prog, dims=None, *, exts=None, arrays=None, force_infer=None):
    """const inputs are wrapped into the program, arg inputs are free variables of it."""
    dims = prog.get("dims", {}) if dims is None else dims
    arrs = [
        input_array(spec, dims) if arrays is None else arrays[k]
        for k, spec in enumerate(prog["inputs"])
    ]
    is_arg = [spec.get("mode", "const") != "const" for spec in prog["inputs"]]

    def make(*args):
        it = iter(args)
        vals = [next(it) if a else ein.wrap(x) for a, x in zip(is_arg, arrs)]
        b = Builder(vals, exts, force_infer=force_infer)
        out = b.go(prog["expr"], {})
        turn.append(b.turn)
        return out

    turn = []
    if not any(is_arg):
        out = make()
        return Program(out.expr, out, {}, turn[0])
    types = [
        ndarray_type(len(spec["dims"]), KINDS[spec["kind"]])
        for a, spec in zip(is_arg, prog["inputs"])
        if a
    ]
    vars_, expr = ein.with_varargs(types, make)
    arg_arrs = [x for a, x in zip(is_arg, arrs) if a]
    return Program(expr, None, dict(zip(vars_, arg_arrs, strict=True)))


def to_numpy(x):
    if hasattr(x, "detach"):
        x = x.detach().numpy()
    return numpy.asarray(x)
