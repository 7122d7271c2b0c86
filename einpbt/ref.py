"""Reference semantics: an elementwise (pointful) interpreter for the program AST.

It never looks at ein.  Every scalar is computed one element at a time, in the
order the surface program describes, so it is "obviously" what a comprehension,
fold or reduction means.

AST nodes are JSON-able lists (see DESIGN.md):
  ["lit", kind, value]            kind in f i b
  ["in", k]                       k-th program input
  ["v", name]                     bound name
  ["un", op, e]                   neg exp sin cos not float abs tanh recip
  ["pow", e, k]                   integer power   ["fpow", a, b] float power
  ["bin", op, a, b]               + - * / % min max < <= > >= == != & |
  ["where", c, a, b]              a, b of any (equal) type
  ["get", v, [i, ...]]            an index is a node, or null for a full slice
  ["size", v, axis]
  ["arr", [names], [sizes], body, infer]
  ["fold", k, acc, count, init, body, infer]
  ["red", v, init, x, y, body]
  ["cat", [v, ...]]
  ["rec", kind, [[name, e], ...]] kind t(uple) l(ist) d(ict) c(lass)
  ["proj", e, name]
  ["let", name, e1, e2]
  ["orempty", v, i, default]
  ["assume", e, other]
  ["ext", fn, args]
  ["std", fn, k, count, body, infer]
  ["mm", "min"|"max", [args]]
"""
import contextlib
import math

U = 2.0**-49  # a bound on relative rounding errors
BITS = 51  # floats of so many bits are exact
INTS = 1 << 52  # greater integers are out of range
FLOATS = 1e120  # likewise


@contextlib.contextmanager
def narrow(ints, floats):
    """Values of integers and floats of so many bits."""
    global U, BITS, INTS, FLOATS
    old = U, BITS, INTS, FLOATS
    INTS = min(INTS, 1 << (ints - 2))
    if floats == 32:
        U, BITS, FLOATS = 2.0**-20, 22, 1e30
    try:
        yield
    finally:
        U, BITS, INTS, FLOATS = old


class Skip(Exception):
    """The case leaves the domain in which the oracle has a definite answer."""


class IllTyped(Exception):
    """The AST is not a well-formed program: a harness error (or a bad shrink)."""


class _Poison:
    def __repr__(self):
        return "POISON"


POISON = _Poison()


def agree(a, b):
    """Whether two values may be the same."""
    if a is POISON or b is POISON:
        return True
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(agree, a, b))
    if isinstance(a, Fl):
        return a.v == b.v or abs(a.v - b.v) <= a.e + b.e
    return a == b


class Fl:
    """A float with a granularity (multiple of 2**g), a magnitude bound M that holds for
    any re-association of the sums and products in it, and an absolute error bound e
    (0 means: exact under any re-association)."""

    __slots__ = ("v", "g", "M", "e")

    def __init__(self, v, g, M, e):
        self.v, self.g, self.M, self.e = v, g, M, e

    def __repr__(self):
        return f"Fl({self.v!r},e={self.e!r})"


def fl(v):
    v = float(v)
    if v != v or v in (math.inf, -math.inf):
        return Fl(v, 0, math.inf, 0.0)
    if v == 0.0:
        return Fl(v, 60, 0.0, 0.0)
    n, d = v.as_integer_ratio()
    g = -(d.bit_length() - 1) if d > 1 else ((n & -n).bit_length() - 1)
    return Fl(v, g, abs(v), 0.0)


def _finish(v, g, M, e):
    if not math.isfinite(v) or M > FLOATS:
        raise Skip("overflow")
    if e == 0.0:
        # + ldexp may overflow only for absurd g, which M bounds already
        if -400 < g < 400 and M < math.ldexp(1.0, BITS + g) or M == 0.0:
            return Fl(v, g, M, 0.0)
        e = U * M
    return Fl(v, 0, M, e)


def _fin(*args):
    for a in args:
        if not math.isfinite(a.v):
            raise Skip("nonfinite")


def f_add(a, b):
    _fin(a, b)
    M = a.M + b.M
    e = a.e + b.e
    return _finish(a.v + b.v, min(a.g, b.g), M, e + U * M if e else 0.0)


def f_neg(a):
    return Fl(-a.v, a.g, a.M, a.e)


def f_sub(a, b):
    return f_add(a, f_neg(b))


def f_mul(a, b):
    _fin(a, b)
    M = a.M * b.M
    e = abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e
    if a.e or b.e:
        e += U * M
    return _finish(a.v * b.v, a.g + b.g, M, e)


def f_recip(a):
    _fin(a)
    if a.v == 0.0 or abs(a.v) < 1e-6 or a.e > abs(a.v) / 4:
        raise Skip("division near zero")
    v = 1.0 / a.v
    if a.e == 0.0 and math.frexp(abs(a.v))[0] == 0.5:
        return fl(v)
    # M bounds re-associations of the denominator, so it does not enlarge the quotient
    return _finish(v, 0, abs(v), 2 * a.e * v * v + U * abs(v))


def f_exp(a):
    _fin(a)
    if a.v > 50 or a.e > 1.0:
        raise Skip("exp range")
    v = math.exp(a.v)
    return _finish(v, 0, v, v * (2 * a.e + U * (1 + abs(a.v))))


def f_trig(fn):
    def do(a):
        _fin(a)
        if abs(a.v) > 1e4:
            raise Skip("trig range")
        return _finish(fn(a.v), 0, 1.0, a.e + U * (1 + abs(a.v)))

    return do


def f_tanh(a):
    _fin(a)
    if abs(a.v) > 200:
        raise Skip("tanh range")
    return _finish(math.tanh(a.v), 0, 1.0, a.e + U * (4 + abs(a.v)))


def f_fpow(a, b):
    _fin(a, b)
    if a.v < 0.05 or a.v > 50 or abs(b.v) > 12 or a.e > a.v / 8 or b.e > 0.1:
        raise Skip("pow range")
    v = a.v**b.v
    rel = 2 * (abs(b.v) * a.e / a.v + abs(math.log(a.v)) * b.e)
    return _finish(v, 0, v, v * (rel + U * (4 + abs(b.v))))


class Kinks:
    """Whether an evaluation came near a point where the program has no single slope."""

    seen = 0

    @classmethod
    def look(cls, a, b):
        if a is not b and abs(a - b) <= 0.01:
            cls.seen += 1


def f_abs(a):
    Kinks.look(a.v, 0.0)
    return Fl(abs(a.v), a.g, a.M, a.e)


def f_minmax(fn):
    def do(a, b):
        if a is not b:
            Kinks.look(a.v, b.v)
        if a.v != a.v or b.v != b.v:
            raise Skip("nonfinite")
        v = fn(a.v, b.v)
        if a.e == 0.0 and b.e == 0.0:
            w = a if v == a.v else b
            M = max(a.M, b.M) if math.isfinite(max(a.M, b.M)) else w.M
            return Fl(v, min(a.g, b.g) if v != 0 else w.g, M, 0.0)
        M = max(x.M for x in (a, b) if math.isfinite(x.M) or x.v == v)
        return Fl(v, 0, M, max(a.e, b.e))

    return do


def wrap_int(v):
    if abs(v) > INTS:
        raise Skip("big int")
    return v


def cmp_guard(a, b):
    if isinstance(a, Fl):
        e = a.e + b.e
        if e and not abs(a.v - b.v) > 64 * e:
            raise Skip("fragile comparison")
        Kinks.look(a.v, b.v)
        return a.v, b.v
    return a, b


def i_mod(a, b):
    if b == 0:
        raise Skip("mod by zero")
    return a % b


def i_pow(x, k):
    if isinstance(x, Fl):
        if k < 0:
            x, k = f_recip(x), -k
        r = fl(1.0)
        for _ in range(k):
            r = f_mul(r, x)
        return r
    if k < 0:
        raise IllTyped("negative int pow")
    return wrap_int(x**k)


CMP = {
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
}
FBIN = {
    "+": f_add,
    "-": f_sub,
    "*": f_mul,
    "/": lambda a, b: f_mul(a, f_recip(b)),
    "min": f_minmax(min),
    "max": f_minmax(max),
}
IBIN = {
    "+": lambda a, b: wrap_int(a + b),
    "-": lambda a, b: wrap_int(a - b),
    "*": lambda a, b: wrap_int(a * b),
    "%": i_mod,
    "min": min,
    "max": max,
}
FUN = {
    "neg": f_neg,
    "exp": f_exp,
    "sin": f_trig(math.sin),
    "cos": f_trig(math.cos),
    "abs": f_abs,
    "tanh": f_tanh,
    "recip": f_recip,
}
IUN = {"neg": lambda a: wrap_int(-a), "abs": abs}

F, I, B = ("f",), ("i",), ("b",)


# ---------------------------------------------------------------- dims
def dim_form(const, syms):
    syms = tuple(sorted((s, c) for s, c in dict(syms).items() if c))
    return ("+", const, syms) if syms else const


def dim_parts(d):
    if isinstance(d, int):
        return d, {}
    if d[0] == "+":
        return d[1], dict(d[2])
    return None


def dim_add(a, b, sign=1):
    pa, pb = dim_parts(a), dim_parts(b)
    if pa is None or pb is None:
        return None
    syms = dict(pa[1])
    for s, c in pb[1].items():
        syms[s] = syms.get(s, 0) + sign * c
    return dim_form(pa[0] + sign * pb[0], syms)


def dim_sym(s):
    return ("+", 0, ((s, 1),))


def dim_val(d, dims):
    p = dim_parts(d)
    if p is None:
        raise Skip("dynamic dim")
    return p[0] + sum(c * dims[s] for s, c in p[1].items())


def input_type(spec):
    T = (spec["kind"],)
    for d in reversed(spec["dims"]):
        T = ("v", dim_sym(d) if isinstance(d, str) else d, T)
    return T


def rank(T):
    return 1 + rank(T[2]) if T[0] == "v" else 0


def leaf(T):
    return leaf(T[2]) if T[0] == "v" else T


def has_rec(T):
    return T[0] == "r" or (T[0] == "v" and has_rec(T[2]))


def unsized(T):
    if T[0] == "v":
        return ("v", ("?", "acc"), unsized(T[2]))
    return T


def same_struct(a, b):
    """Equal up to vector sizes."""
    if a[0] != b[0]:
        return False
    if a[0] == "v":
        return same_struct(a[2], b[2])
    if a[0] == "r":
        return (
            a[1] == b[1]
            and len(a[2]) == len(b[2])
            and all(
                n == m and same_struct(s, t) for (n, s), (m, t) in zip(a[2], b[2])
            )
        )
    return True


def need(cond, msg):
    if not cond:
        raise IllTyped(msg)


# ---------------------------------------------------------------- compile
class Ref:
    """Typechecks a program and compiles it into closures over an environment."""

    def __init__(self, prog, dims=None, values=None, exts=None, loose=False):
        self.prog = prog
        self.loose = loose  # accumulators may change their sizes
        self.dims = dict(prog.get("dims", {}) if dims is None else dims)
        self.inputs = prog["inputs"]
        self.itypes = [input_type(s) for s in self.inputs]
        self.values = values
        self.exts = exts or {}
        self.steps = 0
        self.cache = {}

    # dims in concrete mode are ints, so types already hold everything
    def poison(self, T):
        if T[0] == "v":
            return [self.poison(T[2]) for _ in range(dim_val(T[1], self.dims))]
        if T[0] == "r":
            return tuple(self.poison(t) for _, t in T[2])
        return POISON

    def dimof(self, node, tenv):
        """The symbolic value of an int node when used as a size, or None."""
        t = node[0]
        if t == "lit":
            return node[2] if node[1] == "i" else None
        if t == "size":
            T, _ = self.comp(node[1], tenv)
            for _ in range(node[2]):
                T = T[2]
            return T[1]
        if t == "v":
            return tenv[node[1]][1]
        if t == "bin" and node[1] in "+-":
            a, b = self.dimof(node[2], tenv), self.dimof(node[3], tenv)
            if a is None or b is None:
                return None
            return dim_add(a, b, 1 if node[1] == "+" else -1)
        if t == "bin" and node[1] in ("min", "max", "*"):
            a, b = self.dimof(node[2], tenv), self.dimof(node[3], tenv)
            if isinstance(a, int) and isinstance(b, int):
                return {"min": min, "max": max, "*": lambda x, y: x * y}[node[1]](a, b)
        if t == "let":
            T, _ = self.comp(node[2], tenv)
            return self.dimof(
                node[3],
                {**tenv, node[1]: (T, self.dimof(node[2], tenv) if T == I else None)},
            )
        return None

    def size_dim(self, node, tenv):
        d = self.dimof(node, tenv)
        if d is None:
            return ("?", repr(node))
        return d

    def merge(self, a, b):
        need(same_struct(a, b), f"types differ: {a} {b}")
        if a[0] == "v":
            da, db = a[1], b[1]
            if da != db:
                need(
                    not isinstance(da, int)
                    and da[0] == "?"
                    or not isinstance(db, int)
                    and db[0] == "?",
                    f"dims differ {da} {db}",
                )
                da = ("?", "merge")
            return ("v", da, self.merge(a[2], b[2]))
        if a[0] == "r":
            return (
                "r",
                a[1],
                tuple((n, self.merge(s, t)) for (n, s), (_, t) in zip(a[2], b[2])),
            )
        return a

    def comp(self, node, tenv):
        # names are unique in a program, so a node has one type
        key = id(node)
        if key not in self.cache:
            self.cache[key] = getattr(self, "c_" + node[0])(node, tenv)
        return self.cache[key]

    def c_lit(self, node, tenv):
        _, k, v = node
        if k == "f":
            val = fl(float(v))
        elif k == "i":
            val = int(v)
        else:
            val = bool(v)
        return (k,), lambda env: val

    def c_in(self, node, tenv):
        k = node[1]
        return self.itypes[k], lambda env: self.values[k]

    def c_v(self, node, tenv):
        name = node[1]
        need(name in tenv, f"unbound {name}")
        return tenv[name][0], lambda env: env[name]

    def c_un(self, node, tenv):
        _, op, e = node
        T, f = self.comp(e, tenv)
        if op == "float":
            need(T == I, "float of non-int")
            return F, lambda env: (
                POISON if (x := f(env)) is POISON else fl(wrap_int(x))
            )
        if op == "not":
            need(T == B, "not of non-bool")
            return B, lambda env: POISON if (x := f(env)) is POISON else (not x)
        need(T in (F, I), f"{op} of {T}")
        table = FUN if T == F else IUN
        need(op in table, f"{op} of {T}")
        g = table[op]
        return T, lambda env: POISON if (x := f(env)) is POISON else g(x)

    def c_pow(self, node, tenv):
        T, f = self.comp(node[1], tenv)
        k = node[2]
        need(T == F or (T == I and k >= 0), "pow type")
        return T, lambda env: POISON if (x := f(env)) is POISON else i_pow(x, k)

    def c_fpow(self, node, tenv):
        Ta, fa = self.comp(node[1], tenv)
        Tb, fb = self.comp(node[2], tenv)
        need(Ta == F and Tb == F, "fpow type")

        def run(env):
            a, b = fa(env), fb(env)
            return POISON if a is POISON or b is POISON else f_fpow(a, b)

        return F, run

    def c_bin(self, node, tenv):
        _, op, a, b = node
        Ta, fa = self.comp(a, tenv)
        Tb, fb = self.comp(b, tenv)
        need(Ta == Tb, f"operands of {op}: {Ta} {Tb}")
        if op in "&|":
            need(Ta == B, "logical")
            g = (lambda x, y: x and y) if op == "&" else (lambda x, y: x or y)
            res = B
        elif op in CMP:
            need(Ta in (F, I), "comparison")
            c = CMP[op]
            g = lambda x, y: c(*cmp_guard(x, y))  # noqa
            res = B
        else:
            need(Ta in (F, I), "arith")
            table = FBIN if Ta == F else IBIN
            need(op in table, f"{op} on {Ta}")
            g = table[op]
            res = Ta

        def run(env):
            x, y = fa(env), fb(env)
            if x is POISON or y is POISON:
                return POISON
            return g(x, y)

        return res, run

    def c_where(self, node, tenv):
        _, c, a, b = node
        Tc, fc = self.comp(c, tenv)
        Ta, fa = self.comp(a, tenv)
        Tb, fb = self.comp(b, tenv)
        need(Tc == B, "where cond")
        T = self.merge(Ta, Tb)

        def run(env):
            x = fc(env)
            if x is POISON:
                return self.poison(T)
            return fa(env) if x else fb(env)

        return T, run

    def _get(self, T, v, ids):
        """ids: list of evaluated indices or None for a full slice"""
        if not ids:
            return v
        i, rest = ids[0], ids[1:]
        if i is None:
            return [self._get(T[2], x, rest) for x in v]
        if i is POISON or not v:
            return self.poison(self.get_type(T, ids))
        n = len(v)
        return self._get(T[2], v[0 if i < 0 else n - 1 if i >= n else i], rest)

    def get_type(self, T, ids):
        for k, i in enumerate(ids):
            need(T[0] == "v", "indexing a non-vector")
            if i is None:
                return ("v", T[1], self.get_type(T[2], ids[k + 1 :]))
            T = T[2]
        return T

    def c_get(self, node, tenv):
        T, f = self.comp(node[1], tenv)
        subs = []
        for i in node[2]:
            if i is None:
                subs.append(None)
            else:
                Ti, fi = self.comp(i, tenv)
                need(Ti == I, "index type")
                subs.append(fi)
        R = self.get_type(T, node[2])
        if len(subs) == 1 and subs[0] is not None:
            (fi,) = subs

            def run1(env):
                v = f(env)
                i = fi(env)
                if i is POISON or not v:
                    return self.poison(R)
                n = len(v)
                return v[0 if i < 0 else n - 1 if i >= n else i]

            return R, run1

        def run(env):
            v = f(env)
            return self._get(T, v, [s if s is None else s(env) for s in subs])

        return R, run

    def c_size(self, node, tenv):
        _, v, ax = node
        T, f = self.comp(v, tenv)
        S = T
        for _ in range(ax):
            need(S[0] == "v", "size axis")
            S = S[2]
        need(S[0] == "v", "size axis")
        d = S[1]

        def run(env):
            p = dim_parts(d)
            if p is not None:
                return dim_val(d, self.dims)
            x = f(env)
            for _ in range(ax):
                if not x:
                    raise Skip("dynamic dim of empty")
                x = x[0]
            return len(x)

        return I, run

    def c_arr(self, node, tenv):
        _, names, sizes, body, _infer = node
        ds, fs = [], []
        for s in sizes:
            Ts, f = self.comp(s, tenv)
            need(Ts == I, "size type")
            ds.append(self.size_dim(s, tenv))
            if isinstance(ds[-1], int) and ds[-1] < 0:
                raise Skip("negative size")
            fs.append(f)
        tenv2 = dict(tenv)
        for n in names:
            tenv2[n] = (I, None)
        T, fb = self.comp(body, tenv2)
        R = T
        for d in reversed(ds):
            R = ("v", d, R)
        depth = len(names)

        def run(env):
            ns = [f(env) for f in fs]
            for n in ns:
                if n is POISON:
                    raise Skip("poison size")
                if n < 0:
                    raise Skip("negative size")

            def go(k):
                if k == depth:
                    self.tick()
                    return fb(env)
                out = []
                name = names[k]
                for i in range(ns[k]):
                    env[name] = i
                    out.append(go(k + 1))
                return out

            return go(0)

        return R, run

    def tick(self):
        self.steps += 1
        if self.steps > 200000:
            raise Skip("too long")

    def c_fold(self, node, tenv):
        _, k, acc, count, init, body, _infer = node
        Tc, fc = self.comp(count, tenv)
        need(Tc == I, "count type")
        Ti, fi = self.comp(init, tenv)
        if self.loose:
            Ti = unsized(Ti)
        tenv2 = {**tenv, k: (I, None), acc: (Ti, None)}
        Tb, fb = self.comp(body, tenv2)
        T = self.merge(Ti, Tb)

        def run(env):
            n = fc(env)
            if n is POISON:
                raise Skip("poison count")
            a = fi(env)
            for i in range(max(n, 0)):
                self.tick()
                env[acc] = a
                env[k] = i
                a = fb(env)
            return a

        return T, run

    def c_red(self, node, tenv):
        _, v, init, x, y, body = node
        Tv, fv = self.comp(v, tenv)
        Ti, fi = self.comp(init, tenv)
        need(Tv[0] == "v", "reduce of non-vector")
        T = self.merge(Tv[2], Ti)
        tenv2 = {**tenv, x: (Tv[2], None), y: (Tv[2], None)}
        Tb, fb = self.comp(body, tenv2)
        T = self.merge(T, Tb)

        def run(env):
            items = fv(env)
            first = a = fi(env)
            for it in items:
                self.tick()
                # what a reduction means is only defined where the initial value is an
                # identity for what is reduced
                env[x], env[y] = first, it
                if not agree(fb(env), it):
                    raise Skip("not an identity")
                env[x], env[y] = it, first
                if not agree(fb(env), it):
                    raise Skip("not an identity")
                env[x] = a
                env[y] = it
                a = fb(env)
            return a

        return T, run

    def c_cat(self, node, tenv):
        cs = [self.comp(e, tenv) for e in node[1]]
        d = cs[0][0][1]
        T = cs[0][0][2]
        need(cs[0][0][0] == "v", "concat of non-vector")
        for Tc, _ in cs[1:]:
            need(Tc[0] == "v", "concat of non-vector")
            T = self.merge(T, Tc[2])
            d = dim_add(d, Tc[1]) if d is not None else None
        R = ("v", d if d is not None else ("?", "cat"), T)
        fs = [f for _, f in cs]

        def run(env):
            out = []
            for f in fs:
                out += f(env)
            return out

        return R, run

    def c_rec(self, node, tenv):
        _, kind, fields = node
        cs = [(n, *self.comp(e, tenv)) for n, e in fields]
        T = ("r", kind if kind != "l" else "t", tuple((n, t) for n, t, _ in cs))
        fs = [f for _, _, f in cs]
        return T, lambda env: tuple(f(env) for f in fs)

    def c_proj(self, node, tenv):
        T, f = self.comp(node[1], tenv)
        need(T[0] == "r", "proj of non-record")
        names = [n for n, _ in T[2]]
        need(node[2] in names, "no such field")
        k = names.index(node[2])
        return T[2][k][1], lambda env: f(env)[k]

    def c_let(self, node, tenv):
        _, name, e1, e2 = node
        T1, f1 = self.comp(e1, tenv)
        d = self.dimof(e1, tenv) if T1 == I else None
        T2, f2 = self.comp(e2, {**tenv, name: (T1, d)})

        def run(env):
            env[name] = f1(env)
            return f2(env)

        return T2, run

    def c_orempty(self, node, tenv):
        _, v, i, default = node
        Tv, fv = self.comp(v, tenv)
        Ti, fi = self.comp(i, tenv)
        Td, fd = self.comp(default, tenv)
        need(Tv[0] == "v" and Ti == I, "orempty")
        T = self.merge(Tv[2], Td)

        def run(env):
            x = fv(env)
            if not x:
                return fd(env)
            k = fi(env)
            if k is POISON:
                return self.poison(T)
            return x[min(max(k, 0), len(x) - 1)]

        return T, run

    def c_assume(self, node, tenv):
        T, f = self.comp(node[1], tenv)
        self.comp(node[2], tenv)
        return T, f

    def c_ext(self, node, tenv):
        _, fn, args = node
        spec = self.exts[fn]
        cs = [self.comp(a, tenv) for a in args]
        R = spec["type"]([t for t, _ in cs])
        fs = [f for _, f in cs]
        call = spec["ref"]

        def run(env):
            xs = [f(env) for f in fs]
            if any(contains_poison(x) for x in xs):
                return self.poison(R)
            return call(*xs)

        return R, run

    def c_std(self, node, tenv):
        _, fn, k, count, body, _infer = node
        Tc, fc = self.comp(count, tenv)
        need(Tc == I, "count type")
        T, fb = self.comp(body, {**tenv, k: (I, None)})
        need(T == F, "std body")
        op = fn.split("_")[1]

        def run(env):
            n = fc(env)
            if n < 0 and fn.startswith("reduce"):
                raise Skip("negative size")
            xs = []
            for i in range(max(n, 0)):
                self.tick()
                env[k] = i
                xs.append(fb(env))
            if any(x is POISON for x in xs):
                return POISON
            if op == "sum":
                r = fl(0.0)
                for x in xs:
                    r = f_add(r, x)
                return r
            if op in ("min", "max"):
                r = fl(math.inf if op == "min" else -math.inf)
                for x in xs:
                    r = FBIN[op](r, x)
                return r
            best, at = fl(math.inf), 0
            for i, x in enumerate(xs):
                a, b = cmp_guard(best, x)
                if not a <= b:
                    best, at = x, i
            return at

        return (I if op == "argmin" else F), run

    def c_mm(self, node, tenv):
        _, op, args = node
        cs = [self.comp(a, tenv) for a in args]
        T = cs[0][0]
        need(T in (F, I) and all(t == T for t, _ in cs), "min/max args")
        fs = [f for _, f in cs]
        g = (FBIN if T == F else IBIN)[op]

        def run(env):
            xs = [f(env) for f in fs]
            if any(x is POISON for x in xs):
                return POISON
            r = xs[0]
            for x in xs[1:]:
                r = g(r, x)
            return r

        return T, run

    def run(self):
        T, f = self.comp(self.prog["expr"], {})
        self.values = [
            load_input(s, self.dims) if v is None else v
            for s, v in zip(
                self.inputs, self.values or [None] * len(self.inputs), strict=True
            )
        ]
        return T, f({})


def contains_poison(x):
    if isinstance(x, (list, tuple)):
        return any(contains_poison(y) for y in x)
    return x is POISON


def input_shape(spec, dims):
    return tuple(dims[d] if isinstance(d, str) else d for d in spec["dims"])


def input_flat(spec, dims):
    n = 1
    for d in input_shape(spec, dims):
        n *= d
    data = spec["data"]
    k = spec["kind"]
    if k == "f":
        base = [float(x) for x in data] or [0.5]
    elif k == "i":
        base = [int(x) for x in data] or [1]
    else:
        base = [bool(x) for x in data] or [True]
    m = len(base)
    if n <= m:
        return base[:n]
    # longer arrays repeat the pattern with a drift, so that rows differ
    if k == "f":
        return [base[i % m] + (i // m) * 0.25 for i in range(n)]
    if k == "i":
        return [base[i % m] + (i // m) % 7 for i in range(n)]
    return [base[i % m] ^ bool((i // m) % 2) for i in range(n)]


def nest(flat, shape, conv):
    it = iter(flat)

    def go(k):
        if k == len(shape):
            return conv(next(it))
        return [go(k + 1) for _ in range(shape[k])]

    return go(0)


def load_input(spec, dims):
    conv = fl if spec["kind"] == "f" else (lambda x: x)
    return nest(input_flat(spec, dims), input_shape(spec, dims), conv)


def shape_of(T, v, dims):
    """Shape of a (record-free) value."""
    shape = []
    while T[0] == "v":
        d = T[1]
        if dim_parts(d) is not None:
            shape.append(dim_val(d, dims))
        else:
            if v is None:
                raise Skip("dynamic dim of empty")
            shape.append(len(v))
        v = v[0] if v else None
        T = T[2]
    return tuple(shape)


def flatten(v):
    out = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        else:
            out.append(x)

    go(v)
    return out


def compare(T, v, dims, got, *, exact_kind=True, rtol=0.0):
    """None if the numpy array `got` is the value (T, v); otherwise a message."""
    import numpy

    shape = shape_of(T, v, dims)
    got = numpy.asarray(got)
    if got.shape != shape:
        return f"shape {got.shape}, expected {shape}"
    k = leaf(T)[0]
    if exact_kind:
        kinds = {"f": "f", "i": "iu", "b": "b"}[k]
        if got.dtype.kind not in kinds:
            return f"dtype {got.dtype}, expected kind {k}"
    flat = flatten(v)
    outs = got.reshape(-1).tolist()
    assert len(flat) == len(outs), (len(flat), len(outs))
    for pos, (w, g) in enumerate(zip(flat, outs)):
        if w is POISON:
            continue
        if isinstance(w, Fl):
            if w.v != w.v:
                ok = g != g
            elif not math.isfinite(w.v):
                ok = g == w.v
            else:
                tol = 64 * w.e
                if rtol:
                    tol += rtol * max(1.0, abs(w.v), w.M if w.M < math.inf else 0.0)
                ok = abs(g - w.v) <= tol
        else:
            ok = g == w
        if not ok:
            idx = numpy.unravel_index(pos, shape) if shape else ()
            return f"element {tuple(map(int, idx))} is {g!r}, expected {w.v if isinstance(w, Fl) else w!r}"
    return None
