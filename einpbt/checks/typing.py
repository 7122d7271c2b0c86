"""C10: programs are well typed at construction."""
import ein
from ein.frontend import std

from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import Check, Skip, Violation, attempt, expect_error
from ..ref import F, I
from .programs import BROAD, INDEXING, RECORDS, compare, draw_some_backends, shape_labels
from .records import structure

ERRORS = (TypeError, ValueError, AssertionError, AttributeError)
LITS = {"f": 1.5, "i": 2, "b": True}
BINARY = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a / b,
    "%": lambda a, b: a % b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "&": lambda a, b: a & b,
    "|": lambda a, b: a | b,
    "min": lambda a, b: a.min(b),
    "max": lambda a, b: a.max(b),
    "**": lambda a, b: a**b,
}
# kinds each operator accepts, both operands alike
ACCEPTS = {
    **{op: "fi" for op in ("+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "min", "max")},
    "/": "f", "%": "i", "&": "b", "|": "b", "**": "f",
}  # fmt: skip
UNARY = {
    "neg": (lambda x: -x, "fi"),
    "not": (lambda x: ~x, "b"),
    "exp": (lambda x: x.exp(), "f"),
    "sin": (lambda x: x.sin(), "f"),
    "cos": (lambda x: x.cos(), "f"),
    "tanh": (lambda x: x.tanh(), "f"),
    "recip": (lambda x: 1.0 / x, "f"),
    "float": (lambda x: x.float(), "i"),
    "abs": (lambda x: abs(x), "fi"),
}


class Typer(R.Ref):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.tenvs = {}

    def comp(self, node, tenv):
        self.tenvs[id(node)] = tenv
        return super().comp(node, tenv)


class Stopped(Exception):
    pass


class Watching(B.Builder):
    """Calls `seen(node, value, env)` for every node built."""

    def __init__(self, inputs, seen):
        super().__init__(inputs)
        self.seen = seen

    def go(self, node, env):
        x = super().go(node, env)
        self.seen(node, x, env)
        return x


def kind_probe(T, x, at):
    """x accepts exactly the operands of its kind."""
    if T[0] == "r":
        for n, t in T[2]:
            y = x[int(n)] if isinstance(x, (tuple, list)) else x[n] if isinstance(x, dict) else getattr(x, n)
            kind_probe(t, y, f"{at}.{n}")
        return
    while T[0] == "v":
        x, T = x[0], T[2]
        if T[0] == "r":
            return kind_probe(T, x, at + "[0]")
    if isinstance(x, (bool, int, float)):
        return
    for k, op in (("f", lambda: x + 1.0), ("i", lambda: x + 1), ("b", lambda: x & True)):
        try:
            op()
            ok = True
        except TypeError:
            ok = False
        if ok != (k == T[0]):
            raise Violation(
                f"{at} should be a {T[0]} scalar but {'accepts' if ok else 'rejects'} "
                f"operands of kind {k}"
            )


def misuses(T, x, pool, indices):
    """(name, thunk) of constructions that must be rejected, for a value x : T."""
    out = []

    def bad(name, f):
        out.append((name, f))

    vec = ein.wrap(B.numpy.array([0.5, 1.5, 2.5]))
    ivec = ein.wrap(B.numpy.array([1, 2]))
    cond = ein.wrap(True)

    def consts(T):
        """Something of another kind than the scalar T."""
        for k in "fib":
            if k != T[0]:
                yield k, LITS[k]
                yield k, ein.wrap(LITS[k])
        for S, y in pool:
            if S != T:
                yield S[0], y

    if T[0] in "fib":
        k = T[0]
        for name, f in BINARY.items():
            for k2, y in consts(T):
                # an integer literal is a legitimate power
                if not (name == "**" and isinstance(y, int)):
                    bad(f"{k} {name} {k2}", lambda f=f, y=y: f(x, y))
                if name not in ("min", "max", "%", "**", "&", "|") or isinstance(y, ein.Scalar):
                    bad(f"{k2} {name} {k}", lambda f=f, y=y: f(y, x))
            if k not in ACCEPTS[name]:
                bad(f"{k} {name} {k}", lambda f=f: f(x, ein.wrap(LITS[k])))
                bad(f"{k} {name} {k} (same)", lambda f=f: f(x, x))
        for name, (f, kinds) in UNARY.items():
            if k not in kinds:
                bad(f"{name} {k}", lambda f=f: f(x))
        bad("scalar indexed", lambda: x[0])
        bad("scalar + vector", lambda: x + vec)
        bad("scalar < vector", lambda: x < ivec)
        bad("vector * scalar", lambda: vec * x)
        if k != "i":
            bad(f"index {k}", lambda: vec[x])
            bad(f"index {k} of a matrix", lambda: ein.array(lambda i, j: vec[i] * vec[j])[0, x])
            bad(f"or_empty {k}", lambda: vec.or_empty(x, 0.0))
            bad(f"size {k}", lambda: ein.array(lambda i: 1.0, size=x))
            bad(f"sizes {k}", lambda: ein.array(lambda i, j: 1.0, size=(2, x)))
            bad(f"count {k}", lambda: ein.fold(0.0, lambda i, a: a + 1.0, count=x))
            bad(f"std count {k}", lambda: std.fold_sum(lambda i: i.float(), count=x))
            bad(f"int power {k}", lambda: ein.wrap(2) ** x)
        else:
            bad("negative int power", lambda: x**-1)
            bad("float power of int", lambda: x**0.5)
            bad("sum of ints", lambda: std.fold_sum(lambda i: x, count=2))
        if k != "b":
            bad(f"condition {k}", lambda: ein.where(x, 1.0, 2.0))
            bad(f"condition {k} on arrays", lambda: ein.where(x, vec, vec))
        for k2, y in consts(T):
            bad(f"branches {k} {k2}", lambda y=y: ein.where(cond, x, y))
            bad(f"branches {k2} {k}", lambda y=y: ein.where(cond, (y, y), (y, x)))
            bad(f"fold {k} to {k2}", lambda y=y: ein.fold(x, lambda i, a: y, count=2))
            bad(f"fold {k2} to {k}", lambda y=y: ein.fold(y, lambda i, a: x, count=2))
            bad(f"concat {k} {k2}", lambda y=y: ein.array(lambda i: x, size=2).concat(ein.array(lambda i: y, size=1)))
            bad(f"identity {k2} of {k}", lambda y=y: ein.array(lambda i: x, size=2).reduce(y, lambda a, b: a))
            bad(f"monoid {k} to {k2}", lambda y=y: ein.array(lambda i: x, size=2).reduce(x, lambda a, b: y))
            bad(f"min of {k} {k2}", lambda y=y: std.min(x, y))
            bad(f"ext of {k2} for {k}", lambda y=y: ein.ext(lambda z: z, ([KTYPE[k]], KTYPE[k]))(y))
        bad("ext argument count", lambda: ein.ext(lambda z: z, ([KTYPE[k]], KTYPE[k]))(x, x))
        bad("branches scalar vector", lambda: ein.where(cond, x, ein.array(lambda i: x, size=2)))
        bad("branches scalar tuple", lambda: ein.where(cond, (x,), x))
        bad("fold to tuple", lambda: ein.fold(x, lambda i, a: (a, a), count=2))
        bad("fold to vector", lambda: ein.fold(x, lambda i, a: ein.array(lambda j: a, size=2), count=2))
        bad("fold from tuple", lambda: ein.fold((x, x), lambda i, a: a[0], count=2))
        bad("monoid to tuple", lambda: ein.array(lambda i: x, size=2).reduce(x, lambda a, b: (a, b)))
        bad("identity tuple", lambda: ein.array(lambda i: x, size=2).reduce((x, x), lambda a, b: a))
        bad("concat scalar", lambda: ein.array(lambda i: x, size=2).concat(x))
        bad("concat tuple", lambda: ein.array(lambda i: x, size=2).concat(ein.array(lambda i: (x, x), size=2)))
        for junk in ("a", None, 1j, [1], (1,), {"a": 1}):
            bad(f"+ {junk!r}", lambda junk=junk: x + junk)
            bad(f"< {junk!r}", lambda junk=junk: x < junk)
            bad(f"where {junk!r}", lambda junk=junk: ein.where(cond, x, junk))
        bad("truth value", lambda: bool(x))
        bad("if", lambda: 1 if x else 0)
        bad("and", lambda: x and x)
        bad("not", lambda: not x)
        bad("iteration", lambda: list(x))
        for i in indices:
            bad("jagged size", lambda i=i: ein.array(lambda j: x, size=i))
            bad("jagged size + 1", lambda i=i: ein.array(lambda j, l: x, size=(2, i + 1)))
            bad("jagged read size", lambda i=i: ein.array(lambda j: x, size=ivec[i]))
        bad("free variable", lambda: needs_value(KTYPE[k], lambda v: ein.where(cond, x, v)))
    elif T[0] == "v":
        for name, f in BINARY.items():
            if name in ("==", "!="):
                continue
            bad(f"vector {name} literal", lambda f=f: f(x, 1.0))
            bad(f"vector {name} vector", lambda f=f: f(x, x))
            bad(f"scalar {name} vector", lambda f=f: f(ein.wrap(1.0), x))
        for name, (f, _) in UNARY.items():
            bad(f"{name} vector", lambda f=f: f(x))
        for junk in (1.0, True, "a", None, ein.wrap(1.0), ein.wrap(True), vec, ivec, ..., [0]):
            bad(f"index {junk!r:.20}", lambda junk=junk: x[junk])
        for sl in (slice(0, 1), slice(None, 1), slice(1, None), slice(None, None, 2), slice(None, None, -1)):
            bad(f"slice {sl}", lambda sl=sl: x[sl])
        rk = R.rank(T)
        if not R.has_rec(T):
            bad("too many indices", lambda: x[(0,) * (rk + 1)])
            bad("too many indices after slices", lambda: x[(slice(None),) * (rk + 1)])
        bad("condition vector", lambda: ein.where(x, 1.0, 2.0))
        bad("size vector", lambda: ein.array(lambda i: 1.0, size=x))
        bad("count vector", lambda: ein.fold(0.0, lambda i, a: a, count=x))
        bad("truth value", lambda: bool(x))
        bad("if", lambda: 1 if x else 0)
        bad("iteration", lambda: list(x))
        bad("iteration, unpacking", lambda: [*x])
        bad("branches vector scalar", lambda: ein.where(cond, x, 1.0))
        bad("branches vector rank", lambda: ein.where(cond, x, ein.array(lambda i: x, size=2)))
        bad("fold to rank", lambda: ein.fold(x, lambda i, a: ein.array(lambda j: a, size=2), count=2))
        bad("fold to element", lambda: ein.fold(x, lambda i, a: a[0], count=2))
        bad("fold to tuple", lambda: ein.fold(x, lambda i, a: (a,), count=2))
        bad("concat of rank", lambda: x.concat(ein.array(lambda i: x, size=2)))
        bad("concat of rank (left)", lambda: ein.array(lambda i: x, size=2).concat(x))
        bad("concat scalar", lambda: x.concat(1.0))
        bad("reduce to rank", lambda: x.reduce(x[0], lambda a, b: x))
        bad("reduce to tuple", lambda: x.reduce(x[0], lambda a, b: (a, b)))
        bad("identity of rank", lambda: x.reduce(x, lambda a, b: a))
        bad("identity tuple", lambda: x.reduce((x[0],), lambda a, b: a))
        bad("ext of vector", lambda: ein.ext(lambda z: z, ([KTYPE["f"]], KTYPE["f"]))(x))
        if T[2][0] in "fib":
            k = T[2][0]
            for k2 in "fib":
                if k2 != k:
                    y = ein.array(lambda i: ein.wrap(LITS[k2]), size=2)
                    bad(f"branches [{k}] [{k2}]", lambda y=y: ein.where(cond, x, y))
                    bad(f"concat [{k}] [{k2}]", lambda y=y: x.concat(y))
                    bad(f"fold [{k}] [{k2}]", lambda y=y: ein.fold(x, lambda i, a: y, count=2))
                    bad(f"reduce [{k}] {k2}", lambda k2=k2: x.reduce(LITS[k2], lambda a, b: a))
                    bad(f"monoid [{k}] {k2}", lambda k2=k2: x.reduce(LITS[k], lambda a, b: ein.wrap(LITS[k2])))
        bad("empty record", lambda: ein.array(lambda i: (), size=2))
        bad("empty dict in a record", lambda: ein.array(lambda i: (x, {}), size=2))
        bad("string element", lambda: ein.array(lambda i: "a", size=2))
        bad("None element", lambda: ein.array(lambda i: (1.0, None), size=2))
    else:
        for what, y in perturbations(T, x):
            bad(f"branches: {what}", lambda y=y: ein.where(cond, x, y))
            bad(f"branches (swapped): {what}", lambda y=y: ein.where(cond, y, x))
            bad(f"fold: {what}", lambda y=y: ein.fold(x, lambda i, a: y, count=2))
            bad(f"fold (swapped): {what}", lambda y=y: ein.fold(y, lambda i, a: x, count=2))
            bad(f"concat: {what}", lambda y=y: ein.array(lambda i: x, size=2).concat(ein.array(lambda i: y, size=2)))
            bad(f"identity: {what}", lambda y=y: ein.array(lambda i: x, size=2).reduce(y, lambda a, b: a))
            bad(f"monoid: {what}", lambda y=y: ein.array(lambda i: x, size=2).reduce(x, lambda a, b: y))
        bad("record operand", lambda: ein.wrap(1.0) + x)
        bad("record index", lambda: vec[x if not isinstance(x, tuple) else list(x)])
        bad("record condition", lambda: ein.where(x, 1.0, 2.0))
        bad("record size", lambda: ein.array(lambda i: 1.0, size=[x]))
    return out


KTYPE = {"f": ein.scalar_type(float), "i": ein.scalar_type(int), "b": ein.scalar_type(bool)}


def needs_value(type_, use):
    box = []

    def f(v):
        box.append(use(v))
        return v

    ein.with_varargs([type_], f)
    return box[0].eval(env={})


def fields_of(x):
    if isinstance(x, (tuple, list)):
        return [(str(k), y) for k, y in enumerate(x)]
    if isinstance(x, dict):
        return list(x.items())
    return [(n, getattr(x, n)) for n in x.__dataclass_fields__]


def perturbations(T, x):
    """Values whose structure differs a little from the record x."""
    fs = fields_of(x)
    vals = [y for _, y in fs]
    names = [n for n, _ in fs]
    kind = T[1]

    def make(names, vals):
        if kind == "t":
            return tuple(vals)
        if kind == "d":
            return dict(zip(names, vals))
        return B.record_class(tuple(names))(*vals)

    yield "field added", make([*names, "extra"], [*vals, 1.0])
    yield "field added in front", make(["extra", *names], [1, *vals])
    if len(vals) > 1:
        yield "field dropped", make(names[:-1], vals[:-1])
        yield "first field dropped", make(names[1:], vals[1:])
    if len(vals) > 2:
        yield "nested differently", make(["w", *names[2:]], [make(names[:2], vals[:2]), *vals[2:]])
    yield "wrapped", (x,)
    yield "scalar", 1.0
    if kind == "t":
        yield "dict", {str(k): y for k, y in enumerate(vals)}
    else:
        yield "tuple", tuple(vals)
        yield "renamed", make(["renamed", *names[1:]], vals)
    for k, (n, t) in enumerate(T[2]):
        if t[0] in "fib":
            other = LITS["i" if t[0] == "f" else "f"]
            yield f"kind of {n}", make(names, [*vals[:k], other, *vals[k + 1 :]])
        yield f"rank of {n}", make(names, [*vals[:k], ein.array(lambda i: vals[k], size=2), *vals[k + 1 :]])


class C10(Check):
    id = "C10"
    title = "Programs are well typed at construction"
    cases = {"quick": 650, "thorough": 5000}
    rule = (
        "a case is a random well-typed program; every value built on the way is probed for its "
        "structure, rank and kind, and then at one random point of it a random misuse of the "
        "value there is attempted, which has to be rejected; non-trivial: the point of misuse "
        "is inside a loop or the misused value is not a literal or input"
    )
    assumptions = (
        "== and != between whole arrays are Python's identity comparison and not covered",
    )
    profiles = [(4, BROAD[0][2]), (2, dict(fuel=(3, 12))), (2, RECORDS), (2, INDEXING)]

    def draw(self, ch):
        prof = ch.weighted([(w, p) for w, p in self.profiles])
        g = G.Gen(ch, **prof)
        T = g.rec_type() if ch.chance(15) else None
        prog = g.program(T)
        return dict(
            prog=prog, at=ch.int(0, 10**6), misuse=ch.int(0, 10**6), only=ch.int(0, 3),
            backends=draw_some_backends(ch, 15, 15, 2) if ch.chance(30) else [],
        )  # fmt: skip

    def run(self, case):
        prog = case["prog"]
        typer = Typer(prog)
        T, _ = typer.comp(prog["expr"], {})
        labels = set()
        order = []

        def make(seen):
            def f(*args):
                it = iter(args)
                vals = [
                    next(it) if s.get("mode") == "arg" else ein.wrap(B.input_array(s, {}))
                    for s in prog["inputs"]
                ]
                w = Watching(vals, seen)
                r = w.go(prog["expr"], {})
                return ein.wrap(0.0) if R.has_rec(T) else r

            specs = [s for s in prog["inputs"] if s.get("mode") == "arg"]
            types = [ein.ndarray_type(len(s["dims"]), B.KINDS[s["kind"]]) for s in specs]
            return ein.with_varargs(types, f)

        def probe(node, x, env):
            order.append(node)
            Tn = typer.cache[id(node)][0]
            structure(Tn, x, node[0])
            kind_probe(Tn, x, node[0])

        attempt("building the program", lambda: make(probe))
        # one point, preferring a sort of value
        want = {0: "v", 1: "r"}.get(case["only"])
        cands = [k for k, n in enumerate(order) if n[0] != "lit"]
        special = [k for k in cands if typer.cache[id(order[k])][0][0] == want]
        cands = special or cands
        if cands:
            target = cands[case["at"] % len(cands)]
            self.misuse(case, order, target, typer, make, labels)
        if case["backends"] and not R.has_rec(T):
            try:
                _, v = R.Ref(prog).run()
                p = B.build(prog)
                for bk in case["backends"]:
                    got = attempt(f"evaluating with {bk}", lambda: p.eval(bk))
                    compare(bk, T, v, prog["dims"], got)
                    labels.add("evaluated " + bk)
            except Skip:
                labels.add("not evaluated")
        return labels

    def misuse(self, case, order, target, typer, make, labels):
        count = -1
        idx = {i for n in order if n[0] == "arr" for i in n[1]}

        def seen(node, x, env):
            nonlocal count
            count += 1
            if count != target:
                return
            Tn = typer.cache[id(node)][0]
            tenv = typer.tenvs[id(node)]
            pool = [
                (tenv[n][0], y)
                for n, y in env.items()
                if n in tenv and tenv[n][0] in (F, I, R.B) and isinstance(y, ein.Scalar)
            ]
            indices = [y for n, y in env.items() if n in idx]
            ms = misuses(Tn, x, pool, indices)
            labels.add("misused " + {"v": "vector", "r": "record"}.get(Tn[0], "scalar"))
            if env or node[0] not in ("lit", "in"):
                labels.add("nontrivial")
            for m in range(20):
                name, f = ms[(case["misuse"] + 37 * m) % len(ms)]
                labels.add("misuse: " + name.split(" ")[0].rstrip(":"))
                expect_error(f"{name} (at a {node[0]} node of type {Tn[0]})", ERRORS, f)
            raise Stopped

        try:
            make(seen)
        except Stopped:
            return
        raise Violation("building the same program twice takes different paths")

    def reduce(self, case, fails, seconds):
        from ..reduce import reduce as ast_reduce

        prog, _ = ast_reduce(case["prog"], lambda p: fails({**case, "prog": p}), seconds)
        return {**case, "prog": prog}


CHECKS = [C10]
