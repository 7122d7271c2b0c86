"""C22: terms and constants are identified only when they are the same."""
import math

import numpy

import ein

from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import IllTyped, Skip, Violation, attempt
from ..ref import F, I
from ..reduce import reduce as ast_reduce
from .programs import ProgramCheck, compare, draw_some_backends, nodes, shape_labels

BASES = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}
DERIVE = [
    (4, "element"), (3, "zero"), (3, "reshape"), (3, "kind"), (2, "bytes"), (2, "nan"),
    (2, "copy"), (1, "same"), (2, "fortran"), (2, "transposed"), (2, "window"), (1, "flat"),
    (1, "scalar"), (1, "swap"), (1, "cut"), (1, "stride"),
]  # fmt: skip


def base_array(spec):
    shape = tuple(spec["shape"])
    n = math.prod(shape)
    data = spec["data"]
    a = numpy.array([data[k % len(data)] + (k // len(data)) % 3 for k in range(n)], dtype=numpy.int64)
    a = a.astype(BASES[spec["kind"]])
    if spec["kind"] == "f":
        a = a / 2
    return a.reshape(shape)


def derive(a, how, r):
    """A constant that resembles another one."""
    n = a.size
    k = r % n if n else 0
    if how == "same":
        return a
    if how == "copy":
        return a.copy()
    if how == "scalar":
        return numpy.array(a.reshape(-1)[k]) if n else numpy.array(0.0)
    b = a.copy()
    if how == "element" and n:
        b.reshape(-1)[k] = not b.reshape(-1)[k] if b.dtype.kind == "b" else b.reshape(-1)[k] + 1
        return b
    if how == "swap" and n > 1:
        flat = b.reshape(-1)
        flat[[k, (k + 1) % n]] = flat[[(k + 1) % n, k]]
        return b
    if how == "zero":
        flat = b.reshape(-1)
        if b.dtype.kind == "f" and n:
            zeros = numpy.flatnonzero(flat == 0)
            if len(zeros):
                flat[zeros[k % len(zeros)]] *= -1.0
            else:
                flat[k] = -0.0
        return b
    if how == "nan" and b.dtype.kind == "f" and n:
        b.reshape(-1)[k] = [math.nan, math.inf, -math.inf][r % 3]
        return b
    if how == "reshape" and n:
        divs = [d for d in range(1, n + 1) if n % d == 0]
        d = divs[r % len(divs)]
        return b.reshape((d, n // d)) if r % 2 else b.reshape((n // d, d))
    if how == "flat":
        return b.reshape(-1)
    if how == "kind":
        with numpy.errstate(all="ignore"):
            if not numpy.isfinite(b.astype(float)).all():
                return b
            return b.astype([numpy.float64, numpy.int64, numpy.bool_][r % 3])
    if how == "bytes" and b.dtype.itemsize == 8:
        if b.dtype.kind == "f":
            return b.view(numpy.int64)
        c = b.view(numpy.float64)
        return c if numpy.isfinite(c).all() else b
    if how == "fortran":
        return numpy.asfortranarray(b)
    if how == "transposed":
        return a.T
    if how == "window" and a.ndim and a.shape[0] > 1:
        return a[1:] if r % 2 else a[:-1]
    if how == "cut" and a.ndim and a.shape[-1] > 1:
        return a[..., :-1]
    if how == "stride" and a.ndim and a.shape[0] > 1:
        return a[::2]
    return b


def family(case):
    out = [base_array(case["base"])]
    for src, how, r in case["derive"]:
        out.append(derive(out[src % len(out)], how, r))
    return out


def peek(c, expr, t, off):
    """Element t + off of a constant, as a float and as an ein expression."""
    ids = []
    for axis, d in enumerate(c.shape):
        ids.append((t + off * (axis + 1)) % d)
    return expr[tuple(ids)] if len(ids) > 1 else expr[ids[0]] if ids else expr


def as_float(x, kind):
    if kind == "f":
        return x
    if kind == "i":
        return x.float()
    return ein.where(x, 1.0, 0.0)


def sized(n):
    return n[2] if n[0] == "arr" else [n[3]] if n[0] == "std" else []


class Near(ProgramCheck):
    """Mutations of terms."""

    FLOPS = ["+", "-", "*", "min", "max"]
    CMPS = ["<", "<=", ">", ">=", "==", "!="]

    def mutate(self, ch, expr, inputs, tag):
        from ..reduce import at, children, put

        sizes = set()  # names that sizes depend on
        for n in nodes(expr):
            for m in nodes(sized(n)):
                if m[0] == "v":
                    sizes.add(m[1])

        def matters(path):
            """Sizes stay as they are (they may not become negative)."""
            for k in range(len(path)):
                n = at(expr, path[:k])
                if path[k] == 2 and n[0] == "arr" or path[k] == 3 and n[0] == "std":
                    return True
                if path[k] == 2 and n[0] == "let" and n[1] in sizes:
                    return True
            return False

        paths = [q for q in children(expr) if not matters(q)]
        if not paths:
            return expr
        path = ch.pick(paths)
        n = at(expr, path)
        t = n[0]
        new = None
        if len(n) < 3 and t != "in":
            return expr  # the name of a field
        if t == "lit":
            new = ["lit", n[1], (not n[2]) if n[1] == "b" else n[2] + ch.pick([1, -1]) if n[1] == "i" else n[2] + ch.pick([0.25, -1.0])]
        elif t == "bin":
            r = ch.int(0, 2)
            if r == 0:
                new = ["bin", n[1], n[3], n[2]]
            elif n[1] in self.FLOPS:
                new = ["bin", ch.pick(self.FLOPS), *n[2:]]
            elif n[1] in self.CMPS:
                new = ["bin", ch.pick(self.CMPS), *n[2:]]
            elif n[1] in "&|":
                new = ["bin", "&" if n[1] == "|" else "|", *n[2:]]
        elif t == "un" and n[1] in ("sin", "cos"):
            new = ["un", "cos" if n[1] == "sin" else "sin", n[2]]
        elif t == "un" and n[1] == "neg":
            new = n[2]
        elif t == "where":
            new = ["where", n[1], n[3], n[2]]
        elif t == "get" and len(n[2]) > 1:
            ids = list(n[2])
            a = ch.int(0, len(ids) - 2)
            ids[a], ids[a + 1] = ids[a + 1], ids[a]
            new = ["get", n[1], ids]
        elif t == "size":
            new = ["size", n[1], 1 - n[2] if n[2] < 2 else 0]
        elif t == "in":
            same = [
                k for k, s in enumerate(inputs)
                if k != n[1] and (s["kind"], s["dims"]) == (inputs[n[1]]["kind"], inputs[n[1]]["dims"])
            ]  # fmt: skip
            if same:
                new = ["in", ch.pick(same)]
        elif t == "fold" and n[3][0] == "lit":
            new = [*n[:3], ["lit", "i", n[3][2] + 1], *n[4:]]
        elif t == "pow":
            new = ["pow", n[1], n[2] + 1]
        if new is None:
            return expr
        return put(expr, path, new)


def rename(node, tag):
    """A copy with other bound names."""
    bound = set()
    for n in nodes(node):
        if n[0] == "arr":
            bound.update(n[1])
        elif n[0] == "fold":
            bound.update((n[1], n[2]))
        elif n[0] == "red":
            bound.update((n[3], n[4]))
        elif n[0] == "let":
            bound.add(n[1])
        elif n[0] == "std":
            bound.add(n[2])

    def go(n):
        if isinstance(n, list):
            if n and n[0] == "v" and len(n) == 2:
                return ["v", n[1] + tag if n[1] in bound else n[1]]
            if n and n[0] == "arr":
                return ["arr", [x + tag for x in n[1]], *map(go, n[2:])]
            if n and n[0] == "fold":
                return ["fold", n[1] + tag, n[2] + tag, *map(go, n[3:])]
            if n and n[0] == "red":
                return ["red", go(n[1]), go(n[2]), n[3] + tag, n[4] + tag, go(n[5])]
            if n and n[0] == "let" and len(n) == 4:
                return ["let", n[1] + tag, go(n[2]), go(n[3])]
            if n and n[0] == "std":
                return ["std", n[1], n[2] + tag, *map(go, n[3:])]
            return [go(x) for x in n]
        return n

    return go(node)


class C22(Near):
    id = "C22"
    title = "Terms and constants are identified only when they are the same"
    cases = {"quick": 480, "thorough": 5000}
    rule = (
        "a case is either a family of two to six constants derived from one another (one element, "
        "sign of zero, NaN, shape, kind, bytes, layout in memory, sharing of memory) read in one "
        "program and in a sequence of programs, or a term next to mutations of it; non-trivial: at "
        "least two of the constants (terms) give different values"
    )
    assumptions = (*ProgramCheck.assumptions, "elements are read at positions inside the array")

    def draw(self, ch):
        if ch.chance(45):
            return self.draw_terms(ch)
        kind = ch.weighted([(5, "f"), (3, "i"), (2, "b")])
        r = ch.int(0, 19)
        if r == 0:
            shape = ch.pick([[1024], [1025], [2, 1024], [1024, 2], [1023, 1]])
        else:
            shape = [ch.int(1, 4) for _ in range(ch.weighted([(1, 0), (5, 1), (5, 2), (2, 3)]))]
        data = [ch.int(0, 1) if kind == "b" else ch.int(-2, 2) for _ in range(ch.int(1, 4))]
        n = ch.int(1, 5)
        der = [[ch.int(0, k), ch.weighted(DERIVE), ch.int(0, 40)] for k in range(n)]
        return dict(
            base=dict(kind=kind, shape=shape, data=data),
            derive=der,
            form=ch.weighted([(4, "choose"), (2, "sum"), (2, "recip"), (2, "separate"), (2, "folds"), (1, "function")]),
            tensors=ch.chance(30),
            off=ch.int(0, 5),
            rounds=ch.int(1, 5),
            backends=draw_some_backends(ch, torch=50, naive=40, jax=3),
        )  # fmt: skip

    def draw_terms(self, ch):
        backends = draw_some_backends(ch, torch=40, naive=40, jax=3)
        g = G.Gen(
            ch, fuel=(4, 16), loopdepth=2, static="jax" in backends, w_arith=14, w_size=4, poison=0,
        )  # fmt: skip
        T = F if ch.chance(70) else I
        # like-shaped inputs, so that one may be taken for another
        k = g.add_input()
        if ch.chance(60):
            g.add_input(g.inputs[k]["kind"], list(g.inputs[k]["dims"]))
        prog = g.program(T)
        terms = [prog["expr"]]
        for m in range(ch.int(1, 3)):
            e = ch.pick(terms)
            for _ in range(ch.int(1, 2)):
                e = self.mutate(ch, e, prog["inputs"], m)
            terms.append(e)
        terms = [rename(e, f"_{m}") for m, e in enumerate(terms)]
        return dict(
            prog=prog, terms=terms, join=ch.weighted([(4, "choose"), (2, "record"), (1, "minus")]),
            backends=backends,
        )  # fmt: skip

    # ------------------------------------------------------------------- terms
    def joined(self, case, r):
        """The terms that are well typed, in one program."""
        T = None
        good = []
        for e in case["terms"]:
            try:
                Te, _ = R.Ref({**case["prog"], "expr": e}).run()
            except (IllTyped, Skip, RecursionError):
                continue
            if T is None:
                T = Te
            if Te == T and T in (F, I):
                good.append(e)
        if len(good) < 2:
            raise Skip("no two terms")
        k = T[0]
        t = ["v", "tt"]
        if case["join"] == "minus" and k == "f":
            e = good[0]
            for x in good[1:]:
                e = ["bin", "-", ["bin", "*", e, ["lit", "f", 2.0]], x]
            body = e
        elif case["join"] == "record":
            rec = ["rec", "t", [[str(j), x] for j, x in enumerate(good)]]
            body = ["lit", k, 0]
            for j in range(len(good)):
                body = ["where", ["bin", "==", t, ["lit", "i", j]], ["proj", ["v", "rr"], str(j)], body]
            return ["let", "rr", rec, ["arr", ["tt"], [["lit", "i", len(good)]], body, False]]
        else:
            body = good[-1]
            for j, x in enumerate(good[:-1]):
                body = ["where", ["bin", "==", t, ["lit", "i", j]], x, body]
        return ["arr", ["tt"], [["lit", "i", len(good)]], body, False]

    def run_terms(self, case):
        prog = {**case["prog"], "expr": self.joined(case, None)}
        try:
            r = R.Ref(prog)
            T, v = r.run()
        except IllTyped as e:
            raise Skip("ill-typed mutation") from e
        labels = shape_labels(prog) | {"terms", "join " + case["join"]}
        p = attempt("building the program", lambda: B.build(prog, force_infer=False))
        for bk in case["backends"]:
            labels.add(bk)
            try:
                got = attempt(f"evaluating with {bk}", lambda: p.eval(bk))
            except Violation as e:
                if "negative" in str(e):
                    # a mutation made a size negative in a branch that is not taken
                    raise Skip("negative size") from e
                raise
            compare(bk, T, v, prog["dims"], got)
        vals = {x.v if isinstance(x, R.Fl) else x for x in R.flatten(v) if x is not R.POISON}
        if len(vals) > 1:
            labels.add("nontrivial")
        return labels

    # --------------------------------------------------------------- constants
    def run(self, case):
        if "terms" in case:
            return self.run_terms(case)
        fam = family(case)
        if any(c.size == 0 for c in fam):
            raise Skip("empty")
        form, off, T = case["form"], case["off"], case["rounds"]
        labels = {"constants", "form " + form} | {"derived " + d[1] for d in case["derive"]}
        if fam[0].size >= 1000:
            labels.add("large")
        kinds = ["b" if c.dtype.kind == "b" else "i" if c.dtype.kind in "iu" else "f" for c in fam]
        reads = [
            [float(peek(c, c, t, off)) for t in range(T)] for c in fam
        ]
        if any(k == "i" and abs(x) > 2**52 for k, xs in zip(kinds, reads) for x in xs):
            form = "choose" if form in ("sum", "folds") else form
        finite = all(math.isfinite(x) and abs(x) < 2**40 for xs in reads for x in xs)
        if form in ("sum", "folds") and not finite:
            form = "choose"
        K = len(fam)
        # XLA takes subnormal numbers for zero
        tiny = any(0 < abs(x) < 2.3e-308 for xs in reads for x in xs)
        backends = [bk for bk in case["backends"] if not (tiny and bk == "jax")]

        def build(fam_exprs):
            xs = list(zip(fam, fam_exprs, kinds))
            if form == "sum":
                return ein.array(
                    lambda t: sum_of([as_float(peek(c, e, t, off), k) * float(3**j) for j, (c, e, k) in enumerate(xs)]),
                    size=T,
                )
            if form == "folds":
                from ein.frontend.std import fold_sum

                return ein.array(
                    lambda j: choose(j, [fold_sum(lambda t, c=c, e=e, k=k: as_float(peek(c, e, t, off), k), count=T) for c, e, k in xs]),
                    size=K,
                )

            def at(j, t):
                vals = [as_float(peek(c, e, t, off), k) for c, e, k in xs]
                if form == "recip":
                    vals = [1.0 / v for v in vals]
                return choose(j, vals)

            return ein.array(at, size=(K, T))

        def sum_of(vals):
            r = vals[0]
            for v in vals[1:]:
                r = r + v
            return r

        def choose(j, vals):
            r = vals[-1]
            for k, v in reversed(list(enumerate(vals[:-1]))):
                r = ein.where(j == k, v, r)
            return r

        with numpy.errstate(all="ignore"):
            arr = numpy.array(reads)
            if form == "sum":
                want = sum(arr[j] * 3.0**j for j in range(K))
            elif form == "folds":
                want = arr.sum(axis=1)
            elif form == "recip":
                want = numpy.array([[1.0 / numpy.float64(x) for x in xs] for xs in reads])
            else:
                want = arr
        for bk in backends:
            labels.add(bk)

            def go():
                if form == "separate":
                    # one program after the other, in one process
                    rows = []
                    for c, k in zip(fam, kinds):
                        e = ein.wrap(c)
                        rows.append(B.to_numpy(ein.array(lambda t: as_float(peek(c, e, t, off), k), size=T).eval(backend=bk)))
                    return numpy.array(rows)
                if form == "function":
                    f = ein.function(lambda *es: build(es))
                    args = [numpy.array(c) for c in fam]
                    if bk == "torch":
                        import torch

                        return B.to_numpy(f.torch(*[torch.from_numpy(a) for a in args]))
                    if bk == "jax":
                        return B.to_numpy(f.jax(*args))
                    return B.to_numpy(f(*args))
                if bk == "torch" and case.get("tensors"):
                    import torch

                    labels.add("tensors")
                    return B.to_numpy(build([ein.wrap(torch.from_numpy(c)) for c in fam]).torch())
                return B.to_numpy(build([ein.wrap(c) for c in fam]).eval(backend=bk))

            got = numpy.asarray(attempt(f"evaluating with {bk}", go))
            if got.shape != want.shape:
                raise Violation(f"{bk}: shape {got.shape}, expected {want.shape}")
            if not numpy.array_equal(got, want, equal_nan=True):
                j = tuple(int(q) for q in numpy.argwhere(~((got == want) | (numpy.isnan(got) & numpy.isnan(want))))[0])
                raise Violation(f"{bk}: element {j} is {got[j]!r}, expected {want[j]!r}")
        if len({tuple(map(repr, xs)) for xs in reads}) > 1:
            labels.add("nontrivial")
        return labels

    def reduce(self, case, fails, seconds):
        if "terms" in case:
            prog, _ = ast_reduce(case["prog"], lambda p: fails({**case, "prog": p}), 1)
            return {**case, "prog": prog}
        # drop members of the family (later ones refer to earlier ones modulo their number)
        for k in range(len(case["derive"]) - 1, -1, -1):
            smaller = {**case, "derive": case["derive"][:k] + case["derive"][k + 1 :]}
            if fails(smaller):
                case = smaller
        return case

    def sample(self, case):
        return case if "terms" not in case else dict(inputs=case["prog"]["inputs"], terms=case["terms"])


CHECKS = [C22]
