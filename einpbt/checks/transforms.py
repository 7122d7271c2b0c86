"""C11 and C12: compiler settings and program transformations preserve meaning."""
import inspect

import ein

from .. import build as B
from .. import ref as R
from ..core import Skip, Violation, attempt
from .programs import (
    BROAD,
    FOLDS,
    INDEXING,
    RECORDS,
    SUMS,
    ProgramCheck,
    compare,
    evaluate_ref,
    shape_labels,
)
from ..shapes import clips


def internal(f):
    """Internals may be moved about: then there is nothing to check here."""
    try:
        return f()
    except (ImportError, AttributeError) as e:
        raise Skip(f"internal interface not found: {e}") from e


def switches():
    """(transform, names of its boolean settings)"""

    def find():
        from ein.codegen import phi_to_yarr

        return phi_to_yarr.transform

    t = internal(find)
    names = [
        p.name
        for p in inspect.signature(t).parameters.values()
        if p.kind in (p.KEYWORD_ONLY, p.POSITIONAL_OR_KEYWORD)
        and isinstance(p.default, bool)
    ]
    return t, sorted(names)


def staging(backend):
    def find():
        if backend == "torch":
            from ein.backend import torch_backend as b
        else:
            from ein.backend import numpy_backend as b
        return b.stage_in_array

    return internal(find)


def run_staged(stage, backend, array_program, env):
    if backend == "torch":
        import torch

        env = {v: torch.from_numpy(B.numpy.array(a)) for v, a in env.items()}
    return B.to_numpy(stage(array_program)(env))


class C11(ProgramCheck):
    id = "C11"
    title = "Every optimisation setting gives the same results"
    cases = {"quick": 450, "thorough": 4000}
    profiles = [
        (3, "clips", dict(shape=clips)),
        (3, "indexing", INDEXING),
        (3, "sums", SUMS),
        (2, "folds", FOLDS),
        (1, "records", {**RECORDS, "fuel": (4, 14), "rec_depth": 2}),
        (2, "default", {}),
    ]
    rule = ProgramCheck.rule + ", and at least one switch differs from its default"

    def draw(self, ch):
        case = super().draw(ch)
        masks = []
        for _ in range(3):
            r = ch.int(0, 3)
            if r == 0:
                masks.append(1 << ch.int(0, 7))  # one off
            elif r == 1:
                masks.append(0xFFFF ^ (1 << ch.int(0, 7)))  # all but one off
            elif r == 2:
                masks.append(ch.int(1, 0xFF))
            else:
                masks.append(0xFFFF)
        return {**case, "off": masks}

    def draw_backends(self, ch):
        return ["torch"] if ch.chance(25) else ["numpy"]

    def run(self, case):
        prog = case["prog"]
        r, T, v = evaluate_ref(prog)
        labels = shape_labels(prog)
        transform, names = switches()
        if not names:
            raise Skip("no switches")
        p = attempt("building the program", lambda: B.build(prog))
        for mask in case["off"]:
            off = [n for k, n in enumerate(names) if mask >> (k % 16) & 1]
            labels.update("off " + n for n in off)
            for bk in case["backends"]:
                labels.add(bk)
                stage = staging(bk)
                what = f"{bk} without {', '.join(off)}"

                def go():
                    y = transform(p.expr, **{n: n not in off for n in names})
                    return run_staged(stage, bk, y, p.env)

                got = attempt("evaluating with " + what, go)
                compare(what, T, v, prog["dims"], got)
        if r.steps and any(x is not R.POISON for x in R.flatten(v)):
            labels.add("nontrivial")
        return labels

    def reduce(self, case, fails, seconds):
        for m in case["off"]:
            if len(case["off"]) > 1 and fails({**case, "off": [m]}):
                case = {**case, "off": [m]}
        return super().reduce(case, fails, seconds)


def same_array(a, way, free):
    """A term that evaluates to the array a; `free` collects free variables it needs."""
    c = ein.wrap(a)
    rk = a.ndim
    if way == 1 and rk:
        return ein.array(lambda i: c[i], size=a.shape[0])
    if way == 2 and rk:
        k = a.shape[0] // 2
        return ein.wrap(a[:k].copy()).concat(ein.wrap(a[k:].copy()))
    if way == 3:
        return ein.fold(c, lambda i, x: ein.where(i < 0, c, x), count=2)
    if way == 4 and rk >= 2:
        t = ein.array(lambda j, i: c[i, j], size=(a.shape[1], a.shape[0]))
        return ein.array(lambda i, j: t[j, i], size=(a.shape[0], a.shape[1]))
    if way == 5:
        box = []

        def f(v):
            box.append(ein.array(lambda i: v[i]) if rk else ein.where(True, v, v))
            return ein.wrap(0.0)

        (var,), _ = ein.with_varargs([type_of(a)], f)
        free[var] = a
        return box[0]
    if way == 6:
        d = {"f": 0.0, "i": 0, "b": False}[{"f": "f", "i": "i", "b": "b"}[a.dtype.kind]]
        if rk == 0:
            return ein.where(ein.wrap(2) > 1, c, d)
        return ein.array(lambda i: ein.fold((c[i], 0), lambda k, s: (c[i], s[1] + k), count=1)[0], size=a.shape[0])
    return c


def type_of(a):
    return ein.ndarray_type(a.ndim, {"f": float, "i": int, "b": bool}[a.dtype.kind])


def with_lets(expr, env, picks):
    """The same program with explicit bindings: chains of renames and named subterms."""

    def find():
        from ein.symbols import Variable
        from ein.midend.substitution import substitute

        return Variable, substitute

    Variable, substitute = internal(find)
    types = {}

    def subterms(e, out):
        if e not in out:
            out[e] = None
            for sub in e.subterms:
                subterms(sub, out)

    every = {}
    subterms(expr, every)
    for e in every:
        s = e.unwrap_symbol()
        if s is not None:
            types[s] = e
    named = {}
    nodes = [e for e in every if e is not expr]
    for k in picks[2:]:
        if nodes:
            named[nodes[k % len(nodes)]] = Variable()
    done = {}

    def go(e):
        if e not in done:
            x = e.map(go)
            if e in named:
                v = named[e]
                if len(done) % 3 == 0:  # bind a binding
                    u = Variable()
                    x = x.wrap_var(u).wrap_let(u, x)
                x = x.wrap_var(v).wrap_let(v, x)
            done[e] = x
        return done[e]

    expr = go(expr)
    # a chain of renames of a free variable
    vs = [v for v in sorted(env, key=repr) if v in types]
    for k in picks[:2]:
        if not vs:
            break
        v = vs[k % len(vs)]
        chain = [Variable() for _ in range(1 + k % 3)]
        expr = substitute(expr, {v: types[v].wrap_var(chain[-1])})
        for a, b in reversed(list(zip([v, *chain], chain))):
            expr = expr.wrap_let(b, types[v].wrap_var(a))
    return expr


def off_by(a):
    return ~a if a.dtype.kind == "b" else a + 1


def rebound(expr, var):
    """`first (cons (let var = var2 in expr) var)`, with a new symbol var2."""

    def find():
        from ein.phi.phi import Cons, First
        from ein.symbols import Variable

        return Variable, First, Cons

    Variable, First, Cons = internal(find)
    todo, seen = [expr], set()
    while todo:
        e = todo.pop()
        if e in seen:
            continue
        seen.add(e)
        if e.unwrap_symbol() == var:
            v2 = Variable()
            return First(Cons(expr.wrap_let(var, e.wrap_var(v2)), e)), v2
        todo.extend(e.subterms)
    return None


class C12(ProgramCheck):
    id = "C12"
    title = "Program transformations preserve type, free variables and meaning"
    cases = {"quick": 450, "thorough": 4000}
    profiles = [
        (3, "sharing", dict(w_let=14, fuel=(6, 24), arg=50)),
        (3, "records", {**RECORDS, "fuel": (4, 14), "rec_depth": 2, "loopdepth": 2, "arg": 50}),
        (2, "folds", {**FOLDS, "w_let": 8, "arg": 50}),
        (2, "default", dict(arg=50)),
    ]
    rule = ProgramCheck.rule + ", and at least one transformation changed the term"
    STAGES = (
        "outline", "inline", "soa", "subst", "subst_all", "lets", "lets", "renames", "renames", "captured",
    )  # fmt: skip

    def draw(self, ch):
        case = super().draw(ch)
        stages = [ch.pick(list(self.STAGES)) for _ in range(ch.int(1, 4))]
        if stages[0] in ("inline", "renames") and ch.chance(70):
            stages.insert(0, "lets")
        return {
            **case,
            "stages": stages,
            "ways": [ch.int(0, 6) for _ in range(6)],
            "picks": [ch.int(0, 50) for _ in range(5)],
        }

    def draw_backends(self, ch):
        return [ch.weighted([(3, "numpy"), (3, "naive"), (1, "torch")])]

    def run(self, case):
        def find():
            from ein.midend.lining import inline, outline
            from ein.midend.structs import struct_of_arrays_transform
            from ein.midend.substitution import substitute

            return inline, outline, struct_of_arrays_transform, substitute

        inline, outline, struct_of_arrays_transform, substitute = internal(find)
        prog = case["prog"]
        r, T, v = evaluate_ref(prog)
        labels = shape_labels(prog)
        p = attempt("building the program", lambda: B.build(prog))
        expr, env = p.expr, dict(p.env)
        ways = list(case["ways"])
        done = []
        for stage in case["stages"]:
            before = expr
            done.append(stage)
            what = " then ".join(done)
            fresh = {}
            if stage == "outline":
                expr = attempt(what, lambda: outline(before))
            elif stage == "inline":
                expr = attempt(what, lambda: inline(before))
            elif stage == "soa":
                expr = attempt(what, lambda: struct_of_arrays_transform(before))
            elif stage == "lets":
                picks = case.get("picks") or [0] * 5
                picks = picks[len(done) :] + picks[: len(done)]
                expr = attempt(what, lambda: with_lets(before, env, picks))
            elif stage == "renames":
                if "only_renames" not in inspect.signature(inline).parameters:
                    continue
                expr = attempt(what, lambda: inline(before, only_renames=True))
            elif stage == "captured":
                # a symbol that is bound in one place and free in another: substituting for
                # it may only replace the free occurrences
                vs = [v for v in sorted(env, key=repr) if v in before.free_symbols]
                if not vs:
                    continue
                var = vs[case.get("picks", [0])[0] % len(vs)]
                w = ways.pop() if ways else 0
                wrong = attempt("building a term", lambda: same_array(off_by(env[var]), w, fresh))
                other = attempt("binding", lambda: rebound(before, var))
                if other is None:
                    continue
                bound, var2 = other
                expr = attempt(what, lambda: substitute(bound, {var: wrong.expr}))
                fresh[var2] = env.pop(var)
                env.update(fresh)
            else:
                vs = sorted(env, key=repr)
                vs = vs if stage == "subst_all" else vs[:1]
                subs = {}
                for var in vs:
                    w = ways.pop() if ways else 0
                    term = attempt("building a term", lambda: same_array(env[var], w, fresh))
                    subs[var] = term.expr
                if not subs:
                    continue
                expr = attempt(what, lambda: substitute(before, subs))
                for var in vs:
                    if var in expr.free_symbols:
                        raise Violation(f"{what}: the substituted variable is still free")
                    del env[var]
                env.update(fresh)
            if expr.type != before.type:
                raise Violation(f"{what}: type changed from {before.type} to {expr.type}")
            new = expr.free_symbols - before.free_symbols - set(fresh)
            if new:
                raise Violation(f"{what}: new free symbols {sorted(map(repr, new))}")
            if expr != before:
                labels.add("changed")
                labels.add("changed by " + stage)
        what = " then ".join(done)
        q = B.Program(expr, None, env)
        for bk in case["backends"]:
            labels.add(bk)
            got = attempt(f"evaluating with {bk} after {what}", lambda: q.eval(bk))
            try:
                compare(bk, T, v, prog["dims"], got)
            except Violation as e:
                raise Violation(f"after {what}: {e}") from None
        # the same stages on the array program
        if "soa" not in case["stages"] and case["backends"] == ["numpy"]:
            transform, _ = switches()
            stage_numpy = staging("numpy")
            y = attempt("compiling", lambda: transform(p.expr))
            for stage in case["stages"]:
                if stage in ("outline", "inline"):
                    f = outline if stage == "outline" else inline
                    z = attempt(f"{stage} of an array program", lambda: f(y))
                    if z.type != y.type or z.free_symbols - y.free_symbols:
                        raise Violation(f"{stage} of an array program changes its type or free symbols")
                    y = z
            got = attempt("evaluating the array program", lambda: run_staged(stage_numpy, "numpy", y, p.env))
            compare("array program after " + what, T, v, prog["dims"], got)
            labels.add("array program")
        if r.steps and any(x is not R.POISON for x in R.flatten(v)):
            labels.add("nontrivial")
        return labels

    def nontrivial(self, case, labels):
        return {"nontrivial", "changed"} <= labels


CHECKS = [C11, C12]
