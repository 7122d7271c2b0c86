"""C21: sizes treated as equal are equal."""
import numpy

import ein

from .. import build as B
from .. import ref as R
from .. import shapes as S
from ..core import Skip, Violation, attempt
from ..reduce import reduce as ast_reduce
from .programs import FOLDS, INDEXING, RECORDS, ProgramCheck, compare, draw_some_backends, shape_labels
from .transforms import internal

DISTINCT = dict(dims=(1, 6), zero=0, poison=0, loopdepth=2, fuel=(4, 18), w_ext=0)
CONTEXTS = 40


def size_classes():
    def find():
        from ein.midend.size_classes import find_size_classes

        return find_size_classes

    return internal(find)


def prepared(program, outlined):
    """The form in which the compiler analyses a program (or, with its bindings named)."""

    def find():
        from ein.midend.lining import outline
        from ein.midend.structs import struct_of_arrays_transform

        return outline, struct_of_arrays_transform

    outline, soa = internal(find)
    program = soa(program)
    return outline(program) if outlined else program


def phi_module():
    from ein.phi import phi

    return phi


def rank_of(expr):
    t = expr.type.primitive_type
    if len(t.elems) != 1:
        return 0
    return t.single.rank


def subexpressions(expr):
    seen, order = set(), []
    stack = [expr]
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        order.append(e)
        stack.extend(e.subterms)
    return order


class Open(Exception):
    """Depends on a record, which cannot be passed to the interpreter."""


class Walk:
    """Collects environments in which parts of the program get evaluated."""

    def __init__(self, env):
        self.phi = phi_module()
        self.contexts = []
        self.base = dict(env)

    def value(self, expr, env):
        if not expr.free_symbols <= set(env):
            raise Open
        return numpy.asarray(ein.interpret_with_naive(expr, env))

    def single(self, expr):
        return len(expr.type.primitive_type.elems) == 1

    def go(self, expr, env, sizes):
        try:
            return self.visit(expr, env, sizes)
        except Open:
            self.contexts.append((env, sizes))
            return True

    def visit(self, expr, env, sizes):
        """-> True if a deeper context was recorded"""
        if len(self.contexts) >= CONTEXTS:
            return True
        phi = self.phi
        deeper = False
        if isinstance(expr, phi.Vec):
            index, size, body = expr.index, expr.size, expr.body
            self.go(size, env, sizes)
            n = int(self.value(size, env))
            for i in sorted({0, n - 1}):
                if 0 <= i < n:
                    self.go(body, {**env, index: numpy.array(i)}, {**sizes, index: n})
            return True
        if isinstance(expr, phi.Fold):
            self.go(expr.size, env, sizes)
            self.go(expr.init, env, sizes)
            if not self.single(expr.init):
                return deeper
            n = int(self.value(expr.size, env))
            acc = self.value(expr.init, env)
            for k in range(min(n, 3)):
                inner = {**env, expr.counter: numpy.array(k), expr.acc: acc}
                self.go(expr.body, inner, sizes)
                acc = self.value(expr.body, inner)
            return True
        if isinstance(expr, phi.Let):
            self.go(expr.bind, env, sizes)
            if self.single(expr.bind):
                env = {**env, expr.var: self.value(expr.bind, env)}
            self.go(expr.body, env, sizes)
            return True
        if isinstance(expr, phi.Reduce):
            self.go(expr.init, env, sizes)
            for v in expr.vecs:
                self.go(v, env, sizes)
            return True
        for sub in expr.subterms:
            deeper |= bool(self.go(sub, env, sizes))
        if not deeper:
            self.contexts.append((env, sizes))
        return True


def check_classes(program, env):
    """-> number of (class, context) pairs with at least two evaluated sizes"""
    phi = phi_module()
    sizes = size_classes()(program)
    walk = Walk(env)
    walk.go(program, dict(env), {})
    if not walk.contexts:
        walk.contexts.append((dict(env), {}))
    classes, seen = [], set()

    def note(u):
        c = sizes.find(u)
        if len(c) > 1 and id(c) not in seen:
            seen.add(id(c))
            classes.append(c)

    for e in subexpressions(program):
        for axis in range(rank_of(e)):
            note(phi.Dim(e, axis))
        if isinstance(e, phi.Vec):
            note(e.index)
            note(e.size)
        if isinstance(e, phi.Fold):
            note(e.size)
    done = 0
    cache = {}
    for c in classes:
        members = [m for m in c if not isinstance(m, phi.AbstractExpr) or m.type == phi.Scalar(int)]
        for env1, ns in walk.contexts:
            vals = []
            for m in members:
                if not isinstance(m, phi.AbstractExpr):
                    if m in ns:
                        vals.append((m, ns[m]))
                    continue
                free = m.free_symbols
                if not free <= set(env1):
                    continue
                key = (id(m), tuple(sorted((str(s), id(env1[s])) for s in free)))
                if key not in cache:
                    cache[key] = int(walk.value(m, {s: env1[s] for s in free}))
                vals.append((m, cache[key]))
            if len(vals) > 1:
                done += 1
                if len({v for _, v in vals}) > 1:
                    raise Violation(
                        "sizes in one class differ: "
                        + ", ".join(f"{str(m)[:60]} = {v}" for m, v in vals[:6])
                    )
    return done


class C21(ProgramCheck):
    id = "C21"
    title = "Sizes the compiler treats as equal are equal at run time"
    cases = {"quick": 450, "thorough": 5000}
    profiles = [
        (5, "growing", dict(shape=S.growing)),
        (1, "clips", dict(shape=S.clips)),
        (1, "indexing", {**INDEXING, **DISTINCT}),
        (1, "folds", {**FOLDS, **DISTINCT, "neg_count": 0}),
        (1, "records", {**RECORDS, **DISTINCT}),
        (1, "default", DISTINCT),
    ]
    rule = (
        "a case is either a program with arrays of many sizes (accumulators that change size among "
        "them), or a history of operations on the equivalence structure; non-trivial: a program "
        "that executes a loop iteration and has a defined element, or a history with at least three "
        "operations that joined two classes"
    )
    assumptions = (
        *ProgramCheck.assumptions,
        "sizes in one class are evaluated by ein's naive interpreter, at the first and last index of "
        "each comprehension and in the first three iterations of each fold",
    )

    def draw(self, ch):
        if ch.chance(12):
            n = ch.int(2, 9)
            return dict(
                n=n,
                ops=[
                    [ch.weighted([(5, "unite"), (2, "equiv"), (2, "find"), (1, "equiv3")])]
                    + [ch.int(0, n - 1) for _ in range(3)]
                    for _ in range(ch.int(3, 30))
                ],
            )
        return super().draw(ch)

    def draw_backends(self, ch):
        return draw_some_backends(ch, torch=40, naive=60, jax=0)

    def run(self, case):
        if "ops" in case:
            return self.history(case)
        prog = case["prog"]
        r = R.Ref(prog, loose=case["profile"] == "growing")
        T, v = r.run()
        if R.has_rec(T):
            raise Skip("record result")
        labels = shape_labels(prog) | {"profile " + case["profile"]}
        p = attempt("building the program", lambda: B.build(prog))
        for bk in case["backends"]:
            labels.add(bk)
            got = attempt(f"evaluating with {bk}", lambda: p.eval(bk))
            compare(bk, T, v, prog["dims"], got)
        if r.steps and any(x is not R.POISON for x in R.flatten(v)):
            labels.add("nontrivial")
        if any(x is R.POISON for x in R.flatten(v)):
            return labels
        for outlined in (False, True):
            try:
                if check_classes(prepared(p.expr, outlined), p.env):
                    labels.add("classes compared" + " (outlined)" * outlined)
            except Violation:
                raise
            except Exception as e:
                # evaluated above without trouble: an internal has another interface now
                labels.add("classes not examined")
                labels.add(f"classes not examined: {type(e).__name__}")
        return labels

    def history(self, case):
        def find():
            from ein.midend.equiv import Equivalence

            return Equivalence

        eq = internal(find)()
        model = {k: {k} for k in range(case["n"])}
        joins = 0
        for op, a, b, c in case["ops"]:
            if op == "unite":
                new = model[a] is not model[b]
                joins += new
                got = attempt("unite", lambda: eq.unite(a, b))
                if isinstance(got, bool) and got != new:
                    raise Violation(f"unite({a}, {b}) says {got}, expected {new}")
                if new:
                    u = model[a] | model[b]
                    for k in u:
                        model[k] = u
            elif op == "find":
                got = attempt("find", lambda: set(eq.find(a)))
                if got != model[a]:
                    raise Violation(f"find({a}) is {got}, expected {model[a]}")
            else:
                args = (a, b, c) if op == "equiv3" else (a, b)
                got = attempt("equiv", lambda: eq.equiv(*args))
                want = all(x in model[a] for x in args)
                if bool(got) != want:
                    raise Violation(f"equiv{args} is {got}, expected {want}")
        for a in range(case["n"]):
            for b in range(case["n"]):
                if bool(eq.equiv(a, b)) != (b in model[a]):
                    raise Violation(f"equiv({a}, {b}) is {eq.equiv(a, b)} after {case['ops']}")
        return {"history"} | ({"nontrivial"} if joins >= 3 else set())

    def reduce(self, case, fails, seconds):
        if "ops" in case:
            return case
        prog, _ = ast_reduce(case["prog"], lambda p: fails({**case, "prog": p}), seconds)
        return {**case, "prog": prog}

    def sample(self, case):
        return case if "ops" in case else case["prog"]


CHECKS = [C21]
