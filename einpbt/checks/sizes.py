"""C09: inferred sizes agree with the arrays that are indexed."""
from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import Skip, attempt, expect_error
from ..ref import F, I
from .programs import (
    INDEXING,
    ProgramCheck,
    compare,
    draw_some_backends,
    evaluate_ref,
    shape_labels,
)


def inferred(ch, **profile):
    """array(lambda i, ...: E[i, ...] op ...) around computed arrays E, inside other loops."""
    g = G.Gen(ch, **{"infer": 100, "fuel": (3, 14), "loopdepth": 2, **profile})
    g.fuel = ch.int(*g.p["fuel"])
    for _ in range(ch.int(1, 3)):
        g.add_input()
    n = ch.weighted([(4, 1), (3, 2), (1, 3)])

    def inner():
        T = F if ch.chance(70) else I
        dims = [g.newdim() for _ in range(n)]
        S = T
        for d in reversed(dims):
            S = ("v", d, S)
        E = g.gen(S)
        name = g.fresh("s")
        use_let = ch.chance(60)
        fv = g.free(E)
        by = {v.name: v for v in g.scope}
        if use_let:
            g.letdefs[name] = fv
            v = G.Var(
                name, S, "let",
                ixd=any(by[x].ixd for x in fv if x in by),
                vary=any(by[x].vary for x in fv if x in by), deps=fv,
            )  # fmt: skip
            vs = [v]
        else:
            vs = []
        names = [g.fresh("i") for _ in dims]

        def build():
            sizes = [g.size_node(d) for d in dims]

            def body():
                at = ["get", ["v", name] if use_let else E, [["v", i] for i in names]]
                if ch.chance(60):
                    at = ["bin", ch.pick(["+", "-", "max"]), at, g.gen(T)]
                return at

            loopvars = [g.loop_var("idx", i, d) for i, d in zip(names, dims)]
            if n == 1 and ch.chance(35):
                k, acc = names[0], g.fresh("acc")
                kv = g.loop_var("cnt", k, dims[0])
                b = g.with_vars([kv, G.Var(acc, T, "acc", vary=g.nidx > 0 or g.varying)], lambda: ["bin", "+", ["v", acc], body()])
                node = ["fold", k, acc, sizes[0], g.leaf(T), b, False]
                node[6] = g.can_infer(b, [(k, dims[0])], {acc: T})
                return node
            b = g.with_vars(loopvars, body)
            node = ["arr", names, sizes, b, False]
            node[4] = g.can_infer(b, list(zip(names, dims)), {})
            return node

        node = g.with_vars(vs, build)
        return ["let", name, E, node] if use_let else node

    r = ch.int(0, 5)
    if r < 2:
        expr = inner()
    elif r < 4:
        d = g.newdim()
        i = g.fresh("i")
        b = g.with_vars([g.loop_var("idx", i, d)], inner)
        expr = ["arr", [i], [g.size_node(d)], b, False]
    else:
        # inside of a fold, whose accumulator is another array
        d, m = g.newdim(), g.newdim()
        k, acc, o = g.fresh("k"), g.fresh("acc"), g.fresh("i")
        A = ("v", m, F)
        kv, av = g.loop_var("cnt", k, d), G.Var(acc, A, "acc")

        def body():
            e = inner()
            probe = R.Ref(dict(inputs=g.inputs, dims=g.dims, expr=e))
            tenv = {v.name: (v.T, v.bound if v.role == "let" else None) for v in g.scope}
            T, _ = probe.comp(e, tenv)
            ids = []
            while T[0] == "v":
                ids.append(["lit", "i", ch.int(0, 2)])
                if T[1] == 0:
                    return ["arr", [o], [["lit", "i", m]], ["get", ["v", acc], [["v", o]]], False]
                T = T[2]
            e = ["get", e, ids] if ids else e
            if T == I:
                e = ["un", "float", e]
            return ["arr", [o], [["size", ["v", acc], 0]], ["bin", "+", ["get", ["v", acc], [["v", o]]], e], ch.chance(50)]

        init = g.gen(A)
        cnt = g.size_node(d)
        expr = ["fold", k, acc, cnt, init, g.with_vars([kv, av], body), False]
    return dict(inputs=g.inputs, dims={}, expr=expr)


def uninferrable(ch):
    """A comprehension or fold without size whose index never directly indexes an array
    that is available outside of it."""
    g = G.Gen(ch, infer=0, fuel=(2, 8), loopdepth=2)
    g.fuel = ch.int(2, 8)
    k = g.add_input("f", [ch.int(1, 4)])
    m = g.add_input("f", [ch.int(1, 3), ch.int(1, 3)])
    g.add_input()
    a = ["in", k]
    n = ["size", a, 0]
    i, j, acc = g.fresh("i"), g.fresh("i"), g.fresh("acc")
    vi = ["v", i]

    def bad_use(v):
        """A float that depends on v without v being an index by itself."""
        r = ch.int(0, 7)
        c = ["lit", "i", ch.int(1, 3)]
        if r == 0:
            return ["un", "float", v]
        if r == 1:
            return ["get", a, [["bin", ch.pick(["+", "-"]), v, c]]]
        if r == 2:
            return ["get", a, [["bin", "*", v, ["lit", "i", 2]]]]
        if r == 3:
            return ["get", a, [["bin", ch.pick(["min", "max"]), v, c]]]
        if r == 4:
            return ["get", a, [["bin", "-", ["bin", "-", n, c], v]]]
        if r == 5:
            return ["where", ["bin", "<", v, c], g.gen(F), g.gen(F)]
        if r == 6:
            # only the accumulator of a loop inside
            t, b, o = g.fresh("k"), g.fresh("acc"), g.fresh("i")
            body = ["arr", [o], [n], ["bin", "+", ["get", ["v", b], [["v", o]]], ["get", ["v", b], [v]]], False]
            return ["get", ["fold", t, b, ["lit", "i", ch.int(1, 2)], a, body, False], [["lit", "i", 0]]]
        return ["bin", "+", ["un", "float", v], g.gen(F)]

    kind = ch.pick(["arr", "arr2", "arr2r", "fold", "foldacc", "std", "nested", "rec"])
    if kind == "arr":
        bad = ["arr", [i], [n], bad_use(vi), True]
    elif kind == "arr2":
        # the other index is fine
        good = ["get", a, [["v", j]]] if ch.chance(60) else ["get", ["in", m], [["v", j], ["lit", "i", 0]]]
        names = [j, i] if ch.chance(50) else [i, j]
        sizes = [n if x == i else ["size", good[1], 0] for x in names]
        bad = ["arr", names, sizes, ["bin", "+", good, bad_use(vi)], True]
    elif kind == "arr2r":
        # an index that only reaches an array through the other one
        bad = ["arr", [j, i], [n, n], ["get", a, [["bin", "+", vi, ["v", j]]]], True]
    elif kind == "fold":
        bad = ["fold", i, acc, n, g.gen(F), ["bin", "+", ["v", acc], bad_use(vi)], True]
    elif kind == "foldacc":
        # the counter only indexes the accumulator itself
        o = g.fresh("i")
        body = ["arr", [o], [n], ["bin", "+", ["get", ["v", acc], [["v", o]]], ["get", ["v", acc], [vi]]], ch.chance(50)]
        bad = ["get", ["fold", i, acc, n, a, body, True], [["lit", "i", 0]]]
    elif kind == "std":
        fn = ch.pick(["fold", "reduce"]) + "_" + ch.pick(["sum", "min", "max", "argmin"])
        bad = ["std", fn, i, n, bad_use(vi), True]
    elif kind == "nested":
        # the index of a loop around is used directly, the inner one is not
        bad = ["arr", [j], [n], ["arr", [i], [n], ["bin", "*", ["get", a, [["v", j]]], bad_use(vi)], True], ch.chance(50)]
    else:
        bad = ["arr", [i], [n], ["rec", "t", [["0", ["get", a, [["lit", "i", 0]]]], ["1", bad_use(vi)]]], True]
        bad = ["proj", ["get", bad, [["lit", "i", 0]]], ch.pick(["0", "1"])]
    r = ch.int(0, 4)
    x, y = g.fresh("s"), g.fresh("i")
    if r == 1:
        bad = ["let", x, bad, bad]
    elif r == 2:
        bad = ["arr", [y], [["lit", "i", ch.int(1, 3)]], bad, False]
    elif r == 3:
        bad = ["let", x, ["arr", [y], [n], ["bin", "+", ["get", a, [["v", y]]], ["lit", "f", 1.0]], True], bad]
    return dict(inputs=g.inputs, dims={}, expr=bad, kind=kind)


class C09(ProgramCheck):
    id = "C09"
    title = "Inferred sizes agree with the arrays that are indexed"
    cases = {"quick": 520, "thorough": 4000}
    profiles = [
        (6, "inferred", dict(shape=inferred)),
        (3, "inferred-records", dict(shape=inferred, w_rec=12, w_let=8)),
        (3, "default", dict(infer=100, fuel=(4, 20))),
        (2, "indexing", {**INDEXING, "infer": 100, "w_idx": 2}),
    ]
    rule = (
        "a case is a program with comprehensions, folds or library combinators whose size is "
        "left out (evaluated as written and with all sizes given), or one whose size cannot be "
        "inferred; non-trivial: at least one size is left out, and a loop iteration runs"
    )

    def draw(self, ch):
        if ch.chance(25):
            return dict(prog=uninferrable(ch), uninferrable=True, backends=["numpy"])
        return super().draw(ch)

    def draw_backends(self, ch):
        return draw_some_backends(ch, 30, 40, 3)

    def run(self, case):
        prog = case["prog"]
        labels = shape_labels(prog)
        if case.get("uninferrable"):
            attempt("building with sizes given", lambda: B.build(prog, force_infer=False))
            expect_error(
                "leaving out a size that cannot be inferred",
                (ValueError,),
                lambda: B.build(prog),
            )
            return labels | {"uninferrable", "uninferrable " + prog["kind"], "nontrivial"}
        if "inferred size" not in labels:
            raise Skip("no inferred size")
        r, T, v = evaluate_ref(prog)
        p = attempt("building the program", lambda: B.build(prog))
        q = attempt("building with sizes given", lambda: B.build(prog, force_infer=False))
        for bk in case["backends"]:
            labels.add(bk)
            got = attempt(f"evaluating with {bk}", lambda: p.eval(bk))
            compare(f"{bk}, sizes inferred", T, v, prog["dims"], got)
        got = attempt("evaluating with sizes given", lambda: q.eval("numpy"))
        compare("numpy, sizes given", T, v, prog["dims"], got)
        if r.steps:
            labels.add("nontrivial")
        return labels

    def nontrivial(self, case, labels):
        return "nontrivial" in labels

    def reduce(self, case, fails, seconds):
        # reducing must not turn an uninferrable program into an inferrable one
        return case if case.get("uninferrable") else super().reduce(case, fails, seconds)


CHECKS = [C09]
