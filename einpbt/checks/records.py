"""C08: records keep their structure and their fields are independent."""
import ein

from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import Violation, attempt
from .programs import RECORDS, ProgramCheck, compare, draw_some_backends, shape_labels


def structure(T, x, at="result"):
    """Is the Python value x what a value of type T looks like?"""
    if T[0] == "v":
        if not isinstance(x, ein.Vec):
            raise Violation(f"{at} is a {type(x).__name__}, expected Vec")
        structure(T[2], x[0], at + "[0]")
        return
    if T[0] != "r":
        if not isinstance(x, (ein.Scalar, bool, int, float)):
            raise Violation(f"{at} is a {type(x).__name__}, expected Scalar")
        return
    _, kind, fields = T
    names = [n for n, _ in fields]
    if kind == "t":
        if type(x) not in (tuple, list) or len(x) != len(names):
            raise Violation(f"{at} is {type(x).__name__}, expected a {len(names)}-tuple")
    elif kind == "d":
        if type(x) is not dict or list(x) != names:
            raise Violation(
                f"{at} is {type(x).__name__} {list(x) if isinstance(x, dict) else ''}, "
                f"expected a dict with keys {names}"
            )
    else:
        if type(x) is not B.record_class(tuple(names)):
            raise Violation(f"{at} is a {type(x).__name__}, expected a dataclass {names}")
    for n, t in fields:
        structure(t, field(x, n), f"{at}.{n}")


def field(x, n):
    if isinstance(x, (tuple, list)):
        return x[int(n)]
    if isinstance(x, dict):
        return x[n]
    return getattr(x, n)


def leaves(T, path=()):
    if T[0] == "v":
        yield from leaves(T[2], (*path, None))
    elif T[0] == "r":
        for n, t in T[2]:
            yield from leaves(t, (*path, n))
    else:
        yield path


def leaf_type(T, path):
    if not path:
        return T
    if path[0] is None:
        return ("v", T[1], leaf_type(T[2], path[1:]))
    return leaf_type(dict(T[2])[path[0]], path[1:])


def leaf_value(T, v, path):
    if not path:
        return v
    if path[0] is None:
        return [leaf_value(T[2], x, path[1:]) for x in v]
    k = [n for n, _ in T[2]].index(path[0])
    return leaf_value(T[2][k][1], v[k], path[1:])


def leaf_of(T, x, path, infer):
    """The array of one field, through comprehensions over the axes around it."""
    if not any(p is not None for p in path):
        return ein.wrap(x) if isinstance(x, (bool, int, float)) else x
    if path[0] is None:
        at = lambda i: leaf_of(T[2], x[i], path[1:], infer)  # noqa
        if infer or not isinstance(T[1], int):
            return ein.array(at)
        return ein.array(at, size=T[1])
    return leaf_of(dict(T[2])[path[0]], field(x, path[0]), path[1:], infer)


class C08(ProgramCheck):
    id = "C08"
    title = "Records keep their structure and their fields are independent"
    cases = {"quick": 300, "thorough": 4000}
    cpu = 4
    profiles = [
        (4, "records", {**RECORDS, "fuel": (3, 11), "loopdepth": 2, "rec_depth": 2}),
        (2, "record-loops", {**RECORDS, "w_fold": 14, "w_red": 10, "fuel": (3, 10), "loopdepth": 2, "rec_depth": 2}),
        (2, "deep-types", {**RECORDS, "fuel": (2, 6), "loopdepth": 1, "w_fold": 3}),
        (1, "default", dict(fuel=(4, 14), loopdepth=2)),
    ]
    rule = (
        "a case is a program whose result is a record, or an array of records, that passed "
        "through at least one construct (loop, indexing, conditional, reduction, concatenation); "
        "non-trivial: at least one field has an element with a defined value and at least one "
        "loop iteration runs"
    )

    def draw(self, ch):
        name, prof = ch.weighted([(w, (n, p)) for w, n, p in self.profiles])
        g = G.Gen(ch, **{"arg": 25, **prof})
        g.fuel = ch.int(*g.p["fuel"])
        for _ in range(ch.int(1, 3)):
            g.add_input()
        root = ch.weighted(
            [(4, "fold"), (4, "get"), (2, "where"), (4, "arr"), (2, "red"), (1, "orempty"),
             (2, "cat"), (2, "foldarr"), (4, "mix"), (1, "slice"), (2, "gen")]
        )  # fmt: skip
        S = g.rec_type()
        d = g.newdim() or 1

        if root == "fold":
            e = g.fold(S)
        elif root == "get":
            e = ["get", g.gen(("v", d, S)), [g.index(d)]]
        elif root == "mix":
            e = g.arr(("v", d, S), g.mix) if ch.chance(40) else g.mix(S)
        elif root == "where":
            e = ["where", g.gen(R.B), g.gen(S), g.gen(S)]
        elif root == "red":
            nm, Ts, mk = ch.pick([m for m in G.MONOIDS if m[0] not in ("simple", "cond")])
            S, ident, op, _ = mk(g, ch.pick([t for t in Ts if t != R.B]))
            v = g.arr(("v", ch.int(0, 7), S), g.gen)
            x, y = g.fresh("x"), g.fresh("y")
            e = ["red", v, ident, x, y, op(["v", x], ["v", y])]
        elif root == "orempty":
            n = ch.int(0, 2)
            e = ["orempty", g.gen(("v", n, S)), g.index(n), g.gen(S)]
        elif root == "cat":
            n = ch.int(0, 3)
            e = ["cat", [g.gen(("v", d, S)), g.gen(("v", n, S))]]
        elif root == "foldarr":
            e = g.fold(("v", d, S))
        elif root == "slice":
            m = g.newdim() or 1
            e = ["get", g.gen(("v", m, ("v", d, S))), ch.pick([[None, g.index(d)], [g.index(m), None], [None, None]])]
        elif root == "arr":
            T = S
            for _ in range(ch.int(1, 3)):
                T = ("v", g.newdim(), T)
            e = g.arr(T, g.gen)
        else:
            e = g.gen(S)
        prog = dict(inputs=g.inputs, dims={}, expr=e)
        return dict(
            prog=prog, profile=name, root=root, pick=ch.int(0, 11),
            backends=draw_some_backends(ch, 40, 40, 3),
        )  # fmt: skip

    def run(self, case):
        prog = case["prog"]
        r = R.Ref(prog)
        T, v = r.run()
        labels = shape_labels(prog)
        labels.add("root " + case.get("root", "?"))
        box = []

        def make(*args):
            it = iter(args)
            vals = [
                next(it) if s.get("mode") == "arg" else ein.wrap(B.input_array(s, {}))
                for s in prog["inputs"]
            ]
            box.append(B.Builder(vals).go(prog["expr"], {}))
            return ein.wrap(0.0)

        specs = [s for s in prog["inputs"] if s.get("mode") == "arg"]
        types = [ein.ndarray_type(len(s["dims"]), B.KINDS[s["kind"]]) for s in specs]
        vars_, _ = attempt("building the program", lambda: ein.with_varargs(types, make))
        env = dict(zip(vars_, [B.input_array(s, {}) for s in specs]))
        (x,) = box
        attempt("taking the record apart", lambda: structure(T, x))
        paths = list(leaves(T))
        stride = -(-len(paths) // 3)
        defined = False
        for k, path in enumerate(paths):
            if (k + case["pick"]) % stride:
                continue
            Tl, vl = leaf_type(T, path), leaf_value(T, v, path)
            where = ".".join("[]" if p is None else p for p in path)
            a = attempt(f"taking field {where}", lambda: leaf_of(T, x, path, case["pick"] % 2))
            for bk in case["backends"]:
                labels.add(bk)
                got = attempt(
                    f"evaluating field {where} with {bk}",
                    lambda: B.to_numpy(a.eval(env=env, backend=bk)),
                )
                try:
                    compare(bk, Tl, vl, prog["dims"], got)
                except Violation as e:
                    raise Violation(f"field {where}: {e}") from None
            defined |= any(q is not R.POISON for q in R.flatten(vl))
        if defined and r.steps:
            labels.add("nontrivial")
        return labels

    def nontrivial(self, case, labels):
        return "nontrivial" in labels


CHECKS = [C08]
