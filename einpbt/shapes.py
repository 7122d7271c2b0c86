"""Targeted program shapes: small programs dense in one construct.

They use the same AST, reference and builder as the grammar in gen.py, which reaches these
combinations too, but rarely."""
from . import ref as R
from .gen import Gen
from .ref import F, I


def clip_chain(ch, base, dim, extra=()):
    """An index expression made of shifts and bounds around a base."""
    node = base
    for _ in range(ch.int(0, 4)):
        op = ch.pick(["min", "max", "+", "-", "min", "max"])
        if extra and ch.chance(15):
            other = ch.pick(list(extra))
        else:
            other = ["lit", "i", ch.int(0, dim + 2) if ch.chance(75) else -ch.int(1, 3)]
        if ch.chance(25):
            node = ["bin", op, other, node]
        else:
            node = ["bin", op, node, other]
    return node


def clips(ch, **profile):
    """array(lambda i, j, ...: a[chain(i), chain(j)]), in several surroundings."""
    g = Gen(ch, **{"arg": 30, **profile})
    rank = ch.weighted([(4, 1), (4, 2), (2, 3)])
    kind = ch.weighted([(4, "f"), (2, "i"), (1, "b")])
    dims = [ch.int(1, 6) for _ in range(rank)]
    k = g.add_input(kind, dims)
    static = g.p["static"]
    extra = [["size", ["in", k], a] for a in range(rank)]
    if ch.chance(40):
        m = g.add_input("i", [])
        if not static or ch.chance(30):
            extra.append(["in", m])
    target = ["in", k]
    T = (kind,)
    for d in reversed(dims):
        T = ("v", d, T)
    loopvars = []
    fold = ch.chance(25)
    if fold:
        loopvars.append("k0")
        if not static or ch.chance(50):
            extra.append(["v", "k0"])
    n = ch.weighted([(5, rank), (2, max(rank - 1, 1)), (1, rank + 1)])
    names = [f"i{a}" for a in range(n)]
    sizes = []
    for a in range(n):
        r = ch.int(0, 4)
        if r < 2 and a < rank:
            sizes.append(["size", ["in", k], a])
        else:
            sizes.append(["lit", "i", ch.int(0, 7)])
    r = ch.int(0, 9)
    if r < 2:
        # a computed target
        js = [f"j{a}" for a in range(rank)]
        at = [["v", j] for j in js]
        if ch.chance(40):
            at.reverse()
            shape = [["size", ["in", k], rank - 1 - a] for a in range(rank)]
        else:
            shape = [["size", ["in", k], a] for a in range(rank)]
        e = ["get", ["in", k], at]
        if kind != "b" and ch.chance(60):
            e = ["bin", "+", e, ["lit", kind, ch.int(0, 3)]]
        target = ["let", "t0", ["arr", js, shape, e, ch.chance(50)], None]
    ids = []
    for a in range(rank):
        q = ch.int(0, 9)
        if q < 7:
            base = ["v", names[a % n]]
        elif q == 7:
            base = ["v", ch.pick(names)]
        elif q == 8 and loopvars:
            base = ["v", loopvars[0]]
        else:
            base = ["lit", "i", ch.int(-1, dims[a])]
        ids.append(clip_chain(ch, base, dims[a], extra))
    let, target = target, ["v", "t0"] if target[0] == "let" else target
    if len(ids) > 1 and ch.chance(30):
        body = target
        for i in ids:
            body = ["get", body, [i]]
    else:
        body = ["get", target, ids]
    q = ch.int(0, 9)
    if q == 0 and kind in "fi":
        body = ["bin", ch.pick(["+", "*", "-"]), body, ["get", target, [clip_chain(ch, ["v", ch.pick(names)], d, extra) for d in dims]]]
    elif q == 1 and kind == "f":
        body = ["bin", "*", ["un", "float", ["v", names[0]]], body]
    elif q == 2:
        body = ["where", ["bin", "<", ["v", names[0]], ["lit", "i", 2]], body, ["get", target, [clip_chain(ch, ["v", names[-1]], d) for d in dims]]]
    if fold and kind in "fi":
        # the fold outside of, or inside, the comprehension
        if ch.chance(50):
            body = ["fold", "k0", "acc", ["lit", "i", ch.int(0, 4)], ["lit", kind, 0], ["bin", ch.pick(["+", "max", "-"]), ["v", "acc"], body], False]
            expr = ["arr", names, sizes, body, False]
        else:
            # (names are unique in a program)
            arr = ["arr", names, sizes, body, False]
            out = [f"o{a}" for a in range(n)]
            acc = ["get", ["v", "acc"], [["v", x] for x in out]]
            step = ["arr", out, sizes, ["bin", "+", acc, ["get", arr, [["v", x] for x in out]]], False]
            zero = ["arr", [f"z{a}" for a in range(n)], sizes, ["lit", kind, 0], False]
            expr = ["fold", "k0", "acc", ["lit", "i", ch.int(0, 3)], zero, step, False]
    else:
        if fold:
            body = ["fold", "k0", "acc", ["lit", "i", ch.int(0, 3)], ["lit", "b", False], ["bin", "|", ["v", "acc"], body], False]
        expr = ["arr", names, sizes, body, False]
    if let[0] == "let":
        expr = [*let[:3], expr]
    return dict(inputs=g.inputs, dims={}, expr=expr)


def growing(ch, **profile):
    """Folds over arrays whose size may change, read next to arrays of other sizes."""
    g = Gen(ch, **{"arg": 40, **profile})
    n = ch.int(1, 3)
    for _ in range(n):
        g.add_input("f" if ch.chance(80) else "i", [ch.int(1, 5) for _ in range(ch.weighted([(5, 1), (2, 2)]))])
    vecs = [k for k, s in enumerate(g.inputs) if len(s["dims"]) == 1 and s["kind"] == "f"]
    if not vecs:
        vecs = [g.add_input("f", [ch.int(1, 5)])]
    scope = []  # vectors of floats

    def fresh(p):
        return g.fresh(p)

    def vec():
        if scope and ch.chance(65):
            return ["v", ch.pick(scope)]
        return ["in", ch.pick(vecs)]

    def size():
        r = ch.int(0, 9)
        if r < 5:
            return ["size", vec(), 0]
        if r < 7:
            return ["bin", "+", ["size", vec(), 0], ["lit", "i", 1]]
        if r < 8:
            return ["bin", "max", ["bin", "-", ["size", vec(), 0], ["lit", "i", 1]], ["lit", "i", 1]]
        if r < 9:
            return ["bin", ch.pick(["min", "max"]), ["size", vec(), 0], ["size", vec(), 0]]
        return ["lit", "i", ch.int(1, 6)]

    def scalar(idx, depth):
        """A float at the loop variables idx."""
        r = ch.int(0, 9)
        if depth <= 0 or r < 5:
            i = ["v", ch.pick(idx)] if idx and ch.chance(90) else ["lit", "i", ch.int(0, 5)]
            q = ch.int(0, 9)
            if q == 0:
                i = ["bin", ch.pick(["+", "-"]), i, ["lit", "i", ch.int(0, 2)]]
            elif q == 1:
                i = ["bin", "-", size(), i]
            return ["get", vec(), [i]]
        if r < 8:
            return ["bin", ch.pick(["+", "-", "*", "max"]), scalar(idx, depth - 1), scalar(idx, depth - 1)]
        k, acc = fresh("k"), fresh("a")
        body = ["bin", "+", ["v", acc], scalar([*idx, k], depth - 1)]
        return ["fold", k, acc, size(), ["lit", "f", 0.0], body, False]

    def vector(depth, extra=()):
        r = ch.int(0, 11)
        if depth <= 0 or r < 1:
            return vec()
        if r < 5:
            i = fresh("i")
            sz = size()
            return ["arr", [i], [sz], scalar([i, *extra], 2), False]
        if r < 7:
            a = vector(depth - 1, extra)
            j = fresh("i")
            b = ["arr", [j], [["lit", "i", ch.int(1, 2)]], scalar([j], 1), False]
            return ["cat", [a, b] if ch.chance(60) else [b, a]]
        if r < 10:
            init = vector(depth - 1, extra)
            let = ch.chance(50)
            if let:
                nm = fresh("s")
                scope.append(nm)
            k, acc = fresh("k"), fresh("acc")
            scope.append(acc)
            body = vector(depth - 1, (*extra, k))
            scope.remove(acc)
            count = ["lit", "i", ch.int(0, 3)] if ch.chance(70) else size()
            f = ["fold", k, acc, count, ["v", nm] if let else init, body, False]
            if let:
                scope.remove(nm)
                return ["let", nm, init, f]
            return f
        nm = fresh("s")
        bind = vector(depth - 1, extra)
        scope.append(nm)
        out = vector(depth - 1, extra)
        scope.remove(nm)
        return ["let", nm, bind, out]

    # name a few vectors, then read several of them along one index
    lets = []
    for _ in range(ch.int(1, 2)):
        e = vector(3)
        nm = fresh("s")
        lets.append((nm, e))
        scope.append(nm)
    r = ch.int(0, 3)
    if r < 2:
        i = fresh("i")
        expr = ["arr", [i], [size()], scalar([i], 3), False]
    elif r == 2:
        i, j = fresh("i"), fresh("i")
        expr = ["arr", [i, j], [size(), size()], scalar([i, j], 3), False]
    else:
        expr = vector(2)
    for nm, e in reversed(lets):
        expr = ["let", nm, e, expr]
    return dict(inputs=g.inputs, dims={}, expr=expr)
