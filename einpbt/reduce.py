"""AST-level reduction of a failing program: greedy, bounded by time.

`fails(prog)` must return True only for a well-typed program inside the oracle's domain
on which the property fails, so a reduction can never leave the property's domain."""
import copy
import time

from . import ref as R


def children(node):
    """(path) of every sub-node of an AST node."""
    out = []

    def go(n, path):
        if isinstance(n, list) and n and n[0] == "red":
            # the operation and identity stay as they are: they form a monoid together
            out.append(path)
            go(n[1], (*path, 1))
            return
        if isinstance(n, list) and n and isinstance(n[0], str) and hasattr(
            R.Ref, "c_" + n[0]
        ):
            out.append(path)
        if isinstance(n, list):
            for k, x in enumerate(n):
                go(x, (*path, k))

    go(node, ())
    return out


def at(node, path):
    for k in path:
        node = node[k]
    return node


def put(node, path, new):
    if not path:
        return new
    res = list(node)
    res[path[0]] = put(node[path[0]], path[1:], new)
    return res


def weight(prog):
    def go(n):
        if isinstance(n, list):
            return 1 + sum(go(x) for x in n)
        return 1

    w = 10 * go(prog["expr"]) + sum(
        len(s["dims"]) * 3 + sum(d for d in s["dims"] if isinstance(d, int))
        for s in prog["inputs"]
    )
    return w + 5 * len(prog["inputs"]) + sum(prog["dims"].values())


SIMPLE = [
    ["lit", "i", 0], ["lit", "i", 1], ["lit", "f", 0.0], ["lit", "f", 1.0],
    ["lit", "b", False], ["lit", "b", True],
]  # fmt: skip


def candidates(prog):
    e = prog["expr"]
    paths = children(e)
    # replace a node by one of its descendants, biggest nodes first
    for p in paths:
        n = at(e, p)
        subs = [q for q in children(n) if q]
        for q in subs[:12]:
            yield {**prog, "expr": put(e, p, at(n, q))}
        if n[0] != "lit":
            for s in SIMPLE:
                yield {**prog, "expr": put(e, p, s)}
        if n[0] == "arr" and n[4]:
            yield {**prog, "expr": put(e, (*p, 4), False)}
        if n[0] == "fold" and n[6]:
            yield {**prog, "expr": put(e, (*p, 6), False)}
        if n[0] == "std" and n[5]:
            yield {**prog, "expr": put(e, (*p, 5), False)}
        if n[0] == "rec" and len(n[2]) > 1:
            for k in range(len(n[2])):
                yield {
                    **prog,
                    "expr": put(e, p, [n[0], n[1], n[2][:k] + n[2][k + 1 :]]),
                }
        if n[0] == "arr" and len(n[1]) > 1:
            for k in range(len(n[1])):
                yield {
                    **prog,
                    "expr": put(
                        e,
                        p,
                        [
                            "arr",
                            n[1][:k] + n[1][k + 1 :],
                            n[2][:k] + n[2][k + 1 :],
                            n[3],
                            n[4],
                        ],
                    ),
                }
        if n[0] == "lit" and n[1] == "i" and n[2] not in (0, 1):
            yield {**prog, "expr": put(e, p, ["lit", "i", n[2] // 2 if n[2] > 0 else 0])}
            yield {**prog, "expr": put(e, p, ["lit", "i", n[2] - 1 if n[2] > 0 else n[2] + 1])}
    used = {at(e, p)[1] for p in paths if at(e, p)[0] == "in"}
    for k in reversed(range(len(prog["inputs"]))):
        if k not in used:
            new = copy.deepcopy(prog)
            del new["inputs"][k]
            for p in children(new["expr"]):
                n = at(new["expr"], p)
                if n[0] == "in" and n[1] > k:
                    n[1] -= 1
            yield new
    for k, s in enumerate(prog["inputs"]):
        for j, d in enumerate(s["dims"]):
            if isinstance(d, int) and d > 0:
                new = copy.deepcopy(prog)
                new["inputs"][k]["dims"][j] = d - 1
                yield new
        if s.get("mode", "const") != "const":
            new = copy.deepcopy(prog)
            new["inputs"][k]["mode"] = "const"
            yield new
    # shrink a size everywhere
    sizes = sorted(
        {d for s in prog["inputs"] for d in s["dims"] if isinstance(d, int) and d > 0}
    )
    for d in sizes:
        new = copy.deepcopy(prog)
        for s in new["inputs"]:
            s["dims"] = [x - 1 if x == d else x for x in s["dims"]]
        for p in children(new["expr"]):
            n = at(new["expr"], p)
            if n[0] == "lit" and n[1] == "i" and n[2] == d:
                n[2] = d - 1
        yield new


def reduce(prog, fails, seconds=30.0):
    """The smallest program found that still fails, and the number of attempts."""
    stop = time.monotonic() + seconds
    tried = 0
    best = prog
    seen = set()
    progress = True
    while progress and time.monotonic() < stop:
        progress = False
        cands = sorted(candidates(best), key=weight)
        w = weight(best)
        for c in cands:
            if time.monotonic() > stop:
                break
            key = repr(c)
            if key in seen or weight(c) > w or (weight(c) == w and key >= repr(best)):
                continue
            seen.add(key)
            tried += 1
            if fails(c):
                best = c
                progress = True
                break
    return best, tried
