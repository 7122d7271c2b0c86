"""Checks that run whole generated programs against the pointful reference."""
from .. import build as B
from .. import gen as G
from .. import ref as R
from .. import shapes as S
from ..core import Check, Skip, Violation, attempt
from ..reduce import reduce as ast_reduce

LOOPS = ("arr", "fold", "red", "std")


def nodes(x):
    """All AST nodes (roughly: lists that start with a tag)."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, list):
            # [name, node] pairs of records may look like nodes
            if (
                n
                and isinstance(n[0], str)
                and hasattr(R.Ref, "c_" + n[0])
                and (len(n) > 2 or n[0] in ("in", "v", "cat"))
            ):
                yield n
            stack.extend(n)


def shape_labels(prog):
    out = set()
    for n in nodes(prog["expr"]):
        t = n[0]
        if t in ("arr", "fold", "red", "cat", "rec", "where", "orempty", "ext", "let"):
            out.add(t)
        elif t == "std":
            out.add(n[1])
        elif t == "get":
            for i in n[2]:
                if i is None:
                    out.add("slice")
                elif i[0] not in ("v", "lit"):
                    out.add("computed index")
        if t == "arr" and n[4] or t == "fold" and n[6] or t == "std" and n[5]:
            out.add("inferred size")
    if any(s.get("mode") == "arg" for s in prog["inputs"]):
        out.add("free variables")
    if any(0 in R.input_shape(s, prog["dims"]) for s in prog["inputs"]):
        out.add("empty input")
    return out


def evaluate_ref(prog, **kw):
    r = R.Ref(prog, **kw)
    T, v = r.run()
    if R.has_rec(T):
        raise Skip("record result")
    return r, T, v


def compare(backend, T, v, dims, got):
    m = R.compare(T, v, dims, got)
    if m:
        raise Violation(f"{backend}: {m}")


def draw_some_backends(ch, torch=40, naive=30, jax=4):
    """numpy, usually with others (the naive interpreter is cheap, JAX is not)."""
    out = ["numpy"]
    if ch.chance(torch):
        out.append("torch")
    if ch.chance(naive):
        out.append("naive")
    if ch.chance(jax):
        out.append("jax")
    return out


def native(backend, a):
    if backend == "torch":
        import torch

        return torch.from_numpy(a)
    import jax.numpy as jnp

    return jnp.asarray(a, dtype=a.dtype)


class ProgramCheck(Check):
    profiles = [(1, "default", {})]
    backends = ("numpy",)
    exts = None
    rule = (
        "a case is a typed program drawn from the grammar with its input arrays; non-trivial: it "
        "executes at least one loop iteration (comprehension, fold or reduction) and its result "
        "has at least one element with a defined value"
    )
    assumptions = (
        "floats: the reference tracks a bound on rounding error for any re-association; "
        "comparisons closer than that bound, overflow, and division near zero are skipped",
        "integers stay within 2**52",
    )

    def draw(self, ch):
        name, prof = ch.weighted([(w, (n, p)) for w, n, p in self.profiles])
        prof = dict(prof)
        backends = self.draw_backends(ch)
        if "jax" in backends:
            prof["static"] = True
        shape = prof.pop("shape", None)
        if shape is not None:
            return dict(prog=shape(ch, **prof), profile=name, backends=backends)
        T = prof.pop("T", None)
        g = G.Gen(ch, **prof)
        prog = g.program(T(g) if T else None)
        return dict(prog=prog, profile=name, backends=backends)

    def draw_backends(self, ch):
        return list(self.backends)

    def run(self, case):
        prog = case["prog"]
        r, T, v = evaluate_ref(prog, exts=self.exts)
        labels = shape_labels(prog)
        labels.add("profile " + case.get("profile", "?"))
        p = attempt("building the program", lambda: B.build(prog, exts=self.exts))
        for bk in case["backends"]:
            labels.add(bk)
            if case.get("native") and bk in ("torch", "jax"):
                # the arrays given as that library's own arrays
                labels.add("native " + bk)
                arrays = [native(bk, B.input_array(s, prog["dims"])) for s in prog["inputs"]]
                q = attempt(f"building the program from {bk} arrays", lambda: B.build(prog, exts=self.exts, arrays=arrays))
            else:
                q = p
            got = attempt(f"evaluating with {bk}", lambda: q.eval(bk))
            compare(bk, T, v, prog["dims"], got)
        if r.steps and any(x is not R.POISON for x in R.flatten(v)):
            labels.add("nontrivial")
        return labels

    def reduce(self, case, fails, seconds):
        prog, _ = ast_reduce(
            case["prog"], lambda p: fails({**case, "prog": p}), seconds
        )
        return {**case, "prog": prog}

    def sample(self, case):
        return case["prog"]


BROAD = [
    (5, "default", {}),
    (2, "small", dict(fuel=(3, 12))),
    (2, "deep", dict(fuel=(20, 45), w_let=6)),
    (1, "plain", dict(w_rec=0, w_red=0, fuel=(4, 24))),
]
WIDE = dict(dims=(0, 40), fuel=(2, 7), outrank=1, maxrank=1, loopdepth=1, scoperank=2)
INDEXING = dict(
    w_get=30, w_idx=9, w_slice=6, w_orempty=4, w_fold=3, w_rec=1, w_red=1, w_std=1,
    w_dot=1, w_trans=1, fuel=(3, 18), dims=(0, 6), outrank=4,
)  # fmt: skip
FOLDS = dict(
    w_fold=25, w_dot=12, w_dyn=6, w_std=8, w_red=0, w_arith=8, w_where=3, fuel=(4, 22), neg_count=6,
    tri=10, vec_acc=80,
)  # fmt: skip
SUMS = dict(
    w_fold=4, w_dot=25, w_dyn=10, row=20, tri=12, w_std=15, w_red=0, w_rec=0, fuel=(6, 26), w_where=1, w_trans=1,
    w_let=2, inputs=(2, 4),
)  # fmt: skip
REDUCTIONS = dict(
    w_red=40, w_fold=2, w_std=6, w_dot=1, fuel=(4, 20), red_len=(0, 40), outrank=2, zero=6,
)  # fmt: skip
RECORDS = dict(
    w_rec=25, w_fold=6, w_let=8, w_red=4, fuel=(5, 24), rec_depth=3, w_dot=0, w_std=1,
)  # fmt: skip
STD = dict(
    w_std=25, w_mm=10, w_cat=10, w_where=10, w_orempty=5, w_red=0, w_fold=2, w_dot=1,
    fuel=(4, 20),
)  # fmt: skip


class C01(ProgramCheck):
    id = "C01"
    title = "NumPy results equal the pointful meaning of the program"
    cases = {"quick": 800, "thorough": 6000}
    profiles = BROAD + [
        (1, "indexing", INDEXING),
        (1, "folds", FOLDS),
        (1, "records", RECORDS),
        (1, "reductions", REDUCTIONS),
        (1, "wide", WIDE),
        (1, "large", dict(big=40, w_dyn=0, w_red=0, w_size=6, fuel=(4, 16))),
    ]


class C02(C01):
    id = "C02"
    title = "PyTorch results equal the pointful meaning of the program"
    backends = ("torch",)

    def draw(self, ch):
        return {**super().draw(ch), "native": ch.chance(30)}


class C03(C01):
    id = "C03"
    title = "JAX results equal the pointful meaning of the program"
    backends = ("jax",)
    cases = {"quick": 200, "thorough": 2500}
    profiles = [(w, n, {"fuel": (3, 18), **p}) for w, n, p in C01.profiles]

    def draw(self, ch):
        return {**super().draw(ch), "native": ch.chance(30)}


class C04(C01):
    id = "C04"
    title = "The naive interpreter computes the pointful meaning of the program"
    backends = ("naive",)
    cases = {"quick": 900, "thorough": 8000}


class Mixed(ProgramCheck):
    cases = {"quick": 520, "thorough": 5000}

    def draw_backends(self, ch):
        return draw_some_backends(ch)


class C05(Mixed):
    id = "C05"
    title = "Indexing reads the element at the clamped position"
    profiles = [
        (8, "clips", dict(shape=S.clips)),
        (6, "indexing", INDEXING),
        (2, "indexing-flat", {**INDEXING, "fuel": (2, 8), "w_let": 0, "w_where": 0}),
        (1, "indexing-in-loops", {**INDEXING, "w_fold": 12, "w_rec": 4}),
        (1, "default", {}),
    ]
    rule = ProgramCheck.rule + ", and it contains an index that is not just a name or literal"

    def nontrivial(self, case, labels):
        return "nontrivial" in labels and bool(
            labels & {"computed index", "slice", "orempty"}
        )


class C06(Mixed):
    id = "C06"
    title = "A fold is the sequential loop over its count"
    profiles = [
        (5, "folds", FOLDS),
        (4, "sums", SUMS),
        (2, "shared", {**SUMS, "w_let": 15, "w_fold": 10, "w_share": 25}),
        (1, "wide", {**WIDE, "w_fold": 25, "w_dot": 12, "w_std": 8}),
        (1, "default", {}),
    ]
    rule = ProgramCheck.rule + ", and it contains a fold"

    def nontrivial(self, case, labels):
        return "nontrivial" in labels and any("fold" in la for la in labels)


class C07(Mixed):
    id = "C07"
    title = "A reduction combines all elements in order"
    profiles = [
        (6, "reductions", REDUCTIONS),
        (2, "long", {**REDUCTIONS, "red_len": (0, 140), "fuel": (3, 10), "outrank": 1}),
        (1, "default", {}),
    ]
    rule = ProgramCheck.rule + ", and it contains a reduction"

    def nontrivial(self, case, labels):
        return "nontrivial" in labels and any("red" in la for la in labels)


class C19(Mixed):
    id = "C19"
    title = "Library combinators mean what their names say"
    profiles = [(6, "std", STD), (1, "default", {})]
    rule = ProgramCheck.rule + ", and it uses a library combinator"

    def nontrivial(self, case, labels):
        return "nontrivial" in labels and any(
            n[0] in ("std", "mm", "cat", "where", "orempty")
            for n in nodes(case["prog"]["expr"])
        )


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C19]
