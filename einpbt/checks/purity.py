"""C13: evaluation is a pure function of element values."""
import contextlib
import copy
import io

import numpy

from .. import build as B
from .. import gen as G
from .. import ref as R
from .. import shapes as S
from ..core import Check, Violation, attempt
from ..reduce import reduce as ast_reduce
from .programs import FOLDS, INDEXING, SUMS, compare, shape_labels

LAYOUTS = ["C", "F", "stride", "offset", "neg", "readonly", "perm", "bcast", "tensor", "grad"]


def lay_out(a, layout):
    """-> (array with the elements of a, the buffer that backs it)"""
    if layout == "bcast" and a.size and (a == a.flat[0]).all():
        buf = numpy.array(a.flat[0])
        return numpy.broadcast_to(buf, a.shape), buf
    if a.ndim == 0:
        buf = numpy.array([a, a], dtype=a.dtype)
        return buf[1:2].reshape(()), buf
    if layout == "F":
        buf = numpy.array(a, order="F")
        return buf, buf
    if layout == "stride":
        buf = numpy.zeros([2 * d + 1 for d in a.shape], a.dtype)
        view = buf[tuple(slice(1, 2 * d + 1, 2) for d in a.shape)]
        view[...] = a
        return view, buf
    if layout == "offset":
        buf = numpy.ones([d + 3 for d in a.shape], a.dtype)
        view = buf[tuple(slice(1, d + 1) for d in a.shape)]
        view[...] = a
        return view, buf
    if layout == "neg":
        buf = numpy.array(a[(slice(None, None, -1),) * a.ndim], order="C")
        return buf[(slice(None, None, -1),) * a.ndim], buf
    if layout == "perm":
        perm = (*range(1, a.ndim), 0)
        back = tuple(numpy.argsort(perm))
        buf = numpy.array(a.transpose(perm), order="C")
        return buf.transpose(back), buf
    buf = numpy.array(a, order="C")
    if layout == "readonly":
        buf.flags.writeable = False
    return buf, buf


class Input:
    def __init__(self, spec, dims, layout, mode):
        self.layout = layout
        self.spec, self.dims = spec, dims
        self.array, self.buf = lay_out(B.input_array(spec, dims), layout)
        self.mode = mode
        self.tensor = None
        self.freeze()

    def as_tensor(self):
        """The same elements, in the same memory, as a tensor."""
        import torch

        if self.tensor is None:
            self.tensor = torch.from_numpy(self.array)
            if self.layout == "grad" and self.tensor.dtype.is_floating_point:
                self.tensor.requires_grad_(True)
        return self.tensor

    def freeze(self):
        self.bytes = self.buf.tobytes()
        self.meta = (self.array.shape, self.array.strides, self.array.dtype,
                     self.array.flags.writeable)  # fmt: skip

    def check(self, what):
        if self.buf.tobytes() != self.bytes:
            raise Violation(f"{what} changed the memory of an input ({self.layout})")
        now = (self.array.shape, self.array.strides, self.array.dtype,
               self.array.flags.writeable)  # fmt: skip
        if now != self.meta:
            raise Violation(f"{what} changed the header of an input ({self.layout})")
        if self.tensor is not None and tuple(self.tensor.shape) != self.array.shape:
            raise Violation(f"{what} changed the shape of an input tensor")

    def overwrite(self, spec):
        self.spec = spec
        with_grad = self.tensor is not None and self.tensor.requires_grad
        self.array[...] = B.input_array(spec, self.dims)
        if with_grad:
            self.tensor = None
        self.freeze()


def scribble(spec, salt):
    """Other elements for the same input."""
    data = spec["data"]
    if spec["kind"] == "b":
        return {**spec, "data": [not x for x in data]}
    step = 0.5 if spec["kind"] == "f" else 1
    return {**spec, "data": [x + step * ((i + salt) % 3) for i, x in enumerate(data)]}


INPLACE = dict(
    w_arith=25, w_where=6, w_fold=6, w_get=10, w_let=8, w_rec=1, w_red=1, fuel=(4, 20), outrank=2,
    dims=(0, 5), w_slice=5,
)  # fmt: skip


class C13(Check):
    id = "C13"
    title = "Evaluation is a pure function of element values"
    cases = {"quick": 450, "thorough": 4000}
    profiles = [
        (4, "elementwise", INPLACE),
        (2, "clips", dict(shape=S.clips)),
        (2, "indexing", {**INDEXING, "fuel": (3, 14)}),
        (2, "folds", {**FOLDS, "fuel": (4, 16)}),
        (1, "sums", {**SUMS, "fuel": (5, 18)}),
        (1, "default", dict(fuel=(4, 18))),
    ]
    rule = (
        "a case is a history: evaluations of one or two programs over shared input arrays laid out in "
        "memory in various ways, on various backends, and overwriting of argument arrays in between; "
        "non-trivial: some program has at least one executed loop iteration and at least two evaluations ran"
    )
    assumptions = (
        "a result may share memory with an input, so results are compared until the caller overwrites an input",
    )

    def draw(self, ch):
        name, prof = ch.weighted([(w, (n, p)) for w, n, p in self.profiles])
        prof = dict(prof)
        jax = ch.chance(7)
        shape = prof.pop("shape", None)
        if shape is not None:
            prog = shape(ch, **prof)
            exprs = [prog["expr"]]
        else:
            if jax:
                prof["static"] = True
            g = G.Gen(ch, **{**prof, "arg": 50})
            prog = g.program()
            exprs = [prog["expr"]]
            if ch.chance(40):
                g.fuel = ch.int(3, 12)
                exprs.append(g.gen(g.out_type()))
        inputs = []
        for s in prog["inputs"]:
            s = dict(s)
            lay = ch.pick(LAYOUTS)
            if lay == "bcast":
                s["data"] = s["data"][:1] * 64
            inputs.append({**s, "layout": lay})
        steps = []
        for _ in range(ch.int(2, 6)):
            if ch.chance(15):
                steps.append(["overwrite", ch.int(0, max(len(inputs) - 1, 0)), ch.int(1, 3)])
            else:
                bk = ch.weighted([(6, "numpy"), (4, "torch"), (2, "naive"), (2 if jax else 0, "jax")])
                steps.append(["eval", ch.int(0, len(exprs) - 1), bk, int(ch.chance(30))])
        return dict(inputs=inputs, dims=prog["dims"], exprs=exprs, steps=steps, profile=name)

    def run(self, case):
        dims = case["dims"]
        specs = copy.deepcopy(case["inputs"])
        labels = {"profile " + case["profile"]}
        ins = [Input(s, dims, s["layout"], s.get("mode", "const")) for s in specs]
        labels.update("layout " + i.layout for i in ins)

        def prog_of(k):
            return dict(inputs=[i.spec for i in ins], dims=dims, expr=case["exprs"][k])

        def expected(k):
            r = R.Ref(prog_of(k))
            T, v = r.run()
            if R.has_rec(T):
                raise R.Skip("record result")
            if r.steps:
                labels.add("looped")
            return T, v

        built = {}
        results = []  # (what, array, bytes)
        evals = 0

        def guard(what):
            for i in ins:
                i.check(what)
            for w, a, b in results:
                if a.tobytes() != b:
                    raise Violation(f"{what} changed the result of {w}")

        want = {}
        for n, step in enumerate(case["steps"]):
            if step[0] == "overwrite":
                i = ins[step[1]] if ins else None
                # constants are part of the program; arguments belong to the caller
                if i is None or i.mode == "const" or not i.array.flags.writeable:
                    continue
                i.overwrite(scribble(i.spec, step[2]))
                results.clear()  # these may be views of the input
                want.clear()
                labels.add("overwritten argument")
                continue
            _, k, bk, again = step
            if k not in want:
                want[k] = expected(k)
            T, v = want[k]
            if again or k not in built:
                arrays = [i.array for i in ins]
                built[k] = attempt(
                    "building the program", lambda: B.build(prog_of(k), arrays=arrays)
                )
                guard("building a program")
            p = built[k]
            env = dict(p.env)
            if bk == "torch":
                by_id = {id(i.array): i for i in ins if i.layout in ("tensor", "grad")}
                for var, a in list(env.items()):
                    if id(a) in by_id:
                        env[var] = by_id[id(a)].as_tensor()
                        labels.add("tensor argument")
            what = f"evaluation {n} ({bk})"
            keys = dict(env)

            def go():
                if p.out is not None:
                    return B.to_numpy(p.out.eval(env=env, backend=bk))
                return B.to_numpy(
                    {
                        "naive": B.ein.interpret_with_naive,
                        "numpy": B.ein.interpret_with_numpy,
                        "torch": B.ein.interpret_with_torch,
                        "jax": B.ein.interpret_with_jax,
                    }[bk](p.expr, env)
                )

            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                got = attempt(what, go)
            if said.getvalue():
                raise Violation(f"{what} printed {said.getvalue()[:80]!r}")
            guard(what)
            if set(env) != set(keys) or any(env[x] is not keys[x] for x in keys):
                raise Violation(f"{what} changed the caller's environment")
            try:
                compare(bk, T, v, dims, got)
            except Violation as e:
                lays = ",".join(f"{i.layout}" for i in ins)
                raise Violation(f"{what} with layouts {lays}: {e}") from None
            results.append((what, got, got.tobytes()))
            labels.add(bk)
            evals += 1
        labels |= shape_labels(dict(inputs=case["inputs"], dims=dims, expr=case["exprs"][0]))
        if evals >= 2 and "looped" in labels:
            labels.add("nontrivial")
        return labels

    def reduce(self, case, fails, seconds):
        for k in reversed(range(len(case["steps"]))):
            c = {**case, "steps": case["steps"][:k] + case["steps"][k + 1 :]}
            if fails(c):
                case = c
        for k, s in enumerate(case["inputs"]):
            for lay in ("C", "readonly", "F"):
                ins = list(case["inputs"])
                if ins[k]["layout"] == "C":
                    break
                ins[k] = {**ins[k], "layout": lay}
                if fails({**case, "inputs": ins}):
                    case = {**case, "inputs": ins}
                    break
        if len(case["exprs"]) == 2:
            for k in (0, 1):
                steps = [
                    s if s[0] != "eval" else ["eval", 0, *s[2:]]
                    for s in case["steps"]
                    if s[0] != "eval" or s[1] == k
                ]
                c = {**case, "exprs": [case["exprs"][k]], "steps": steps}
                if fails(c):
                    case = c
                    break
        if len(case["exprs"]) == 1:
            prog = dict(inputs=case["inputs"], dims=case["dims"], expr=case["exprs"][0])
            back = lambda p: {**case, "inputs": p["inputs"], "dims": p["dims"], "exprs": [p["expr"]]}  # noqa

            def ok(p):
                # the history refers to inputs by position
                if len(p["inputs"]) != len(case["inputs"]):
                    return False
                return fails(back(p))

            prog, _ = ast_reduce(prog, ok, seconds)
            case = back(prog)
        return case


CHECKS = [C13]
