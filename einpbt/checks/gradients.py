"""C20: automatic differentiation through PyTorch and JAX.

The oracle is numerical: central differences of the elementwise reference at two step sizes.
A direction counts only where they converge to one number from both sides."""
import math

import numpy

import ein

from .. import build as B
from .. import gen as G
from .. import ref as R
from ..core import Skip, Violation, attempt
from .programs import LOOPS, ProgramCheck, compare, evaluate_ref, nodes, shape_labels

H = 2.0**-13
HOWS = ("env", "const", "call", "method", "jax", "jaxjit")
SMOOTH = dict(
    fuel=(4, 18), w_trans=5, w_where=2, w_red=3, w_cat=3, w_slice=3, w_fold=6, w_dot=5, w_std=5,
    w_get=12, w_rec=4, zero=4, dims=(1, 4), arg=100, outrank=2, loopdepth=2, poison=1,
)  # fmt: skip
CHOICES = [
    (4, "smooth", SMOOTH),
    (2, "reads", {**SMOOTH, "w_get": 30, "w_idx": 9, "w_cat": 6, "w_slice": 6, "w_fold": 3}),
    (2, "sums", {**SMOOTH, "w_dot": 25, "w_std": 12, "w_rec": 0, "w_red": 0}),
    (2, "reductions", {**SMOOTH, "w_red": 25, "red_len": (1, 6)}),
    (1, "records", {**SMOOTH, "w_rec": 20, "rec_depth": 2}),
]  # fmt: skip


def floats(prog):
    return [k for k, s in enumerate(prog["inputs"]) if s["kind"] == "f"]


def elements(prog, k):
    return len(R.input_flat(prog["inputs"][k], prog["dims"]))


def perturbed(prog, direction, h):
    """Reference inputs moved by h along a direction {input: [per element]}."""
    vals = []
    for k, s in enumerate(prog["inputs"]):
        flat = R.input_flat(s, prog["dims"])
        if k in direction:
            flat = [x + h * d for x, d in zip(flat, direction[k], strict=True)]
        conv = R.fl if s["kind"] == "f" else (lambda x: x)
        vals.append(R.nest(flat, R.input_shape(s, prog["dims"]), conv))
    return vals


def weights(n, salt):
    """Fixed, different, dyadic weights."""
    return [((7 * i + salt) % 11 - 5) / 4 or 0.5 for i in range(n)]


def loss_of(prog, values, ws, mask):
    r = R.Ref(prog, values=values)
    _, v = r.run()
    flat = R.flatten(v)
    if len(flat) != len(ws) or [x is not R.POISON for x in flat] != mask:
        raise Skip("not smooth")
    return math.fsum(w * x.v for w, x, m in zip(ws, flat, mask) if m)


def rounding(flat, ws, mask):
    """A bound on what rounding can change the weighted sum of the results by."""
    total = 0.0
    for w, x, m in zip(ws, flat, mask):
        if m:
            total += abs(w) * (x.e + R.U * (x.M if math.isfinite(x.M) else abs(x.v)))
    return total


def derivative(prog, direction, ws, mask, at, err):
    """-> (value, tolerance), or Skip where the function is not smooth (enough)."""
    f0 = at
    est = []
    for h in (H, H / 2):
        up = loss_of(prog, perturbed(prog, direction, h), ws, mask)
        down = loss_of(prog, perturbed(prog, direction, -h), ws, mask)
        est.append(((up - down) / (2 * h), (up - f0) / h - (f0 - down) / h))
    (d1, k1), (d2, k2) = est
    scale = 1 + abs(d2) + abs(f0)
    noise = 1e-6 * scale
    if abs(k1) > noise and not abs(k2) < 0.7 * abs(k1):
        raise Skip("not smooth")
    if abs(k2) > 0.2 * scale or abs(d1 - d2) > 1e-4 * scale:
        raise Skip("too curved for the step")
    err *= 8 / H  # both ends of the smaller step
    if err > 1e-4 * scale:
        raise Skip("lost in rounding")
    return d2, 20 * abs(d1 - d2) + 1e-5 * scale + err


def kinky(prog):
    R.Kinks.seen = 0
    R.Ref(prog).run()
    return R.Kinks.seen > 0


def singular(prog):
    """Branches that were not taken may still give infinite or undefined slopes."""
    for n in nodes(prog["expr"]):
        if n[0] in ("fpow", "pow") or n[0] == "un" and n[1] in ("recip", "exp", "log"):
            return True
        if n[0] == "bin" and n[1] in ("/", "%"):
            return True
        if n[0] in ("where", "orempty", "std", "red", "mm"):
            return True
    return False


class C20(ProgramCheck):
    id = "C20"
    title = "Gradients through PyTorch and JAX are derivatives of the program"
    cases = {"quick": 480, "thorough": 5000}
    profiles = CHOICES
    rule = (
        "a case is a typed program with a float result, float inputs to differentiate in, a way of "
        "evaluating it and directions; non-trivial: it executes a loop iteration, and in at least one "
        "direction the numerical derivative converges and is not zero"
    )
    assumptions = (
        *ProgramCheck.assumptions,
        "directions in which central differences do not converge (kinks, ties, steps, strong "
        "curvature) are skipped; non-finite gradients are skipped where the program has a branch or "
        "operation with singular slopes",
    )

    def draw(self, ch):
        name, prof = ch.weighted([(w, (n, p)) for w, n, p in self.profiles])
        how = ch.weighted([(5, "env"), (4, "const"), (4, "call"), (3, "method"), (2, "jax"), (1, "jaxjit")])
        prof = {**prof, "static": how.startswith("jax")}
        if how.startswith("jax"):
            prof["tri"] = 0  # JAX has no reverse derivative of loops with dynamic counts
        if how == "const":
            prof["arg"] = 0
        g = G.Gen(ch, **prof)
        g.add_input(kind="f")
        T = R.F
        for _ in range(ch.int(0, prof["outrank"])):
            T = ("v", g.newdim(), T)
        prog = g.program(T)
        salts = [ch.int(0, 10) for _ in range(2)]
        mask = [ch.chance(75) for _ in prog["inputs"]]
        return dict(prog=prog, profile=name, how=how, salts=salts, wanted=mask)

    # ------------------------------------------------------------- evaluation
    def torch_grads(self, prog, how, wanted, ws, mask, shape):
        import torch

        leaves, args = {}, []
        for k, s in enumerate(prog["inputs"]):
            t = torch.from_numpy(B.input_array(s, prog["dims"]).copy())
            if k in wanted:
                t.requires_grad_(True)
                leaves[k] = t
            args.append(t)
        if how == "const":
            out = B.Builder([ein.wrap(t) for t in args]).go(prog["expr"], {}).torch()
        elif how == "env":
            p = B.build(prog)
            out = ein.interpret_with_torch(p.expr, dict(zip(p.env, args, strict=True)))
        else:
            f = ein.function(lambda *xs: B.Builder(list(xs)).go(prog["expr"], {}))
            out = f(*args) if how == "call" else f.torch(*args)
        if not isinstance(out, torch.Tensor):
            raise Violation(f"torch ({how}) result is a {type(out).__name__}")
        value = out.detach().numpy().copy()
        if value.shape != shape:
            raise Violation(f"torch ({how}) shape {value.shape}, expected {shape}")
        sel = torch.tensor(mask, dtype=torch.bool)
        w = torch.tensor(ws, dtype=out.dtype)
        loss = (out.reshape(-1)[sel] * w[sel]).sum()
        grads = {k: numpy.zeros(t.shape) for k, t in leaves.items()}
        if loss.requires_grad:
            loss.backward()
            for k, t in leaves.items():
                if t.grad is not None:
                    grads[k] = t.grad.numpy().copy()
        return value, grads

    def jax_grads(self, prog, how, wanted, ws, mask, shape):
        import jax
        import jax.numpy as jnp

        arrs = [B.input_array(s, prog["dims"]) for s in prog["inputs"]]
        f = ein.function(lambda *xs: B.Builder(list(xs)).go(prog["expr"], {}))
        idx = numpy.flatnonzero(numpy.array(mask, dtype=bool))
        w = numpy.array(ws)[idx]

        def loss(*xs):
            out = f.jax(*xs)
            return (out.reshape(-1)[idx] * w).sum(), out

        g = jax.value_and_grad(loss, argnums=tuple(wanted), has_aux=True)
        if how == "jaxjit":
            g = jax.jit(g)
        (_, out), grads = g(*[jnp.asarray(a) for a in arrs])
        return numpy.asarray(out), {k: numpy.asarray(d) for k, d in zip(wanted, grads)}

    def run(self, case):
        prog, how = case["prog"], case["how"]
        r, T, v = evaluate_ref(prog)
        if R.leaf(T) != R.F:
            raise Skip("not a float result")
        fs = floats(prog)
        wanted = [k for k in fs if k < len(case["wanted"]) and case["wanted"][k]] or fs
        if not wanted:
            raise Skip("nothing to differentiate in")
        labels = shape_labels(prog) | {"how " + how, "profile " + case.get("profile", "?")}
        flat = R.flatten(v)
        mask = [x is not R.POISON for x in flat]
        if not any(mask):
            raise Skip("no elements")
        if any(m and not math.isfinite(x.v) for x, m in zip(flat, mask)):
            raise Skip("nonfinite")
        ws = weights(len(flat), case["salts"][0])
        at = math.fsum(w * x.v for w, x, m in zip(ws, flat, mask) if m)
        err = rounding(flat, ws, mask)
        shape = R.shape_of(T, v, prog["dims"])
        go = self.jax_grads if how.startswith("jax") else self.torch_grads
        got, grads = attempt(
            f"differentiating with {how}",
            lambda: go(prog, how, wanted, ws, mask, shape),
        )
        compare(how, T, v, prog["dims"], got)
        for k in wanted:
            if grads[k].shape != R.input_shape(prog["inputs"][k], prog["dims"]):
                raise Violation(f"{how}: gradient of input {k} has shape {grads[k].shape}")
            if not numpy.isfinite(grads[k]).all():
                if singular(prog):
                    raise Skip("singular branch")
                raise Violation(f"{how}: gradient of input {k} is not finite")
        salt = case["salts"][1]
        directions = []
        for k in wanted:
            directions.append({k: weights(elements(prog, k), salt + k)})
            n = elements(prog, k)
            if n:
                one = [0.0] * n
                one[salt * 7 % n] = 1.0
                directions.append({k: one})
        done = 0
        for d in directions:
            try:
                want, tol = derivative(prog, d, ws, mask, at, err)
            except Skip:
                labels.add("rough direction")
                continue
            have = sum(float(numpy.dot(grads[k].reshape(-1), dk)) for k, dk in d.items() if dk)
            if not abs(have - want) <= tol:
                if kinky(prog):
                    # the slopes on the two sides may well cancel in this direction
                    labels.add("rough direction")
                    continue
                raise Violation(
                    f"{how}: derivative along {d} is {have!r}, numerically {want!r}"
                )
            done += 1
            if abs(want) > 1e-3 and r.steps:
                labels.add("nontrivial")
        if not done:
            raise Skip("not smooth")
        return labels


CHECKS = [C20]
