"""C17: printed programs determine the program; printing and drawing never fails or disturbs."""
import os
import re
import shutil
import subprocess
import tempfile


from ein import debug

from .. import build as B
from .. import ref as R
from ..core import Skip, Violation, attempt
from .externals import C16, ExtRef, specs, used
from .programs import (
    FOLDS,
    INDEXING,
    RECORDS,
    REDUCTIONS,
    SUMS,
    ProgramCheck,
    compare,
    nodes,
    shape_labels,
)

# ---------------------------------------------------------------- reading back
TOKEN = re.compile(
    r"\s*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:e[+-]?\d+)?|inf\b|nan\b)"
    r"|(?P<sym>[&@?]\d+)|(?P<name>[A-Za-z_]\w*)|(?P<op>=>|[-+*()\[\]{},.:=]))"
)


class Unreadable(Exception):
    pass


class Unknown(Exception):
    """A construct the reader does not know."""


CALLS = {
    "less": ("bin", "<"),
    "lessequal": ("bin", "<="),
    "equal": ("bin", "=="),
    "notequal": ("bin", "!="),
    "logicaland": ("bin", "&"),
    "logicalor": ("bin", "|"),
    "min": ("bin", "min"),
    "max": ("bin", "max"),
    "modulo": ("bin", "%"),
    "logicalnot": ("un", "not"),
    "reciprocal": ("un", "recip"),
    "exp": ("un", "exp"),
    "sin": ("un", "sin"),
    "cos": ("un", "cos"),
    "casttofloat": ("un", "float"),
    "power": ("fpow",),
    "fst": ("proj", "0"),
    "snd": ("proj", "1"),
}


class Reader:
    def __init__(self, text):
        self.toks = []
        pos = 0
        text = text.rstrip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise Unreadable(f"at {text[pos:pos + 30]!r}")
            self.toks.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
        self.toks.append(("end", ""))
        self.i = 0
        self.n = 0
        self.scope = {}  # printed name -> fresh name

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][1]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def eat(self, what):
        _, t = self.next()
        if t != what:
            ctx = " ".join(x for _, x in self.toks[max(0, self.i - 6) : self.i + 3])
            raise Unreadable(f"expected {what!r}, found {t!r} in {ctx!r}")

    def symbol(self):
        kind, t = self.next()
        if kind != "sym":
            raise Unreadable(f"expected a symbol, found {t!r}")
        return t

    def bound(self, names, f):
        old = dict(self.scope)
        fresh = []
        for n in names:
            self.n += 1
            fresh.append(f"x{self.n}")
            self.scope[n] = fresh[-1]
        try:
            return fresh, f()
        finally:
            self.scope = old

    def type(self):
        """Types are not needed."""
        t = self.peek()
        if t == "[":
            self.eat("[")
            self.eat("]")
            return self.type()
        if t == "(":
            self.eat("(")
            self.type()
            while self.peek() == ",":
                self.eat(",")
                self.type()
            self.eat(")")
            return
        kind, t = self.next()
        if kind != "name":
            raise Unreadable(f"expected a type, found {t!r}")

    def program(self):
        e = self.expr()
        if self.toks[self.i][0] != "end":
            raise Unreadable(f"trailing {self.peek()!r}")
        return e

    def expr(self):
        t = self.peek()
        if t == "let":
            self.next()
            v = self.symbol()
            self.eat(":")
            self.type()
            self.eat("=")
            e1 = self.expr()
            self.eat("in")
            (x,), e2 = self.bound([v], self.expr)
            return ["let", x, e1, e2]
        if t == "for":
            self.next()
            v = self.symbol()
            self.eat("[")
            n = self.expr()
            self.eat("]")
            self.eat(".")
            (x,), e = self.bound([v], self.expr)
            return ["arr", [x], [n], e, False]
        if t == "fold":
            self.next()
            k = self.symbol()
            self.eat("[")
            n = self.expr()
            self.eat("]")
            self.eat("init")
            a = self.symbol()
            self.eat(":")
            self.type()
            self.eat("=")
            init = self.expr()
            self.eat("by")
            if self.symbol() != a:
                raise Unreadable("another accumulator")
            self.eat("=>")
            (k, a), e = self.bound([k, a], self.expr)
            return ["fold", k, a, n, init, e, False]
        if t == "if":
            self.next()
            c = self.expr()
            self.eat("then")
            x = self.expr()
            self.eat("else")
            return ["where", c, x, self.expr()]
        if t == "reduce":
            self.next()
            self.eat("[")
            self.eat("id")
            self.eat(":")
            self.type()
            self.eat("=")
            init = self.expr()
            self.eat(",")
            self.eat("(")
            x = self.symbol()
            self.eat(",")
            y = self.symbol()
            self.eat(")")
            self.eat("=>")
            (x, y), e = self.bound([x, y], self.expr)
            self.eat("]")
            return ["redn", self.args(), init, x, y, e]
        a = self.unary()
        op = self.peek()
        if op in ("+", "-", "*"):
            self.next()
            return ["bin", op, a, self.unary()]
        return a

    def unary(self):
        if self.peek() == "-":
            self.next()
            if self.toks[self.i][0] == "num":
                lit = self.number()
                return self.postfix([lit[0], lit[1], -lit[2]])
            return ["un", "neg", self.unary()]
        return self.postfix(self.atom())

    def postfix(self, e):
        while self.peek() == "[":
            self.eat("[")
            i = self.expr()
            self.eat("]")
            e = ["get", e, [i]]
        return e

    def number(self):
        _, t = self.next()
        if t.isdigit():
            return ["lit", "i", int(t)]
        return ["lit", "f", float(t)]

    def args(self):
        self.eat("(")
        out = [self.expr()]
        while self.peek() == ",":
            self.eat(",")
            out.append(self.expr())
        self.eat(")")
        return out

    def atom(self):
        kind, t = self.toks[self.i]
        if kind == "num":
            return self.number()
        if kind == "sym":
            self.next()
            return ["v", self.scope.get(t, t)]
        if t in ("True", "False"):
            self.next()
            return ["lit", "b", t == "True"]
        if t == "(":
            xs = self.args()
            if len(xs) == 1:
                return xs[0]
            if len(xs) == 2:
                return ["rec", "t", [["0", xs[0]], ["1", xs[1]]]]
            raise Unreadable("a tuple of more than two")
        if t == "{":
            self.next()
            first = self.expr()
            while self.peek() == "=":
                self.next()
                self.expr()
            self.eat("}")
            return first
        if t == "[":
            return ["const", self.list()]
        if kind == "name":
            self.next()
            if t == "size":
                self.eat("[")
                _, k = self.next()
                self.eat("]")
                (x,) = self.args()
                return ["size", x, int(k)]
            if t not in CALLS or self.peek() != "(":
                raise Unknown(t)
            xs = self.args()
            how = CALLS[t]
            if how[0] == "bin" and len(xs) == 2:
                return ["bin", how[1], *xs]
            if how[0] == "un" and len(xs) == 1:
                return ["un", how[1], *xs]
            if how[0] == "proj" and len(xs) == 1:
                return ["proj", xs[0], how[1]]
            if how[0] == "fpow" and len(xs) == 2:
                return ["fpow", *xs]
            raise Unreadable(f"{t} of {len(xs)}")
        raise Unreadable(f"unexpected {t!r}")

    def list(self):
        self.eat("[")
        out = []
        while self.peek() != "]":
            if self.peek() == "[":
                out.append(self.list())
            else:
                sign = 1
                if self.peek() == "-":
                    self.next()
                    sign = -1
                if self.peek() in ("True", "False"):
                    out.append(self.next()[1] == "True")
                else:
                    out.append(sign * self.number()[2])
            if self.peek() == ",":
                self.next()
        self.eat("]")
        return out


class ReadRef(R.Ref):
    """The reference over what was read back."""

    def c_const(self, node, tenv):
        x = node[1]
        dims = []
        y = x
        while isinstance(y, list):
            dims.append(len(y))
            if not y:
                raise Skip("empty constant")
            y = y[0]
        k = "b" if isinstance(y, bool) else "i" if isinstance(y, int) else "f"
        T = (k,)
        for d in reversed(dims):
            T = ("v", d, T)

        def conv(z):
            return [conv(w) for w in z] if isinstance(z, list) else (R.fl(z) if k == "f" else z)

        val = conv(x)
        return T, lambda env: val

    def c_redn(self, node, tenv):
        _, vecs, init, x, y, body = node
        cs = [self.comp(v, tenv) for v in vecs]
        Ti, fi = self.comp(init, tenv)
        elems = []
        for T, _ in cs:
            R.need(T[0] == "v", "reduce of non-vector")
            elems.append(T[2])

        def assemble(T, it):
            if T[0] == "r":
                return ("r", T[1], tuple((n, assemble(t, it)) for n, t in T[2]))
            return next(it)

        E = assemble(Ti, iter(elems))
        tenv2 = {**tenv, x: (E, None), y: (E, None)}
        Tb, fb = self.comp(body, tenv2)
        T = self.merge(self.merge(E, Ti), Tb)

        def pack(T, it):
            if T[0] == "r":
                return tuple(pack(t, it) for _, t in T[2])
            return next(it)

        def run(env):
            cols = [f(env) for _, f in cs]
            a = fi(env)
            for row in zip(*cols, strict=True):
                self.tick()
                env[x] = a
                env[y] = pack(E, iter(row))
                a = fb(env)
            return a

        return T, run


def close(a, b):
    """Whether two reference values agree; None if unknown."""
    if a is R.POISON or b is R.POISON:
        return True
    if isinstance(a, R.Fl):
        if not isinstance(b, R.Fl):
            return False
        if a.v != a.v or b.v != b.v:
            return a.v != a.v and b.v != b.v
        if a.v == b.v:
            return True
        return abs(a.v - b.v) <= 64 * (a.e + b.e)
    return type(a) is type(b) and a == b


def canonical(text):
    """Names numbered in order of appearance, white space dropped."""
    seen = {}

    def name(m):
        return f"{m.group()[0]}{seen.setdefault(m.group(), len(seen))}_"

    return re.sub(r"\s+", "", re.sub(r"[&@?]\d+", name, text))


DOT = shutil.which("dot")


def scratch():
    return tempfile.mkdtemp(prefix="einpbt-graph-")


def render(dot, fmt="plain"):
    d = scratch()
    try:
        src = os.path.join(d, "g.dot")
        with open(src, "w") as f:
            f.write(dot.to_string())
        p = subprocess.run([DOT, f"-T{fmt}", src], capture_output=True, text=True, timeout=60)
        err = [x for x in p.stderr.splitlines() if "rror" in x]
        return p.returncode, p.stdout, " ".join(err)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def phi_to_yarr():
    try:
        from ein.codegen import phi_to_yarr

        return phi_to_yarr.transform
    except (ImportError, AttributeError):
        return None


ODD = [1 / 3, 0.1, 1e-17, -123456.789012345, 2.0000000000000004, 1e22, 12345678.25, -0.0, 6.02214076e23, 7e-7]


def odd(ch, kind, x):
    if kind == "f" and ch.chance(40):
        return ch.pick(ODD)
    return x


def oddly(ch, n):
    if not isinstance(n, list):
        return n
    if len(n) == 3 and n[0] == "lit" and n[1] == "f":
        return ["lit", "f", odd(ch, "f", n[2])]
    return [oddly(ch, x) for x in n]


class C17(ProgramCheck):
    id = "C17"
    title = "Printing and drawing programs never fails, never lies, never disturbs them"
    cases = {"quick": 220, "thorough": 4000}
    cpu = 5  # printing takes time exponential in the depth of a program
    EXT = {**C16.BASE, "w_ext": 6}
    profiles = [
        (4, "default", dict(fuel=(4, 18))),
        (2, "small", dict(fuel=(3, 10))),
        (2, "records", {**RECORDS, "fuel": (4, 14), "rec_depth": 2, "loopdepth": 2}),
        (2, "folds", {**FOLDS, "fuel": (4, 16)}),
        (1, "sums", {**SUMS, "fuel": (4, 14)}),
        (2, "reductions", {**REDUCTIONS, "fuel": (4, 14)}),
        (1, "indexing", {**INDEXING, "fuel": (3, 12)}),
        (1, "externals", EXT),
        (1, "long", dict(dims=(500, 1100), zero=0, fuel=(0, 2), inputs=(1, 1), maxrank=1, outrank=1, w_fold=0, w_dot=0, w_std=0, w_red=0)),
    ]
    rule = (
        "a case is a typed program drawn from the grammar with a page width and indentation; non-trivial: its printed "
        "text was read back and evaluated to a result with at least one element with a defined value"
    )
    assumptions = ProgramCheck.assumptions + (
        "concatenations, external functions and empty constants are printed but not read back",
        "names the printer introduces itself may differ from one printing to the next",
    )

    def draw(self, ch):
        case = super().draw(ch)
        if ch.chance(20):
            # numbers of many digits
            for s in case["prog"]["inputs"]:
                s["data"] = [odd(ch, s["kind"], x) for x in s["data"]]
            case["prog"]["expr"] = oddly(ch, case["prog"]["expr"])
        return {
            **case,
            "width": ch.pick([1, 10, 20, 40, 60, 80, 120, 1000]),
            "indent": ch.pick([0, 1, 2, 4, 8]),
            "render": int(ch.chance(4)),
            "agraph": int(ch.chance(30)),
            "library": case["backends"][1],
        }

    def draw_backends(self, ch):
        # what evaluates, and the library of the constants (JAX needs static sizes)
        return [
            ch.weighted([(6, "numpy"), (2, "torch"), (2, "naive")]),
            ch.weighted([(8, "numpy"), (1, "torch"), (1, "jax")]),
        ]

    def convert(self, a, library):
        if library == "torch":
            import torch

            return torch.from_numpy(a)
        if library == "jax":
            import jax.numpy as jnp

            return jnp.asarray(a, dtype=a.dtype)
        return a

    def run(self, case):
        prog = case["prog"]
        has_ext = bool(used(prog["expr"]))
        library = case["library"]
        backend = case["backends"][0]
        if library != "numpy" and any(s.get("mode", "const") == "const" for s in prog["inputs"]):
            backend = library  # constants of a library are for that library
        r = ExtRef(prog, exts=specs())
        T, v = r.run()
        if R.has_rec(T):
            raise Skip("record result")
        arrays = [B.input_array(s, prog["dims"]) for s in prog["inputs"]]
        arrays = [
            self.convert(a, library) if s.get("mode", "const") == "const" else a
            for s, a in zip(prog["inputs"], arrays)
        ]
        exts = specs(backend)
        p = attempt("building the program", lambda: B.build(prog, exts=exts, arrays=arrays))
        e = p.expr
        labels = shape_labels(prog)
        labels.add(f"{library} constants")
        w, ind = case["width"], case["indent"]

        text = attempt("pretty_phi", lambda: debug.pretty_phi(e))
        again = attempt("pretty_phi again", lambda: debug.pretty_phi(e, w, ind))
        atext = attempt("pretty_yarr_of_phi", lambda: debug.pretty_yarr_of_phi(e))
        aagain = attempt("pretty_yarr_of_phi again", lambda: debug.pretty_yarr_of_phi(e, w, ind))
        if canonical(text) != canonical(again):
            raise Violation(f"two prints of a program differ beyond layout: {text!r} {again!r}")
        if canonical(atext) != canonical(aagain):
            raise Violation(f"two prints of a compiled program differ beyond layout: {atext!r} {aagain!r}")
        for t in (text, atext):
            if not isinstance(t, str) or not t.strip():
                raise Violation("the printed text is empty")

        self.graphs(e, case, labels)

        got = attempt(f"evaluating with {backend} after printing", lambda: p.eval(backend))
        compare(f"{backend} after printing", T, v, prog["dims"], got)

        if not has_ext and not any(n[0] == "cat" for n in nodes(prog["expr"])):
            self.read_back(p, prog, text, again, T, v, labels)
        return labels

    def read_back(self, p, prog, text, again, T, v, labels):
        for what, t in (("the text", text), ("the relaid text", again)):
            try:
                ast = Reader(t).program()
            except Unknown as u:
                raise Skip(f"printed construct not known to the reader: {u}") from None
            except Unreadable as u:
                raise Violation(f"{what} of the program cannot be read: {u}; {t!r}") from None
            names = {repr(var): k for k, var in enumerate(p.env)}
            arg_specs = [s for s in prog["inputs"] if s.get("mode", "const") != "const"]

            def link(n):
                if isinstance(n, list):
                    if len(n) == 2 and n[0] == "v" and n[1] in names:
                        return ["in", names[n[1]]]
                    return [link(x) for x in n]
                return n

            read = dict(inputs=arg_specs, dims=prog["dims"], expr=link(ast))
            try:
                T2, v2 = ReadRef(read).run()
            except R.IllTyped as u:
                raise Violation(f"{what} of the program reads as an ill-typed program ({u}): {t!r}") from None
            except Skip:
                return
            if not R.same_struct(T, T2):
                raise Violation(f"{what} of the program reads as a program of another type: {t!r}")
            a, b = R.flatten(v), R.flatten(v2)
            if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
                raise Violation(f"{what} of the program reads as a program with another value ({b[:6]}, not {a[:6]}): {t!r}")
            labels.add("read back")
            if any(x is not R.POISON for x in b):
                labels.add("nontrivial")

    def graphs(self, e, case, labels):
        try:
            import pydot  # noqa: F401
        except ImportError:
            return
        d = attempt("graph", lambda: debug.graph(e))
        s1 = attempt("graph as text", lambda: d.to_string())
        s2 = attempt("graph as text", lambda: debug.graph(e).to_string())
        if len(s1) != len(s2):
            raise Violation("two graphs of a program differ")
        declared = {n.get_name() for n in d.get_nodes()}
        if len(declared) != len(d.get_nodes()):
            raise Violation("two nodes of a graph have one name")
        for edge in d.get_edges():
            if edge.get_source() not in declared or edge.get_destination() not in declared:
                raise Violation("an edge of a graph leads nowhere")
        # every term but the result is used by something
        if len({x.get_source() for x in d.get_edges()}) < len(declared) - 1:
            raise Violation("a node of the graph is not connected")
        self.complete(e, d)
        labels.add("graph")
        if case.get("agraph"):
            compile_ = phi_to_yarr()
            if compile_ is not None:
                y = attempt("compiling", lambda: compile_(e))
                self.complete(y, attempt("graph of a compiled program", lambda: debug.graph(y)))
                labels.add("graph of a compiled program")
        if case["render"] and DOT:
            rc, out, err = render(d)
            if rc or err:
                raise Violation(f"dot cannot read the graph of the program: {err}")
            drawn = sum(line.startswith("node ") for line in out.splitlines())
            if drawn != len(declared):
                raise Violation(f"dot draws {drawn} nodes, the graph has {len(declared)}")
            labels.add("rendered")
            self.saved(d)

    def complete(self, e, d):
        """One node for each distinct term, and an edge for each use."""
        try:
            seen = {e: None}
            uses = set()
            todo = [e]
            while todo:
                x = todo.pop()
                for sub in x.subterms:
                    uses.add((x, sub))
                    if sub not in seen:
                        seen[sub] = None
                        todo.append(sub)
        except AttributeError:
            return
        if len(d.get_nodes()) != len(seen):
            raise Violation(f"a program of {len(seen)} distinct terms has a graph of {len(d.get_nodes())} nodes")
        if len(d.get_edges()) != len(uses):
            raise Violation(f"a program with {len(uses)} uses of terms has a graph of {len(d.get_edges())} edges")

    def saved(self, d):
        folder = scratch()
        try:
            for path, fmt, want in (
                ("a.svg", None, "a.svg"),
                ("b", "svg", "b.svg"),
                ("c", None, "c.png"),
            ):
                attempt("save_graph", lambda: debug.save_graph(d, os.path.join(folder, path), fmt))
                f = os.path.join(folder, want)
                if not os.path.exists(f) or not os.path.getsize(f):
                    raise Violation(f"save_graph({path!r}, fmt={fmt!r}) wrote {os.listdir(folder)}, not {want}")
                with open(f, "rb") as g:
                    head = g.read(400)
                if (b"PNG" in head[:8]) != want.endswith("png") or (b"<svg" in head or b"<?xml" in head) != want.endswith("svg"):
                    raise Violation(f"{want} is not in the format of its name")
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def reduce(self, case, fails, seconds):
        for change in (dict(render=0), dict(agraph=0), dict(library="numpy"), dict(width=80, indent=2)):
            if fails({**case, **change}):
                case = {**case, **change}
        return super().reduce(case, fails, seconds)


CHECKS = [C17]
