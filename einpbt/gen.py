"""Typed program generator.  Every choice is drawn from Hypothesis."""
from . import ref as R
from .ref import B, F, I


class Ch:
    """Choices, drawn straight from Hypothesis' choice sequence."""

    def __init__(self, data):
        self.cd = data.conjecture_data

    def int(self, lo, hi):
        return self.cd.draw_integer(lo, hi) if lo < hi else lo

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def chance(self, pct):
        """True with about pct per cent; shrinks to False."""
        if pct <= 0:
            return False
        if pct >= 100:
            return True
        return self.int(0, 99) >= 100 - pct

    def weighted(self, pairs):
        pairs = [(w, x) for w, x in pairs if w > 0]
        total = sum(w for w, _ in pairs)
        r = self.int(0, total - 1)
        for w, x in pairs:
            if r < w:
                return x
            r -= w
        raise AssertionError

    def bytes(self, n):
        return self.cd.draw_bytes(n, n)


BIG = [70000, -40000, 2**31 - 1, 2**31, -(2**31) - 1, 10**9 + 7, 2**33 - 3, -(2**40) + 1]
DEFAULT = dict(
    fuel=(4, 30),
    inputs=(1, 3),
    maxrank=3,  # of inputs
    outrank=3,
    scoperank=5,  # comprehension indices in scope
    loopdepth=3,  # nesting of folds and reductions (compile times are exponential in it)
    dims=(0, 4),  # sizes
    zero=10,  # % of dims that may be 0
    infer=50,
    arg=30,  # % of inputs that are free variables
    sym=False,  # symbolic dims
    static=False,  # only sizes JAX can know statically
    poison=3,
    neg_count=5,
    big=0,  # % of inputs and literals with large integers
    tri=6,  # fold counts from outer counters
    row=12,  # % of fold counts that are sizes of rows
    # production weights
    w_arith=10,
    w_trans=2,
    w_cast=1,
    w_where=4,
    w_get=8,
    w_fold=5,
    w_dot=3,
    w_share=1,  # sums that are shared
    w_dyn=2,  # arrays whose sizes follow a counter
    w_std=4,
    w_red=3,
    w_rec=3,
    w_let=4,
    w_cat=2,
    w_slice=2,
    w_orempty=1,
    w_assume=1,
    w_size=2,
    w_mm=1,
    w_ext=0,
    w_idx=6,  # exotic index expressions
    rec_depth=2,
    red_len=(0, 9),
    exts=(),
    extspecs=None,
    vec_acc=40,  # % of folds over arrays when generating arrays
)

FIELD_NAMES = [
    "x", "y", "a", "b", "key", "values", "items", "keys", "get", "index",
    "count", "size", "expr", "layout", "update", "pop", "name", "z1", "z0",
]  # fmt: skip
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 1.5, -2.0, 3.0, 0.25, -1.25]


def loop(f):
    """Bounds the nesting of loops."""

    def go(self, T):
        if self.loops >= self.p["loopdepth"]:
            return self.leaf(T if isinstance(T, tuple) else I if T == "argmin" else F)
        self.loops += 1
        try:
            return f(self, T)
        finally:
            self.loops -= 1

    return go


class Var:
    __slots__ = ("name", "T", "role", "bound", "ixd", "vary", "deps")

    def __init__(self, name, T, role, bound=None, ixd=False, vary=False, deps=()):
        self.name, self.T, self.role, self.bound = name, T, role, bound
        self.ixd = ixd  # syntactically depends on a comprehension index
        self.vary = vary  # its value may vary along a comprehension axis
        self.deps = frozenset(deps)  # names it stands for, if a let


class Gen:
    def __init__(self, ch, **profile):
        self.p = {**DEFAULT, **profile}
        unknown = set(profile) - set(DEFAULT)
        assert not unknown, unknown
        self.ch = ch
        self.n = 0
        self.scope = []
        self.inputs = []
        self.dims = {}
        self.fuel = 0
        self.letdefs = {}
        self.loops = 0

    # ------------------------------------------------------------ top level
    def program(self, T=None):
        ch, p = self.ch, self.p
        self.fuel = ch.int(*p["fuel"])
        if p["sym"]:
            for k in range(ch.int(1, 3)):
                self.dims[f"n{k}"] = self.dimval()
        for _ in range(ch.int(*p["inputs"])):
            self.add_input()
        if p["sym"]:
            used = {d for s in self.inputs for d in s["dims"]}
            for s in self.dims:
                if s not in used:
                    self.add_input(dims=[s])
        if T is None:
            T = self.out_type()
        expr = self.gen(T)
        return dict(inputs=self.inputs, dims=self.dims, expr=expr)

    def dimval(self):
        lo, hi = self.p["dims"]
        if lo == 0:
            if self.ch.chance(self.p["zero"]):
                return 0
            lo = 1
        return self.ch.int(lo, hi)

    def newdim(self):
        """A size for a fresh axis."""
        ch = self.ch
        if self.p["sym"]:
            r = ch.int(0, 9)
            if r < 7:
                return R.dim_sym(ch.pick(sorted(self.dims)))
            if r < 9:
                return R.dim_form(
                    ch.int(0, 2), {ch.pick(sorted(self.dims)): 1}
                )
            return self.dimval()
        # prefer coincidences with existing sizes
        known = [d for s in self.inputs for d in s["dims"]]
        if known and ch.chance(60):
            return ch.pick(known)
        return self.dimval()

    def add_input(self, kind=None, dims=None):
        ch = self.ch
        kind = kind or ch.weighted([(5, "f"), (3, "i"), (1, "b")])
        if dims is None:
            rk = ch.weighted(
                [(2, 0), (8, 1), (8, 2), (4, 3), (1, 4)][: self.p["maxrank"] + 1]
            )
            if self.p["sym"]:
                dims = [
                    ch.pick(sorted(self.dims)) if ch.chance(80) else self.dimval()
                    for _ in range(rk)
                ]
            else:
                dims = [self.newdim() for _ in range(rk)]
        raw = ch.bytes(8)
        if kind == "f":
            data = [((b % 33) - 16) / 4 for b in raw]
        elif kind == "i":
            data = [(b % 9) - 3 for b in raw]
            if ch.chance(self.p["big"]):
                data = [BIG[b % len(BIG)] if b < 128 else x for b, x in zip(raw, data)]
        else:
            data = [bool(b & 1) for b in raw]
        spec = dict(
            kind=kind,
            dims=dims,
            data=data,
            mode="arg" if ch.chance(self.p["arg"]) else "const",
        )
        self.inputs.append(spec)
        return len(self.inputs) - 1

    def out_type(self):
        T = (self.ch.weighted([(6, "f"), (4, "i"), (2, "b")]),)
        for _ in range(self.ch.int(0, self.p["outrank"])):
            T = ("v", self.newdim(), T)
        return T

    # ------------------------------------------------------------ scope
    def fresh(self, pref):
        self.n += 1
        return f"{pref}{self.n}"

    def with_vars(self, vs, f):
        self.scope.extend(vs)
        try:
            return f()
        finally:
            del self.scope[len(self.scope) - len(vs) :]

    @property
    def nidx(self):
        return sum(v.role == "idx" for v in self.scope)

    @property
    def dead(self):
        return any(v.role in ("idx", "cnt") and v.bound == 0 for v in self.scope)

    @property
    def varying(self):
        return any(v.vary for v in self.scope)

    def vars_of(self, T):
        return [v for v in self.scope if v.T == T]

    def sources(self, pred, *, unindexed=False):
        """(node, type) of inputs and variables satisfying pred(type)"""
        out = [
            (["in", k], T)
            for k, T in enumerate(map(R.input_type, self.inputs))
            if pred(T)
        ]
        for v in self.scope:
            if pred(v.T) and not (unindexed and v.ixd):
                # bound names are nearer at hand than inputs
                out.append((["v", v.name], v.T))
                if v.role in ("acc", "let"):
                    out.append((["v", v.name], v.T))
        return out

    def dval(self, d):
        return R.dim_val(d, self.dims)

    # ------------------------------------------------------------ sizes
    def size_node(self, d):
        """An index-free node that evaluates to the size d."""
        ch = self.ch
        if self.p["sym"]:
            c, syms = R.dim_parts(d)
            node = None
            for s, k in sorted(syms.items()):
                assert k > 0
                for _ in range(k):
                    t = self.size_of(R.dim_sym(s))
                    node = t if node is None else ["bin", "+", node, t]
            if c or node is None:
                t = ["lit", "i", c]
                node = t if node is None else ["bin", "+", node, t]
            return node
        r = ch.int(0, 19)
        if r < 9:
            return ["lit", "i", d]
        if r < 17:
            return self.size_of(d)
        k = ch.int(1, 2)
        if r == 17:
            return ["bin", "-", self.size_of(d + k), ["lit", "i", k]]
        if r == 18 and d >= k:
            return ["bin", "+", self.size_of(d - k), ["lit", "i", k]]
        if r == 19:
            return ["bin", "max", self.size_of(d), ["lit", "i", max(d - k, 0)]]
        return ["lit", "i", d]

    def size_of(self, d):
        cands = []
        for node, T in self.sources(lambda T: T[0] == "v", unindexed=True):
            ax = 0
            while T[0] == "v":
                if T[1] == d:
                    cands.append(["size", node, ax])
                T = T[2]
                ax += 1
        for v in self.scope:
            if v.role == "let" and v.T == I and v.bound == d and not v.ixd:
                cands.append(["v", v.name])
        if not cands:
            return ["lit", "i", d]
        return self.ch.pick(cands)

    def row_size(self, d):
        """The size of something that varies along axes, or of a row: it does not vary itself."""
        ch = self.ch
        cands = []
        for node, T in self.sources(lambda T: T[0] == "v"):
            ax = 0
            while T[0] == "v":
                if T[1] == d:
                    cands.append((node, ax))
                T = T[2]
                ax += 1
        rows = [c for c in cands if c[1]]
        if rows and ch.chance(70):
            node, ax = ch.pick(rows)
            k = ch.int(1, ax)
            T = next(T for n, T in self.sources(lambda T: True) if n == node)
            ids = []
            for _ in range(k):
                ids.append(self.simple_index(T[1]))
                T = T[2]
            return ["size", ["get", node, ids], ax - k]
        if not cands:
            return None
        node, ax = ch.pick(cands)
        return ["size", node, ax]

    def ragged(self, v):
        """A count that varies with the counter v: itself, or one read from an array with it."""
        ch = self.ch
        node = ["v", v.name]
        tables = [
            (["in", k], R.input_type(s))
            for k, s in enumerate(self.inputs)
            if s["kind"] == "i" and s["dims"] and 0 not in R.input_shape(s, self.dims)
        ]
        if not tables or self.p["big"] or ch.chance(50):
            return node
        fit = [t for t in tables if v.bound is not None and t[1][1] == v.bound]
        table, T = ch.pick(fit or tables)
        ids = []
        at = 0 if fit else ch.int(0, R.rank(T) - 1)
        while T[0] == "v":
            ids.append(node if len(ids) == at else ["lit", "i", ch.int(0, 2)])
            T = T[2]
        return ["bin", "min", ["get", table, ids], ["lit", "i", 6]]

    def count_node(self, row=True):
        """-> (node, bound or None); counts may not vary along axes."""
        ch, p = self.ch, self.p
        counters = [v for v in self.scope if v.role == "cnt" and not v.vary]
        if counters and ch.chance(p["tri"]):
            v = ch.pick(counters)
            node = self.ragged(v)
            if ch.chance(40):
                node = ["bin", "+", node, ["lit", "i", ch.int(-1, 1)]]
            return node, None
        if ch.chance(p["neg_count"]):
            return ["lit", "i", -ch.int(1, 3)], 0
        # counts that match an axis of something in scope
        axes = []
        for _, T in self.sources(lambda T: T[0] == "v"):
            while T[0] == "v":
                if R.dim_parts(T[1]) is not None:
                    axes.append(T[1])
                T = T[2]
        d = ch.pick(axes) if axes and ch.chance(70) else self.newdim()
        if row and ch.chance(p["row"]):
            node = self.row_size(d)
            if node is not None:
                return node, d
        return self.size_node(d), d

    # ------------------------------------------------------------ entry
    def gen(self, T):
        self.fuel -= 1
        if self.fuel <= 0:
            return self.leaf(T)
        if T[0] == "v":
            return self.g_vec(T)
        if T[0] == "r":
            return self.g_rec(T)
        return self.g_scalar(T)

    def leaf(self, T):
        ch = self.ch
        if T[0] == "v":
            src = self.sources(lambda S: S == T)
            if src:
                return ch.pick(src)[0]
            return self.arr(T, self.leaf)
        if T[0] == "r":
            vs = self.vars_of(T)
            if vs:
                return ["v", ch.pick(vs).name]
            return ["rec", self.rec_kind(T[1]), [[n, self.leaf(t)] for n, t in T[2]]]
        opts = []
        vs = self.vars_of(T)
        if vs:
            opts.append((6, "var"))
        src = self.get_sources(T)
        if src:
            opts.append((6, "get"))
        opts.append((2 if len(opts) else 4, "lit"))
        c = ch.weighted(opts)
        if c == "var":
            return ["v", ch.pick(vs).name]
        if c == "get":
            node, S = ch.pick(src)
            return self.read(node, S, T, simple=True)
        return self.lit(T)

    def lit(self, T):
        ch = self.ch
        if T == F:
            return ["lit", "f", ch.pick(FLOATS)]
        if T == I:
            if ch.chance(self.p["big"]):
                return ["lit", "i", ch.pick(BIG)]
            return ["lit", "i", ch.int(0, 6) - 2]
        return ["lit", "b", bool(ch.int(0, 1))]

    # ------------------------------------------------------------ reads
    def reach(self, S, T):
        """Depths at which indexing S gives T (through record projections)."""
        if S == T:
            return True
        if S[0] == "v":
            if S[1] == 0 and not self.dead and not self._poison_ok:
                return False
            return self.reach(S[2], T)
        if S[0] == "r":
            return any(self.reach(t, T) for _, t in S[2])
        return False

    _poison_ok = False

    def get_sources(self, T):
        self._poison_ok = self.ch.chance(self.p["poison"])
        return [
            s
            for s in self.sources(lambda S: S[0] in "vr" and S != T)
            if self.reach(s[1], T)
        ]

    def read(self, node, S, T, simple=False):
        """Index (and project) node : S down to T."""
        ids = []

        def flush():
            nonlocal node, ids
            if ids:
                # v[i, j] or v[i][j]
                if len(ids) > 1 and self.ch.chance(30):
                    for i in ids:
                        node = ["get", node, [i]]
                else:
                    node = ["get", node, ids]
            ids = []

        while S != T:
            if S[0] == "v":
                ids.append(
                    self.simple_index(S[1]) if simple else self.index(S[1])
                )
                S = S[2]
            else:
                flush()
                n, t = self.ch.pick([f for f in S[2] if self.reach(f[1], T)])
                node = ["proj", node, n]
                S = t
        flush()
        return node

    def simple_index(self, d):
        ch = self.ch
        good = [v for v in self.scope if v.role in ("idx", "cnt") and v.bound == d]
        if good and ch.chance(85):
            return ["v", ch.pick(good).name]
        anyv = [v for v in self.scope if v.T == I]
        if anyv and ch.chance(70):
            return ["v", ch.pick(anyv).name]
        hi = self.dval(d) if R.dim_parts(d) is not None else 3
        return ["lit", "i", ch.int(0, max(hi, 1)) if ch.chance(80) else ch.int(-2, hi + 2)]

    def index(self, d):
        ch, p = self.ch, self.p
        if self.fuel <= 0 or not ch.chance(10 * p["w_idx"]):
            return self.simple_index(d)
        self.fuel -= 1
        r = ch.int(0, 13)
        base = self.simple_index(d)
        hi = (self.dval(d) if R.dim_parts(d) is not None else 3) + 2
        if r <= 3:
            op = ch.pick(["+", "-"])
            off = self.index_offset(d)
            if op == "+" and ch.chance(40):
                return ["bin", "+", off, base]
            return ["bin", op, base, off]
        if r <= 6:
            # clipped shifts, any nesting
            node = base
            for _ in range(ch.int(1, 3)):
                op = ch.pick(["min", "max", "+", "-"])
                other = self.index_offset(d) if op in "+-" else self.index_bound(d)
                if ch.chance(30):
                    node = ["bin", op, other, node]
                else:
                    node = ["bin", op, node, other]
            return node
        if r == 7:
            return ["bin", "-", self.index_bound(d), base]
        if r == 8:
            return ["bin", "*", base, ["lit", "i", ch.int(-1, 3)]]
        if r == 9:
            return ["bin", ch.pick(["+", "-"]), base, self.simple_index(d)]
        if r == 10:
            return ["bin", "%", base, ["lit", "i", ch.int(1, 3)]]
        if r == 11:
            return ["lit", "i", ch.int(-3, hi)]
        if r == 12:
            src = self.get_sources(I)
            if src:
                node, S = ch.pick(src)
                return self.read(node, S, I, simple=True)
        return self.gen(I)

    def index_offset(self, d):
        ch = self.ch
        r = ch.int(0, 9)
        if r < 6:
            return ["lit", "i", ch.int(0, 4)]
        if r < 8:
            return self.size_of(d) if not self.p["sym"] else self.size_node(d)
        vs = [v for v in self.scope if v.T == I]
        if vs:
            return ["v", ch.pick(vs).name]
        return ["lit", "i", ch.int(-4, 1)]

    def index_bound(self, d):
        ch = self.ch
        r = ch.int(0, 9)
        if r < 5:
            return ["lit", "i", ch.int(-3, 6)]
        if r < 8:
            s = self.size_of(d) if not self.p["sym"] else self.size_node(d)
            return ["bin", "-", s, ["lit", "i", ch.int(-1, 2)]]
        return self.index_offset(d)

    # ------------------------------------------------------------ scalars
    def g_scalar(self, T):
        ch, p = self.ch, self.p
        w = [
            (4, "leaf"),
            (p["w_arith"], "arith"),
            (p["w_where"], "where"),
            (p["w_get"], "get"),
            (p["w_fold"], "fold"),
            (p["w_rec"], "proj"),
            (p["w_let"], "let"),
            (p["w_orempty"], "orempty"),
            (p["w_assume"], "assume"),
            (p["w_red"], "red"),
        ]
        if T == F:
            w += [
                (p["w_trans"], "trans"),
                (p["w_dot"], "dot"),
                (p["w_share"], "share"),
                (p["w_std"], "std"),
                (p["w_cast"], "cast"),
                (p["w_mm"], "mm"),
            ]
            if not p["static"] and not p["sym"]:
                w += [(p["w_dyn"], "dyn")]
        if T == I:
            w += [(p["w_size"], "size"), (1, "argmin"), (p["w_mm"], "mm")]
        if p["w_ext"]:
            w += [(p["w_ext"], "ext")]
        return getattr(self, "s_" + ch.weighted(w))(T)

    def s_leaf(self, T):
        return self.leaf(T)

    def s_arith(self, T):
        ch = self.ch
        if T == B:
            r = ch.int(0, 9)
            if r < 6:
                K = ch.pick([F, I])
                op = ch.pick(["<", "<=", ">", ">=", "==", "!="])
                return ["bin", op, self.gen(K), self.gen(K)]
            if r < 9:
                return ["bin", ch.pick(["&", "|"]), self.gen(B), self.gen(B)]
            return ["un", "not", self.gen(B)]
        r = ch.int(0, 19)
        if r < 15:
            op = ch.weighted(
                [(5, "+"), (4, "-"), (5, "*"), (2, "min"), (2, "max")]
            )
            return ["bin", op, self.gen(T), self.gen(T)]
        if r < 17:
            return ["un", "neg", self.gen(T)]
        if r == 17:
            return ["un", "abs", self.gen(T)]
        if r == 18:
            return ["pow", self.gen(T), ch.int(0, 4)]
        if T == I:
            return ["bin", "%", self.gen(I), ["lit", "i", ch.pick([2, 3, 5, -3, 1])]]
        return ["bin", "/", self.gen(F), ["lit", "f", ch.pick([2.0, -4.0, 0.5, 1.0])]]

    def s_trans(self, T):
        ch = self.ch
        r = ch.int(0, 6)
        e = self.gen(F)
        if r < 2:
            return ["un", ch.pick(["sin", "cos"]), e]
        if r == 2:
            return ["un", "exp", ["bin", "min", e, ["lit", "f", 3.0]]]
        if r == 3:
            return ["un", "tanh", e]
        if r == 4:
            # bounded away from zero
            return ["un", "recip", ["bin", "+", ["un", "abs", e], ["lit", "f", 0.75]]]
        if r == 5:
            return [
                "bin", "/", self.gen(F),
                ["bin", "+", ["bin", "*", e, e], ["lit", "f", 1.5]],
            ]  # fmt: skip
        return [
            "fpow",
            ["bin", "+", ["un", "abs", ["un", "sin", e]], ["lit", "f", 0.5]],
            ["lit", "f", ch.pick([0.5, 2.0, -1.0, 1.5])],
        ]

    def s_cast(self, T):
        return ["un", "float", self.s_get(I) if self.ch.chance(40) else self.gen(I)]

    def s_where(self, T):
        return ["where", self.gen(B), self.gen(T), self.gen(T)]

    def s_mm(self, T):
        return [
            "mm",
            self.ch.pick(["min", "max"]),
            [self.gen(T) for _ in range(self.ch.int(2, 4))],
        ]

    def s_get(self, T):
        src = self.get_sources(T)
        if not src or self.ch.chance(15):
            # index into a computed array
            d = self.newdim()
            if self.dval(d) == 0:
                return self.leaf(T)
            v = self.gen(("v", d, T))
            return ["get", v, [self.index(d)]]
        node, S = self.ch.pick(src)
        return self.read(node, S, T)

    def s_size(self, T):
        src = self.sources(lambda S: S[0] == "v")
        if not src or self.ch.chance(15):
            d = self.newdim()
            return ["size", self.gen(("v", d, self.ch.pick([F, I]))), 0]
        node, S = self.ch.pick(src)
        rk = 0
        while S[0] == "v":
            rk += 1
            S = S[2]
        return ["size", node, self.ch.int(0, rk - 1)]

    def s_orempty(self, T):
        src = [s for s in self.sources(lambda S: S[0] == "v") if s[1][2] == T]
        if not src:
            d = 0 if self.ch.chance(40) and not self.p["sym"] else self.newdim()
            v = self.gen(("v", d, T))
        else:
            v, S = self.ch.pick(src)
            d = S[1]
        return ["orempty", v, self.index(d), self.gen(T)]

    def s_assume(self, T):
        K = self.ch.pick([F, I, B])
        return ["assume", self.gen(T), self.gen(K)]

    def s_ext(self, T):
        """exts: (name, whether it can give a type, the operand types for a result type)"""
        specs = [e for e in self.p["exts"] if e[1](T)]
        if not specs:
            return self.leaf(T) if T[0] != "v" else self.arr(T, self.gen)
        name, _, mk = self.ch.pick(specs)
        return ["ext", name, [self.gen(t) for t in mk(self, T)]]

    def v_ext(self, T):
        return self.s_ext(T)

    # ------------------------------------------------------------ loops
    def loop_var(self, role, name, bound):
        # a counter may be turned into an axis by the compiler, which is its own business
        return Var(name, I, role, bound, ixd=(role == "idx"), vary=(role == "idx"))

    def s_fold(self, T):
        return self.fold(T)

    @loop
    def fold(self, T):
        ch = self.ch
        count, bound = self.count_node()
        k, acc = self.fresh("k"), self.fresh("acc")
        init = self.gen(T) if ch.chance(50) else self.leaf(T)
        vary = self.nidx > 0 or self.varying
        kv = self.loop_var("cnt", k, bound)
        av = Var(acc, T, "acc", vary=vary, ixd=False)

        def body():
            if T in (F, I) and ch.chance(50):
                op = ch.weighted([(5, "+"), (2, "min"), (2, "max"), (2, "*"), (1, "-")])
                e = self.gen(T)
                a = ["v", acc]
                return ["bin", op, a, e] if ch.chance(60) else ["bin", op, e, a]
            if T == B and ch.chance(50):
                return ["bin", ch.pick(["&", "|"]), ["v", acc], self.gen(T)]
            if T[0] == "r" and ch.chance(70):
                return self.rec_of(T)
            return self.gen(T)

        b = self.with_vars([kv, av], body)
        node = ["fold", k, acc, count, init, b, False]
        if ch.chance(self.p["infer"]) and self.can_infer(b, [(k, bound)], {acc: T}):
            node[6] = True
        return node

    @loop
    def s_dot(self, T):
        """Sums of products over one or more counters."""
        ch = self.ch
        depth = ch.weighted([(6, 1), (3, 2), (1, 3)])

        def level(m):
            srcs = [
                s
                for s in self.sources(lambda S: S[0] == "v" and R.leaf(S) == F)
                if R.dim_parts(s[1][1]) is not None
            ]
            if srcs:
                _, S = ch.pick(srcs)
                ax = ch.int(0, R.rank(S) - 1)
                for _ in range(ax):
                    S = S[2]
                d = S[1]
            else:
                d = self.newdim()
            k = self.fresh("k")
            # write the count as the size of the array (the einsum precondition)
            count = self.size_of(d) if not self.p["sym"] else self.size_node(d)
            if ch.chance(self.p["row"]):
                count = self.row_size(d) or count
            kv = self.loop_var("cnt", k, d)
            body = self.with_vars(
                [kv], lambda: level(m - 1) if m > 1 else self.terms(k, d)
            )
            inf = ch.chance(self.p["infer"]) and self.can_infer(body, [(k, d)], {})
            if ch.chance(60):
                return ["std", "fold_sum", k, count, body, inf]
            acc = self.fresh("acc")
            a = ["v", acc]
            b = ["bin", "+", a, body] if ch.chance(60) else ["bin", "+", body, a]
            init = ["lit", "f", 0.0] if ch.chance(80) else self.leaf(F)
            return ["fold", k, acc, count, init, b, inf]

        return level(depth)

    @loop
    def s_dyn(self, T):
        """Sums over an array whose size follows the counter of a loop around it."""
        ch = self.ch
        outer = [v for v in self.scope if v.role == "cnt" and not v.vary]
        own = not outer or ch.chance(60)
        if own:
            if self.loops >= self.p["loopdepth"]:
                return self.leaf(T)
            count, d = self.count_node()
            i = self.fresh("k")
            iv = self.loop_var("cnt", i, d)
        else:
            iv = ch.pick(outer)
            i = iv.name
        wrap = [iv] if own else []

        def ragged():
            """Loops as long as the counter or a table says."""
            j = self.fresh("k")
            n = self.ragged(iv)
            if n[0] != "v" and ch.chance(50):
                n = n[2]  # without a limit
            jv = self.loop_var("cnt", j, None)
            if ch.chance(25):
                # an index that takes a loop to find
                acc = self.fresh("acc")
                step = ["bin", "+", ["v", acc], ch.pick([["v", j], ["lit", "i", 1]])]
                at = ["fold", j, acc, n, ["lit", "i", 0], step, False]
                src = self.get_sources(F)
                vecs = [s for s in src if s[1][0] == "v" and s[1][2] == F]
                if vecs:
                    return ["get", ch.pick(vecs)[0], [at]]
            body = self.with_vars([jv], lambda: self.terms(j, None))
            op = ch.weighted([(6, "fold_sum"), (1, "fold_max"), (1, "fold_min")])
            total = ["std", op, j, n, body, False]
            if op != "fold_sum":
                total = ["bin", "min", ["lit", "f", 8.0], ["bin", "max", ["lit", "f", -8.0], total]]
            if ch.chance(30):
                total = ["bin", ch.pick(["*", "+", "-"]), total, self.factor(i, None)]
            return total

        def inner():
            if ch.chance(45):
                return ragged()
            size = self.ragged(iv)
            if size[0] != "v":
                size = ["bin", "max", size, ["lit", "i", 0]]
            r = ch.int(0, 5)
            if r == 1:
                size = ["bin", "+", size, ["lit", "i", ch.int(1, 2)]]
            elif r == 2:
                size = ["bin", "max", ["bin", "-", size, ["lit", "i", 1]], ["lit", "i", 0]]
            elif r == 3:
                size = ["bin", "%", size, ["lit", "i", ch.int(1, 3)]]
            a, t, j = self.fresh("d"), self.fresh("i"), self.fresh("k")
            made = ["arr", [t], [size], self.with_vars([self.loop_var("idx", t, None)], lambda: self.gen(F)), False]
            here = ["v", a]

            def element(node, at):
                r = ch.int(0, 7)
                if r == 6:
                    at = ["bin", "-", ["bin", "-", ["size", here, 0], ["lit", "i", 1]], at]
                elif r == 7:
                    at = ["bin", ch.pick(["+", "-"]), at, ["lit", "i", 1]]
                return ["get", node, [at]]

            def summand():
                node = element(here, ["v", j])
                for _ in range(ch.weighted([(2, 0), (4, 1), (2, 2)])):
                    f = element(here, ["v", j]) if ch.chance(25) else self.factor(j, None)
                    node = ["bin", "*", node, f] if ch.chance(50) else ["bin", "*", f, node]
                if ch.chance(25):
                    node = ["bin", ch.pick(["+", "-"]), node, self.factor(j, None)]
                return node

            body = self.with_vars([self.loop_var("cnt", j, None)], summand)
            n = ["size", here, 0] if ch.chance(75) else size
            total = ["std", ch.weighted([(6, "fold_sum"), (1, "fold_max"), (1, "fold_min")]), j, n, body, False]
            if total[1] != "fold_sum":
                # of an empty array, infinite
                total = ["bin", "min", ["lit", "f", 8.0], ["bin", "max", ["lit", "f", -8.0], total]]
            for _ in range(ch.weighted([(2, 0), (3, 1), (1, 2)])):
                total = ["bin", ch.pick(["*", "*", "+", "-"]), total, self.factor(i, None)]
            return ["let", a, made, total]

        node = self.with_vars(wrap, inner)
        return ["std", "fold_sum", i, count, node, False] if own else node

    @loop
    def s_share(self, T):
        """A sum that is used both within other sums and apart from them."""
        ch = self.ch
        name = self.fresh("s")
        e1 = self.s_dot(F) if ch.chance(60) else self.std("sum") if ch.chance(50) else self.fold(F)
        vary = self.nidx > 0 or self.varying
        x = ["v", name]

        def use():
            r = ch.int(0, 3)
            if r == 0:
                return x
            k = self.fresh("k")
            count, d = self.count_node()

            def body():
                node = ["bin", "*", x, self.factor(k, d)]
                if ch.chance(50):
                    node = ["bin", ch.pick(["+", "-"]), node, self.product(k, d)]
                return node

            b = self.with_vars([self.loop_var("cnt", k, d)], body)
            return ["std", "fold_sum", k, count, b, False]

        self.letdefs[name] = fv = self.free(e1)
        v = Var(name, F, "let", None, ixd=vary, vary=vary, deps=fv)
        e2 = self.with_vars([v], lambda: ["bin", ch.pick(["+", "-", "min"]), use(), use()])
        return ["let", name, e1, e2]

    def terms(self, k, d):
        ch = self.ch
        node = self.product(k, d)
        for _ in range(ch.weighted([(5, 0), (3, 1), (1, 2)])):
            r = ch.int(0, 3)
            if r == 0:
                node = ["un", "neg", node]
            else:
                node = ["bin", ch.pick(["+", "-"]), node, self.product(k, d)]
        if ch.chance(15):
            node = ["bin", "*", node, self.factor(k, d)]
        return node

    def product(self, k, d):
        node = self.factor(k, d)
        for _ in range(self.ch.weighted([(2, 0), (5, 1), (3, 2), (1, 3)])):
            f = self.factor(k, d)
            node = ["bin", "*", node, f] if self.ch.chance(60) else ["bin", "*", f, node]
        return node

    def factor(self, k, d):
        ch = self.ch
        self.fuel -= 1
        src = self.get_sources(F)
        r = ch.int(0, 9)
        if src and r < 7:
            node, S = ch.pick(src)
            return self.read(node, S, F, simple=r < 6)
        if r == 7 and self.fuel > 0:
            return self.gen(F)
        return self.leaf(F)

    def s_std(self, T):
        return self.std(self.ch.weighted([(4, "sum"), (2, "min"), (2, "max")]))

    def s_argmin(self, T):
        return self.std("argmin")

    @loop
    def std(self, op):
        ch = self.ch
        which = ch.pick(["fold", "reduce"])
        count, d = self.count_node(row=which == "fold")
        if which == "reduce":
            # an actual array is built, so its size may not be negative
            if d is None or d == 0 and count[0] == "lit":
                d = self.newdim()
                count = self.size_node(d)
        k = self.fresh("k")
        role = "cnt" if which == "fold" else "idx"
        body = self.with_vars([self.loop_var(role, k, d)], lambda: self.gen(F))
        inf = ch.chance(self.p["infer"]) and self.can_infer(body, [(k, d)], {})
        return ["std", f"{which}_{op}", k, count, body, inf]

    # ------------------------------------------------------------ reductions
    def s_red(self, T):
        return self.reduce_to(T)

    @loop
    def reduce_to(self, T):
        """A lawful monoid whose reduction is projected to the scalar T."""
        ch = self.ch
        opts = [m for m in MONOIDS if T in m[1]]
        if not opts:
            return self.leaf(T)
        name, _, mk = ch.pick(opts)
        S, ident, op, proj = mk(self, T)
        lo, hi = self.p["red_len"]
        if ch.chance(50) or self.p["sym"]:
            d = self.newdim()
        else:
            d = ch.int(lo, hi)
        v = None
        src = [s for s in self.sources(lambda Q: Q[0] == "v") if s[1][2] == S]
        if name == "first":
            v = self.arr(("v", d, S), lambda E: self.flagged(E, ident))
        elif src and ch.chance(50):
            v = ch.pick(src)[0]
        if v is None:
            v = self.arr(("v", d, S), lambda E: self.gen(E))
        x, y = self.fresh("x"), self.fresh("y")
        body = op(["v", x], ["v", y])
        return proj(["red", v, ident, x, y, body])

    def flagged(self, S, ident):
        """A pair of a flag and a value, which is the identity's where there is no flag."""
        _, kind, ((has, _), (val, T)) = S
        n = self.fresh("s")
        value = ["where", ["v", n], self.gen(T), ident[2][1][1]]
        return ["let", n, self.gen(B), ["rec", kind, [[has, ["v", n]], [val, value]]]]

    # ------------------------------------------------------------ vectors
    def g_vec(self, T):
        ch, p = self.ch, self.p
        _, d, E = T
        w = [
            (12, "arr"),
            (p["w_where"] // 2, "where"),
            (p["w_let"], "let"),
            (p["w_slice"], "slice"),
            (p["w_assume"], "assume"),
            (p["w_orempty"], "orempty"),
        ]
        if R.rank(T) <= 2:
            w.append((p["w_fold"] * p["vec_acc"] // 40, "fold"))
        parts = R.dim_parts(d)
        if parts is not None and self.dval(d) >= 0:
            w.append((p["w_cat"], "cat"))
        if self.sources(lambda S: S == T):
            w.append((5, "var"))
        if p["w_ext"] and any(e[1](T) for e in p["exts"]):
            w.append((p["w_ext"], "ext"))
        if not R.has_rec(T) and R.rank(T) == 1 and R.leaf(T) in (F, I):
            w.append((p["w_red"] // 2, "red"))
        return getattr(self, "v_" + ch.weighted(w))(T)

    def v_var(self, T):
        return self.ch.pick(self.sources(lambda S: S == T))[0]

    def v_arr(self, T):
        return self.arr(T, self.gen)

    def arr(self, T, sub):
        ch = self.ch
        dims = []
        E = T
        m = ch.int(1, 4)
        while E[0] == "v" and len(dims) < m:
            dims.append(E[1])
            E = E[2]
        names = [self.fresh("i") for _ in dims]
        sizes = [self.size_node(d) for d in dims]
        if self.nidx + len(dims) > self.p["scoperank"]:
            sub = self.leaf
        body = self.with_vars(
            [self.loop_var("idx", n, d) for n, d in zip(names, dims)],
            lambda: sub(E),
        )
        node = ["arr", names, sizes, body, False]
        if ch.chance(self.p["infer"]) and self.can_infer(
            body, list(zip(names, dims)), {}
        ):
            node[4] = True
        return node

    def v_where(self, T):
        return ["where", self.gen(B), self.gen(T), self.gen(T)]

    def v_fold(self, T):
        return self.fold(T)

    def v_assume(self, T):
        return self.s_assume(T)

    def v_orempty(self, T):
        return self.s_orempty(T)

    def v_cat(self, T):
        ch = self.ch
        _, d, E = T
        c, syms = R.dim_parts(d)
        pieces = []
        for s, k in sorted(syms.items()):
            pieces += [R.dim_sym(s)] * k
        if c:
            a = ch.int(0, c)
            if a in (0, c) and not ch.chance(20):
                a = c // 2
            if pieces:
                pieces.append(c)
            elif ch.chance(25):
                b = ch.int(0, c - a)
                pieces += [a, b, c - a - b]
            else:
                pieces += [a, c - a]
        if len(pieces) < 2:
            pieces.insert(ch.int(0, 1) if pieces else 0, 0)
        if len(pieces) < 2:
            pieces.append(0)
        return ["cat", [self.gen(("v", q, E)) for q in pieces]]

    def v_slice(self, T):
        """Partial indexing with slices: v[i], v[:, i], v[i, :, j] ..."""
        ch = self.ch

        def match(S, T):
            """ways to choose null / index per axis of S so that the result is T"""
            if S == T:
                yield []
            if S[0] == "v":
                if S[1] != 0 or self.dead:
                    for rest in match(S[2], T):
                        yield [S[1], *rest]
                if T[0] == "v" and S[1] == T[1]:
                    for rest in match(S[2], T[2]):
                        yield [None, *rest]

        opts = []
        for node, S in self.sources(lambda S: S[0] == "v"):
            for way in match(S, T):
                if way:
                    opts.append((node, way))
        if not opts:
            return self.arr(T, self.gen)
        node, way = ch.pick(opts)
        ids = [None if d is None else self.index(d) for d in way]
        if ids[-1] is None and len(ids) > 1 and ch.chance(50):
            while len(ids) > 1 and ids[-1] is None:
                ids.pop()
        return ["get", node, ids]

    @loop
    def v_red(self, T):
        """Reduce an array of vectors elementwise."""
        ch = self.ch
        _, d, E = T
        m = self.newdim()
        v = self.gen(("v", m, T))
        x, y, i = self.fresh("x"), self.fresh("y"), self.fresh("i")
        op = ch.pick(["+", "max", "min"])
        if E == F:
            ident = {"+": 0.0, "max": float("-inf"), "min": float("inf")}[op]
            ident = ["lit", "f", ident]
        else:
            ident = ["lit", "i", {"+": 0, "max": -(10**6), "min": 10**6}[op]]
        j = self.fresh("i")
        body = [
            "arr",
            [i],
            [["size", ["v", x], 0] if ch.chance(50) else self.size_node(d)],
            ["bin", op, ["get", ["v", x], [["v", i]]], ["get", ["v", y], [["v", i]]]],
            ch.chance(self.p["infer"]),
        ]
        return [
            "red",
            v,
            ["arr", [j], [self.size_node(d)], ident, False],
            x,
            y,
            body,
        ]

    # ------------------------------------------------------------ records
    def rec_kind(self, k):
        return self.ch.pick(["t", "l"]) if k == "t" and self.ch.chance(20) else k

    def rec_type(self, T=None, depth=None):
        """A record type with a field of type T somewhere."""
        ch = self.ch
        depth = self.p["rec_depth"] if depth is None else depth
        n = ch.weighted([(1, 1), (5, 2), (3, 3), (1, 4), (1, 5)])
        kind = ch.pick(["t", "d", "c"])
        at = ch.int(0, n - 1)
        names = []
        fields = []
        for k in range(n):
            if kind == "t":
                name = str(k)
            else:
                name = ch.pick([f for f in FIELD_NAMES if f not in names])
            names.append(name)
            if k == at and T is not None:
                t = T
            elif depth > 1 and ch.chance(20):
                t = self.rec_type(None, depth - 1)
            elif ch.chance(15):
                t = ("v", self.newdim(), ch.pick([F, I]))
            else:
                t = ch.pick([F, I, B])
            fields.append((name, t))
        if depth > 1 and T is not None and ch.chance(15):
            inner = ("r", kind, tuple(fields))
            return self.rec_type(inner, depth - 1)
        return ("r", kind, tuple(fields))

    def g_rec(self, T):
        ch, p = self.ch, self.p
        vs = self.vars_of(T)
        src = self.get_sources(T)
        c = ch.weighted(
            [
                (6, "rec"),
                (5 if vs else 0, "var"),
                (5 if src else 0, "get"),
                (p["w_where"], "where"),
                (p["w_fold"], "fold"),
                (p["w_let"] // 2, "let"),
                (p["w_rec"] // 2, "mix"),
            ]
        )
        if c == "mix":
            return self.mix(T)
        if c == "var":
            return ["v", ch.pick(vs).name]
        if c == "get":
            node, S = ch.pick(src)
            return self.read(node, S, T)
        if c == "where":
            return ["where", self.gen(B), self.gen(T), self.gen(T)]
        if c == "fold":
            return self.fold(T)
        if c == "let":
            return self.s_let(T)
        return self.rec_of(T)

    def rec_of(self, T):
        return ["rec", self.rec_kind(T[1]), [[n, self.field(t)] for n, t in T[2]]]

    def field(self, t):
        """Often some field of a record in scope."""
        ch = self.ch
        if ch.chance(30):
            vs = [v for v in self.scope if v.T[0] == "r" and v.T != t and self.paths(v.T, t)]
            if vs:
                v = ch.pick(vs)
                return self.follow(["v", v.name], v.T, t)
        return self.gen(t)

    def follow(self, node, S, T):
        for n in self.ch.pick(self.paths(S, T)):
            node = ["proj", node, n]
        return node

    def opaque(self, T):
        """A record that is not simply put together here."""
        r = self.ch.int(0, 3)
        if r == 0 and R.dim_parts(d := self.newdim()) is not None and self.dval(d):
            return ["get", self.gen(("v", d, T)), [self.index(d)]]
        return self.fold(T)

    def mix(self, T):
        """A record of the fields of two or three others, some of its own type."""
        ch = self.ch
        if self.loops >= self.p["loopdepth"]:
            return self.rec_of(T)
        binds, vs = [], []
        for _ in range(ch.int(1, 3)):
            n = len([t for _, t in T[2]])
            S = T if ch.chance(75) or n < 2 else ("r", "t", tuple((str(k), t) for k, (_, t) in enumerate(T[2][1:])))
            name = self.fresh("s")
            e = self.opaque(S)
            fv = self.free(e)
            by = {v.name: v for v in self.scope}
            self.letdefs[name] = fv
            v = Var(
                name, S, "let", None, ixd=any(by[m].ixd for m in fv if m in by),
                vary=any(by[m].vary for m in fv if m in by), deps=fv,
            )  # fmt: skip
            binds.append((name, e))
            vs.append(v)

        def own(T):
            out = []
            for n, t in T[2]:
                have = [v for v in vs if self.paths(v.T, t)]
                if t[0] == "r" and ch.chance(50):
                    out.append([n, own(t)])
                elif have and ch.chance(90):
                    v = ch.pick(have)
                    # the same field, or any of its type
                    if dict(v.T[2]).get(n) == t and ch.chance(60):
                        out.append([n, ["proj", ["v", v.name], n]])
                    else:
                        out.append([n, self.follow(["v", v.name], v.T, t)])
                else:
                    out.append([n, self.gen(t)])
            return ["rec", self.rec_kind(T[1]), out]

        e = self.with_vars(vs, lambda: own(T))
        for name, b in reversed(binds):
            e = ["let", name, b, e]
        return e

    def paths(self, S, T):
        if S == T:
            return [[]]
        if S[0] != "r":
            return []
        return [[n, *q] for n, t in S[2] for q in self.paths(t, T)]

    def s_proj(self, T):
        ch = self.ch
        vs = [v for v in self.scope if v.T[0] == "r" and self.paths(v.T, T)]
        if vs and ch.chance(50):
            v = ch.pick(vs)
            node, S = ["v", v.name], v.T
        else:
            S = self.rec_type(T)
            r = ch.int(0, 3)
            if r == 0 and R.dim_parts(d := self.newdim()) is not None and self.dval(d):
                node = ["get", self.gen(("v", d, S)), [self.index(d)]]
            elif r < 3:
                node = self.fold(S)
            else:
                node = self.gen(S)
        for n in ch.pick(self.paths(S, T)):
            node = ["proj", node, n]
        return node

    # ------------------------------------------------------------ sharing
    def v_let(self, T):
        return self.s_let(T)

    def s_let(self, T):
        ch = self.ch
        r = ch.int(0, 9)
        if r < 3:
            S = ch.pick([F, I, B])
        elif r < 5:
            S = ("v", self.newdim(), ch.pick([F, I, F, B]))
        elif r < 6:
            S = ("v", self.newdim(), ("v", self.newdim(), ch.pick([F, I])))
        elif r < 8 and self.p["w_rec"]:
            S = ("v", self.newdim(), self.rec_type(T if T[0] != "v" else None))
        elif r < 9 and self.p["w_rec"]:
            S = self.rec_type(T if T[0] != "v" else None)
        else:
            S = T
        bound = None
        name = self.fresh("s")
        if S == I and ch.chance(30):
            bound = self.newdim()
            e1 = self.size_node(bound)
        else:
            e1 = self.gen(S)
        fv = self.free(e1)
        by = {v.name: v for v in self.scope}
        ixd = any(by[n].ixd for n in fv if n in by)
        vary = any(by[n].vary for n in fv if n in by)
        self.letdefs[name] = fv
        v = Var(name, S, "let", bound, ixd=ixd, vary=vary, deps=fv)
        e2 = self.with_vars([v], lambda: self.gen(T))
        return ["let", name, e1, e2]

    def free(self, node):
        """Names occurring in a node, with lets expanded (over-approximate)."""
        out = set()

        def go(n):
            if isinstance(n, list):
                if len(n) == 2 and n[0] == "v" and isinstance(n[1], str):
                    out.add(n[1])
                    out.update(self.letdefs.get(n[1], ()))
                else:
                    for x in n:
                        go(x)

        go(node)
        return out

    # ------------------------------------------------------------ inference
    def can_infer(self, body, binds, captured):
        return infer_ok(self, body, binds, captured)


def infer_ok(g, body, binds, captured):
    """Sizes may be left out when every direct use of the index agrees on the size and at
    least one use is certainly part of the program and has a size that is available outside."""
    tenv = {v.name: (v.T, v.bound if v.role == "let" else None) for v in g.scope}
    for n, _ in binds:
        tenv[n] = (R.I, None)
    for n, T in captured.items():
        tenv[n] = (T, None)
    prog = dict(inputs=g.inputs, dims=g.dims, expr=body)
    typer = R.Ref(prog, exts=g.p["extspecs"])
    want = dict(binds)
    if any(d is None or R.dim_parts(d) is None for d in want.values()):
        return False
    ok = {n: False for n in want}
    bad = False
    names = set(want)

    def stands_for(node, alias):
        """Variables that a node may be nothing but another way to write."""
        t = node[0]
        if t == "v":
            return alias.get(node[1], {node[1]})
        if t == "let":
            return stands_for(node[3], {**alias, node[1]: stands_for(node[2], alias)})
        if t == "proj":
            return stands_for(node[1], alias)
        if t == "rec":
            return set().union(*(stands_for(e, alias) for _, e in node[2]))
        return set()

    aliases = {}

    def walk(node, tenv, inner, sure):
        nonlocal bad
        if bad or not isinstance(node, list):
            return
        t = node[0]
        if t in ("lit", "in", "v"):
            return
        if t in ("get", "orempty"):
            ids = node[2] if t == "get" else [node[2]]
            for p, i in enumerate(ids):
                used = stands_for(i, aliases) & names if isinstance(i, list) else ()
                for n in used:
                    T, _ = typer.comp(node[1], tenv)
                    for _ in range(p):
                        T = T[2]
                    if T[1] != want[n]:
                        bad = True
                        return
                    fv = g.free(node[1])
                    if sure and i == ["v", n] and not fv & inner:
                        ok[n] = True
            walk(node[1], tenv, inner, sure)
            for i in ids:
                walk(i, tenv, inner, sure)
            if t == "orempty":
                walk(node[3], tenv, inner, sure)
            return
        if t == "let":
            T, _ = typer.comp(node[2], tenv)
            walk(node[2], tenv, inner, False)
            aliases[node[1]] = stands_for(node[2], aliases)
            d = typer.dimof(node[2], tenv) if T == R.I else None
            walk(node[3], {**tenv, node[1]: (T, d)}, inner, sure)
            return
        if t == "arr":
            for s in node[2]:
                walk(s, tenv, inner, sure and not node[4])
            te = {**tenv, **{n: (R.I, None) for n in node[1]}}
            walk(node[3], te, inner | set(node[1]), sure)
            return
        if t == "fold":
            walk(node[3], tenv, inner, sure and not node[6])
            T, _ = typer.comp(node[4], tenv)
            walk(node[4], tenv, inner, sure)
            te = {**tenv, node[1]: (R.I, None), node[2]: (T, None)}
            walk(node[5], te, inner | {node[1], node[2]}, sure)
            return
        if t == "std":
            walk(node[3], tenv, inner, sure and not node[5])
            walk(node[4], {**tenv, node[2]: (R.I, None)}, inner | {node[2]}, sure)
            return
        if t == "red":
            T, _ = typer.comp(node[1], tenv)
            walk(node[1], tenv, inner, sure)
            walk(node[2], tenv, inner, sure)
            te = {**tenv, node[3]: (T[2], None), node[4]: (T[2], None)}
            walk(node[5], te, inner | {node[3], node[4]}, sure)
            return
        if t == "proj":
            # records built and taken apart in Python leave no trace
            e = node[1]
            walk(e, tenv, inner, sure and e[0] in ("get", "fold", "red"))
            return
        if t == "rec":
            for _, e in node[2]:
                walk(e, tenv, inner, sure)
            return
        if t == "pow":
            walk(node[1], tenv, inner, sure and node[2] != 0)
            return
        if t in ("cat",):
            for e in node[1]:
                walk(e, tenv, inner, sure)
            return
        if t in ("mm", "ext"):
            for e in node[2]:
                walk(e, tenv, inner, sure)
            return
        for e in node[1:]:
            walk(e, tenv, inner, sure)

    try:
        walk(body, tenv, set(captured) | names, True)
    except R.Skip:
        return False
    return not bad and all(ok.values())


# ---------------------------------------------------------------- monoids
def _lit(T, v):
    return ["lit", T[0], v]


def m_simple(g, T):
    op = g.ch.pick(["+", "*", "min", "max"]) if T in (F, I) else g.ch.pick(["&", "|"])
    if T == F:
        ident = {"+": 0.0, "*": 1.0, "min": float("inf"), "max": float("-inf")}[op]
    elif T == I:
        ident = {"+": 0, "*": 1, "min": 10**6, "max": -(10**6)}[op]
    else:
        ident = op == "&"
    return T, _lit(T, ident), lambda x, y: ["bin", op, x, y], lambda r: r


def _pair_kind(g, names):
    kind = g.ch.pick(["t", "d", "c"])
    return kind, [str(i) for i in range(len(names))] if kind == "t" else list(names)


def m_affine(g, T):
    """Composition of x -> a x + b: associative, not commutative."""
    kind, (a, b) = _pair_kind(g, g.ch.pick([("a", "b"), ("values", "items")]))
    S = ("r", kind, ((a, T), (b, T)))
    one, zero = (1.0, 0.0) if T == F else (1, 0)

    def op(x, y):
        p = lambda e, n: ["proj", e, n]  # noqa
        return [
            "rec",
            kind,
            [
                [a, ["bin", "*", p(x, a), p(y, a)]],
                [b, ["bin", "+", ["bin", "*", p(x, b), p(y, a)], p(y, b)]],
            ],
        ]

    ident = ["rec", kind, [[a, _lit(T, one)], [b, _lit(T, zero)]]]
    out = g.ch.pick([a, b])
    return S, ident, op, lambda r: ["proj", r, out]


def m_matrix(g, T):
    """2x2 matrix products."""
    kind, names = _pair_kind(g, ("p", "q", "r", "s"))
    S = ("r", kind, tuple((n, T) for n in names))
    one, zero = (1.0, 0.0) if T == F else (1, 0)
    P, Q, Rr, Ss = names

    def op(x, y):
        def dot(u, v, w, z):
            return [
                "bin", "+",
                ["bin", "*", ["proj", x, u], ["proj", y, v]],
                ["bin", "*", ["proj", x, w], ["proj", y, z]],
            ]  # fmt: skip

        return [
            "rec",
            kind,
            [
                [P, dot(P, P, Q, Rr)],
                [Q, dot(P, Q, Q, Ss)],
                [Rr, dot(Rr, P, Ss, Rr)],
                [Ss, dot(Rr, Q, Ss, Ss)],
            ],
        ]

    ident = [
        "rec",
        kind,
        [
            [P, _lit(T, one)],
            [Q, _lit(T, zero)],
            [Rr, _lit(T, zero)],
            [Ss, _lit(T, one)],
        ],
    ]
    out = g.ch.pick(names)
    return S, ident, op, lambda r: ["proj", r, out]


def m_first(g, T):
    """First (or last) flagged value: a left- (right-) zero band with identity."""
    kind, (has, val) = _pair_kind(g, ("has", "val"))
    S = ("r", kind, ((has, B), (val, T)))
    left = g.ch.chance(50)
    ident = ["rec", kind, [[has, ["lit", "b", False]], [val, g.lit(T)]]]
    # the identity's value must never win over itself, so give unflagged elements the
    # identity's value by selecting on the flag in the operation
    idv = ident[2][1][1]

    def op(x, y):
        a, b = (x, y) if left else (y, x)
        ha, hb = ["proj", a, has], ["proj", b, has]
        return [
            "rec",
            kind,
            [
                [has, ["bin", "|", ha, hb]],
                [
                    val,
                    [
                        "where", ha, ["proj", a, val],
                        ["where", hb, ["proj", b, val], idv],
                    ],
                ],
            ],
        ]  # fmt: skip

    # (elements are made the same way, by flagged)
    out = val
    return S, ident, op, lambda r: ["proj", r, out]


def m_argmin(g, T):
    """(value, index) minimum, the least index on ties."""
    kind, (v, i) = _pair_kind(g, ("value", "index"))
    S = ("r", kind, ((v, F), (i, I)))
    ident = ["rec", kind, [[v, ["lit", "f", float("inf")]], [i, ["lit", "i", 1000000]]]]
    # on ties the lesser index: an element may be infinite as the identity is
    whole = g.ch.chance(50)

    def op(x, y):
        xv, yv, xi, yi = ["proj", x, v], ["proj", y, v], ["proj", x, i], ["proj", y, i]
        tie = ["bin", "&", ["bin", "==", xv, yv], ["bin", "<=", xi, yi]]
        if whole:
            return ["where", ["bin", "|", ["bin", "<", xv, yv], tie], x, y]
        return [
            "rec",
            kind,
            [
                [v, ["bin", "min", xv, yv]],
                [
                    i,
                    ["where", ["bin", "<", xv, yv], xi,
                     ["where", ["bin", "<", yv, xv], yi, ["bin", "min", xi, yi]]],
                ],
            ],
        ]  # fmt: skip

    out = v if T == F else i
    return S, ident, op, lambda r: ["proj", r, out]


def m_sumcount(g, T):
    kind, (s, n, m) = _pair_kind(g, ("s", "n", "m"))
    S = ("r", kind, ((s, F), (n, I), (m, F)))
    ident = [
        "rec",
        kind,
        [[s, _lit(F, 0.0)], [n, _lit(I, 0)], [m, _lit(F, float("-inf"))]],
    ]

    def op(x, y):
        p = lambda e, f: ["proj", e, f]  # noqa
        return [
            "rec",
            kind,
            [
                [s, ["bin", "+", p(x, s), p(y, s)]],
                [n, ["bin", "+", p(x, n), p(y, n)]],
                [m, ["bin", "max", p(x, m), p(y, m)]],
            ],
        ]

    out = g.ch.pick([s, m]) if T == F else n
    return S, ident, op, lambda r: ["proj", r, out]


def m_cond(g, T):
    """An operation chosen by the surrounding indices: min here, max there."""
    c = g.gen(B)
    n = g.fresh("s")
    # a let around the whole reduction shares the condition
    big = float("inf") if T == F else 10**6
    ident = ["where", ["v", n], _lit(T, big), _lit(T, -big)]

    def op(x, y):
        return ["where", ["v", n], ["bin", "min", x, y], ["bin", "max", x, y]]

    return T, ident, op, lambda r: ["let", n, c, r]


MONOIDS = [
    ("simple", (F, I, B), m_simple),
    ("affine", (F, I), m_affine),
    ("matrix", (F, I), m_matrix),
    ("first", (F, I, B), m_first),
    ("argmin", (F, I), m_argmin),
    ("sumcount", (F, I), m_sumcount),
    ("cond", (F, I), m_cond),
]
