"""C18: element types of any width."""
from .. import ref as R
from .. import shapes as S
from .programs import FOLDS, INDEXING, RECORDS, REDUCTIONS, SUMS, ProgramCheck, draw_some_backends

WIDTHS = {"f": [("float32", 32), ("float64", 64)], "i": [("int32", 32), ("int64", 64), ("int16", 16)]}


class C18(ProgramCheck):
    id = "C18"
    title = "Element types of any width give the same values, as precisely as they can"
    cases = {"quick": 500, "thorough": 5000}
    profiles = [
        (4, "default", dict(fuel=(3, 18))),
        (2, "small", dict(fuel=(2, 8))),
        (3, "casts", dict(fuel=(3, 10), w_cast=20, w_trans=20, w_arith=5, w_fold=2, w_red=1, w_rec=1, w_std=1, w_dot=1)),
        (2, "indexing", {**INDEXING, "fuel": (3, 14)}),
        (2, "folds", {**FOLDS, "fuel": (4, 16)}),
        (3, "sums", {**SUMS, "fuel": (5, 18)}),
        (1, "reductions", {**REDUCTIONS, "fuel": (4, 16)}),
        (1, "records", {**RECORDS, "fuel": (4, 14)}),
        (1, "clips", dict(shape=S.clips)),
    ]
    rule = (
        "a case is a typed program drawn from the grammar with its input arrays, some of narrow element "
        "types; non-trivial: some input is narrow, the program executes at least one loop iteration and its "
        "result has at least one element with a defined value"
    )
    assumptions = (
        "with a 32-bit float among the inputs, results are only as precise as these; with a 16- or 32-bit "
        "integer, programs with integers beyond their range are skipped",
        "signed integers of 16, 32 and 64 bits, floats of 32 and 64 bits",
    )

    def draw_backends(self, ch):
        return draw_some_backends(ch, torch=60, naive=25, jax=8)

    def draw(self, ch):
        case = super().draw(ch)
        how = ch.weighted([(5, "mixed"), (3, "narrow"), (2, "integers"), (1, "floats")])
        for s in case["prog"]["inputs"]:
            if s["kind"] in WIDTHS:
                if how == "mixed":
                    s["dtype"] = ch.pick(WIDTHS[s["kind"]])[0]
                elif how == "narrow":
                    s["dtype"] = WIDTHS[s["kind"]][0][0]
                elif s["kind"] == how[0]:
                    s["dtype"] = ch.pick(WIDTHS[s["kind"]])[0]
        case["native"] = ch.chance(40)
        return case

    def run(self, case):
        bits = {"i": 64, "f": 64}
        for s in case["prog"]["inputs"]:
            for name, b in WIDTHS.get(s["kind"], ()):
                if s.get("dtype") == name:
                    bits[s["kind"]] = min(bits[s["kind"]], b)
        with R.narrow(bits["i"], bits["f"]):
            labels = super().run(case)
        labels.update(s["dtype"] for s in case["prog"]["inputs"] if "dtype" in s)
        if bits == {"i": 64, "f": 64}:
            labels.discard("nontrivial")
        return labels


CHECKS = [C18]
