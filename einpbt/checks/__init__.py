import importlib

MODULES = ["programs", "records", "sizes", "typing", "transforms", "purity", "functions", "operators", "externals", "printing", "gradients", "sizeclasses", "identity", "precision"]


def ids():
    out = []
    for m in MODULES:
        mod = importlib.import_module(f"{__name__}.{m}")
        out += [c.id for c in mod.CHECKS]
    return sorted(out)


def load(check_id):
    for m in MODULES:
        mod = importlib.import_module(f"{__name__}.{m}")
        for c in mod.CHECKS:
            if c.id == check_id:
                return c()
    raise SystemExit(f"no such check: {check_id}")
