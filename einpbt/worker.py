"""One shard of a check, in a process of its own."""
import json
import os
import sys

from .core import explore, jsonable, load


def main(argv):
    """worker: check-id seed shard cases wall corpus-file out-file"""
    check_id, seed, shard, cases, wall, corpus, out = argv
    check = load(check_id)
    items = []
    if corpus != "-" and os.path.exists(corpus):
        with open(corpus) as f:
            items = [json.loads(line)["case"] for line in f if line.strip()]
        items = [c for k, c in enumerate(items) if k % check.shards == int(shard)]
    rep = explore(
        check, seed=int(seed), shard=int(shard), cases=int(cases), wall=float(wall),
        corpus=items,
    )  # fmt: skip
    with open(out + ".tmp", "w") as f:
        json.dump(jsonable(rep), f)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main(sys.argv[1:])
