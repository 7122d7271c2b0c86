#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after adding a check)."""
import json
import pathlib
import re
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.](?:\s|$)", statement)) <= 3, (id, statement)
    PROPS.append(
        dict(
            prop=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                ),
            ),
            technique=technique,
            note=note,
        )
    )


exec((pathlib.Path(__file__).parent / "props.py").read_text())

implemented = set(
    re.findall(r'^    id = "(C\d\d)"', "\n".join(
        p.read_text() for p in (HERE / "einpbt/checks").glob("*.py")), re.M)
)
props = sorted((p for p in PROPS), key=lambda p: p["prop"]["id"])
claimed = [p for p in props if p["prop"]["id"] in implemented]
missing = implemented - {p["prop"]["id"] for p in props}
assert not missing, missing
with open(HERE / "properties.jsonl", "w") as f:
    for p in claimed:
        f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
manifest = dict(
    version=1,
    setup_cmd="./run.py selftest",
    hooks=dict(guard="EIN_VERIF", enable="no hooks are needed: the guard is unused", source_commits=[]),
    checks=[
        dict(
            property=p["prop"]["id"],
            quick_cmd=f"./run.py check {p['prop']['id']} --tier quick",
            thorough_cmd=f"./run.py check {p['prop']['id']} --tier thorough",
            technique=p["technique"],
            level="exploration",
            level_note=p["note"],
            evidence_file=f"evidence/{p['prop']['id']}.json",
        )
        for p in claimed
    ],
    not_applicable=[],
    notes="Every check imports ein from /repo's working tree (PYTHONPATH) and needs no build step.",
)
(HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
print("claimed", len(claimed), "unclaimed", [p["prop"]["id"] for p in props if p not in claimed])
