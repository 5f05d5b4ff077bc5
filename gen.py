#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json
from props import P
from registry import CHECKS, NOT_APPLICABLE
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
claimed = [p for p in P if p["id"] in CHECKS]
m = dict(version=1, setup_cmd="python3 build.py --setup",
         checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                      thorough_cmd=f"python3 check.py {p['id']} --thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"],
                      level=CHECKS[p["id"]]["level"], level_note=p["note"]) for p in claimed],
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="no hooks in /repo: the harnesses compile /repo/src with their own configuration header and in-process MPI/OpenMP runtimes")
for p in P:
    assert p["id"] in CHECKS or p["id"] in NOT_APPLICABLE, p["id"]
for k in CHECKS:
    assert any(p["id"] == k for p in P), k
json.dump(m, open("MANIFEST.json", "w"), indent=1)
