#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification, TLC; model-generated and random cases replayed into the real code, answers judged by TLC"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique=TLA):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, technique=technique))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "hooks": {"guard": "none", "enable": "no hook is needed: the driver uses the public API only",
                  "source_commits": []},
        "checks": [{"property": p["id"],
                    "quick_cmd": "python3 check.py %s quick" % p["id"],
                    "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                    "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
                    "evidence_file": "evidence/%s.json" % p["id"]} for p in P],
        "not_applicable": [],
        "notes": "See DESIGN.md. Known and repaired findings: known-findings.txt."}, f, indent=1)
    f.write("\n")
