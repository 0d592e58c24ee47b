#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after an edit)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "internals/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, observe=observe, tech=tech, note=note))


EXE = ["standard output and exit status of the compiled program"]
MODEL = "property-based testing: generated programs, differential against a reference interpreter of the language"
COMMON = (" Sampled, not exhaustive; trusts LLVM 17/18, the C library and the reference semantics written in /verif/harness/lang.")

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]

man = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": [
    {"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
     "technique": p["tech"], "level": "exploration", "level_note": p["note"] + COMMON} for p in PROPS],
    "not_applicable": [],
    "notes": "One checker (/verif/harness), one family set per property; see DESIGN.md. ./run.sh --replay FILE judges a saved case again."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
