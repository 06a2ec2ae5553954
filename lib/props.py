#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 lib/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "contract-based deductive verification of the real C sources (goto-instrument --dfcc contracts and per-function proof harnesses, discharged by cbmc)"
HOOK = "5a325ee4320af52a3c1a7115158dceb628c6ce44"

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), claim=claim, na=na))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                            "mechanism": [dict(name=n, where=w) for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["claim"]:
            level, note = p["claim"]
            checks.append({"property": p["id"], "quick_cmd": "python3 lib/vc.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 lib/vc.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": TECH, "level": level, "level_note": note})
        else:
            na.append({"property": p["id"], "reason": p["na"]})
    json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
               "hooks": {"guard": "WLA_STRICT_C90", "enable": "nothing to enable: the checks compile the unmodified sources. The CMake option WLA_STRICT_C90=ON restores the -ansi flags (see DESIGN.md, section 3)", "source_commits": [HOOK]}, "notes": "See DESIGN.md."},
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

main()
