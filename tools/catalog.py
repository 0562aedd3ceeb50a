#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing.

Adds every property to properties.jsonl; those with an entry in worlds.CHECKS
become checks, the others are listed as not applicable with their reason.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import worlds  # noqa: E402

PROPS = []
NA = {}
NOTES = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, note=None, na=None, state=None, hook=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    assert id not in [q["id"] for q in PROPS]
    PROPS.append(p)
    if na:
        NA[id] = na
    else:
        NOTES[id] = note


exec(open(os.path.join(VERIF, "tools", "properties.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in PROPS:
        i = p["id"]
        if i in worlds.CHECKS:
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": worlds.CHECKS[i].get("technique", "deterministic simulation with fault injection (seeded search)"),
                           "level": worlds.CHECKS[i]["level"], "level_note": NOTES[i]})
        else:
            na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
    m = {"version": 1,
         "setup_cmd": "python3 tools/check.py --setup",
         "hooks": {"guard": "LINALGCPP_SIM", "enable": "no hook was needed: the checks build /repo's sources unchanged and put every seam "
                   "behind the C library, operator new, the external libraries' own entry points and the library's virtual interfaces",
                   "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for i in worlds.CHECKS:
        assert i in [p["id"] for p in PROPS], i


main()
