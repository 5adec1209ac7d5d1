#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the entries in tools/props/*.py."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(pid, title, statement, over, qtext, why, files, mech, technique, note, claimed=True, reason=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "_technique": technique, "_note": note, "_claimed": claimed, "_reason": reason})


def main():
    for path in sorted(glob.glob(os.path.join(HERE, "tools", "props", "*.py"))):
        with open(path, encoding="utf-8") as src:
            exec(compile(src.read(), path, "exec"), {"P": P})  # pylint: disable=exec-used
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as out:
        for prop in PROPS:
            out.write(json.dumps({k: v for k, v in prop.items() if k[0] != "_"}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": [], "not_applicable": [],
        "notes": "Static analysis only: every check parses /repo's current sources (Python with ast, Fortran and "
                 "XML/CMake with small readers in sa/) and decides rules over syntax trees, call graphs and an "
                 "abstract interpreter. Nothing from /repo is imported or run. A vanished anchor exits 3."}
    for prop in PROPS:
        if prop["_claimed"]:
            manifest["checks"].append({
                "property": prop["id"],
                "quick_cmd": "python3 check.py %s quick" % prop["id"],
                "thorough_cmd": "python3 check.py %s thorough" % prop["id"],
                "technique": prop["_technique"], "level": "other", "level_note": prop["_note"]})
        else:
            manifest["not_applicable"].append({"property": prop["id"], "reason": prop["_reason"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


main()
