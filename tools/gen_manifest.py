#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NOTES = json.load(open(f"{ROOT}/tools/notes.json"))
HOOKS = {"guard": "cfg(bugi_verif)", "enable": "tools/mirror.py copies /repo/src into build/ next to a build.rs that emits cargo:rustc-cfg=bugi_verif; nothing else turns the guard on", "source_commits": NOTES.get("hook_commits", [])}
checks, na = [], []
for p in props:
    i = p["id"]
    b = i.lower() + ".rs"
    built = any(os.path.exists(f"{ROOT}/harness/{k}/src/bin/{b}") for k in ("core", "full")) and i in NOTES["checks"]
    if built:
        n = NOTES["checks"][i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
            evidence_file=f"evidence/{i}.json", technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES["na"].get(i, "the check for this property is not finished yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    notes="Every check mirrors /repo/src into build/ (git-ignored), builds it offline with a controlled std::collections and a stand-in for the one missing dependency (spacemath), and explores it.")
if NOTES.get("hook_commits"):
    m["hooks"] = HOOKS
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
