#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the table of checks in props.py (run by hand after adding a check)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
TECH = props.TECHNIQUE
ids = [json.loads(l)["id"] for l in open(os.path.join(props.VERIF, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hook = [l.split()[0] for l in hook if l.split(" ", 1)[1].startswith("hook:")]
m = dict(version=1, setup_cmd="python3 tools/check.py --prebuild",
         hooks=dict(guard="PARMCB_VERIF", enable="the harnesses are compiled with -DPARMCB_VERIF", source_commits=hook),
         checks=[dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                      technique=TECH[i][0], level="exploration", level_note=TECH[i][1]) for i in ids if i in props.CHECKS],
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in props.CHECKS])
json.dump(m, open(os.path.join(props.VERIF, "MANIFEST.json"), "w"), indent=1)
