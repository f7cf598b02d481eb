#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from conf import CHECKS, NOT_APPLICABLE, NOT_YET
V = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
    checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py %s --thorough" % p,
                 technique=CHECKS[p]["technique"], level="exploration", level_note=CHECKS[p]["note"]) for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, NOT_YET)) for p in props if p not in CHECKS],
    notes="Every random choice derives from VERIF_SEED; a violation's replay file is re-run with build/<binary> --replay FILE. No hooks in /repo: the seams are link-time wraps (see DESIGN.md).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
