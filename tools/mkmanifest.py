#!/usr/bin/env python3
"""Writes MANIFEST.json (development helper)."""
import json, os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
}
LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json"))) if os.path.exists(os.path.join(HERE, "tools", "levels.json")) else {}
SEARCH = {"C21": "contract-based deductive verification: Verus discharges contracts on the procedural macro's functions extracted from /repo's source on every run; a bounded search gives invalid definitions to the compiler with the real macro"}
ids = ["C%02d" % i for i in range(1, 23)]
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[
        dict(
            property=i,
            quick_cmd="python3 check.py %s quick" % i,
            thorough_cmd="python3 check.py %s thorough" % i,
            technique=SEARCH.get(i) or "contract-based deductive verification: Verus discharges contracts on the functions extracted from /repo's source on every run; a bounded native search on the real crate looks for the failing input",
            level=LEVELS.get(i, ["exploration", ""])[0],
            level_note=LEVELS.get(i, ["", "No contract yet: bounded native search only."])[1],
        )
        for i in ids
    ],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
