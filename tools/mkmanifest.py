#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the notes below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import plans  # noqa: E402

BASE = ("Bounded: every world of the TLA+ universes and of the random families is explored exhaustively by TLC and "
        "replayed in the code; nothing is claimed beyond their bounds. Trusts the specification, TLC, the renderer that "
        "turns abstract files into text and the comparison of JSON documents.")
NOT = {}
m = {
    "version": 1,
    "setup_cmd": "cd harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo build --offline --quiet",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items())],
    "notes": "TLA+ specification in spec/, checked with TLC; every behaviour is replayed in the real code (harness/). "
             "No hooks are needed in /repo: the public API and the command line are enough.",
}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in plans.PLANS:
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
            "technique": plans.TECHNIQUE.get(p, plans.T),
            "level": plans.LEVEL.get(p, "model_checking"), "level_note": plans.NOTE.get(p, "") + BASE})
    elif p not in NOT:
        m["not_applicable"].append({"property": p, "reason": "not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
