#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
 "default": "TLA+ specification; TLC validates recorded runs of the library against it",
}
MODEL = "TLA+ specification model checked with TLC; its behaviours replayed on the library and recorded runs validated by TLC"
import sys
sys.path.insert(0, HERE)
from plan import MODELS
NOTE = ("Every recorded call of the explored runs is a transition of the specification (spec/World.tla) up to stated rounding bounds. "
        "Trusts: TLC, the double arithmetic in RealOps.java, the harness that records through the public interface. "
        "Bounds: the generated scenes and scripts (seeded), a few bodies and steps each.")
checks = [dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
               technique=MODEL if MODELS.get(p["id"]) else TECH["default"], level="model_checking", level_note=NOTE) for p in props]
json.dump(dict(version=1, setup_cmd="python3 run.py --build", checks=checks, not_applicable=[]), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
