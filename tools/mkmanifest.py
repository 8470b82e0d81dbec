"""Writes MANIFEST.json from the claimed properties below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VG = "value-graph conformance to a specification (gated SSA, random interpretation)"
NOTE = ("Static: /repo's source is parsed on every run and never imported or executed. Each function behind the "
        "property, callees expanded, is turned into a gated value graph and compared with the graph of its "
        "specification in random models of the symbols left uninterpreted (Gulwani-Necula random interpretation; "
        "agreement is equality up to a small probability of error per obligation, loops compared up to a bounded "
        "number of iterations). Trusted: the analyser and its meanings of library functions, real arithmetic in "
        "place of floating point, the specifications in pvsa/specs. Code the analyser cannot follow is reported "
        "as undecided in the evidence, not as a violation.")
CLAIMED = {}          # property -> (technique, extra note)
for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P29 P30 P31 P32 P33 P34 P35 P36 P37 P38 P42".split():
    CLAIMED[p] = (VG, "")
NA = {
    "P39": "Equality of two distributions over all random streams is a statement about run-time values; no static "
           "argument in reach bounds it. Both tracers are instead compared with the same specifications step by step "
           "(P01-P08, P38).",
    "P40": "Quantifies over accumulated floating-point error for arbitrary dimensions and histories; needs numerical "
           "error analysis of run-time values that no sound static analysis in reach can do for this code.",
    "P41": "Uniformity and independence of pseudo-random streams are statistical facts about run-time values; only the "
           "seeding discipline is structural, and that is claimed under P14 and P20.",
}
TODO = "Not analysed yet."
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import ast, sys; sys.exit(sys.version_info < (3, 9))'",
     "checks": [{"property": p, "quick_cmd": "/opt/venv/bin/python check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py " + p,
                 "technique": t, "level": "other", "level_note": (NOTE + " " + x).strip()}
                for p, (t, x) in sorted(CLAIMED.items())],
     "not_applicable": [{"property": p, "reason": NA.get(p, TODO)} for p in props if p not in CLAIMED],
     "notes": "No hooks: nothing in /repo is instrumented."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
