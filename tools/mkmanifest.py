#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(here, "..")
GRAPH = "static value-graph equivalence (gated value numbering of the typed trees with algebraic normal forms; differences confirmed by random interpretation of the graphs)"
NOTE = ("Holds for all inputs of the stated laws, read over the real numbers: rounding and overflow of floating point are not modelled, "
        "std and chrono are trusted through models, symbolic power bases are taken positive and symbolic denominators nonzero. "
        "A law is discharged by normal forms alone; a difference is reported when the normal forms differ in a feasible case or a random point of the value graphs separates them (the graphs are interpreted, the library is never run). "
        "What the analysis cannot decide is listed as undecided in the evidence and raises no alarm.")
CLAIMED = [f"P{i:02}" for i in range(1, 36)]
SPECIAL = {
    "P32": ("custom lint over the type-checked program: effect analysis of every call and static, and order-dependence analysis of every hash-map traversal",
            "Sites of external calls are classified by the path of the callee; calls into crates of which nothing is known are reported as undecided. Calls through function values are covered at the place the value is made."),
    "P33": ("custom lint over the type-checked program: symbolic matching of generated serializer and deserializer bodies field by field",
            "Decides which names are written and read for every field and variant; the data formats themselves (serde_json, ron) and the serialization of std and chrono types are trusted; hand-written impls are reported as undecided where they cannot be followed."),
}
NA = {
    "P36": "Convergence of Newton's method from the fixed start value depends on numeric iteration histories over all inputs; no static argument in reach bounds them (P07 decides that whatever is reported is converged).",
    "P37": "Needs bounds on rounding errors of powers, logarithms and data-dependent sums over unbounded inputs; the value graphs work over the reals and no static error analysis in reach gives useful bounds.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CLAIMED:
        t, n = SPECIAL.get(p, (GRAPH, NOTE))
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",
                           evidence_file=f"evidence/{p}.json", technique=t, level="other", level_note=n))
na = [dict(property=p, reason=NA.get(p, "not yet claimed: its check is being built")) for p in ids if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
