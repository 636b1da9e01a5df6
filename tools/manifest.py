#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered in lib/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks

CASES = "TLA+ case specification checked by TLC; every specified call replayed into the code"
TECH = {
    "C06": "TLA+ specification of segment sets checked by TLC; every set replayed into the sweep under push/query histories",
    "C07": "TLA+ specification of curve sets checked by TLC; every set replayed into the sweep under push/query histories",
    "C16": "triangulations recorded from the code validated by TLC against a TLA+ specification; ear-clipping machine model checked",
    "C21": "TLA+ state machine of reversal histories, walked in lockstep with the code",
    "C22": "TLA+ state machines (abstract container, AVL refinement) checked by TLC; histories walked in lockstep and recorded traces validated",
    "C23": "TLA+ state machine checked by TLC; histories walked in lockstep with the code",
    "C24": "TLA+ state machine checked by TLC; histories walked in lockstep with the code",
    "C25": "TLA+ state machine checked by TLC; histories walked in lockstep with the code",
    "C26": "TLA+ case specification checked by TLC; calls replayed through the WebAssembly binding",
}
NOTE = ("Complete within the stated bounds of the enumerated stages (evidence lists them), sampled by a seeded generator beyond; "
        "expected values are computed by TLC in exact arithmetic from definitions cross-checked by model-checked invariants. "
        "Trusted: TLC, the specification's reading of the property, the harness' comparison (1e-8 relative for f64). ")
NOTES = {}
NA = getattr(checks, "NOT_APPLICABLE", {})

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 run.py --setup",
    hooks=dict(guard="rcgal_verif", enable='RUSTFLAGS="--cfg rcgal_verif"',
               source_commits=os.popen("git -C /repo log --format=%H --grep '^verif hook'").read().split()),
    checks=[dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                 evidence_file=f"evidence/{i}.json", technique=TECH.get(i, CASES), level="model_checking",
                 level_note=NOTE + NOTES.get(i, "")) for i in ids if i in checks.CHECKS],
    not_applicable=[dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in checks.CHECKS],
    notes="TLA+/TLC specifications in spec/, bound to the code by harness/ through run.py. See DESIGN.md.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
