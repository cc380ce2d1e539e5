"""Writes MANIFEST.json from the contracts that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
NOTE = ("Every obligation is generated on each run by symbolically executing /repo's unmodified sources and is discharged for all inputs in "
        "the stated ranges (normal-form and interval provers in /verif/pyvc); arithmetic is real arithmetic (tolerance 1e-7), the numpy surface model, the provers and the "
        "contracts are trusted; sampled inputs are replayed on the real package as a cross-check. ")
EXTRA = json.load(open(os.path.join(H, "tools", "notes.json"))) if os.path.exists(os.path.join(H, "tools", "notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(H, "contracts", i.lower() + ".py")) and i not in sys.argv[1:]:
        checks.append(dict(property=i, quick_cmd="./check.py " + i, thorough_cmd="VERIF_TIER=thorough ./check.py " + i,
                           technique="contract-based deductive verification: symbolic execution of the real code against machine-checked contracts",
                           level="proof", level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason="contracts not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B check.py --selftest", checks=checks, not_applicable=na),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
