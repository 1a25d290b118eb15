"""writes MANIFEST.json from properties.jsonl and the registered contracts"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.boot import boot
boot()
from engine import contract as K, trusted
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
claimed = {p for c in K.REGISTRY.values() for p in c.props}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % i, thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=trusted.TECHNIQUE.get(i, "contract-based deductive verification: symbolic execution of the real functions against pre/postconditions, obligations discharged by term normalisation and z3"),
                           level=trusted.LEVELS.get(i, "proof"), level_note=NOTES.get(i, NOTES["default"])))
    else:
        na.append(dict(property=i, reason="no contract built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from engine.boot import boot; boot()\"", checks=checks, not_applicable=na,
         notes="Contracts live in contracts/*.py; check.py generates and discharges the obligations from /repo's working tree on every run. Defects repaired in /repo are listed in known_findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
