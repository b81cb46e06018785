"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist"""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(ROOT + "/harness/[a-z]*_*.py")}
NOT = {}
try:
    NOT = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
except IOError:
    pass
NOTES = {}
try:
    NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
except IOError:
    pass
DEFAULT = ("Bounded symbolic execution of the real Python code (recompiled from /repo on every run): z3 decides "
           "every branch and assertion for all inputs within the bounds listed per task in the evidence file; "
           "nothing is claimed outside them. Counterexamples are replayed against the untouched code.")
checks, nots = [], []
for p in props:
    if p["id"] in have and p["id"] not in NOT:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": "symbolic execution of the real code with z3 (bounded), counterexample replay",
            "level": "model_checking",
            "level_note": NOTES.get(p["id"], DEFAULT)})
    else:
        nots.append({"property": p["id"], "reason": NOT.get(p["id"], "check not built yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fil:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 setup_check.py",
        "checks": checks, "not_applicable": nots,
        "notes": "See DESIGN.md. Known findings and fixes: known_findings.jsonl."}, fil, indent=1)
print(len(checks), "checks", [n["property"] for n in nots])
