"""Write MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
TECH = ("TLA+ specification checked with TLC: the state machine is explored "
        "exhaustively and its transitions and random walks are replayed into "
        "the real library, and recorded histories of the real library are "
        "validated event by event against the specification")
UPD = ("TLA+ specification checked with TLC: TLC generates the scenarios, "
       "which are replayed into the real code and validated against the "
       "specification")
NOTE = ("Bounded: every call of the histories explored by the check agrees "
        "with the specification (SofaTrace.tla), over a data base of 35 "
        "conventions that use all features of the format. Trusts TLC, the "
        "harness that records values and files, numpy and netCDF4.")
EXTRA = {k: (UPD, NOTE.replace("SofaTrace.tla", "SofaUpdateTrace.tla"))
         for k in ("C22", "C26")}
EXTRA["C23"] = ("TLA+ specification checked with TLC: conventions compiled "
                "and used by the real code are validated against the "
                "specification", NOTE)

with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f]
checks = []
for i in ids:
    if i in NOT:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i} quick",
        "thorough_cmd": f"bin/check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": EXTRA.get(i, (TECH, NOTE))[0],
        "level": "model_checking",
        "level_note": EXTRA.get(i, (TECH, NOTE))[1]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "bin/setup",
        "hooks": {"guard": "none (no hooks: the checks observe the library "
                           "from outside)", "enable": "nothing to enable",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v}
                           for k, v in NOT.items()],
        "notes": "See DESIGN.md."}, f, indent=1)
    f.write("\n")
