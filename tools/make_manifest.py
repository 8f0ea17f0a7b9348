"""Writes ../MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LEVEL = ("TLC explores the TLA+ specification exhaustively within small constants and its invariants hold there; the code is bound to it by "
         "replaying the explored behaviours and long seeded histories step by step (and validating recorded traces where the code is random). "
         "Sound for the behaviours replayed, not a proof for all inputs. Trusts TLC, the projection in the driver, and numpy/astropy/pandas.")
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "drivers", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid}", thorough_cmd=f"./check.sh {pid} --thorough",
                           technique="TLA+ specification checked with TLC; behaviour replay and trace validation against the code",
                           level="model_checking", level_note=LEVEL))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: the public API exposes the abstract state."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not yet")
