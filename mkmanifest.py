"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PURE = "Quantifies over the arguments of one call of a pure function; no schedule, fault, time, I/O or history decides it, so there is nothing to simulate."
PY = "/opt/venv/bin/python"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        p = importlib.import_module("props." + pid.lower()).PROP
        checks.append(dict(property=pid, quick_cmd=f"{PY} /verif/check.py {pid} --tier quick",
                           thorough_cmd=f"{PY} /verif/check.py {pid} --tier thorough",
                           technique=p.technique, level=p.level, level_note=p.level_note,
                           evidence_file=f"evidence/{pid}.json"))
    else:
        na.append(dict(property=pid, reason=PURE if int(pid[1:]) > 12 else "Check not built yet."))
m = dict(version=1, setup_cmd=f"{PY} -c \"import numpy, sys; assert sys.version_info >= (3, 12)\"", checks=checks, not_applicable=na,
         notes="All checks run deterministic simulation of /repo's working tree; one seed and run index give one exactly repeatable execution. Replay with: check.py --replay FILE.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
