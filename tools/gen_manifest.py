"""Writes /verif/MANIFEST.json from the property modules present."""
import importlib
import json
import os
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or multi-party behaviour for a simulation to control (see DESIGN.md)"
NOTES = {
    "C01": "Seeded search over crash/fault points and download histories; invariant after every mutating file operation. Trusts the file-system model (process kill, atomic rename, no power loss) and small synthetic releases.",
    "C02": "Seeded search over fault prefixes followed by a fault-free request (progress bound: one request), compared with the released numbers.",
    "C03": "Seeded search over multi-type download histories with faults; per-type invariant after every mutating operation, reflectances compared with an independent reference interpolation.",
    "C04": "Seeded search over histories; request log and directory bytes compared with a model of the version gate after every operation.",
    "C05": "Seeded search over interleavings of 2-4 simulated processes at I/O granularity, with kills; each result compared with the released data.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i.startswith("N"):
        na.append({"property": i, "reason": PURE})
    elif os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
        m = importlib.import_module("sim.props." + i.lower())
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over %s" % ", ".join(
                x.replace("_", " ") for x in p["quantifier"]["over"]),
            "level": "exploration", "level_note": getattr(m, "NOTE", None) or NOTES[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is patched from outside (builtins.open, os.*, h5py.File, requests' adapter, time, threading locks). "
                    "Replays: /opt/venv/bin/python -m sim.runner replay <file>. Determinism self-test: ./selftest.sh"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
