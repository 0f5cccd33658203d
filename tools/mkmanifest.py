"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C07": "history monitor: model map run in lockstep with the real container",
    "C08": "history monitor: model ledger run in lockstep with the real issue report",
    "C23": "isolation monitors: deep snapshots around calls, repeat/interleave/thread stress against solo outcomes",
    "C25": "event-log monitor: recording processors planted in schemas, log compared with the log a reference model derives",
    "C01": "exception and CPU-time monitor around every entry point under hostile, structure-aware workloads",
    "C24": "release monitor over every (result, issues) pair of every entry point under mixed workloads",
}
DEFAULT = "runtime monitor at the API boundary: each observed outcome decided by an independent reference model"
NOTE = (
    "Every decision is an oracle verdict on an execution of the real code from /repo; inputs are sampled "
    "(seeded, structure-aware, biased to edge cases), not enumerated, so absence of a violation is evidence, not proof. "
    "Trusts the reference models in vlib/ and CPython."
)
checks, missing = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for line in f:
        pid = json.loads(line)["id"]
        if os.path.exists(os.path.join(HERE, "vlib", "props", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./check {pid}",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECHNIQUE.get(pid, DEFAULT),
                "level": "exploration",
                "level_note": NOTE,
            })
        else:
            missing.append({"property": pid, "reason": "check is not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: all monitors sit at the public API boundary. /repo carries only fix: commits.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
