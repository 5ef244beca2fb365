"""Writes MANIFEST.json: one entry per module in checks/."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECH = json.loads((ROOT / "tools" / "techniques.json").read_text())
NOTE = ("Runtime monitoring: held on the executions this run produced (counts, monitor events and code reached are in the evidence file). Trusts the oracle's "
        "hand-written tables in vk/, CPython, expat/libxml2 as used by the oracle, and the workload generators' reach.")
props = [json.loads(line)["id"] for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = []
for pid in props:
    if (ROOT / "checks" / f"{pid.lower()}.py").exists():
        checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --thorough", "technique": TECH[pid],
                       "level": "exploration", "level_note": NOTE})
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import lxml, shapely, pygeoif' && chmod +x check", "checks": checks,
       "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in {c["property"] for c in checks}],
       "notes": "Every check imports fastkml from /repo's working tree (no build step) with a fresh bytecode cache, drives it in 8 worker processes and decides by monitors over what the public API did."}
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
