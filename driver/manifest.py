"""Write /verif/MANIFEST.json from properties.jsonl and the CHECKS table."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from driver import checks

checks_out, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    pid = json.loads(line)["id"]
    c = checks.CHECKS.get(pid)
    if c is None:
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks_out.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 driver/setup.py",
    "checks": checks_out,
    "not_applicable": na,
    "notes": "Runtime monitoring and sanitizers. One driver (check.py) builds the harness against /repo's working tree in several flavours, runs monitored workloads and judges what the monitors report. No hooks in /repo are needed: everything is observed through the public API, a monitoring allocator, monitoring storages and serializers, and sanitizers.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
