"""Regenerates MANIFEST.json: one check per property that has a driver in
harness/<id>.py; the others are listed as not applicable (not yet claimed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "The TLA+ model is checked exhaustively within its bounds; real executions (behaviours enumerated by TLC plus seeded random ones) are judged step by step by the trace specification with TLC. Trusts TLC, the projection of Python objects to abstract values in harness/, and zlib for compressed blocks.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "TLA+ specification model-checked with TLC; conformance by replaying TLC-generated behaviours into the code and judging recorded executions with a TLC trace specification",
            "level": "model_checking",
            "level_note": NOTE.get(pid, NOTE["default"]),
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
