"""Write MANIFEST.json from properties.jsonl and the modules in vf/props."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {}
NOTE = {}
with open(os.path.join(HERE, "tools", "notes.json")) as f:
    NOTES = json.load(f)

checks, missing = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]
for pid in ids:
    path = os.path.join(HERE, "vf", "props", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append(dict(property=pid, reason="the check is not built yet"))
        continue
    with open(path) as f:
        level = re.search(r'^LEVEL = "(\w+)"', f.read(), re.M).group(1)
    run = f"/opt/venv/bin/python -B vf/run.py {pid}"
    checks.append(dict(property=pid, quick_cmd=f"{run} quick",
        thorough_cmd=f"{run} thorough", evidence_file=f"evidence/{pid}.json",
        technique=NOTES[pid]["technique"], level=level,
        level_note=NOTES[pid]["note"]))
manifest = dict(version=1,
    setup_cmd="/opt/venv/bin/python -B vf/run.py --selftest", checks=checks,
    not_applicable=missing,
    notes="No hooks: the checks import the code from /repo's working tree. "
          "A replay file runs again with vf/run.py --replay FILE.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(missing), "not")
