#!/usr/bin/env python3
"""Writes MANIFEST.json and refreshes known-findings.json's list of fixes from /repo's history."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]

# property -> (technique, level, level note)
B = {}
def built(id, technique, note, level="exploration"):
    B[id] = (technique, level, note)

exec(open(f"{here}/tools/built.py").read())

NA = globals().get("NA", {})
m = {
    "version": 1,
    "setup_cmd": "bash run.sh --build-all",
    "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' cargo build (the server crate; the codec checks use the public API only and need no hook)", "source_commits": HOOKS},
    "checks": [
        {"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}", "evidence_file": f"evidence/{i}.json",
         "technique": B[i][0], "level": B[i][1], "level_note": B[i][2]} for i in ids if i in B],
    "not_applicable": [{"property": i, "reason": NA.get(i, "planned (see DESIGN.md); no check is built yet")} for i in ids if i not in B],
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)

# fixes
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = next((v for k, v in FIXPROP.items() if s[5:].startswith(k)), "C10")
        fixed.append(f"fixed: property={p} {h} {s[5:]}")
kf = f"{here}/known-findings.json"
d = json.load(open(kf)) if os.path.exists(kf) else {"findings": []}
d["fixed"] = fixed
json.dump(d, open(kf, "w"), indent=1)
print(len(m["checks"]), "checks,", len(fixed), "fixes")
