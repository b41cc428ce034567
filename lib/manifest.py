"""Writes MANIFEST.json from the plan and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, TECHNIQUE, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "SNN_VERBOSE",
        "enable": "the variant loud of lib/build.py compiles the library with -DSNN_VERBOSE=complete, which turns the progress log on; all the other variants leave it undefined",
        "source_commits": subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--grep=^hook:", "--format=%h"], capture_output=True, text=True).stdout.split(),
    },
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECHNIQUE[i],
        "level": "exploration",
        "level_note": NOTE[i],
    } for i in ids if i in PLAN],
    "not_applicable": [{"property": i, "reason": "the monitor for this property is not built yet"} for i in ids if i not in PLAN],
    "notes": "check.py builds the harnesses of a property against /repo's current sources (lib/build.py), runs them in 8 shards (lib/driver.py) and writes evidence/<id>.json; "
             "known-findings.txt lists the known and the repaired defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
