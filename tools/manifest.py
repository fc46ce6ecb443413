"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
TECH = "explicit TLA+ specification checked with TLC; histories recorded from the real code (generated from the specification's state graph and at random) validated against it by TLC"
SCHED = "explicit TLA+ specification checked with TLC; call/return histories of the real code under a controlled scheduler and virtual clock validated by TLC with linearization steps"
NOTE = "Exhaustive over the bounded model (sizes in the evidence); the code is bound to it by replaying the model's state graph and by long random histories, every result and observation compared. Beyond those bounds the assurance is by sampling. Assumes: %s."
conc = getattr(checks, "CONCURRENT", set())
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        a = "; ".join(checks.ASSUME[p]) or "nothing beyond the Go toolchain and TLC"
        m["checks"].append({"property": p, "quick_cmd": "./check --quick " + p, "thorough_cmd": "./check --thorough " + p,
                            "technique": SCHED if p in conc else TECH, "level": "model_checking", "level_note": NOTE % a})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not yet")
