"""Writes /verif/MANIFEST.json from checks.py and tools/na.json."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "na.json")))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hc = [l.split()[0] for l in hooks.splitlines() if " sim hook" in l]
m = dict(version=1, setup_cmd="python3 buildlib.py",
         hooks=dict(guard="QDD_SIM", enable="the simulators compile /repo/src and /repo/include with -DQDD_SIM -DQDD_SIM_NQUBITS=.. -DQDD_SIM_NBUCKETS=.. -DQDD_SIM_ALLOC=.. -DQDD_SIM_ALLOC_CACHE=.. (see buildlib.py)", source_commits=hc),
         checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                                evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: " + c.get("technique", "seeded search over simulated executions, reference-model oracle"),
                                level=c.get("level", "exploration"),
                                level_note=c.get("note", "Seeded search, not proof. Trusts the reference model and the simulator's seams; see DESIGN.md.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "check not built yet")))
for k, v in na.items():
    if k not in ids: m["not_applicable"].append(dict(property=k, reason=v))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
