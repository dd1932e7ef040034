"""Writes MANIFEST.json from properties.jsonl and the checks that exist (development aid)."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/checks")
NA = json.load(open(V + "/tools/not_claimed.json")) if os.path.exists(V + "/tools/not_claimed.json") else {}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    f = f"{V}/checks/{pid.lower()}.py"
    if pid in NA or not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
        continue
    src = open(f).read()
    sp = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    checks.append({"property": pid, "quick_cmd": f"VERIF_TIER=quick python3-vt checks/run.py {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3-vt checks/run.py {pid}",
                   "technique": getattr(m, "TECHNIQUE", "runtime monitoring: generated workloads on the real library, every observation judged by an independent reference"),
                   "level": m.LEVEL, "level_note": " ".join(m.RULE.split())[:900]})
man = {"version": 1, "setup_cmd": "python3 tools/build.py plain libesmini.so", "checks": checks, "not_applicable": na}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na])
