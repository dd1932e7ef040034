"""Writes DESIGN.md from docs/design_head.md, the checks' own headers, known_findings.json and docs/seeded.json (development aid)."""
import collections, importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/checks")
o = [open(V + "/docs/design_head.md").read().rstrip(), ""]
man = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"]: c for c in man["checks"]}
notj = json.load(open(V + "/docs/not_judged.json"))
why = json.load(open(V + "/docs/reach.json"))
kf = json.load(open(V + "/known_findings.json"))["findings"]
by = collections.defaultdict(list)
for f in kf:
    by[f["property"]].append(f)
o.append("## Properties\n")
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    o.append(f"### {pid} {p['title']}\n")
    if pid not in claimed:
        o.append("Not claimed: " + next(n["reason"] for n in man["not_applicable"] if n["property"] == pid) + "\n")
        continue
    sp = importlib.util.spec_from_file_location(pid, f"{V}/checks/{pid.lower()}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    import random
    nq, nt = len(m.cases(random.Random(1), "quick")), len(m.cases(random.Random(1), "thorough"))
    o.append(f"*Workload and oracle.* {' '.join(m.RULE.split())}.\n")
    o.append(f"*Instrumentation.* variant `{getattr(m, 'VARIANT', 'plain')}`. *Bounds.* {nq} generated cases (quick), {nt} (thorough), seeded by VERIF_SEED.\n")
    o.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    o.append("*Reach beyond the tests.* " + why.get(pid, p["why_tests_cant"]) + "\n")
    if pid in notj:
        o.append("*Not judged.* " + "; ".join(notj[pid]) + ".\n")
    fx = [f for f in by[pid] if f["status"] == "fixed"]
    op = [f for f in by[pid] if f["status"] != "fixed"]
    if fx:
        o.append(f"*Defects found and repaired* ({len(fx)}):\n")
        for f in fx:
            o.append(f"- {f['id']} ({f['commit']}): " + re.sub(r"^fixed: property=\w+ \w+ ", "", f["what"]))
        o.append("")
    for f in op:
        o.append(f"*Known finding* {f['id']}: {f['what']}\n")
o.append(open(V + "/docs/design_tail.md").read().rstrip())
sd = json.load(open(V + "/docs/seeded.json"))
o.append("\n### Kept planted changes (seeded/, and seeded_more/ to keep a full vcheck within its time)\n\n| change | property | needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded") + os.listdir(V + "/seeded_more")):
    mt = json.load(open(f"{V}/seeded{'' if os.path.exists(V + '/seeded/' + i) else '_more'}/{i}/meta.json"))
    o.append(f"| {i} | {mt['property']} | {mt['needs']} | {sd['kept'].get(i, 'not run')} |")
o.append("\n### Mutants (not kept; applied to a scratch copy, property's quick check run)\n\n| mutant | property | result |\n|---|---|---|")
for k, v in sd["mutants"].items():
    o.append(f"| {k} | {v[0]} | {v[1]} |")
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
print(len(o), "lines")
