"""summary of the last violations of a check: vs.py CNN"""
import collections, json, sys
c, ex = collections.Counter(), {}
for l in open(f"/verif/build/replay/{sys.argv[1]}/violations.jsonl"):
    d = json.loads(l)
    c[d["key"]] += 1
    ex.setdefault(d["key"], []).append((d["case"]["id"], d["msg"]))
for k, n in c.most_common():
    print(n, k)
    for i, m in ex[k][: int(sys.argv[2]) if len(sys.argv) > 2 else 3]:
        print("     ", i, m[:500])
