"""usage: tally.py CNN   counts the crash signatures of the last run's violations"""
import collections, json, re, sys
c = collections.Counter()
ex = {}
for l in open(f"/verif/build/replay/{sys.argv[1]}/violations.jsonl"):
    d = json.loads(l)
    m = d.get("msg") or d.get("message") or str(d)
    k = d.get("key", "") + " " + re.sub(r"-?\d{3,}|0x\w+", "N", m)[:240] if d.get("key") == "crash" else d.get("key", "") + " " + m[:0]
    c[k] += 1
    ex.setdefault(k, (d.get("case"), m))
for k, n in c.most_common(40):
    print(n, str(ex[k][0])[:60], k, "" if k.startswith("crash") else ex[k][1][:200])
