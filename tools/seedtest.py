"""Confirms planted changes (development aid, not a check).

usage: seedtest.py ID...   each under /verif/seeded/ID
For each: apply to /repo, build, run the stable tests, demo (must fail), the property's quick check (should exit 1),
undo; at the end one rebuild of the clean tree and all demos again (must pass).  Results in seeded/ID/../results.json.
"""
import json, os, subprocess, sys, time
V = "/verif"
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])

def sh(cmd, cwd="/repo", timeout=1800, env=None):
    t = time.time()
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", env=env)
    return r.returncode, r.stdout, time.time() - t

ids = [a for a in sys.argv[1:] if not a.startswith("-")]
opts = [a for a in sys.argv[1:] if a.startswith("-")]
res = {}
assert not sh("git status --porcelain")[1].strip(), "repo not clean"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    r = {"property": meta["property"]}
    rc, o, _ = sh(f"git apply --check {d}/patch.diff")
    if rc:
        print(i, "PATCH DOES NOT APPLY", o); continue
    sh(f"git apply {d}/patch.diff")
    try:
        rc, o, _ = sh("bash /opt/vp/build.sh")
        if rc:
            print(i, "BUILD FAILED", o[-3000:]); continue
        rc, o, t = sh(f"bash {d}/demo.sh", timeout=300)
        r["demo_patched"] = rc
        r["demo_out"] = o[-300:]
        if "--notest" not in opts:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/")
            got = json.load(open("/tmp/seedtest.json"))
            r["broken_tests"] = sorted(stable - set(got["passed"]))
        props = [meta["property"]] + [p for p in meta.get("also", [])]
        for p in props:
            rc, o, t = sh(f"python3-vt checks/run.py {p}", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            r["check " + p] = rc
            r["check_s " + p] = round(t)
            r["check_out " + p] = "\n".join(o.splitlines()[-8:])[:900]
    finally:
        sh("git checkout -- .")
    res[i] = r
    print(i, {k: v for k, v in r.items() if k not in ("demo_out",) and not k.startswith("check_out")}, flush=True)
    print("   demo:", r.get("demo_out", "").strip()[-200:])
    for k in r:
        if k.startswith("check_out"):
            print("   ", r[k].replace("\n", "\n     "), flush=True)
rc, o, _ = sh("bash /opt/vp/build.sh")
assert rc == 0
for i in ids:
    rc, o, t = sh(f"bash {V}/seeded/{i}/demo.sh", timeout=300)
    ok = i in res and rc == 0 and res[i].get("demo_patched") != 0 and not res[i].get("broken_tests")
    print(i, "demo clean:", rc, f"{t:.0f}s", "VALID" if ok else "INVALID", "caught" if res.get(i, {}).get("check " + res.get(i, {}).get("property", "")) == 1 else "MISSED", "" if rc == 0 else o[-500:])
sh("rm -f /tmp/seedtest.json")
