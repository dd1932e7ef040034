"""usage: dbg.py CNN CASE [OLD NEW]...   runs one case in this process, with replacements made in the text of the check"""
import os
import sys
import tempfile
import types

sys.path[:0] = ["/verif/tools", "/verif/checks"]
import vlib  # noqa: E402
import es  # noqa: E402

pid, cid = sys.argv[1:3]
p = f"/verif/checks/{pid.lower()}.py"
s = open(p).read()
a = sys.argv[3:]
for o, n in zip(a[::2], a[1::2]):
    o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
    assert o in s, o
    s = s.replace(o, n)
m = types.ModuleType(pid.lower())
exec(compile(s, p, "exec"), m.__dict__)
case = [c for c in m.cases(vlib.rng_for(pid, vlib.tier()), vlib.tier()) if str(c["id"]) == cid][0]
out = vlib.Out()
if hasattr(m, "build"):
    import build as B
    lib = m.build(B)
else:
    import build as B
    lib = es.load(B.build(getattr(m, "VARIANT", "plain"), ["libesmini.so"])["libesmini.so"])
d = tempfile.mkdtemp(dir="/tmp")
os.chdir(d)
try:
    m.run(case, out, lib)
except vlib.Violation as v:
    print("VIOL", v.key, v.msg)
print("VIOLS", *out.__dict__.get("viols", out.__dict__.get("violations", []))[:8], sep="\n")
print(d)
