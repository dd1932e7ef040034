"""mkbug.mk(id, property, [(file, old, new)], needs, breaks, demo_py): writes seeded/<id>/ (development aid)."""
import json, os, subprocess
V = "/verif/seeded/"
R = os.environ.get("MKREPO", "/repo")
DEMO_HEAD = '''import ctypes as C, math, os, sys, tempfile, shutil
BIN = "/repo/bin/"
D = C.c_double
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
tmp = tempfile.mkdtemp()
os.chdir(tmp)
def fail(msg):
    print("FAIL:", msg); sys.stdout.flush(); shutil.rmtree(tmp, ignore_errors=True); os._exit(1)
def ok():
    print("ok"); sys.stdout.flush(); shutil.rmtree(tmp, ignore_errors=True); os._exit(0)
def near(a, b, tol, what):
    if not abs(a - b) <= tol: fail("%s: got %r expected %r" % (what, a, b))
class Pos(C.Structure):
    _fields_ = [(n, D) for n in "x y z h p r hRelative".split()] + [("roadId", C.c_uint32), ("junctionId", C.c_uint32), ("laneId", C.c_int), ("laneOffset", D), ("s", D)]
class State(C.Structure):
    _fields_ = [(n, C.c_int) for n in "id model_id ctrl_type".split()] + [(n, D) for n in "timestamp x y z h p r".split()] + [("roadId", C.c_uint32), ("junctionId", C.c_uint32), ("t", D), ("laneId", C.c_int), ("laneOffset", D), ("s", D), ("speed", D)] + [(n, D) for n in "cox coy coz width length height".split()] + [("objectType", C.c_int), ("objectCategory", C.c_int), ("wheel_angle", D), ("wheel_rot", D), ("vis", C.c_int)]
def rm():
    l = C.CDLL(BIN + "libesminiRMLib.so")
    l.RM_SetLogFilePath(b"")
    l.RM_SetLanePosition.argtypes = [C.c_int, C.c_uint32, C.c_int, D, D, C.c_bool]
    l.RM_SetRoadPosition.argtypes = [C.c_int, C.c_uint32, D, D, C.c_bool]
    l.RM_SetWorldXYHPosition.argtypes = [C.c_int, D, D, D]
    l.RM_SetWorldXYZHPosition.argtypes = [C.c_int, D, D, D, D]
    l.RM_SetWorldPosition.argtypes = [C.c_int] + [D] * 6
    l.RM_PositionMoveForward.argtypes = [C.c_int, D, D]
    l.RM_GetPositionData.argtypes = [C.c_int, C.c_void_p]
    return l
def se():
    l = C.CDLL(BIN + "libesminiLib.so")
    l.SE_SetLogFilePath(b"")
    l.SE_StepDT.argtypes = [D]
    l.SE_GetObjectState.argtypes = [C.c_int, C.c_void_p]
    l.SE_GetSimulationTime.restype = D
    return l
def getpos(l, h):
    d = Pos(); l.RM_GetPositionData(h, C.byref(d)); return d
def state(l, i):
    d = State(); l.SE_GetObjectState(i, C.byref(d)); return d
'''

def mk(bid, prop, edits, needs, breaks, demo, head=True, also=()):
    d = V + bid
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(f"git -C {R} status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = R + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(f"git -C {R} checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write((DEMO_HEAD if head else "") + demo)
    if "import scn" in demo:
        import shutil
        shutil.copy("/verif/tools/scn.py", d + "/scn.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    m = {"property": prop, "needs": needs, "what_it_breaks": breaks}
    if also:
        m["also"] = list(also)
    json.dump(m, open(d + "/meta.json", "w"), indent=1)
RM = "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp"
M = "EnvironmentSimulator/Modules/"
