"""C01: no memory error, undefined behaviour or leak for well-formed input and any API call sequence."""
import ctypes as C
import gc
import os
import random
import re

import es
import net
import rich
import scn
import vlib
from c11 import Bend, bundled

PID = "C01"
LEVEL = "exploration"
VARIANT = "asan"
TIMEOUT = 120
RULE = "no report by AddressSanitizer, UndefinedBehaviorSanitizer or the checked standard library in any execution; calls referring to objects that do not exist return a negative value and change nothing; repeated identical runs do not accumulate memory"
ASSUMPTIONS = ["pointer arguments given to the library are valid and buffers large enough; numeric arguments are finite", "UDP, OSI, SUMO and viewer parts are not in this build",
               "the reference simulations use the library built with clang -fsanitize=address,undefined and checked standard containers, no optimisation-dependent behaviour is judged",
               "ControllerRel2Abs and trailer actions on pedestrians are not exercised"]

OFF = {"SE_Init", "SE_InitWithString", "SE_InitWithArgs", "SE_Step", "SE_StepDT", "SE_Close", "SE_AddPath", "SE_ClearPaths", "SE_SetLogFilePath", "SE_SetDatFilePath", "SE_SetOption", "SE_UnsetOption", "SE_SetOptionValue",
       "SE_SetOptionPersistent", "SE_SetOptionValuePersistent", "SE_RegisterParameterDeclarationCallback", "SE_SetParameterDistribution", "SE_ResetParameterDistribution", "SE_SelectPermutation",
       "SE_RegisterConditionCallback", "SE_RegisterStoryBoardElementStateChangeCallback", "SE_LogToConsole", "SE_CloseLogFile", "SE_SetObjectPositionModeDefault", "SE_SetOSITolerances",
       "SE_GetODRManager", "SE_SetParameter", "SE_GetParameter", "SE_SetVariable", "SE_GetVariable", "RM_Init", "RM_InitWithString", "RM_Close", "RM_SetLogFilePath", "RM_SetObjectPositionModeDefault", "RM_SetOption",
       "RM_SetOptionValue", "SE_SetSeed", "SE_LogMessage"}
SE_FN = sorted(n for n in es._SIG if n.startswith("SE_") and n not in OFF and not n.startswith("SE_SimpleVehicle"))
RM_FN = sorted(n for n in es._SIG if n.startswith("RM_") and n not in OFF)
BYID = {n for n in SE_FN if es._SIG[n][0] is C.c_int and es._SIG[n][1][:1] == [C.c_int] and re.match(r"SE_(Get(Object|Road|Over|Dist|Time|Number)|Report|Delete|ObjectHas|ObjectCan|SetSnap|SetLock|AddObjectSensor)", n)} - {
    "SE_GetNumberOfRoadSigns", "SE_GetObjectRouteStatus", "SE_GetObjectInLaneType"}


def cases(rng, tier):
    n = {"quick": 1, "thorough": 12}[tier]
    cs = []
    for i in range(420 * n):
        cs.append({"id": f"l{i}", "kind": "life", "seed": rng.getrandbits(48)})
    for i in range(60 * n):
        cs.append({"id": f"n{i}", "kind": "null", "seed": rng.getrandbits(48)})
    for i in range(100 * n):
        cs.append({"id": f"r{i}", "kind": "rm", "seed": rng.getrandbits(48)})
    for i in range(80 * n):
        cs.append({"id": f"c{i}", "kind": "cycle", "seed": rng.getrandbits(48)})
    for f in bundled():
        cs.append({"id": f"b:{f}", "kind": "life", "file": f, "seed": rng.getrandbits(48)})
    return cs


def number(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([0.0, -1.0, 1.0, 1e-9, 1e4, -1e4])
    return rng.choice([rng.uniform(-5, 5), rng.uniform(-300, 300), rng.uniform(0, 1000)])


# arguments which are enumerations: only defined values
ENUM = {"SE_GetObjectLightState": {1: 12}, "SE_GetTimeToCollision": {2: 3, 3: 4}, "SE_SimpleGetDistanceToObject": {2: 5}, "SE_GetRoadInfoAtDistance": {3: 2},
        "SE_GetRoadInfoAlongRoute": {3: 2}, "SE_AddObjectWithBoundingBox": {7: 2}}


NOOP = es.OBJ_CB(lambda st, data: None)


class Fuzz:
    def __init__(self, l, rng, out):
        self.l, self.rng, self.out = l, rng, out
        self.names = [b"o0", b"o1", b"nosuch", b"", b"par", b"var"]
        self.added = 0

    def call(self, n, ids, bad=None):
        rng, l = self.rng, self.l
        res, args = es._SIG[n]
        a = []
        for k, t in enumerate(args):
            if t is C.c_int:
                if k == 0 and bad is not None:
                    a.append(bad)
                elif rng.random() < 0.7 and ids:
                    a.append(rng.choice(ids))
                else:
                    a.append(rng.choice([-1, 0, 1, 2, 3, 7, 13, 14, 99, 300, 2147483647 if k == 0 else -2, -2147483648 if k == 0 else -300]))
            elif t is C.c_uint:
                a.append(rng.choice([0, 1, 2, 3, 7, 999, 0xFFFFFFFF]))
            elif t is C.c_double:
                a.append(number(rng))
            elif t is C.c_bool:
                a.append(rng.random() < 0.5)
            elif t is C.c_char_p:
                a.append(rng.choice(self.names))
            elif t is es.OBJ_CB:
                a.append(NOOP)
            elif t is C.c_void_p:
                if n != "SE_RegisterObjectCallback":
                    return None
                a.append(None)
            elif t is es.OSCBoundingBox:
                b = es.OSCBoundingBox()
                for f, _ in b._fields_:
                    sub = getattr(b, f)
                    for g, _ in getattr(sub, "_fields_", []):
                        setattr(sub, g, rng.uniform(0.1, 5))
                a.append(b)
            elif t._type_ is C.c_char_p:
                a.append(C.byref(C.c_char_p()))
            elif t._type_ is C.c_int and n == "SE_FetchSensorObjectList":
                a.append((C.c_int * 512)())
            else:
                v = t._type_()
                if n.startswith("SE_Inject"):
                    v.id = rng.choice(ids + [-1, 4711]) if ids else -1
                    for f, ft in v._fields_:
                        if f != "id":
                            setattr(v, f, rng.uniform(0.1, 12) if ft is C.c_double or ft is C.c_float else rng.randint(0, 3))
                a.append(C.byref(v))
        if n in ("SE_AddObject", "SE_AddObjectWithBoundingBox"):
            if self.added > 4:
                return None
            a[0] = b"x%d" % self.added
            a[1], a[2], a[3] = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 9]), rng.choice([0, 1])
            self.added += 1
        for k, hi in ENUM.get(n, {}).items():
            a[k] = rng.randint(0, hi)
        if n == "SE_AddObjectSensor":
            a[-1] = rng.choice([0, 1, 2, 10, 256])
        if n == "SE_SetObjectPositionMode":
            a[1], a[2] = rng.randint(0, 2), rng.randint(0, 0x7777) & 0x7777
        if n.endswith("PosMode") or n.endswith("PositionMode") and n.startswith("RM_SetW"):
            a[-1] = rng.randint(0, 0xFFFF) & 0x7777
        r = getattr(l, n)(*a)
        self.out.count("api calls")
        self.out.fp("api", n, ids != [], bad is not None)
        return r


def gen(rng, name="s.xosc", netname="net.xodr"):
    ch = Bend(rng, rng.randint(1, 6), rng.choice([1, 2, 3]), rng.choice(["RHT", "LHT"]), 0.02, rng.choice([0.0, 0.03]))
    open(netname, "w").write(ch.xml())
    t, _ = rich.generate(rng, ch)
    open(name, "w").write(t.replace("net.xodr", netname))
    return name


def life(case, out, l, rng):
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    l.SE_SetSeed(rng.randint(0, 1 << 30))
    path = f"{vlib.REPO}/{case['file']}" if "file" in case else gen(rng)
    if "file" not in case:
        out.art("s.xosc", open("s.xosc").read())
        out.art("net.xodr", open("net.xodr").read())
    fz = Fuzz(l, rng, out)
    se = es.SE(l)
    if rng.random() < 0.5:
        l.SE_CollisionDetection(True)
    rc = se.init(xosc=path, record=int(rng.random() < 0.3))
    if rc == 0:
        busy = rng.choice([0.0, 0.2, 0.6])
        for _ in range(rng.choice([20, 60, 150])):
            ids = se.ids()
            while rng.random() < busy:
                n = rng.choice(SE_FN)
                if n == "SE_DeleteObject" and rng.random() < 0.8:
                    continue
                bad = rng.choice([-1, 4711, -2147483648, 2147483647]) if n in BYID and rng.random() < 0.3 else None
                r = fz.call(n, ids, bad)
                if bad is not None and r is not None:
                    out.check(r < 0, "invalid id accepted", lambda: f"{n} with object id {bad}, which does not exist, returned {r}")
                    out.check(se.ids() == ids, "invalid id", lambda: f"{n} with object id {bad}, which does not exist, changed the objects from {ids} to {se.ids()}")
                ids = se.ids()
            if se.step(rng.choice([0.01, 0.05, 0.1, rng.uniform(0.001, 0.3)])) != 0:
                break
            out.count("steps monitored")
            out.check(True, "alive", "")
    se.close()
    if rng.random() < 0.5:
        for _ in range(10):
            fz.call(rng.choice(SE_FN), [])
    if rng.random() < 0.2:
        se.close()
    if rng.random() < 0.3:
        if se.init(xosc=path) == 0:
            se.step(0.1)
        se.close()
    out.fp(rc, "file" in case, len(se.events) > 30)
    out.sample(f"{case['id']}: rc {rc}, {len(se.events)} storyboard events and conditions, {fz.added} objects added")


def null(case, out, l, rng):
    """calls without a scenario, then after an aborted one"""
    fz = Fuzz(l, rng, out)
    for n in rng.sample(SE_FN, len(SE_FN)):
        bad = rng.choice([0, -1, 5]) if n in BYID else None
        r = fz.call(n, [], bad)
        if bad is not None and r is not None:
            out.check(r < 0, "no scenario", lambda: f"{n} without a scenario returned {r}")
    l.SE_StepDT(0.1)
    se = es.SE(l)
    se.init(xosc="missing.xosc")
    for n in rng.sample(SE_FN, len(SE_FN)):
        fz.call(n, [0])
    v = l.SE_SimpleVehicleCreate(rng.uniform(-50, 50), 0.0, rng.uniform(0, 6), rng.choice([4.0, 0.0]), rng.uniform(0, 30))
    for _ in range(50):
        n = rng.choice([k for k in es._SIG if k.startswith("SE_SimpleVehicle") and not re.search("Create|Delete|GetState", k)])
        getattr(l, n)(v, *[rng.uniform(0, 2) if t is C.c_double else rng.choice([-1, 0, 1]) for t in es._SIG[n][1][1:]])
        l.SE_SimpleVehicleGetState(v, C.byref(es.SimpleVehicleState()))
    l.SE_SimpleVehicleDelete(v)
    se.close()
    out.sample(f"{case['id']}: {len(SE_FN)} functions called without a scenario and after a failed load")


def rm(case, out, l, rng):
    fz = Fuzz(l, rng, out)
    for n in rng.sample(RM_FN, len(RM_FN)):
        fz.call(n, [0])
    if rng.random() < 0.4:
        fs = sorted(f for d in ("resources/xodr", "EnvironmentSimulator/Unittest/xodr") for f in [f"{d}/{x}" for x in os.listdir(f"{vlib.REPO}/{d}")] if f.endswith(".xodr"))
        f = vlib.REPO + "/" + rng.choice(fs)
    else:
        ch = Bend(rng, rng.randint(1, 6), rng.choice([1, 2, 3]), rng.choice(["RHT", "LHT"]), 0.02, rng.choice([0.0, 0.03]))
        open("net.xodr", "w").write(ch.xml())
        f = "net.xodr"
    l.RM_SetLogFilePath(b"")
    rc = l.RM_Init(f.encode())
    if rc == 0:
        hs = [l.RM_CreatePosition() for _ in range(3)]
        nr = l.RM_GetNumberOfRoads()
        out.check(nr > 0, "roads", f"{f}: no roads")
        for _ in range(400):
            n = rng.choice(RM_FN)
            if n == "RM_DeletePosition" and rng.random() < 0.7:
                continue
            if rng.random() < 0.5:
                rid = l.RM_GetIdOfRoadFromIndex(rng.randrange(nr))
                l.RM_SetLanePosition(rng.choice(hs), rid, rng.choice([-2, -1, 1, 2]), 0.0, rng.uniform(0, l.RM_GetRoadLength(rid)), True)
            fz.call(n, hs)
    l.RM_Close()
    out.fp("rm", rc)
    out.sample(f"{case['id']}: {os.path.basename(f)}")


def cycle(case, out, l, rng):
    """repeated identical runs: the memory in use after each close must not grow"""
    san = C.CDLL(None)
    san.__sanitizer_get_current_allocated_bytes.restype = C.c_size_t
    bs = [f for f in bundled() if not re.search("udp|sumo", open(f"{vlib.REPO}/{f}", errors="replace").read().lower())]
    path = f"{vlib.REPO}/{rng.choice(bs)}" if rng.random() < 0.4 else gen(rng)
    steps = rng.choice([0, 5, 40])
    sensor, coll, rec = rng.random() < 0.3, rng.random() < 0.5, int(rng.random() < 0.3)
    seed = rng.getrandbits(31)
    used = []
    l.SE_SetLogFilePath(b"")
    l.SE_LogToConsole(False)
    for k in range(8):
        l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
        l.SE_ResetParameterDistribution()
        l.SE_SetSeed(seed)
        l.SE_CollisionDetection(coll)
        rc = l.SE_Init(path.encode(), 0, 0, 0, rec)
        if rc == 0:
            if sensor and l.SE_GetNumberOfObjects():
                l.SE_AddObjectSensor(l.SE_GetId(0), 1.0, 0.0, 0.5, 0.0, 5.0, 80.0, 1.0, 10)
            for _ in range(steps):
                l.SE_StepDT(0.1)
        l.SE_Close()
        gc.collect()
        used.append(san.__sanitizer_get_current_allocated_bytes())
    g = [b - a for a, b in zip(used[3:], used[4:])]
    out.count("memory comparisons", len(g))
    out.check(min(g) < 16 or rc != 0, "memory growth", lambda: f"{path} with {steps} steps: memory in use after close grows by {g} bytes per run")
    out.fp("cycle", "s.xosc" in path, steps, sensor, coll, rec, rc)
    out.sample(f"{case['id']}: {os.path.basename(path)}, {steps} steps: memory after close changes by {g}")


def run(case, out, l):
    rng = random.Random(case["seed"])
    {"life": life, "null": null, "rm": rm, "cycle": cycle}[case["kind"]](case, out, l, rng)
