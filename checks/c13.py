"""C13: same inputs give the same run, whatever ran before."""
import ctypes as C
import hashlib
import os
import random
import re

import es
import rich
import vlib
from c11 import Bend, bundled

PID = "C13"
LEVEL = "exploration"
TIMEOUT = 120
RULE = ("a scenario (generated with all kinds of actions, controllers, conditions and random traffic, or bundled with esmini) is run in a fresh process, then again in the same process after random other "
        "history: other scenarios run to some step, aborted or refused at load, other options, seeds, parameters, callbacks, added objects and sensors; the second run additionally differs in recording, log "
        "output and read-only queries between the steps; the complete state of every object, every storyboard and condition event, and the recording are compared bit by bit; one evaluation = one object "
        "state or event compared; distinct = scenario kind x history kinds x observation kinds x number of objects")
ASSUMPTIONS = ["the seed is set before every run, as the documentation asks", "persistent options, the global collision detection switch, search paths and the log file path are meant to outlive a run and are kept equal",
               "scenarios which read the network or a human input device are left out"]


def cases(rng, tier):
    n = {"quick": 700, "thorough": 5000}[tier]
    cs = [{"id": f"g{i}", "seed": rng.getrandbits(48)} for i in range(n)]
    fs = [f for f in bundled() if not re.search("udp|sumo", open(f"{vlib.REPO}/{f}", errors="replace").read().lower())]
    if tier == "quick":
        fs = rng.sample(fs, min(len(fs), 110))
    cs += [{"id": "b:" + f, "file": f, "seed": rng.getrandbits(48)} for f in fs]
    rng.shuffle(cs)
    return cs


def observe(se):
    """everything reported about every object, as bytes"""
    l, o = se.l, {}
    for i in se.ids():
        st = se.state(i)
        if st is None:
            o[i] = None
            continue
        b = [f"{f[0]}={getattr(st, f[0])!r}" for f in st._fields_]
        b += [f"name={l.SE_GetObjectName(i)}", f"odometer={l.SE_GetObjectOdometer(i)!r}", f"collisions={l.SE_GetObjectNumberOfCollisions(i)}"]
        b += [f"{q}={se.vec('SE_GetObject' + q, i)!r}" for q in ("VelocityGlobalXYZ", "AccelerationGlobalXYZ", "AngularVelocity", "AngularAcceleration")]
        o[i] = tuple(b)
    return o


def diff(a, b):
    return f"{a} / {b}" if a is None or b is None else "; ".join(f"{x} / {y.split('=')[-1]}" for x, y in zip(a, b) if x != y)


def query(l, rng, ids):
    """read-only queries"""
    if not ids:
        return
    for _ in range(rng.randint(1, 12)):
        a, b = rng.choice(ids), rng.choice(ids)
        ri, pd, d1, d2 = es.RoadInfo(), es.PositionDiff(), es.D(), es.D()
        k = rng.randint(0, 13)
        if k == 0:
            l.SE_GetRoadInfoAtDistance(a, rng.uniform(-50, 200), C.byref(ri), rng.randint(0, 2), rng.random() < 0.5)
        elif k == 1:
            l.SE_GetRoadInfoAlongRoute(a, rng.uniform(0, 200), C.byref(ri), rng.randint(0, 2), rng.random() < 0.5)
        elif k == 2:
            l.SE_GetDistanceToObject(a, b, rng.random() < 0.5, C.byref(pd))
        elif k == 3:
            l.SE_GetTimeToCollision(a, b, rng.randint(0, 3), rng.randint(0, 2), rng.random() < 0.5, C.byref(d1))
        elif k == 4:
            l.SE_GetObjectInLaneType(a)
        elif k == 5:
            l.SE_GetRoutePoint(a, rng.randint(0, 3), C.byref(es.RouteInfo()))
            l.SE_GetRouteTotalLength(a)
        elif k == 6:
            l.SE_GetObjectRouteStatus(a)
        elif k == 7:
            l.SE_ObjectCanChangeLanes(a)
        elif k == 8:
            l.SE_GetObjectGhostState(a, C.byref(es.ObjectState()))
        elif k == 9:
            l.SE_GetRoadInfoAlongGhostTrail(a, rng.uniform(1, 20), C.byref(ri), C.byref(d1), C.byref(d2))
        elif k == 10:
            l.SE_GetObjectWheelData(a, 0, C.byref(es.WheelData()))
        elif k == 11:
            l.SE_GetNumberOfVariables(), l.SE_GetNumberOfParameters(), l.SE_GetODRFilename(), l.SE_GetNumberOfProperties(a)
        elif k == 12:
            l.SE_GetObjectLightState(a, 1, C.byref(es.LightState()))
            l.SE_GetOverrideActionStatus(a, C.byref(es.OverrideList()))
        else:
            l.SE_GetNumberOfRoadSigns(1), l.SE_GetSimulationTime(), l.SE_GetQuitFlag()


def play(l, path, seed, dts, record=0, probe=None, sensors=None, before=None, coll=False):
    se = es.SE(l)
    l.SE_ResetParameterDistribution()   # a distribution stays in force over several runs, by design
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    l.SE_SetSeed(seed)
    if record:
        l.SE_SetDatFilePath(f"rec{record}.dat".encode())
    se.on_params = before
    if coll:
        l.SE_CollisionDetection(True)
    rc = se.init(xosc=path, record=1 if record else 0)
    if rc != 0:
        se.close()
        return ("rc", rc)
    if sensors:
        ids = se.ids()
        for _ in range(sensors.randint(1, 3)):
            if ids:
                l.SE_AddObjectSensor(sensors.choice(ids), 1.0, 0.0, 0.5, 0.0, 5.0, 80.0, 1.0, 10)
    tr = [(0, 0.0, observe(se), ())]
    ne = len(se.events)
    ev = list(se.events)
    for n, dt in enumerate(dts):
        if probe:
            query(l, probe, se.ids())
        rc = se.step(dt)
        tr.append((rc, se.time(), observe(se), tuple(se.events[ne:])))
        ev = None
        ne = len(se.events)
        if probe:
            query(l, probe, se.ids())
        if rc != 0 or l.SE_GetQuitFlag():
            break
    tr.append(tuple(se.events[:1]))
    se.close()
    if coll:
        l.SE_CollisionDetection(False)
    return tr


def disturb(l, rng, other, out):
    kinds = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["run", "run", "options", "refused", "missing", "api", "params", "abort"])
        kinds.append(k)
        if k in ("run", "options", "api", "params", "abort"):
            se = es.SE(l)
            l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
            l.SE_SetSeed(rng.randint(0, 99999))
            if k == "options":
                for o, v in rng.sample([("collision", None), ("ignore_z", None), ("ignore_p", None), ("ignore_r", None), ("disable_controllers", None), ("traj_filter", "5.0"), ("align_routepositions", None),
                                        ("pline_interpolation", "off"), ("ignore_heading_for_traj_motion", None), ("seed", "77"), ("ghost_trail_dt", "2.0")], rng.randint(1, 4)):
                    if v is None:
                        l.SE_SetOption(o.encode())
                    else:
                        l.SE_SetOptionValue(o.encode(), v.encode())
            if k == "params":
                se.on_params = lambda s: (l.SE_SetParameterDouble(b"par", 17.0), l.SE_SetVariableDouble(b"var", 5.0))
            rec = rng.random() < 0.3
            if rec:
                l.SE_SetDatFilePath(b"other.dat")
            if se.init(xosc=other, record=int(rec)) == 0 and k != "abort":
                if rng.random() < 0.5 and k != "options":
                    l.SE_CollisionDetection(True)
                ids = se.ids()
                if k == "api" and ids:
                    nid = l.SE_AddObject(b"extra", 1, 0, 0, 0, b"")
                    l.SE_ReportObjectPosXYH(nid, 1.0, 2.0, 0.5)
                    l.SE_AddObjectSensor(ids[0], 1.0, 0.0, 0.5, 0.0, 5.0, 80.0, 1.0, 10)
                    l.SE_InjectSpeedAction(C.byref(es.SpeedAction(ids[0], 3.0, 1, 2, 1.0)))
                    l.SE_InjectLaneOffsetAction(C.byref(es.LaneOffsetAction(ids[0], 1.0, 1.0, 0)))
                    l.SE_SetLockOnLane(ids[0], True)
                    l.SE_SetSnapLaneTypes(ids[0], 2)
                    l.SE_SetParameterDouble(b"par", 9.0)
                    l.SE_SetVariableDouble(b"var", 9.0)
                for _ in range(rng.choice([0, 1, 5, 40])):
                    if se.step(rng.uniform(0.01, 0.2)) != 0:
                        break
            se.close()
            if k != "options":
                l.SE_CollisionDetection(False)
            if rng.random() < 0.2:
                l.SE_Close()
        elif k == "refused":
            open("bad.xosc", "w").write(open(other, errors="replace").read()[:rng.randint(0, 4000)])
            se = es.SE(l)
            se.init(xosc="bad.xosc")
            se.close()
        else:
            se = es.SE(l)
            se.init(xosc="nothere.xosc")
            se.close()
    return kinds


def leftovers(l, rng, path, out):
    """Callbacks registered for one run are not called in the next one."""
    old = es.SE(l)
    calls, params = [], []
    old.on_params = lambda s: params.append(1)
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    if old.init(xosc=path) != 0:
        old.close()
        return
    cb = es.OBJ_CB(lambda st, data: calls.append(1))
    ids = old.ids()
    for i in ids:
        l.SE_RegisterObjectCallback(i, cb, None)
    for _ in range(rng.randint(1, 20)):
        old.step(0.05)
    seen = (len(old.events), len(calls), len(params))
    old.close()
    n0 = (len(old.events), len(calls), len(params))
    own = []
    cb2 = es.OBJ_CB(lambda st, data: own.append(1))
    if l.SE_Init(path.encode(), 0, 0, 0, 0) == 0:
        n1 = (len(old.events), len(calls), len(params))
        for i in ids:
            l.SE_RegisterObjectCallback(i, cb2, None)
        for _ in range(20):
            l.SE_StepDT(0.05)
        n2 = (len(old.events), len(calls), len(params))
        out.check(n1 == n0 and n2 == n0, "callback", lambda: f"storyboard, object and parameter callbacks of the previous run were called: {n0} -> {n1} at load -> {n2} after 20 steps")
        if seen[1] and own:
            out.count("runs after callbacks")
            out.fp("callbacks", seen[0] > 0, len(ids))
    l.SE_Close()


def run(case, out, l):
    rng = random.Random(case["seed"])

    def gen(name, net):
        ch = Bend(rng, rng.randint(1, 6), rng.choice([2, 3]), rng.choice(["RHT", "LHT"]), 0.02, rng.choice([0.0, 0.03]))
        open(net, "w").write(ch.xml())
        t, _ = rich.generate(rng, ch)
        open(name, "w").write(t.replace("net.xodr", net))
    gen("other.xosc", "other.xodr")
    other = "other.xosc"
    if "file" in case:
        path = f"{vlib.REPO}/{case['file']}"
    else:
        gen("s.xosc", "net.xodr")
        path = "s.xosc"
        out.art("s.xosc", open(path).read())
        out.art("net.xodr", open("net.xodr").read())
    if rng.random() < 0.4:
        bs = [f for f in bundled() if not re.search("udp|sumo", open(f"{vlib.REPO}/{f}", errors="replace").read().lower())]
        other = vlib.REPO + "/" + rng.choice(bs)
    seed = rng.randint(0, 1 << 30)
    coll = rng.random() < 0.5
    dts = [rng.choice([0.01, 0.05, 0.1, rng.uniform(0.001, 0.2)]) for _ in range(rng.choice([20, 60, 120]))]
    leftovers(l, random.Random(seed), path, out)
    a = play(l, path, seed, dts, record=1, coll=coll)
    kinds = disturb(l, rng, other, out)
    watch = rng.choice(["none", "queries", "sensors", "both"])
    rec = rng.random() < 0.7
    b = play(l, path, seed, dts, record=2 if rec else 0, probe=rng if watch in ("queries", "both") else None, sensors=rng if watch in ("sensors", "both") else None, coll=coll)
    if a[0] == "rc" or b[0] == "rc":
        out.check(a == b, "load", lambda: f"first load returned {a[1] if a[0] == 'rc' else 0}, the same after {kinds}: {b[1] if b[0] == 'rc' else 0}")
        return
    out.check(len(a) == len(b), "length", lambda: f"{len(a)} steps in the first run, {len(b)} after {kinds}, watching {watch}")
    for n, (p, q) in enumerate(zip(a[:-1], b[:-1])):
        out.check(p[:2] == q[:2], "time", lambda: f"step {n}: return code and time {p[:2]} / {q[:2]} after {kinds}, watching {watch}")
        out.check(list(p[2]) == list(q[2]), "objects", lambda: f"step {n}: objects {list(p[2])} / {list(q[2])} after {kinds}, watching {watch}")
        for i in p[2]:
            if not out.check(p[2][i] == q[2].get(i), "state", lambda: f"step {n}: object {i} {diff(p[2][i], q[2].get(i))} after {kinds}, watching {watch}"):
                return
        out.check(p[3] == q[3], "events", lambda: f"step {n}: events {p[3][:5]} / {q[3][:5]} after {kinds}, watching {watch}")
    out.check(a[-1] == b[-1], "events", lambda: f"initial events {a[-1]} / {b[-1]}")
    if rec:
        h = [hashlib.sha256(open(f"rec{k}.dat", "rb").read()).hexdigest() if os.path.exists(f"rec{k}.dat") else None for k in (1, 2)]
        out.check(h[0] == h[1], "recording", lambda: f"recordings of {os.path.getsize('rec1.dat')} and {os.path.getsize('rec2.dat')} bytes differ after {kinds}")
        out.count("recordings compared")
    out.count("steps compared", len(a) - 1)
    for k in kinds:
        out.fp("file" in case, k, watch, rec, coll, max(len(p[2]) for p in a[:-1]), sum(len(p[3]) for p in a[:-1]) > 20)
    out.sample(f"{case['id']}: {len(a) - 1} steps, {len(a[-2][2])} objects; in between {kinds}; second run watched by {watch}, recorded {rec}")
