"""C17: objects and externally reported states are kept exactly."""
import ctypes as C
import math
import random

import numpy as np

import es
import odr
import scn

PID = "C17"
LEVEL = "exploration"
RULE = ("after every call of a random sequence of add, delete, report, set and step calls: the reported objects are exactly those of a reference registry, with unique ids and names that find each "
        "other; the pose read back is that of the reference surface and the reported values under the position mode in force; every object not addressed by the call is unchanged in every field")
ASSUMPTIONS = ["one straight road with constant slope and superelevation, so that the surface is a plane given in closed form", "position mode bits are absolute or relative for each component",
               "orientation is composed as road orientation (without the components given as absolute) followed by the reported angles", "names given to added objects are unique"]
Z_ABS, Z_REL, H_ABS, H_REL, P_ABS, P_REL, R_ABS, R_REL = 3, 7, 0x30, 0x70, 0x300, 0x700, 0x3000, 0x7000
SET0 = Z_REL | H_ABS | P_REL | R_REL
UPD0 = Z_REL | H_REL | P_REL | R_REL
NAN = float("nan")


def cases(rng, tier):
    n = {"quick": 500, "thorough": 6000}[tier]
    return [{"id": f"h{i}", "seed": rng.getrandbits(48), "ops": 140} for i in range(n)]


class Ref:
    """what the library must report of one object"""

    def __init__(self, oid, name, typ, cat, bb=None, model=None):
        self.id, self.name, self.typ, self.cat, self.bb, self.model = oid, name, typ, cat, bb, model
        self.mode = {1: SET0, 2: UPD0}
        self.external = True
        self.vals = {}


def wrapd(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def run(case, out, l):
    rng = random.Random(case["seed"])
    W = 3.5
    L = 2000.0
    slope, bank = rng.choice([0.0, rng.uniform(-0.1, 0.1)]), rng.choice([0.0, rng.uniform(-0.15, 0.15)])
    x0, y0, z0, hd = rng.uniform(-500, 500), rng.uniform(-500, 500), rng.uniform(-20, 20), rng.choice([0.0, rng.uniform(0, 6.28)])
    lanes = {i: odr.Lane(i, "none" if i == 0 else "driving", [] if i == 0 else [(0.0, W, 0.0, 0.0, 0.0)]) for i in range(-3, 4)}
    road = odr.Road(7, [odr.Geom("line", 0.0, x0, y0, hd, L)], [odr.Section(0.0, list(lanes.values()))], elev=[(0.0, z0, slope, 0.0, 0.0)], sup=[(0.0, bank, 0.0, 0.0, 0.0)], rule=rng.choice(["RHT", "LHT"]))
    open("net.xodr", "w").write(odr.Network([road]).xml())
    X0, R, _ = road.st2xyz(0.0, 0.0)
    A = np.array([math.cos(hd), math.sin(hd), slope])
    Bv = R[:, 1]
    M2 = np.linalg.inv(np.array([[A[0], Bv[0]], [A[1], Bv[1]]]))
    rp, rr = -math.atan(slope), bank

    def st(x, y):
        return M2 @ np.array([x - x0, y - y0])

    def surf(x, y):
        s, t = st(x, y)
        return z0 + s * A[2] + t * Bv[2], s, t

    names = [f"o{i}" for i in range(rng.randint(1, 4))]
    ents, init = [], []
    types = {}
    for n in names:
        k = rng.choice(["car", "car", "ped", "misc"])
        types[n] = {"car": 1, "ped": 2, "misc": 3}[k]
        ents.append(scn.vehicle(n) if k == "car" else scn.pedestrian(n) if k == "ped" else scn.misc(n))
        acts = [scn.teleport(scn.lanepos(7, rng.choice([-2, -1, 1, 2]), rng.uniform(50, L - 50)))]
        if k != "misc":
            acts.append(scn.speed_abs(0.0))
        init.append(scn.private(n, *acts))
    # a deletion by the scenario while the history runs
    stories = []
    dead, tdel = None, None
    if rng.random() < 0.4:
        dead, tdel = rng.choice(names), rng.uniform(0.05, 0.6)
        ev = scn.event("e", [scn.action("a", scn.el("GlobalAction", scn.el("EntityAction", "<DeleteEntityAction/>", entityRef=dead)))],
                       scn.trigger("StartTrigger", [scn.cond(scn.simtime(tdel), "c")]))
        stories = [scn.story("s", [scn.act("a", [scn.group("g", [], [scn.maneuver("m", [ev])])], start=scn.always())])]
    xml = scn.scenario("net.xodr", ents, init, stories)
    open("s.xosc", "w").write(xml)
    out.art("net.xodr", open("net.xodr").read())
    out.art("s.xosc", xml)
    se = es.SE(l)
    out.need(se.init(xosc="s.xosc") == 0, "init", "scenario not accepted")
    ref = {}
    for i, n in enumerate(names):
        ref[i] = Ref(i, n, types[n], None)
    order = list(range(len(names)))
    ever = set(order)
    snap = {}
    log = []
    cbs, called = [], []

    def cb(i, d):
        n = len(cbs)
        f = es.OBJ_CB(lambda st, data: called.append((n, st.contents.id, data)))
        cbs.append((i, d, f))
        l.SE_RegisterObjectCallback(i, f, C.c_void_p(d))

    def look(oid):
        s = es.ObjectState()
        rc = l.SE_GetObjectState(oid, C.byref(s))
        return (rc, s)

    def vec3(fn, oid):
        a, b, c = C.c_double(), C.c_double(), C.c_double()
        rc = getattr(l, fn)(oid, C.byref(a), C.byref(b), C.byref(c))
        return rc, (a.value, b.value, c.value)

    def full(oid):
        s = look(oid)[1].d()
        s.pop("timestamp")
        for fn in ("SE_GetObjectVelocityGlobalXYZ", "SE_GetObjectAccelerationGlobalXYZ", "SE_GetObjectAngularVelocity", "SE_GetObjectAngularAcceleration"):
            s[fn] = vec3(fn, oid)[1]
        return s

    def registry(tag):
        n = l.SE_GetNumberOfObjects()
        ids = [l.SE_GetId(i) for i in range(n)]
        out.check(sorted(ids) == sorted(ref), "objects", lambda: f"{tag}: objects {ids}, expected {sorted(ref)}; calls {log[-6:]}")
        out.check(l.SE_GetId(n) == -1 and l.SE_GetId(-1) == -1, "objects", lambda: f"{tag}: index out of range gives id {l.SE_GetId(n)}")
        for oid, o in ref.items():
            nm = l.SE_GetObjectName(oid)
            nm = nm.decode() if nm else None
            out.check(nm == o.name, "name", lambda: f"{tag}: object {oid} is named {nm!r}, expected {o.name!r}; calls {log[-6:]}")
            out.check(l.SE_GetIdByName(o.name.encode()) == oid, "name", lambda: f"{tag}: name {o.name!r} gives id {l.SE_GetIdByName(o.name.encode())}, expected {oid}; calls {log[-6:]}")
            rc, s = look(oid)
            out.check(rc == 0 and s.id == oid and s.objectType == o.typ and (o.cat is None or s.objectCategory == o.cat), "attributes",
                      lambda: f"{tag}: object {oid} reports rc {rc} id {s.id} type {s.objectType} category {s.objectCategory}, expected {o.typ} {o.cat}")
            if o.bb is not None:
                got = (s.centerOffsetX, s.centerOffsetY, s.centerOffsetZ, s.width, s.length, s.height)
                out.check(max(abs(a - b) for a, b in zip(got, o.bb)) < 1e-5, "bounding box", lambda: f"{tag}: object {oid} has bounding box {got}, expected {o.bb}")
            if o.model is not None:
                out.check(s.model_id == o.model, "attributes", lambda: f"{tag}: object {oid} model id {s.model_id}, expected {o.model}")
        for oid in ever - set(ref):
            rc = look(oid)[0]
            out.check(rc < 0, "deleted object", lambda: f"{tag}: deleted object {oid} still reports a state; calls {log[-6:]}")
        gone = [n for n in gonenames if n not in {o.name for o in ref.values()}]
        for n in gone:
            out.check(l.SE_GetIdByName(n.encode()) == -1, "deleted object", lambda: f"{tag}: name {n!r} of a deleted object gives id {l.SE_GetIdByName(n.encode())}")

    gonenames = []

    def others(tag, but=()):
        for oid in ref:
            f = full(oid)
            if oid in snap and oid not in but:
                d = {k: (snap[oid][k], f[k]) for k in f if f[k] != snap[oid][k] and not (f[k] != f[k] and snap[oid][k] != snap[oid][k])}
                out.check(not d, "other object changed", lambda: f"{tag} changed object {oid}: {d}")
            snap[oid] = f
        for oid in list(snap):
            if oid not in ref:
                del snap[oid]

    def pose(oid, tag, x, y, z, h, p, r, mode):
        """expected pose of a report; z, p, r in the meaning of mode"""
        s = look(oid)[1]
        zs, ss, tt = surf(x, y)
        inside = 0.5 < ss < L - 0.5
        ok = abs(s.x - x) < 1e-6 and abs(s.y - y) < 1e-6
        out.check(ok, "reported xy", lambda: f"{tag}: object {oid} reports ({s.x},{s.y}), reported was ({x},{y})")
        if not inside or abs(tt) > 9:
            return
        o = ref[oid]
        if z is not None:
            e = z if (mode & 7) == 3 else zs + z
            out.check(abs(s.z - e) < 1e-4, "reported z", lambda: f"{tag}: object {oid} at s {ss:.2f} t {tt:.2f} has z {s.z:.6f}, expected {e:.6f} (surface {zs:.6f}, given {z}, mode {mode:x})")
            o.vals["z"] = (z, mode & 7)
        out.check(s.roadId == 7 and abs(s.s - ss) < 1e-3 and abs(s.t - tt) < 1e-3, "road coordinates",
                  lambda: f"{tag}: object {oid} at road {s.roadId} s {s.s:.4f} t {s.t:.4f}, expected 7 {ss:.4f} {tt:.4f}")
        pa, ra = (mode & 0x700) == 0x300, (mode & 0x7000) == 0x3000
        Q = odr.rotm(hd, 0.0 if pa else rp, 0.0 if ra else rr) @ odr.rotm(h - hd if (mode & 0x70) == 0x30 else h, p, r)
        G = odr.rotm(s.h, s.p, s.r)
        e = np.abs(Q - G).max()
        out.check(e < 1e-5, "reported orientation", lambda: f"{tag}: object {oid} has h p r ({s.h:.5f},{s.p:.5f},{s.r:.5f}), reported ({h},{p},{r}) with mode {mode:x}; road {hd:.4f} {rp:.4f} {rr:.4f}")

    registry("init")
    others("init", but=list(ref))
    n_added = 0
    for k in range(case["ops"]):
        op = rng.choice(["pos", "pos", "mode", "xyh", "lane", "lat", "latlane", "speed", "vel", "acc", "avel", "aacc", "wheel", "add", "addbb", "del", "setmode", "setdef", "step", "step", "step", "bad"])
        oid = rng.choice(sorted(ref)) if ref else None
        if oid is None and op not in ("add", "addbb", "step"):
            continue
        tag = f"op {k} {op} {oid}"
        log.append(op + f" {oid}")
        out.count("operations " + op)
        out.fp(op, ref[oid].typ if oid in ref else 0, slope != 0, bank != 0, dead is not None, len(ref) > 4)
        s_, t_ = rng.uniform(20, L - 20), rng.uniform(-8, 8)
        X, _, _ = road.st2xyz(s_, t_)
        x, y = float(X[0]), float(X[1])
        h, p, r = rng.uniform(-3, 6), rng.choice([0.0, rng.uniform(-0.3, 0.3)]), rng.choice([0.0, rng.uniform(-0.3, 0.3)])
        z = rng.choice([0.0, rng.uniform(-3, 3)])
        if op == "pos":
            m = ref[oid].mode[1]
            omit = rng.random() < 0.3
            # omitted components keep what they were last given
            prev = ref[oid].vals.get("z")
            zz = z
            if omit:
                z2 = NAN
                zz = prev[0] if prev and prev[1] == (m & 7) else None
            out.check(l.SE_ReportObjectPos(oid, x, y, z2 if omit else z, h, p, r) == 0, "refused", tag)
            pose(oid, tag, x, y, zz, h, p, r, m)
            if zz is None:
                ref[oid].vals.pop("z", None)
            others(tag, (oid,))
        elif op == "mode":
            m = rng.choice([Z_ABS, Z_REL]) | rng.choice([H_ABS, H_REL]) | rng.choice([P_ABS, P_REL]) | rng.choice([R_ABS, R_REL])
            out.check(l.SE_ReportObjectPosMode(oid, x, y, z, h, p, r, m) == 0, "refused", tag)
            pose(oid, tag, x, y, z, h, p, r, m)
            others(tag, (oid,))
        elif op == "xyh":
            m = (ref[oid].mode[1] & 0x70) | (ref[oid].mode[2] & 0x7707)
            out.check(l.SE_ReportObjectPosXYH(oid, x, y, h) == 0, "refused", tag)
            pose(oid, tag, x, y, 0.0, h, 0.0, 0.0, m)
            others(tag, (oid,))
        elif op in ("lane", "lat", "latlane"):
            lane, off = rng.choice([-3, -2, -1, 1, 2, 3]), rng.uniform(-1.6, 1.6)
            b = look(oid)[1]
            if op == "lane":
                rc = l.SE_ReportObjectRoadPos(oid, 7, lane, off, s_)
                es_, et = s_, road.lane_t(s_, lane, off)
            elif op == "lat":
                rc = l.SE_ReportObjectLateralPosition(oid, t_)
                es_, et, lane = b.s, t_, None
            else:
                rc = l.SE_ReportObjectLateralLanePosition(oid, lane, off)
                es_, et = b.s, road.lane_t(b.s, lane, off)
            s = look(oid)[1]
            E, _, _ = road.st2xyz(es_, et)
            if b.roadId == 7:
                out.check(rc == 0, "refused", tag)
                out.check(s.roadId == 7 and abs(s.s - es_) < 1e-6 and abs(s.t - et) < 1e-6 and (lane is None or s.laneId == lane and abs(s.laneOffset - off) < 1e-6), "road position",
                          lambda: f"{tag}: reads back road {s.roadId} lane {s.laneId} s {s.s} t {s.t} offset {s.laneOffset}, reported lane {lane} s {es_} t {et} offset {off}")
                out.check(abs(s.x - E[0]) < 1e-4 and abs(s.y - E[1]) < 1e-4, "road position", lambda: f"{tag}: s {es_} t {et} gives ({s.x},{s.y}), expected ({E[0]},{E[1]})")
            ref[oid].vals.pop("z", None)
            others(tag, (oid,))
        elif op == "speed":
            if ref[oid].typ == 3 or oid < len(names):
                continue
            v = rng.uniform(-5, 40)
            out.check(l.SE_ReportObjectSpeed(oid, v) == 0, "refused", tag)
            out.check(abs(look(oid)[1].speed - v) < 1e-6, "speed", lambda: f"{tag}: speed {look(oid)[1].speed}, reported {v}")
            others(tag, (oid,))
        elif op in ("vel", "acc", "avel", "aacc"):
            fs, fg = {"vel": ("SE_ReportObjectVel", "SE_GetObjectVelocityGlobalXYZ"), "acc": ("SE_ReportObjectAcc", "SE_GetObjectAccelerationGlobalXYZ"),
                      "avel": ("SE_ReportObjectAngularVel", "SE_GetObjectAngularVelocity"), "aacc": ("SE_ReportObjectAngularAcc", "SE_GetObjectAngularAcceleration")}[op]
            v = tuple(rng.uniform(-5, 5) for _ in range(3))
            out.check(getattr(l, fs)(oid, *v) == 0, "refused", tag)
            g = vec3(fg, oid)
            out.check(g[0] == 0 and max(abs(a - b) for a, b in zip(g[1], v)) < 1e-6, "reported " + op, lambda: f"{tag}: reads back {g}, reported {v}")
            ref[oid].vals[op] = (fg, v)
            others(tag, (oid,))
        elif op == "wheel":
            a, b = rng.uniform(-6, 6), rng.uniform(-1, 1)
            out.check(l.SE_ReportObjectWheelStatus(oid, a, b) == 0, "refused", tag)
            s = look(oid)[1]
            out.check(abs(s.wheel_rot - a) < 1e-6 and abs(s.wheel_angle - b) < 1e-6, "wheel", lambda: f"{tag}: wheel {s.wheel_rot} {s.wheel_angle}, reported {a} {b}")
            ref[oid].vals["wheel"] = (a, b)
            others(tag, (oid,))
        elif op in ("add", "addbb"):
            if len(ref) > 9:
                continue
            typ, cat = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2, 3])
            nm = rng.choice([f"x{n_added}", f"x{n_added}", None] + [n for n in gonenames if n not in {o.name for o in ref.values()}][:1])
            mid = rng.choice([-1, 0, 1, 5])
            bb = None
            if op == "add":
                i = l.SE_AddObject(nm.encode() if nm else None, typ, cat, 0, mid, None)
            else:
                bb = (rng.uniform(-1, 2), rng.uniform(-0.5, 0.5), rng.uniform(0, 1), rng.uniform(0.5, 3), rng.uniform(0.5, 9), rng.uniform(0.5, 3))
                q = es.OSCBoundingBox(*bb)
                i = l.SE_AddObjectWithBoundingBox(nm.encode() if nm else None, typ, cat, 0, mid, None, q, 0)
            n_added += 1
            out.check(i >= 0 and i not in ever, "add", lambda: f"{tag}: new object got id {i}; used before {sorted(ever)}")
            if i in ref or i < 0:
                break
            if nm is None:
                got = l.SE_GetObjectName(i)
                nm = got.decode() if got else ""
                out.check(nm != "" and nm not in {o.name for o in ref.values()} | set(gonenames), "add", lambda: f"{tag}: object {i} without name got name {nm!r}; others {[o.name for o in ref.values()]}")
            ref[i] = Ref(i, nm, typ, cat, bb, mid if mid != -1 else None)
            ever.add(i)
            others(tag, (i,))
            out.check(l.SE_ReportObjectPosXYH(i, x, y, h) == 0, "refused", tag)
            pose(i, tag, x, y, 0.0, h, 0.0, 0.0, (SET0 & 0x70) | (UPD0 & 0x7707))
            others(tag, (i,))
        elif op == "del":
            if rng.random() < 0.5:
                continue
            rc = l.SE_DeleteObject(oid)
            out.check(rc == 0, "delete", lambda: f"{tag}: rc {rc}")
            gonenames.append(ref.pop(oid).name)
            if oid < len(names) and names[oid] == dead:
                dead = None
            others(tag)
            out.check(l.SE_DeleteObject(oid) == -1, "delete", lambda: f"{tag}: deleted twice")
            out.check(l.SE_ReportObjectPosXYH(oid, x, y, h) == -1, "deleted object", lambda: f"{tag}: report for deleted object accepted")
            others(tag)
        elif op == "setmode":
            ty = rng.choice([1, 2])
            m = rng.choice([Z_ABS, Z_REL]) | rng.choice([H_ABS, H_REL]) | rng.choice([P_ABS, P_REL]) | rng.choice([R_ABS, R_REL])
            l.SE_SetObjectPositionMode(oid, ty, m)
            ref[oid].mode[ty] = m
            others(tag)
        elif op == "setdef":
            ty = rng.choice([1, 2])
            l.SE_SetObjectPositionModeDefault(oid, ty)
            ref[oid].mode[ty] = {1: SET0, 2: UPD0}[ty]
            others(tag)
        elif op == "bad":
            b = rng.choice([-1, 4711] + [e for e in ever if e not in ref])
            fn = rng.choice(["SE_ReportObjectPosXYH", "SE_ReportObjectVel", "SE_ReportObjectAcc", "SE_ReportObjectAngularVel", "SE_ReportObjectAngularAcc"])
            out.check(getattr(l, fn)(b, x, y, h) == -1, "unknown id", lambda: f"{tag}: {fn} accepted id {b}")
            out.check(l.SE_ReportObjectSpeed(b, 1.0) == -1 and l.SE_ReportObjectWheelStatus(b, 1.0, 1.0) == -1, "unknown id", lambda: f"{tag}: report accepted for id {b}")
            n = l.SE_GetObjectName(b)
            out.check(not n, "unknown id", lambda: f"{tag}: object {b} has a name {n!r}")
            others(tag)
        elif op == "step":
            if ref and rng.random() < 0.1 and len(cbs) < 5:
                cb(rng.choice(sorted(ref)), 100 + len(cbs))
            before = {i: look(i)[1] for i in ref}
            t0 = se.time()
            called.clear()
            had = set(ref)
            rc = se.step(rng.choice([0.01, 0.05, rng.uniform(0.001, 0.1)]))
            if rc != 0 or l.SE_GetQuitFlag():
                break
            started = any(e[0] == "sb" and e[3] == "a" and e[4] == 7 for e in se.events)
            if dead is not None:
                out.check(started or t0 < tdel + 0.2, "deletion by scenario", lambda: f"{tag}: deletion of {dead} due at {tdel} not started at {t0}")
            if dead is not None and started:
                for i in [i for i, o in ref.items() if o.name == dead and i < len(names)]:
                    gonenames.append(ref.pop(i).name)
                dead = None
            for n, (i, d, _) in enumerate(cbs):
                got = [q for q in called if q[0] == n]
                if i in ref and i in had:
                    out.check(got == [(n, i, d)], "callback", lambda: f"{tag}: callback {n} registered for object {i} with data {d} was called {len(got)} times in the step: {got}")
                    out.count("object callbacks judged")
                    out.fp("callback", sum(c[0] == i for c in cbs))
                else:
                    out.check(len(got) <= 1 and all(q == (n, i, d) for q in got), "callback", lambda: f"{tag}: callback {n} for object {i} with data {d}: {got}")
            for i, o in ref.items():
                s = look(i)[1]
                b = before[i]
                if i not in snap:
                    continue
                if i >= len(names) and o.typ != 3:
                    # external control: nothing moves but by reports
                    e = max(abs(s.x - b.x), abs(s.y - b.y), abs(s.z - b.z), abs(wrapd(s.h - b.h)), abs(wrapd(s.p - b.p)), abs(wrapd(s.r - b.r)))
                    out.check(e < 1e-6, "external object moved by step", lambda: f"{tag}: object {i} moved from ({b.x},{b.y},{b.z},{b.h},{b.p},{b.r}) to ({s.x},{s.y},{s.z},{s.h},{s.p},{s.r})")
                    for q in ("vel", "acc", "avel", "aacc"):
                        if q in o.vals:
                            fg, v = o.vals[q]
                            g = vec3(fg, i)
                            out.check(max(abs(a - c) for a, c in zip(g[1], v)) < 1e-6, "reported " + q + " after step", lambda: f"{tag}: object {i} reads {g[1]} after the step, reported {v}")
                    if "wheel" in o.vals:
                        a, c = o.vals["wheel"]
                        out.check(abs(s.wheel_rot - a) < 1e-6 and abs(s.wheel_angle - c) < 1e-6, "wheel after step", lambda: f"{tag}: object {i} wheel {s.wheel_rot} {s.wheel_angle} after the step, reported {a} {c}")
                for q in ("vel", "acc", "avel", "aacc", "wheel"):
                    o.vals.pop(q, None)
                if i < len(names) or o.typ == 3:
                    o.vals.pop("z", None)   # moved by its controller: what it keeps of z is not specified
            for i in ref:
                snap[i] = full(i)
        registry(tag)
    out.sample(f"{case['id']}: {len(names)} declared, {n_added} added, {len(gonenames)} deleted, slope {slope:.3f} bank {bank:.3f}; last calls {log[-5:]}")
    se.close()
