"""C11: reported motion is kinematically consistent."""
import glob
import math
import os
import random
import re

import es
import scn
import vlib

PID = "C11"
LEVEL = "exploration"
TIMEOUT = 60
RULE = ("an online monitor reads every object's complete reported state after every step (varying step lengths, from 1 ms to 0.5 s) of (g) generated scenarios on curved, partly sloped and "
        "partly reversed chains of roads with speed changes, reversing, lane changes, lane offsets, teleports, trailers, added and deleted objects, and (b) the bundled scenarios; it compares "
        "time, position change, velocity, acceleration, local acceleration, heading rate and acceleration, odometer, wheel rotation and steering, and - for default-controlled vehicles - the "
        "covered distance with speed times step, the direction of motion with the heading, and the trailer coupling; one evaluation = one judged value; distinct = object kind x kind of motion x "
        "step-size class x road direction x speed class")
ASSUMPTIONS = ["the covered distance is measured in the ground plane; over a change of curvature within a step it is judged by the bounds which the curvatures give",
               "during and right after lateral actions road coordinates are found from world coordinates by way of esmini's sampled road: tolerance from 5 cm by curvature and offset on the covered distance there",
               "a step in which a vehicle reaches the end of the road is not judged for distance", "bundled scenarios: velocity and odometer must agree on whether the object was moved or teleported"]
TWO_PI = 2 * math.pi
WHEEL_R = 0.35


def wrap(a):
    a = math.fmod(a, TWO_PI)
    return a - TWO_PI if a > math.pi else a + TWO_PI if a <= -math.pi else a


def bundled():
    fs = sorted(glob.glob(vlib.REPO + "/resources/xosc/*.xosc") + glob.glob(vlib.REPO + "/EnvironmentSimulator/Unittest/xosc/*.xosc"))
    return [os.path.relpath(f, vlib.REPO) for f in fs]


def cases(rng, tier):
    n = {"quick": 1800, "thorough": 9000}[tier]
    cs = [{"id": f"g{i}", "seed": rng.getrandbits(48)} for i in range(n)]
    cs += [{"id": f"r{i}", "seed": rng.getrandbits(48)} for i in range(n // 2)]
    fs = bundled()
    if tier == "quick":
        fs = rng.sample(fs, min(len(fs), 110))
    cs += [{"id": "b:" + f, "file": f, "seed": rng.getrandbits(48)} for f in fs]
    rng.shuffle(cs)
    return cs


class Snap:
    pass


def snap(se, oid):
    s = Snap()
    st = se.state(oid)
    if st is None:
        return None
    s.st = st
    s.x, s.y, s.z, s.h, s.p, s.r, s.v = st.x, st.y, st.z, st.h, st.p, st.r, st.speed
    s.vel = se.vec("SE_GetObjectVelocityGlobalXYZ", oid)
    s.acc = se.vec("SE_GetObjectAccelerationGlobalXYZ", oid)
    s.loc = se.vec("SE_GetObjectAccelerationLocalLatLong", oid, 2)
    s.accm = se.l.SE_GetObjectAcceleration(oid)
    s.w = se.vec("SE_GetObjectAngularVelocity", oid)
    s.wa = se.vec("SE_GetObjectAngularAcceleration", oid)
    s.odo = se.l.SE_GetObjectOdometer(oid)
    s.rot, s.ang = st.wheel_rot, st.wheel_angle
    s.name = se.l.SE_GetObjectName(oid)
    return s


def finite(s):
    return all(map(math.isfinite, [s.x, s.y, s.z, s.h, s.p, s.r, s.v, s.odo, s.rot, s.ang, s.accm, s.st.s, s.st.t, s.st.laneOffset, s.st.timestamp] + s.vel + s.acc + s.loc + s.w + s.wa))


def near(a, b, tol):
    return abs(a - b) <= tol


class Kin:
    """Online monitor of one simulation."""

    def __init__(self, out, se):
        self.out, self.se = out, se
        self.prev = {}
        self.t = se.time()
        self.look()

    def look(self):
        self.prev = {}
        for i in self.se.ids():
            s = snap(self.se, i)
            self.out.check(finite(s), "finite", lambda: f"object {i} at {self.t}: non-finite value {s.st.d()} {s.vel} {s.acc} {s.w} {s.wa}")
            self.prev[i] = s

    def after(self, dt, teleported=None, tag=""):
        """teleported: names of objects teleported in this step; None: unknown"""
        out, se = self.out, self.se
        t1 = se.time()
        out.check(near(t1 - self.t, dt, 1e-9 * max(1, abs(t1)) + 2e-12 * abs(t1)), "time", lambda: f"time went from {self.t!r} to {t1!r} over a step of {dt!r}")
        old, self.t = self.prev, t1
        self.look()
        for i, s in self.prev.items():
            ctx = lambda: f"object {i} {s.name} at {t1:.4f} (dt {dt:.4f}): "
            out.check(near(s.st.timestamp, t1, 1e-4 + 1e-6 * t1), "timestamp", lambda: ctx() + f"state is stamped {s.st.timestamp}")
            for k in ("h", "p", "r"):
                a = getattr(s, k)
                out.check(-1e-9 <= a <= TWO_PI + 1e-9, "angle-range", lambda: ctx() + f"{k} = {a!r}")
            c, sn = math.cos(s.h), math.sin(s.h)
            lon, lat = s.acc[0] * c + s.acc[1] * sn, -s.acc[0] * sn + s.acc[1] * c
            m = 1e-6 * (1 + abs(lon) + abs(lat))
            # the magnitude in the ground plane, with the sign of its longitudinal component
            out.check(near(abs(s.accm), math.hypot(lon, lat), m) and (abs(lon) < 1e-9 or (lon > 0) == (s.accm > 0)), "acc-norm", lambda: ctx() + f"acceleration {s.accm} of vector {s.acc} h {s.h}")
            out.check(near(s.loc[0], lat, m) and near(s.loc[1], lon, m), "acc-local", lambda: ctx() + f"lat/long acceleration {s.loc}, expected {lat} {lon}")
            o = old.get(i)
            if o is None or o.name != s.name:
                continue
            d = (s.x - o.x, s.y - o.y, s.z - o.z)
            d2 = math.hypot(d[0], d[1])
            m = 1e-6 * (1 + abs(s.x) * 1e-3 + abs(s.y) * 1e-3) / dt * 1e-3 + 1e-6
            moved = all(near(a, b / dt, m + 1e-9 * abs(b / dt)) for a, b in zip(s.vel, d))
            tele = near(s.vel[0], s.v * c, 1e-6) and near(s.vel[1], s.v * sn, 1e-6) and near(s.vel[2], 0, 1e-9)
            dodo = s.odo - o.odo
            mo = 1e-7 + 1e-12 * s.odo
            odo_m, odo_t = near(dodo, d2, mo), near(dodo, 0.0, mo)
            if teleported is None:
                out.check((moved and odo_m) or (tele and odo_t), "velocity", lambda: ctx() + f"moved {d} velocity {s.vel} speed {s.v} h {s.h} odometer +{dodo}")
            elif s.name.decode() in teleported:
                out.check(tele, "velocity-teleport", lambda: ctx() + f"teleported, velocity {s.vel} speed {s.v} h {s.h}")
                out.check(odo_t, "odometer-teleport", lambda: ctx() + f"teleported, odometer +{dodo}")
            else:
                out.check(moved, "velocity", lambda: ctx() + f"moved {d}, velocity {s.vel}, expected {[q / dt for q in d]}")
                out.check(odo_m, "odometer", lambda: ctx() + f"moved {d2}, odometer +{dodo}")
            ea = [(a - b) / dt for a, b in zip(s.vel, o.vel)]
            out.check(all(near(a, b, 1e-6 / dt + 1e-9 * abs(b)) for a, b in zip(s.acc, ea)), "acceleration", lambda: ctx() + f"velocity {o.vel} -> {s.vel}, acceleration {s.acc} expected {ea}")
            dh = wrap(s.h - o.h)
            if abs(abs(dh) - math.pi) > 1e-6:
                out.check(near(s.w[0], dh / dt, 1e-6 / dt), "heading-rate", lambda: ctx() + f"heading {o.h} -> {s.h}, rate {s.w[0]}, expected {dh / dt}")
            ew = (s.w[0] - o.w[0]) / dt
            out.check(near(s.wa[0], ew, 1e-6 / dt + 1e-9 * abs(ew)), "heading-acc", lambda: ctx() + f"heading rate {o.w[0]} -> {s.w[0]}, acceleration {s.wa[0]}, expected {ew}")
            out.count("object steps")
        return old


# ------------------------------------------------------------------ generated

class Bend(scn.Chain):
    """A tangent-continuous chain of lines and arcs cut into roads, some of them reversed; position along it is u."""

    def __init__(self, rng, n, lanes, rule, kmax, slope):
        super().__init__(rng, n=n, lanes=lanes, rule=rule, lmin=60.0, lmax=350.0)
        x, y, h, u = rng.uniform(-500, 500), rng.uniform(-500, 500), rng.uniform(0, TWO_PI), 0.0
        self.slope = slope
        self.pieces = []       # u0, len, x, y, h, k
        for r in self.roads:
            k, left, r["pieces"] = rng.randint(1, 4), r["L"], []
            cuts = sorted(rng.uniform(0.1, 0.9) * r["L"] for _ in range(k - 1))
            if any(b - a < 2.0 for a, b in zip([0.0] + cuts, cuts + [r["L"]])):
                cuts = []
            for a, b in zip([0.0] + cuts, cuts + [r["L"]]):
                kk = rng.choice([0.0, rng.uniform(-kmax, kmax)])
                pc = (r["x"] + a - self.x0, b - a, x, y, h, kk)
                r["pieces"].append(pc)
                self.pieces.append(pc)
                x, y, h = self.ev(pc, b - a)
        self.len = self.x1 - self.x0

    @staticmethod
    def ev(pc, d):
        _, _, x, y, h, k = pc
        if abs(k) < 1e-12:
            return x + d * math.cos(h), y + d * math.sin(h), h
        return x + (math.sin(h + k * d) - math.sin(h)) / k, y - (math.cos(h + k * d) - math.cos(h)) / k, h + k * d

    def kappas(self, u0, u1, eps=0.05):
        a, b = min(u0, u1) - eps, max(u0, u1) + eps
        return [p[5] for p in self.pieces if p[0] < b and p[0] + p[1] > a]

    def u_of(self, rid, s):
        r = self.roads[rid - 1]
        return r["x"] - self.x0 + (s if r["o"] > 0 else r["L"] - s)

    def xml(self):
        txt = super().xml()
        for r in self.roads:
            gx, h = (r["x"], 0.0) if r["o"] > 0 else (r["x"] + r["L"], 3.141592653589793)
            old = f'<geometry s="0" x="{gx!r}" y="0" hdg="{h!r}" length="{r["L"]!r}"><line/></geometry>'
            assert old in txt
            g, s = "", 0.0
            for pc in (r["pieces"] if r["o"] > 0 else reversed(r["pieces"])):
                x, y, hh = (pc[2], pc[3], pc[4]) if r["o"] > 0 else self.ev(pc, pc[1])
                k = pc[5]
                if r["o"] < 0:
                    hh, k = hh + math.pi, -k
                g += f'<geometry s="{s!r}" x="{x!r}" y="{y!r}" hdg="{hh!r}" length="{pc[1]!r}">' + (f'<arc curvature="{k!r}"/>' if k else "<line/>") + "</geometry>"
                s += pc[1]
            txt = txt.replace(old, g, 1)
            if self.slope:
                z0, b = (self.slope * (r["x"] - self.x0), self.slope) if r["o"] > 0 else (self.slope * (r["x"] - self.x0 + r["L"]), -self.slope)
                i = txt.index(f'id="{r["id"]}" junction')
                j = txt.index("<elevationProfile/>", i)
                txt = txt[:j] + f'<elevationProfile><elevation s="0" a="{z0!r}" b="{b!r}" c="0" d="0"/></elevationProfile>' + txt[j + len("<elevationProfile/>"):]
        return txt


def run_gen(case, out, l):
    rng = random.Random(case["seed"])
    kmax = rng.choice([0.004, 0.02, 0.05])
    ch = Bend(rng, rng.randint(1, 6), rng.choice([2, 3]), rng.choice(["RHT", "LHT"]), kmax, rng.choice([0.0, 0.0, rng.uniform(-0.08, 0.08)]))
    xml = ch.xml()
    open("net.xodr", "w").write(xml)
    out.art("net.xodr", xml)
    nv = rng.randint(2, 5)
    ents, init, stories, info = [], [], [], {}
    fr = rng.uniform(0.2, 4.0)
    for i in range(nv):
        kind = rng.choice(["car", "car", "car", "car", "ped", "tow"])
        nm = f"o{i}"
        if kind == "ped":
            ents.append(scn.pedestrian(nm))
        elif kind == "tow":
            hx, cx = rng.uniform(-1.5, -0.3), rng.uniform(2.0, 6.0)
            ents.append(scn.vehicle(nm + "t", cat="trailer", extra=scn.el("TrailerCoupler", dx=cx)))
            ents.append(scn.vehicle(nm, extra=scn.el("TrailerHitch", dx=hx) + scn.el("Trailer", scn.el("TrailerRef", entityRef=nm + "t"))))
            info[nm + "t"] = dict(kind="trailer", tow=nm, hx=hx, cx=cx)
        else:
            ents.append(scn.vehicle(nm, axles=scn.el("Axles", scn.el("FrontAxle", maxSteering=0.5, wheelDiameter=0.8, trackWidth=1.8, positionX=fr, positionZ=0.4),
                                                     scn.el("RearAxle", maxSteering=0.0, wheelDiameter=0.8, trackWidth=1.8, positionX=0.0, positionZ=0.4))))
        u = ch.len * rng.uniform(0.1, 0.9)
        r = ch.road_at(u + ch.x0)
        _, s, _ = ch.loc(u + ch.x0, 0)
        lane = rng.choice([j for j in range(-ch.n, ch.n + 1) if j])
        off = rng.choice([0.0, rng.uniform(-1, 1)])
        v = rng.choice([rng.uniform(3, 15), rng.uniform(15, 45), rng.uniform(0.1, 3), 0.0])
        rev = kind != "tow" and rng.random() < 0.15
        if rev:
            v = -rng.uniform(0.5, 8)
        info[nm] = dict(kind=kind, front=fr if kind == "car" else 2.8, lat=False)
        init.append(scn.private(nm, scn.teleport(scn.lanepos(r["id"], lane, s, off, "" if rng.random() < 0.85 or kind == "tow" else scn.orient(h=math.pi))), scn.speed_abs(v)))
        evs = []
        for k in range(rng.randint(0, 4)):
            t, an = rng.uniform(0, 8), f"{nm}_{k}"
            q = rng.random()
            if q < 0.45:
                tgt = rng.uniform(0, 35) if v >= 0 else -rng.uniform(0, 8)
                if rng.random() < 0.12 and kind == "car":
                    tgt = -rng.uniform(0.5, 6)
                a = scn.speed_abs(tgt, rng.choice(["linear", "cubic", "sinusoidal", "step"]), rng.uniform(0.1, 4), "time")
            elif q < 0.75 and v > 2 and kind != "ped":
                a = rng.choice([lambda: scn.lane_change(rng.choice([j for j in range(1, ch.n + 1)]) * (1 if lane > 0 else -1), rng.choice(["linear", "cubic", "sinusoidal"]), rng.uniform(2, 6)),
                                lambda: scn.lane_offset(rng.uniform(-1.2, 1.2), "sinusoidal", rng.uniform(0.3, 2))])()
                an = "lat_" + an
            elif kind != "tow":
                u = ch.len * rng.uniform(0.1, 0.9)
                r2 = ch.road_at(u + ch.x0)
                _, s2, _ = ch.loc(u + ch.x0, 0)
                a = scn.teleport(scn.lanepos(r2["id"], rng.choice([j for j in range(-ch.n, ch.n + 1) if j]), s2, rng.choice([0.0, rng.uniform(-1, 1)])))
                an = "tp_" + an
            else:
                continue
            evs.append(scn.event("e" + an, [scn.action(an, a)], scn.trigger("StartTrigger", [scn.cond(scn.simtime(t), "c" + an)]), "parallel", rng.choice([1, 1, 2])))
        if evs:
            stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [nm], [scn.maneuver(f"m{i}", evs)])], scn.always(name=f"al{i}"))]))
    text = scn.scenario("net.xodr", ents, init, stories)
    open("s.xosc", "w").write(text)
    out.art("s.xosc", text)
    se = es.SE(l)
    out.need(se.init(xosc="s.xosc") == 0, "load", "the scenario does not load")
    kin = Kin(out, se)
    base = rng.choice([0.001, 0.01, 0.02, 0.05, 0.1, 0.033, 0.5])
    vary = rng.random() < 0.5
    tend = rng.uniform(2, 10) if base > 0.005 else 0.6
    rot = {i: s.rot for i, s in kin.prev.items()}
    running, last_lat = {}, set()
    nev = 0
    while se.time() < tend:
        dt = base * rng.uniform(0.2, 2.0) if vary else base
        if se.step(dt) != 0:
            break
        tele, lateral = set(), set()
        for n, st in list(running.items()):
            lateral.add(n)
        for e in se.events[nev:]:
            if e[0] == "sb" and e[4] == 7:
                nm = e[3]
                parts = nm.split("_")
                if parts[0] == "tp" and e[5] == 2:
                    tele.add(parts[1])
                if parts[0] == "lat":
                    lateral.add(parts[1])
                    running.setdefault(parts[1], set())
                    (running[parts[1]].add if e[5] == 2 else running[parts[1]].discard)(nm)
        nev = len(se.events)
        lateral |= {n for n, q in running.items() if q}
        lateral, last_lat = lateral | last_lat, lateral
        for n in [n for n, q in running.items() if not q]:
            del running[n]
        old = kin.after(dt, tele)
        for i, s in kin.prev.items():
            o, nm = old.get(i), s.name.decode()
            if o is None:
                continue
            inf = info[nm]
            ctx = lambda: f"object {i} {nm} ({inf['kind']}) at {kin.t:.4f} (dt {dt:.4f}, speed {o.v:.4f} -> {s.v:.4f}): "
            # wheels
            if s.st.objectType == 1:
                e = math.fmod(rot[i] + (1 if s.v >= 0 else -1) * abs(s.v) * dt / WHEEL_R, TWO_PI)
                out.check(near(wrap(s.rot - e), 0, 1e-6), "wheel-rotation", lambda: ctx() + f"wheel rotation {rot[i]} -> {s.rot}, expected {e}")
                rot[i] = s.rot
                if abs(s.v) > 1e-3 and inf["kind"] != "trailer":
                    ea = (1 if s.v > 0 else -1) * math.atan2(s.w[0] * inf["front"], abs(s.v))
                    out.check(near(s.ang, ea, 1e-6), "wheel-angle", lambda: ctx() + f"wheel angle {s.ang}, expected {ea} (heading rate {s.w[0]})")
                for k in range(l.SE_GetObjectNumberOfWheels(i)):
                    wd = es.WheelData()
                    if l.SE_GetObjectWheelData(i, k, es.C.byref(wd)) == 0:
                        out.check(near(wd.p, s.rot, 1e-9) and (wd.axle != 0 or near(wd.h, s.ang, 1e-9)), "wheel-data",
                                  lambda: ctx() + f"wheel {k} axle {wd.axle} p {wd.p} h {wd.h} of rotation {s.rot} angle {s.ang}")
            sc = "0" if s.v == 0 else "rev" if s.v < 0 else "slow" if s.v < 3 else "fast"
            dtc = int(math.log2(dt * 1000))
            if inf["kind"] == "trailer":
                t = next((q for q in kin.prev.values() if q.name.decode() == inf["tow"]), None)
                if t:
                    cx, cy = s.x + inf["cx"] * math.cos(s.h), s.y + inf["cx"] * math.sin(s.h)
                    tx, ty = t.x + inf["hx"] * math.cos(t.h), t.y + inf["hx"] * math.sin(t.h)
                    out.check(math.hypot(cx - tx, cy - ty) < 2e-3 + abs(ch.slope) * 0.1, "trailer-coupling", lambda: ctx() + f"coupler ({cx}, {cy}), hitch ({tx}, {ty})")
                    out.fp("trailer", sc, dtc, inf["tow"] in lateral)
                continue
            if nm in tele:
                out.fp("teleport", sc, dtc)
                continue
            # distance covered
            u0, u1 = ch.u_of(o.st.roadId, o.st.s), ch.u_of(s.st.roadId, s.st.s)
            if min(u0, u1) < 0.5 + abs(s.v) * dt * 2 or max(u0, u1) > ch.len - 0.5 - abs(s.v) * dt * 2:
                out.count("end of road")
                inf["ended"] = True     # a lateral action cut off there leaves its heading
                continue
            d = abs(s.v) * dt
            d2 = math.hypot(s.x - o.x, s.y - o.y)
            to = o.st.t * ch.roads[o.st.roadId - 1]["o"]
            t1 = s.st.t * ch.roads[s.st.roadId - 1]["o"]
            ks = ch.kappas(u0, u1)
            if len(set(ks)) == 1 and nm not in lateral:
                k = ks[0] / (1 - ks[0] * to)
                e = d if abs(k * d) < 1e-9 else abs(2 / k * math.sin(k * d / 2))
                lo = hi = e
                tol = 1e-6 + 1e-6 * d
            else:
                k0 = 1 / (1 - ks[0] * to) if ks else 1
                fs = [(1 - q * tt) / (1 - p * to) for q in ks for p in ks for tt in (to, t1)] + [1.0]
                km = max(abs(q / (1 - q * to)) for q in ks)
                lo, hi = d * min(fs) * (1 - (km * d) ** 2 / 8), d * max(fs)
                tol = 1e-5 + 1e-6 * d + (0.05 + (4 + 6 * abs(to)) * kmax + (0.02 if d < 3 else 0.08) * d + 0.5 * km * d * d + abs(s.v - o.v) * dt if nm in lateral else 0)
            if nm in lateral:     # a lane offset adds its movement to the one along the lane
                hi = math.hypot(hi, abs(t1 - to)) + 1e-6
                lo = 0.0 if abs(u1 - u0) < 0.5 * d else lo - 0.2 * d     # a lateral rate near or beyond the object's speed is judged by C10
            out.check(lo - tol <= d2 <= hi + tol, "distance", lambda: ctx() + f"moved {d2!r}, expected {lo!r} .. {hi!r} (curvatures {ks}, t {to}, lateral {nm in lateral})")
            if d > 1e-4 and nm not in lateral and not inf.get("ended"):
                km = max(abs(q / (1 - q * to)) for q in ks)
                md = math.atan2(s.y - o.y, s.x - o.x)
                e = wrap(md - (s.h if s.v > 0 else s.h + math.pi))
                out.check(abs(e) <= km * d + 2e-6 / d + 1e-3, "direction", lambda: ctx() + f"moves towards {md}, heading {s.h}")
            out.fp(inf["kind"], "lat" if nm in lateral else "long", "bend" if len(set(ks)) > 1 else "arc" if ks[0] else "line", sc, dtc, ch.roads[s.st.roadId - 1]["o"],
                   o.st.roadId != s.st.roadId, abs(s.v - o.v) > 1e-6, ch.slope != 0)
    out.sample(f"{len(kin.prev)} objects until t={kin.t:.2f} in steps around {base}")
    se.close()


def run_bundled(case, out, l):
    rng = random.Random(case["seed"])
    se = es.SE(l)
    path = vlib.REPO + "/" + case["file"]
    text = open(path, errors="replace").read().lower()
    if "ghost" in text:
        out.skipped = "uses the ghost feature"
        return
    if se.init(xosc=path) != 0:
        out.skipped = "does not load"
        return
    kin = Kin(out, se)
    base = rng.choice([0.01, 0.02, 0.05, 0.1])
    n = 0
    while se.time() < 30 and n < 1500 and not l.SE_GetQuitFlag():
        dt = base * rng.uniform(0.3, 1.5) if n % 2 else base
        if se.step(dt) != 0 or l.SE_GetQuitFlag():
            break
        n += 1
        kin.after(dt)
        for s in kin.prev.values():
            out.fp(case["file"], s.st.objectType, s.st.ctrl_type, s.v == 0, int(kin.t))
    out.sample(f"{n} steps, {len(kin.prev)} objects until t={kin.t:.2f}")
    se.close()


def run_rich(case, out, l):
    """all kinds of actions and controllers: values stay finite and in range, time advances as asked"""
    import rich
    rng = random.Random(case["seed"])
    ch = Bend(rng, rng.randint(1, 6), rng.choice([2, 3]), rng.choice(["RHT", "LHT"]), 0.02, rng.choice([0.0, 0.03]))
    open("net.xodr", "w").write(ch.xml())
    t, _ = rich.generate(rng, ch, ghosts=False)
    if rng.random() < 0.3:   # standing still is where ratios of speeds break
        t = re.sub(r"<AbsoluteTargetSpeed value=['\"][^'\"]*['\"]", "<AbsoluteTargetSpeed value='0'", t)
    open("s.xosc", "w").write(t)
    out.art("s.xosc", t)
    out.art("net.xodr", ch.xml())
    se = es.SE(l)
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    l.SE_SetSeed(rng.randint(1, 999))
    if se.init(xosc="s.xosc") != 0:
        out.skipped = "does not load"
        return
    base = rng.choice([0.01, 0.03, 0.1, 0.3])
    seen = set()
    for n in range(150):
        dt = base * rng.choice([1.0, 1.0, rng.uniform(0.2, 1.5)])
        t0 = se.time()
        if se.step(dt) != 0 or l.SE_GetQuitFlag():
            break
        out.check(abs(se.time() - t0 - dt) < 1e-9, "time", lambda: f"step {dt} advanced time from {t0} to {se.time()}")
        for i in se.ids():
            st = se.state(i)
            d = st.d()
            vec = [se.vec("SE_GetObject" + q, i) for q in ("VelocityGlobalXYZ", "AccelerationGlobalXYZ", "AngularVelocity", "AngularAcceleration")]
            bad = [k for k, v in d.items() if isinstance(v, float) and not math.isfinite(v)] + [str(v) for v in vec if not all(math.isfinite(q) for q in v)]
            if not math.isfinite(l.SE_GetObjectOdometer(i)):
                bad.append("odometer")
            out.check(not bad or i in seen, "not finite", lambda: f"t {se.time():.3f}: object {i} {l.SE_GetObjectName(i)} reports non finite {bad}; actions running {[e[3] for e in se.events if e[0] == 'sb' and e[4] == 7][-6:]}")
            if bad:
                seen.add(i)
                continue
            out.check(-1e-6 <= st.h <= 2 * math.pi + 1e-6, "angle range", lambda: f"t {se.time():.3f}: object {i} heading {st.h}")
            out.fp("rich", st.objectType, st.ctrl_type, st.speed == 0, base)
    out.sample(f"{case['id']}: {n} steps of rich scenario, {len(se.ids())} objects")
    se.close()


def run(case, out, l):
    (run_bundled if "file" in case else run_rich if case["id"][0] == "r" else run_gen)(case, out, l)
