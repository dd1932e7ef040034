"""C18: collisions and sensor detections match the geometry."""
import ctypes as C
import math
import random

import numpy as np

import es
import odr
import scn

PID = "C18"
LEVEL = "exploration"
RULE = ("random histories of objects with random boxes (added, moved, turned, resized by type, deleted, teleported, driving) with collision detection on and ideal sensors attached: after every step the reported "
        "collisions of each object are compared with an independent overlap test of the oriented boxes in the reported poses, must be mutual and free of repetitions; sensor lists are compared with the objects whose "
        "reference point is inside range and field of view; free space distances are recovered from the time to collision with a standing target and compared with the distance of the boxes; time to collision is compared "
        "with distance over closing speed for parallel motion; one evaluation = one pair, detection or distance; distinct = overlap class x relative heading x size class x object types x sensor class")
ASSUMPTIONS = ["configurations within 1e-4 of the boundary (touching boxes, object on the edge of the field of view or range) are not judged", "the road is flat: boxes are compared in the ground plane",
               "objects on levels further apart than 5 m do not collide", "the field of view is given in radians (all examples), the header comment says degrees",
               "time to collision is judged for parallel velocities, where closing speed has one meaning"]
EPS = 1e-4


def cases(rng, tier):
    n = {"quick": 900, "thorough": 9000}[tier]
    return [{"id": f"g{i}", "seed": rng.getrandbits(48)} for i in range(n)]


class Box:
    def __init__(self, s):
        self.s = s
        self.c, self.n = math.cos(s.h), math.sin(s.h)
        cx, cy, hl, hw = s.centerOffsetX, s.centerOffsetY, s.length / 2, s.width / 2
        self.ctr = (s.x + cx * self.c - cy * self.n, s.y + cx * self.n + cy * self.c)
        self.hl, self.hw = hl, hw
        self.pts = [(self.ctr[0] + a * hl * self.c - b * hw * self.n, self.ctr[1] + a * hl * self.n + b * hw * self.c) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))]

    def local(self, p):
        dx, dy = p[0] - self.ctr[0], p[1] - self.ctr[1]
        return dx * self.c + dy * self.n, -dx * self.n + dy * self.c


def point_box(p, b):
    x, y = b.local(p)
    dx, dy = max(abs(x) - b.hl, 0.0), max(abs(y) - b.hw, 0.0)
    return math.hypot(dx, dy)


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def clip(poly, b):
    """part of a polygon inside a box (Sutherland-Hodgman), to tell overlap without separating axes"""
    for k in range(4):
        p, q = b.pts[k], b.pts[(k + 1) % 4]
        res = []
        for i in range(len(poly)):
            u, v = poly[i], poly[(i + 1) % len(poly)]
            cu, cv = cross(p, q, u), cross(p, q, v)
            if cu >= 0:
                res.append(u)
            if (cu > 0 > cv) or (cu < 0 < cv):
                t = cu / (cu - cv)
                res.append((u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])))
        poly = res
        if not poly:
            return []
    return poly


def area(poly):
    return abs(sum(poly[i][0] * poly[(i + 1) % len(poly)][1] - poly[(i + 1) % len(poly)][0] * poly[i][1] for i in range(len(poly)))) / 2 if len(poly) > 2 else 0.0


def distance(a, b):
    """(signed) separation: > 0 distance of the boxes, < 0 they overlap, 0 undecided"""
    inside = clip(a.pts, b)
    ar = area(inside)
    if ar > 0:
        # how deep? shrink both boxes a little; still overlapping means clearly overlapping
        class S:
            pass
        r = []
        for q in (a, b):
            s = S()
            s.x, s.y, s.h = q.s.x, q.s.y, q.s.h
            s.centerOffsetX, s.centerOffsetY, s.length, s.width = q.s.centerOffsetX, q.s.centerOffsetY, max(q.s.length - EPS, 1e-9), max(q.s.width - EPS, 1e-9)
            r.append(Box(s))
        return -1.0 if area(clip(r[0].pts, r[1])) > 0 else 0.0
    d = min([point_box(p, b) for p in a.pts] + [point_box(p, a) for p in b.pts])
    return d if d > EPS else 0.0


def run(case, out, l):
    rng = random.Random(case["seed"])
    L = 800.0
    lanes = [odr.Lane(i, "none" if i == 0 else "driving", [] if i == 0 else [(0.0, 3.5, 0.0, 0.0, 0.0)]) for i in range(-4, 5)]
    hd = rng.choice([0.0, rng.uniform(0, 6.28)])
    road = odr.Road(1, [odr.Geom("line", 0.0, rng.uniform(-300, 300), rng.uniform(-300, 300), hd, L)], [odr.Section(0.0, lanes)])
    open("net.xodr", "w").write(odr.Network([road]).xml())
    out.art("net.xodr", open("net.xodr").read())
    ents, init, names = [], [], []
    hidden = set()
    for i in range(rng.randint(1, 5)):
        nm = f"o{i}"
        names.append(nm)
        ents.append(rng.choice([scn.vehicle, scn.vehicle, scn.vehicle, scn.pedestrian])(nm))
        acts = [scn.teleport(scn.lanepos(1, rng.choice([-2, -1, 1, 2]), rng.uniform(380, 420), rng.uniform(-1, 1), scn.orient(h=rng.uniform(-3, 3)) if rng.random() < 0.3 else "")),
                scn.speed_abs(rng.choice([0.0, rng.uniform(1, 30)]))]
        if rng.random() < 0.15:
            hidden.add(i)
            acts.append('<PrivateAction><VisibilityAction graphics="true" traffic="true" sensors="false"/></PrivateAction>')
        init.append(scn.private(nm, *acts))
    text = scn.scenario("net.xodr", ents, init, [])
    open("s.xosc", "w").write(text)
    out.art("s.xosc", text)
    l.SE_CollisionDetection(rng.random() < 0.5)
    se = es.SE(l)
    out.need(se.init(xosc="s.xosc") == 0, "init", "scenario not accepted")
    l.SE_CollisionDetection(True)
    cx, cy = [float(v) for v in road.st2xyz(400.0, 0.0)[0][:2]]
    added, sensors, levels = [], [], {}
    spread = rng.choice([4, 10, 25, 80])

    def place(i):
        x, y, h = cx + rng.gauss(0, spread), cy + rng.gauss(0, spread), rng.choice([hd, hd + math.pi, rng.uniform(-7, 7), hd + math.pi / 2])
        if rng.random() < 0.15:
            levels[i] = rng.choice([20.0, -20.0])
            l.SE_ReportObjectPosMode(i, x, y, levels[i], h, 0.0, 0.0, 0x3333)
        else:
            levels.pop(i, None)
            l.SE_ReportObjectPosXYH(i, x, y, h)

    for k in range(60):
        op = rng.choice(["add", "add", "move", "move", "move", "del", "sensor", "none", "speed"])
        out.count("op " + op)
        if op == "add" and len(added) < 8:
            big = rng.random() < 0.25
            bb = es.OSCBoundingBox(rng.uniform(-2, 3) if not big else rng.uniform(-30, 30), rng.uniform(-0.5, 0.5) if not big else rng.uniform(-10, 10), 0.7,
                                   rng.uniform(0.2, 4), rng.choice([rng.uniform(0.2, 2), rng.uniform(2, 20)]), 1.5)
            i = l.SE_AddObjectWithBoundingBox(f"x{k}".encode(), rng.choice([1, 2]), 0, 0, 0, None, bb, 0)
            if i >= 0:
                added.append(i)
                place(i)
        elif op == "move" and added:
            place(rng.choice(added))
        elif op == "speed" and added:
            l.SE_ReportObjectSpeed(rng.choice(added), rng.choice([0.0, rng.uniform(-5, 30)]))
        elif op == "del" and rng.random() < 0.4 and len(se.ids()) > 1:
            i = rng.choice(se.ids())
            if i in [q[1] for q in sensors]:
                continue
            l.SE_DeleteObject(i)
            if i in added:
                added.remove(i)
        elif op == "sensor" and len(sensors) < 4 and se.ids():
            host = rng.choice(se.ids())
            sx, sy, sh = rng.uniform(-3, 5), rng.uniform(-2, 2), rng.choice([0.0, rng.uniform(-7, 7)])
            near, far, fov, mx = rng.choice([0.0, rng.uniform(0, 10)]), rng.uniform(5, 120), rng.choice([rng.uniform(0.05, 3), rng.uniform(3, 6.2)]), rng.choice([1, 2, 3, 20])
            sid = l.SE_AddObjectSensor(host, sx, sy, 0.5, sh, near, far, fov, mx)
            out.check(sid == len(sensors), "sensor id", lambda: f"sensor {len(sensors)} got id {sid}")
            sensors.append((sid, host, sx, sy, sh, near, far, fov, mx))
        if se.step(rng.choice([0.01, 0.05, 0.1])) != 0 or l.SE_GetQuitFlag():
            break
        ids = se.ids()
        st = {i: se.state(i) for i in ids}
        box = {i: Box(st[i]) for i in ids}
        col = {}
        for i in ids:
            n = l.SE_GetObjectNumberOfCollisions(i)
            col[i] = [l.SE_GetObjectCollision(i, q) for q in range(max(n, 0))]
            out.check(n >= 0 and len(set(col[i])) == n and i not in col[i], "collision list", lambda: f"step {k}: object {i} collides with {col[i]} ({n})")
            out.check(l.SE_GetObjectCollision(i, n) == -1, "collision list", lambda: f"step {k}: collision index {n} of object {i} gives {l.SE_GetObjectCollision(i, n)}")
            out.check(set(col[i]) <= set(ids), "collision with vanished object", lambda: f"step {k}: object {i} collides with {col[i]}, objects are {ids}")
        for a in range(len(ids)):
            for b in range(a + 1, len(ids)):
                i, j = ids[a], ids[b]
                out.check((j in col[i]) == (i in col[j]), "collision not mutual", lambda: f"step {k}: {i}: {col[i]}, {j}: {col[j]}")
                d = distance(box[i], box[j])
                dz = abs(st[i].z - st[j].z)
                if d == 0.0 or 1.0 < dz < 5.0:
                    continue
                e = d < 0 and dz < 1.0
                cls = int(abs(math.sin(st[i].h - st[j].h)) * 3)
                out.fp("col", e, cls, int(st[i].length > 4), int(st[j].length > 4), st[i].objectType, st[j].objectType, dz > 5)
                out.count("pairs overlapping" if e else "pairs apart")
                out.check((j in col[i]) == e, "collision", lambda: f"step {k}: objects {i} and {j} {'do' if e else 'do not'} overlap (distance {d:.4f}) but collisions of {i} are {col[i]}; "
                          f"{[(st[q].x, st[q].y, st[q].z, st[q].h, st[q].centerOffsetX, st[q].centerOffsetY, st[q].length, st[q].width) for q in (i, j)]}")
        # sensors
        for sid, host, sx, sy, sh, near, far, fov, mx in sensors:
            if host not in st:
                continue
            h = st[host]
            px, py = h.x + sx * math.cos(h.h) - sy * math.sin(h.h), h.y + sx * math.sin(h.h) + sy * math.cos(h.h)
            must, may = set(), set()
            for i in ids:
                if i == host or i in hidden:
                    continue
                dx, dy = st[i].x - px, st[i].y - py
                dist = math.hypot(dx, dy)
                ang = abs((math.atan2(dy, dx) - h.h - sh + math.pi) % (2 * math.pi) - math.pi)
                if near - EPS <= dist <= far + EPS and ang <= fov / 2 + EPS:
                    may.add(i)
                    if near + EPS < dist < far - EPS and ang < fov / 2 - EPS:
                        must.add(i)
            buf = (C.c_int * 64)(*([-7] * 64))
            n = l.SE_FetchSensorObjectList(sid, buf)
            got = [buf[q] for q in range(max(n, 0))]
            out.fp("sensor", len(got), near > 0, fov > 3, mx, len(must) > mx)
            out.check(n >= 0 and len(set(got)) == n and n <= mx, "sensor list", lambda: f"step {k}: sensor {sid} (max {mx}) lists {n}: {got}")
            out.check(set(got) <= may, "sensor false detection", lambda: f"step {k}: sensor {sid} on {host} lists {got}, inside are {sorted(may)} (near {near} far {far} fov {fov} h {sh})")
            out.check(n >= min(mx, len(must)) and (len(may) > mx or must <= set(got)), "sensor missed", lambda: f"step {k}: sensor {sid} on {host} lists {got}, inside are {sorted(must)}, max {mx} (near {near} far {far} fov {fov} h {sh})")
            out.check(buf[max(n, 0)] == -7, "sensor list", lambda: f"step {k}: sensor {sid} wrote more than {n} entries")
        # distances and time to collision
        for _ in range(6):
            if len(ids) < 2:
                break
            i, j = rng.sample(ids, 2)
            d = distance(box[i], box[j])
            t = C.c_double(-5.0)
            vj = se.vec("SE_GetObjectVelocityGlobalXYZ", j)
            sj = math.hypot(vj[0], vj[1])
            vi = se.vec("SE_GetObjectVelocityGlobalXYZ", i)
            v = st[i].speed
            # free space distance, from the time to collision with a standing object
            if sj < 1e-9 and abs(v) > 0.5 and d != 0:
                proj = [box[i].local(p) for p in box[j].pts]
                lo, hi = min(p[0] for p in proj) - box[i].hl, max(p[0] for p in proj) + box[i].hl
                gap = lo if lo > EPS else hi if hi < -EPS else 0.0   # along the own axis, signed
                if abs(lo) < EPS or abs(hi) < EPS:
                    continue
                out.check(l.SE_GetTimeToCollision(i, j, 1, 4, True, C.byref(t)) == 0, "ttc", lambda: f"step {k}: time to collision of {i} and {j} refused")
                e = -1.0 if d < 0 else d * (-1 if gap < 0 else 1) / v
                e = -1.0 if e < 0 else e
                out.fp("dist", d < 0, gap > 0, gap < 0, v > 0)
                out.check(abs(t.value - e) < 1e-6 + 1e-6 * abs(e), "free space distance", lambda: f"step {k}: {i} at speed {v} to standing {j}: time to collision {t.value}, boxes are {d} apart, expected {e}")
                out.check(l.SE_GetTimeToCollision(i, j, 1, 2, True, C.byref(t)) == 0, "ttc", lambda: f"step {k}: refused")
                e = -1.0 if d < 0 or gap == 0 or gap / v < 0 else gap / v
                out.check(abs(t.value - e) < 1e-6 + 1e-6 * abs(e), "free space distance", lambda: f"step {k}: {i} at speed {v} to standing {j}: longitudinal time to collision {t.value}, gap {gap}, expected {e}")
            # standing, the other one approaching or leaving
            elif abs(v) < 1e-9 and sj > 0.5 and d != 0:
                proj = [box[i].local(p) for p in box[j].pts]
                lo, hi = min(p[0] for p in proj) - box[i].hl, max(p[0] for p in proj) + box[i].hl
                close = -(vj[0] * box[i].c + vj[1] * box[i].n)
                if abs(lo) < EPS or abs(hi) < EPS or abs(close) < 1e-3:
                    continue
                gap = lo if lo > 0 else hi if hi < 0 else 0.0
                out.check(l.SE_GetTimeToCollision(i, j, 1, 2, True, C.byref(t)) == 0, "ttc", lambda: f"step {k}: refused")
                e = -1.0 if gap == 0 or gap / close < 0 else gap / close
                out.fp("ttc standing", gap > 0, gap < 0, close > 0)
                out.check(abs(t.value - e) < 1e-5 + 1e-5 * abs(e), "time to collision", lambda: f"step {k}: standing {i}, {j} closing at {close}: time to collision {t.value}, gap {gap}, expected {e}")
            # parallel motion
            elif sj > 0.5 and v > 0.5 and st[j].speed > 0.5 and abs(math.hypot(vi[0], vi[1]) - v) < 1e-6 and abs(sj - st[j].speed) < 1e-6:
                al = math.cos(st[i].h - st[j].h)
                if abs(math.cos(st[j].h) * vj[0] + math.sin(st[j].h) * vj[1] - sj) > 1e-9:
                    continue
                if abs(abs(al) - 1) > 1e-12 or abs(math.cos(st[i].h) * vi[0] + math.sin(st[i].h) * vi[1] - v) > 1e-9:
                    continue
                close = v - round(al) * sj
                if abs(close) < 1e-3:
                    continue
                proj = [box[i].local(p) for p in box[j].pts]
                lo, hi = min(p[0] for p in proj) - box[i].hl, max(p[0] for p in proj) + box[i].hl
                if abs(lo) < EPS or abs(hi) < EPS or d == 0:
                    continue
                gap = lo if lo > 0 else hi if hi < 0 else 0.0
                out.check(l.SE_GetTimeToCollision(i, j, 1, 2, True, C.byref(t)) == 0, "ttc", lambda: f"step {k}: refused")
                e = -1.0 if gap == 0 or gap / close < 0 else gap / close
                out.fp("ttc", round(al), gap > 0, gap < 0, close > 0)
                out.check(abs(t.value - e) < 1e-5 + 1e-5 * abs(e), "time to collision", lambda: f"step {k}: {i} at {v}, {j} at {sj} direction {al:.3f}: time to collision {t.value}, gap {gap}, closing {close}, expected {e}")
    l.SE_CollisionDetection(False)
    out.sample(f"{case['id']}: {len(names)} declared, {len(added)} added alive, {len(sensors)} sensors, spread {spread}")
    se.close()
