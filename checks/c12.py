"""C12: trajectory following stays on the declared path and schedule."""
import math
import random

import numpy as np

import es
import odr
import scn
from scn import el

PID = "C12"
LEVEL = "exploration"
RULE = ("objects follow generated trajectories (polylines with absolute, lane, object-relative and repeated vertices, with and without headings and heights; clothoids; clothoid splines; NURBS) under every "
        "timing mode (none; relative and absolute with scale and offset), following mode, start offset, speed (also reversing and changing) and varying time steps; a reference curve and schedule, "
        "started by the running callback, predicts position, progress, heading and the step of completion; one evaluation = one judged value; distinct = shape x timing x following mode x phase x speed class")
ASSUMPTIONS = ["trajectory time is (elapsed or absolute time) x scale + offset, as esmini applies the time reference", "NURBS schedules between first and last control point are not judged beyond order and range",
               "polylines in following mode 'follow': only the arrival at the vertices is judged, not the speed profile between them; arriving early and waiting is accepted as documented in the code",
               "splines of clothoids are followed on their 1 m chords", "vertices closer than 0.1 m (the documented trajectory filter) are only generated as exact repetitions"]
TWO_PI = 2 * math.pi


def wrap(a):
    a = math.fmod(a, TWO_PI)
    return a - TWO_PI if a > math.pi else a + TWO_PI if a <= -math.pi else a


def cases(rng, tier):
    n = {"quick": 1500, "thorough": 12000}[tier]
    return [{"id": f"t{i}", "seed": rng.getrandbits(48)} for i in range(n)]


class Poly:
    kind = "polyline"

    def __init__(self, pts, times, zs=None):
        self.p, self.t, self.z = pts, times, zs
        self.s = [0.0]
        for a, b in zip(pts, pts[1:]):
            self.s.append(self.s[-1] + math.hypot(b[0] - a[0], b[1] - a[1]))
        self.L = self.s[-1]

    def seg(self, s):
        for i in range(len(self.p) - 1):
            if s < self.s[i + 1] or i == len(self.p) - 2:
                if self.s[i + 1] - self.s[i] > 1e-9:
                    return i
        return len(self.p) - 2

    def at(self, s):
        s = min(max(s, 0.0), self.L)
        i = self.seg(s)
        d = self.s[i + 1] - self.s[i]
        a = (s - self.s[i]) / d if d > 1e-9 else 0.0
        (x0, y0), (x1, y1) = self.p[i], self.p[i + 1]
        h = math.atan2(y1 - y0, x1 - x0)
        z = None if self.z is None else self.z[i] + a * (self.z[i + 1] - self.z[i])
        return x0 + a * (x1 - x0), y0 + a * (y1 - y0), h, z

    def at_time(self, t, mode):
        """lowest and highest admissible s"""
        if t <= self.t[0]:
            return 0.0, 0.0
        if t >= self.t[-1]:
            return self.L, self.L
        i = max(k for k in range(len(self.t) - 1) if self.t[k] <= t)
        if mode == "position":
            s = self.s[i] + (t - self.t[i]) / (self.t[i + 1] - self.t[i]) * (self.s[i + 1] - self.s[i])
            return s, s
        return self.s[i], self.s[i + 1]

    def corner(self, s):
        return min(abs(s - q) for q in self.s)

    def dist(self, x, y):
        best = 1e9
        for (x0, y0), (x1, y1) in zip(self.p, self.p[1:]):
            dx, dy = x1 - x0, y1 - y0
            q = dx * dx + dy * dy
            a = 0.0 if q < 1e-18 else min(1.0, max(0.0, ((x - x0) * dx + (y - y0) * dy) / q))
            best = min(best, math.hypot(x - x0 - a * dx, y - y0 - a * dy))
        return best

    tol, tolh = 1e-4, 1e-4


class Cloth:
    def __init__(self, geoms, times, tol, kind):
        """geoms follow each other; times: one per geom plus the end"""
        self.g, self.t, self.tol, self.kind = geoms, times, tol, kind
        self.s = [0.0]
        for g in geoms:
            self.s.append(self.s[-1] + g.length)
        self.L = self.s[-1]
        km = max(max(abs(g.k0), abs(g.k1)) for g in geoms)
        self.tolh = 2e-3 + (km * 1.2 if kind == "spline" else 0)

    def at(self, s):
        s = min(max(s, 0.0), self.L)
        i = max(k for k in range(len(self.g)) if self.s[k] <= s + 1e-12)
        x, y, h, _ = self.g[i].eval(s - self.s[i])
        return x, y, h, None

    def at_time(self, t, mode):
        if t <= self.t[0]:
            return 0.0, 0.0
        if t >= self.t[-1]:
            return self.L, self.L
        i = max(k for k in range(len(self.g)) if self.t[k] <= t)
        s = self.s[i] + (t - self.t[i]) / (self.t[i + 1] - self.t[i]) * self.g[i].length
        return s, s

    def corner(self, s):
        return 1e9 if self.kind == "clothoid" else min(abs(s - q) for q in self.s)


class Nurbs:
    kind = "nurbs"
    tol, tolh = 2e-3, 0.05

    def __init__(self, pts, w, order, knots, times):
        self.pts, self.w, self.o, self.k, self.t = pts, w, order, knots, times
        n = 2500
        u = np.linspace(knots[0], knots[-1] - 1e-9 * knots[-1], n)
        N = [np.where((knots[i] <= u) & (u < knots[i + 1]), 1.0, 0.0) for i in range(len(knots) - 1)]
        for d in range(2, order + 1):
            M = []
            for i in range(len(knots) - d):
                a, b = knots[i + d - 1] - knots[i], knots[i + d] - knots[i + 1]
                M.append((0 if a <= 0 else (u - knots[i]) / a * N[i]) + (0 if b <= 0 else (knots[i + d] - u) / b * N[i + 1]))
            N = M
        W = sum(N[i] * w[i] for i in range(len(pts)))
        self.x = sum(N[i] * w[i] * pts[i][0] for i in range(len(pts))) / W
        self.y = sum(N[i] * w[i] * pts[i][1] for i in range(len(pts))) / W
        self.sl = np.concatenate([[0], np.cumsum(np.hypot(np.diff(self.x), np.diff(self.y)))])
        self.L = float(self.sl[-1])
        self.tol = 2e-3 + 0.6 * float(np.max(np.diff(self.sl)))
        # esmini interpolates the curve parameter between points at fixed parameter steps, about 1 m of control polygon each
        steps = int(1 + sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(pts, pts[1:])))
        arc = np.diff(np.interp(np.linspace(0, n - 1, steps + 1), np.arange(n), self.sl))
        self.acc = 0.5 + 0.02 * self.L + 1.1 * float(np.max(arc))

    def at(self, s):
        x, y = float(np.interp(s, self.sl, self.x)), float(np.interp(s, self.sl, self.y))
        i = min(max(int(np.searchsorted(self.sl, s)), 1), len(self.x) - 1)
        return x, y, math.atan2(self.y[i] - self.y[i - 1], self.x[i] - self.x[i - 1]), None

    def at_time(self, t, mode):
        return (0.0, 0.0) if t <= self.t[0] else (self.L, self.L) if t >= self.t[-1] else (0.0, self.L)

    def near(self, x, y, s0, back):
        """distance to the curve, and the s there, not before s0 - back"""
        d = np.hypot(self.x - x, self.y - y)
        d = np.where(self.sl < s0 - back, 1e9, d)
        i = int(np.argmin(d))
        best, bs = float(d[i]), float(self.sl[i])
        for j in (i - 1, i):
            if 0 <= j < len(self.x) - 1:
                dx, dy = self.x[j + 1] - self.x[j], self.y[j + 1] - self.y[j]
                q = dx * dx + dy * dy
                a = 0.0 if q < 1e-18 else min(1.0, max(0.0, ((x - self.x[j]) * dx + (y - self.y[j]) * dy) / q))
                e = math.hypot(x - self.x[j] - a * dx, y - self.y[j] - a * dy)
                if e < best:
                    best, bs = e, float(self.sl[j] + a * math.sqrt(q))
        return best, bs


def gen(rng, timed, y0):
    """shape description; vertices relative to an entity are resolved at start"""
    kind = rng.choice(["polyline", "polyline", "polyline", "clothoid", "spline", "nurbs"])
    t0 = rng.choice([0.0, 0.0, rng.uniform(0.2, 4)]) if timed else 0.0
    x, y, h = rng.uniform(200, 800), y0, rng.uniform(-3, 3)
    d = dict(kind=kind)
    if kind == "polyline":
        n = rng.randint(2, 7)
        pts, ts, t = [(x, y)], [t0], t0
        explicit = rng.random() < 0.2
        for i in range(n - 1):
            if timed and rng.random() < 0.12 and i > 0 and len(pts) > 1 and pts[-1] != pts[-2]:
                pts.append(pts[-1])
                t += rng.uniform(1.2, 3)
            else:
                h += rng.uniform(-1.2, 1.2)
                q = rng.choice([rng.uniform(0.5, 3), rng.uniform(5, 30), rng.uniform(5, 30)])
                x, y = x + q * math.cos(h), y + q * math.sin(h)
                pts.append((x, y))
                t += q / rng.choice([rng.uniform(1, 6), rng.uniform(6, 25)])
            ts.append(t)
        if pts[-1] == pts[-2]:
            pts.pop()
            ts.pop()
        rel = "abs" if explicit else rng.choice(["abs", "abs", "abs", "lane", "ent"])
        zs = [rng.uniform(-3, 8) for _ in pts] if rel == "abs" and rng.random() < 0.25 else None
        for i in range(1, len(pts) if zs else 0):
            if pts[i] == pts[i - 1]:
                zs[i] = zs[i - 1]
        hs = None
        if explicit:
            hs = []
            for i in range(len(pts)):
                a, b = (i, i + 1) if i + 1 < len(pts) else (i - 1, i)
                if pts[a] == pts[b]:
                    a, b = a - 1, b - 1
                hs.append(math.atan2(pts[b][1] - pts[a][1], pts[b][0] - pts[a][0]) + rng.uniform(-0.6, 0.6))
        d.update(pts=pts, ts=ts, rel=rel, zs=zs, hs=hs)
    elif kind == "clothoid":
        L = rng.choice([rng.uniform(1.2, 6), rng.uniform(6, 90)])
        k0, k1 = rng.uniform(-0.08, 0.08), rng.uniform(-0.08, 0.08)
        d.update(g=[(x, y, h, L, k0, k1)], ts=[t0, t0 + L / rng.uniform(2, 20)])
    elif kind == "spline":
        gs, ts, t = [], [], t0
        k = rng.uniform(-0.05, 0.05)
        for i in range(rng.randint(1, 4)):
            L = rng.uniform(2.5, 40)
            k1 = rng.uniform(-0.05, 0.05)
            gs.append((x, y, h, L, k, k1))
            g = odr.Geom("spiral", 0, x, y, h, L, k0=k, k1=k1)
            x, y, h, _ = g.eval(L)
            k = k1 if rng.random() < 0.7 else rng.uniform(-0.05, 0.05)
            ts.append(t)
            t += L / rng.uniform(2, 20)
        d.update(g=gs, ts=ts + [t])
    else:
        n = rng.randint(3, 7)
        order = rng.randint(2, min(n, 4))
        pts, w = [(x, y)], [rng.choice([1.0, rng.uniform(0.3, 3)])]
        for i in range(n - 1):
            h += rng.uniform(-0.9, 0.9)
            q = rng.uniform(6, 30)
            x, y = x + q * math.cos(h), y + q * math.sin(h)
            pts.append((x, y))
            w.append(rng.choice([1.0, rng.uniform(0.3, 3)]))
        if rng.random() < 0.4:
            knots, declared = [0.0] * order + [(i + 1) / (n + 1 - order) for i in range(n - order)] + [1.0] * order, False
        else:
            m = rng.uniform(0.5, 10)
            knots, declared = [0.0] * order + sorted(rng.uniform(0.1, 0.9) * m for _ in range(n - order)) + [m] * order, True
        ts = [t0]
        for i in range(n - 1):
            ts.append(ts[-1] + rng.uniform(0.5, 3))
        d.update(pts=pts, w=w, order=order, knots=knots, declared=declared, ts=ts)
    return d


def shape_xml(d, road):
    if d["kind"] == "polyline":
        v = ""
        for i, ((x, y), t) in enumerate(zip(d["pts"], d["ts"])):
            if d["rel"] == "abs":
                p = scn.worldpos(x, y, d["zs"][i] if d["zs"] else None, d["hs"][i] % TWO_PI if d["hs"] else None)
            elif d["rel"] == "ent":
                p = el("RelativeWorldPosition", entityRef="ref", dx=x - 400.0, dy=y, dz=0.0)
            else:
                p = el("RoadPosition", roadId=1, s=x, t=y)
            v += el("Vertex", scn.position(p), time=t)
        return el("Polyline", v)
    if d["kind"] == "clothoid":
        x, y, h, L, k0, k1 = d["g"][0]
        return el("Clothoid", scn.position(scn.worldpos(x, y, None, h % TWO_PI)), curvature=k0, curvaturePrime=(k1 - k0) / L, length=L, startTime=d["ts"][0], stopTime=d["ts"][1])
    if d["kind"] == "spline":
        b = ""
        for i, (x, y, h, L, k0, k1) in enumerate(d["g"]):
            b += el("ClothoidSplineSegment", el("PositionStart", scn.worldpos(x, y, None, h % TWO_PI)) if i == 0 or d.get("allpos") else "", curvatureStart=k0, curvatureEnd=k1, length=L, hOffset=0.0,
                    timeStart=d["ts"][i])
        return el("ClothoidSpline", b, timeEnd=d["ts"][-1])
    b = "".join(el("ControlPoint", scn.position(scn.worldpos(*p)), time=t, weight=w) for p, t, w in zip(d["pts"], d["ts"], d["w"]))
    if d["declared"]:
        b += "".join(el("Knot", value=k) for k in d["knots"])
    return el("Nurbs", b, order=d["order"])


def make(d, ref):
    if d["kind"] == "polyline":
        pts = [(x - 400.0 + ref[0], y + ref[1]) for x, y in d["pts"]] if d["rel"] == "ent" else d["pts"]
        return Poly(pts, d["ts"], d["zs"])
    if d["kind"] in ("clothoid", "spline"):
        g = [odr.Geom("spiral", 0, x, y, h, L, k0=k0, k1=k1) for x, y, h, L, k0, k1 in d["g"]]
        km = max(max(abs(q.k0), abs(q.k1)) for q in g)
        return Cloth(g, d["ts"], 1e-3 if d["kind"] == "clothoid" else 1e-3 + 0.6 * km, d["kind"])
    return Nurbs(d["pts"], d["w"], d["order"], d["knots"], d["ts"])


def run(case, out, l):
    rng = random.Random(case["seed"])
    xml = scn.straight(length=3000.0, right=3, left=3)
    open("net.xodr", "w").write(xml)
    no = rng.randint(1, 3)
    ents, init, stories, tr = [scn.vehicle("ref")], [scn.private("ref", scn.teleport(scn.lanepos(1, -1, 400.0)), scn.speed_abs(rng.uniform(0, 20)))], [], {}
    for i in range(no):
        nm = f"o{i}"
        ents.append(scn.vehicle(nm) if rng.random() < 0.7 else scn.pedestrian(nm))
        v = rng.choice([rng.uniform(1, 8), rng.uniform(8, 30)])
        timing = rng.choice(["none", "relative", "absolute"])
        d = gen(rng, timing != "none", rng.uniform(-8, 8))
        mode = rng.choice(["position", "follow"])
        T0 = rng.choice([0.0, 0.0, rng.uniform(0, 2)])
        scale, off = 1.0, 0.0
        if timing != "none" and rng.random() < 0.5:
            scale = rng.choice([1.0, rng.uniform(0.4, 2.5)])
            off = rng.choice([0.0, rng.uniform(-1.5, 1.5)]) if timing == "absolute" else rng.choice([0.0, rng.uniform(0, 1.0)])
        if timing == "none" and rng.random() < 0.2 and not d.get("hs"):
            v = -v
        q = dict(v=v, timing=timing, d=d, mode=mode, T0=T0, scale=scale, off=off, vary=timing == "none" and v > 0 and rng.random() < 0.3, soff=0.0)
        if timing == "none" and d["kind"] != "nurbs" and rng.random() < 0.3:
            q["soff"] = rng.uniform(0.1, 1.0)
        tr[f"a{i}"] = (nm, q)
        tref = el("TimeReference", el("None") if timing == "none" else el("Timing", domainAbsoluteRelative=timing, scale=scale, offset=off))
        traj = el("Trajectory", "<ParameterDeclarations/>", el("Shape", shape_xml(d, None)), name=f"tr{i}", closed="false")
        a = el("PrivateAction", el("RoutingAction", el("FollowTrajectoryAction", el("TrajectoryRef", traj), tref, el("TrajectoryFollowingMode", followingMode=mode),
                                                       initialDistanceOffset=q["soff"] or None)))
        init.append(scn.private(nm, scn.teleport(scn.lanepos(1, rng.choice([-2, -1]), rng.uniform(100, 200))), scn.speed_abs(v)))
        evs = [scn.event(f"e{i}", [scn.action(f"a{i}", a)], scn.trigger("StartTrigger", [scn.cond(scn.simtime(T0, "greaterOrEqual"), f"c{i}")]), "parallel", 1)]
        if q["vary"]:
            evs.append(scn.event(f"ev{i}", [scn.action(f"sp{i}", scn.speed_abs(rng.uniform(0.5, 25), rng.choice(["linear", "cubic", "step"]), rng.uniform(0.2, 4), "time"))],
                                 scn.trigger("StartTrigger", [scn.cond(scn.simtime(T0 + rng.uniform(0, 2)), f"cv{i}")]), "parallel", 1))
        stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [nm], [scn.maneuver(f"m{i}", evs)])], scn.always(name=f"al{i}"))]))
    text = scn.scenario("net.xodr", ents, init, stories)
    open("s.xosc", "w").write(text)
    out.art("s.xosc", text)
    se = es.SE(l)
    out.need(se.init(xosc="s.xosc") == 0, "load", "the scenario does not load")
    ids = {l.SE_GetObjectName(i).decode(): i for i in se.ids()}
    st = {n: se.state(i) for n, i in ids.items()}
    base = rng.choice([0.01, 0.02, 0.05, 0.1, 0.25])
    vary = rng.random() < 0.5
    active, nev, ended = {}, 0, set()
    n = 0
    while n < 1200 and len(ended) < no and se.time() < 60:
        n += 1
        dt = base * rng.uniform(0.2, 2.0) if vary else base
        tb = se.time()
        if se.step(dt) != 0:
            break
        old, st = st, {k: se.state(i) for k, i in ids.items()}
        done = set()
        for e in se.events[nev:]:
            if e[0] == "sb" and e[4] == 7 and e[3] in tr:
                nm, q = tr[e[3]]
                if e[5] == 2:
                    r = old["ref"]
                    c = make(q["d"], (r.x, r.y))
                    active[e[3]] = dict(c=c, s=q["soff"], el=0.0, prev=None)
                elif e[5] == 3:
                    done.add(e[3])
        nev = len(se.events)
        for an in list(active):
            nm, q = tr[an]
            a = active[an]
            c, s = a["c"], st[nm]
            o = old[nm]
            a["el"] += dt
            first = a["prev"] is None
            ctx = lambda: f"{nm} {c.kind} timing {q['timing']} scale {q['scale']:.4f} offset {q['off']:.4f} mode {q['mode']} at {se.time():.4f} (dt {dt:.4f}) speed {s.speed:.4f}: "
            end = False
            rem = None
            if q["timing"] == "none":
                v0, v1 = (abs(s.speed), abs(s.speed)) if not q["vary"] else sorted((abs(o.speed), abs(s.speed)))
                lo, hi = a["s"] + v0 * dt, a["s"] + v1 * dt
                slo, shi = min(lo, c.L), min(hi, c.L)
                end, maybe = lo > c.L + 1e-5, hi > c.L - (c.acc if c.kind == "nurbs" else 1e-5)
                rem = hi - c.L if hi > c.L else 0.0
            else:
                tau = c.t[0] + q["scale"] * a["el"] + q["off"] if q["timing"] == "relative" else q["scale"] * (tb + dt) + q["off"]
                slo, shi = c.at_time(tau, q["mode"])
                end, maybe = tau > c.t[-1] + 1e-5, tau > c.t[-1] - 1e-5
                rem = abs(s.speed) * max(0.0, tau - c.t[-1])
            # where it is
            tol = c.tol
            if c.kind == "nurbs":
                back = 0.5 + c.acc
                d, sp = c.near(s.x, s.y, a["s"] if q["timing"] != "none" else slo, back)
                if not maybe or an not in done:
                    out.check(d < c.tol + c.L * 2e-5, "on-curve", lambda: ctx() + f"at ({s.x}, {s.y}), {d} off the curve")
                    if q["timing"] == "none":
                        m = c.acc
                        out.check(slo - m <= sp <= shi + m, "progress", lambda: ctx() + f"at s {sp}, expected {slo} .. {shi}")
                    else:
                        if slo == shi:
                            x, y, h, z = c.at(slo)
                            out.check(math.hypot(s.x - x, s.y - y) < 0.02 + c.tol, "schedule", lambda: ctx() + f"at ({s.x}, {s.y}), expected ({x}, {y}), s {slo}")
                        out.check(sp >= a["s"] - 0.02 - c.tol, "backwards", lambda: ctx() + f"from s {a['s']} to {sp}")
                pos = sp
            else:
                if slo == shi:
                    x, y, h, z = c.at(slo)
                    err = math.hypot(s.x - x, s.y - y)
                    pos = slo
                else:
                    # range of s: closest point of the curve within it
                    best = None
                    for k in range(41):
                        q1 = slo + (shi - slo) * k / 40
                        p = c.at(q1)
                        e = math.hypot(s.x - p[0], s.y - p[1])
                        if best is None or e < best[0]:
                            best = (e, q1, p)
                    for step in ((shi - slo) / 40, (shi - slo) / 800, (shi - slo) / 16000):
                        b = best
                        for k in range(-20, 21):
                            q1 = min(shi, max(slo, b[1] + step * k / 20))
                            p = c.at(q1)
                            e = math.hypot(s.x - p[0], s.y - p[1])
                            if e < best[0]:
                                best = (e, q1, p)
                    err, pos, (x, y, h, z) = best
                if not (maybe and an in done):
                    out.check(err < tol + 1e-4 * (1 if slo != shi else 0), "position", lambda: ctx() + f"at ({s.x}, {s.y}), expected ({x}, {y}), s {slo} .. {shi} of {c.L}")
                    out.check(pos >= a["s"] - 1e-3 - (c.tol if c.kind == "spline" else 0), "backwards", lambda: ctx() + f"from s {a['s']} to {pos}")
                    if z is not None:
                        out.check(abs(s.z - z) < 1e-3 + (0 if slo == shi else 0.05), "z", lambda: ctx() + f"z {s.z}, expected {z}")
                    if not q["d"].get("hs") and c.corner(pos) > 2.1 and (c.kind != "polyline" or q["mode"] == "position") and pos > 1e-3:
                        rev = q["timing"] == "none" and q["v"] < 0
                        e = wrap(s.h - h - (math.pi if rev else 0))
                        out.check(abs(e) < c.tolh, "heading", lambda: ctx() + f"heading {s.h}, curve {h} at s {pos}")
            # end
            if an in done:
                out.check(maybe, "early-end", lambda: ctx() + f"completed at s {a['s']} .. {shi} of {c.L}")
                if maybe:
                    x, y, h, z = c.at(c.L)
                    err = math.hypot(s.x - x, s.y - y)
                    out.check(err <= rem * (1.001 if q["timing"] == "none" else 1.001 / q["scale"]) + c.tol + 1e-3 + (c.acc if c.kind == "nurbs" else 0), "end-point",
                              lambda: ctx() + f"completed at ({s.x}, {s.y}), end of trajectory ({x}, {y}), {err} apart, remaining {rem}")
                    out.fp(c.kind, q["timing"], q["mode"], "end")
            else:
                out.check(not end or (c.kind == "nurbs" and q["timing"] == "none"), "late-end", lambda: ctx() + f"still running at s {slo} of {c.L}")
            if (c.kind == "nurbs" and end) and an not in done:
                out.check(hi < c.L + c.acc if q["timing"] == "none" else False, "late-end", lambda: ctx() + f"still running beyond the end {c.L}")
            if q["timing"] == "none":
                a["s"] = pos if q["vary"] or c.kind == "nurbs" and False else a["s"] + abs(s.speed) * dt
            else:
                a["s"] = max(a["s"], pos)
            a["prev"] = pos
            out.fp(c.kind, q["timing"], q["mode"], "first" if first else "mid", q["v"] < 0, q["scale"] != 1, q["off"] != 0, q["vary"], q["d"].get("rel"), q["soff"] != 0,
                   bool(q["d"].get("hs")), bool(q["d"].get("zs")), int(math.log2(dt * 1000)))
            if an in done:
                del active[an]
                ended.add(an)
    for an in tr:
        if an not in ended and an not in active and tr[an][1]["T0"] < se.time() - 1:
            out.viol("no-start", f"{an} did not start by {se.time()}")
    out.count("trajectories", no)
    out.count("completed", len(ended))
    out.sample(f"{[(q['d']['kind'], q['timing']) for _, q in tr.values()]} {n} steps")
    se.close()
