"""C05: moving along the network follows declared links and conserves distance."""
import ctypes as C
import math
import random

import es
import net as N
import odr

PID = "C05"
LEVEL = "exploration"
RULE = ("random networks (road links at either end, junctions with connecting roads drawn either way, direct junctions, several lane sections with "
        "shifting lane links, both traffic rules) are loaded; positions are placed on random lanes with random offsets and headings and moved forward "
        "and backward over up to seven links, in one move, in splits and back again, and looked ahead from; one evaluation = one move or look-ahead "
        "whose end point is compared with the set of places that the declared links allow (one place unless the junction choice is random); distinct = "
        "move class x links passed x direction x junction kind x selector")
ASSUMPTIONS = ["the distance of a move is converted to the reference line by the curvature and lateral offset at its start (esmini's definition); "
               "split and return moves are therefore compared on straight roads",
               "where a lane declares no continuation over a road link, esmini's choice of a neighbouring lane is not judged",
               "a move passes at most seven links (esmini documents a limit of eight)"]


def cases(rng, tier):
    n = {"quick": 3000, "thorough": 25000}[tier]
    return [{"id": f"m{i}", "seed": rng.getrandbits(48)} for i in range(n)]


def wrap(a):
    return odr.wrap(a)


class Walker:
    def __init__(self, l, net, ids, out, rng):
        self.l, self.net, self.ids, self.out, self.rng = l, net, ids, out, rng
        self.back = {v: k for k, v in ids.items()}
        self.d = es.RM_PositionData()

    def place(self, road, lane, s, off, hrel):
        h = self.l.RM_CreatePosition()
        self.l.RM_SetLanePosition(h, self.ids[road], lane, off, s, True)
        if hrel is not None:
            self.l.RM_SetHMode(h, hrel, 0x70)
        return h

    def get(self, h):
        self.l.RM_GetPositionData(h, C.byref(self.d))
        d = self.d
        return dict(road=self.back.get(d.roadId, d.roadId), lane=d.laneId, s=d.s, off=d.laneOffset, hrel=d.hRelative, x=d.x, y=d.y, h=d.h)

    def chooser(self, angle, travel_with_lane):
        net = self.net

        def choose(road, end, lane, nx):
            if net.link[(road, end)][0] != "junction" or len(nx) < 2 or angle < 0:
                return nx
            r = net.roads[road]
            h_in = r.ref(r.length if end == N.END else 0.0)[2] + (0.0 if end == N.END else math.pi)
            if net.dirsign(lane) != (1 if end == N.END else -1):
                return nx      # against the driving direction: the meaning of the angle is not defined
            q = []
            for c in nx:
                k = net.roads[c[0]]
                ho = k.ref(k.length)[2] if c[1] == N.START else k.ref(0.0)[2] + math.pi
                q.append(abs(wrap(ho - h_in - angle)))
            m = min(q)
            return [c for c, v in zip(nx, q) if v <= m + 1e-5]
        return choose

    def predict(self, p, ds, angle, scaled=True):
        """set of end places of a move by ds along the heading; None when not judged"""
        net = self.net
        r = net.roads[p["road"]]
        fwd = math.cos(p["hrel"]) > 0
        if abs(math.cos(p["hrel"])) < 0.05:
            return None
        t = r.lane_t(p["s"], p["lane"], p["off"])
        k = r.ref(p["s"])[3]
        if scaled:
            for b in r.geoms[1:]:
                if abs(b.s - p["s"]) < 1e-4:
                    return None
        D = ds / (1.0 - k * t) if scaled else ds
        d = (1 if fwd else -1) * (1 if D >= 0 else -1)
        try:
            e = N.move(net, p["road"], p["lane"], p["s"], d, abs(D), choose=self.chooser(angle, None))
            for x in (2e-6, -2e-6):
                o = N.move(net, p["road"], p["lane"], p["s"], d, max(0.0, abs(D) + x), choose=self.chooser(angle, None))
                if [q[:2] + q[4:] for q in o] != [q[:2] + q[4:] for q in e]:
                    return None
        except N.Lost:
            return None
        # nothing that ends within rounding of a border is judged
        res = []
        for road, lane, s, dd, fl, ended, links in e:
            rr = net.roads[road]
            if not ended and any(abs(s - b) < 1e-5 for b in [0.0, rr.length] + [x.s for x in rr.sections[1:]]):
                return None
            res.append((road, lane, s, fl, ended, links))
        return res

    def match(self, p, q, e, sp=None):
        road, lane, s, fl, ended, links = e
        if (q["road"], q["lane"]) != (road, lane) or abs(q["s"] - s) > 1e-5:
            return False
        if abs(q["off"] - (-1) ** fl * p["off"]) > 1e-6:
            return False
        return abs(wrap(q["hrel"] - p["hrel"] - math.pi * fl)) < 1e-5

    def judge(self, kind, p, q, ds, angle, rc, scaled=True, exact=True, extra=""):
        out, net = self.out, self.net
        exp = self.predict(p, ds, angle, scaled)
        if exp is None:
            out.count("not judged")
            return None
        hit = [e for e in exp if self.match(p, q, e)]
        desc = lambda: (f"{kind}: from {p} by {ds} (selector {angle}) ended at {q} rc {rc}; declared links lead to {exp} {extra}")  # noqa
        if not out.check(bool(hit), kind + ":place", desc):
            return None
        e = hit[0]
        if rc is not None:
            if e[4]:
                out.check(rc == -2, kind + ":end-reported", desc)
            else:
                out.check(rc >= 0, kind + ":rc", desc)
        r = net.roads[e[0]]
        X, _, _ = r.st2xyz(e[2], r.lane_t(e[2], e[1], (-1) ** e[3] * p["off"]))
        lsec = [x.s for x in r.sections[1:]]
        if not any(abs(e[2] - b) < 1e-5 for b in lsec):
            out.check(math.hypot(q["x"] - X[0], q["y"] - X[1]) < 1e-3, kind + ":world", desc)
            if "h" in q:
                out.check(abs(wrap(q["h"] - r.ref(e[2])[2] - q["hrel"])) < 1e-4, kind + ":heading", desc)
        jk = "none"
        lk = net.link.get((p["road"], N.END if (math.cos(p["hrel"]) > 0) == (ds > 0) else N.START))
        if lk:
            jk = lk[0]
        out.fp(kind, min(e[5], 4), ds > 0, jk, e[4], len(exp) > 1, e[3] % 2, net.rule, p["lane"] > 0, angle if angle < 0 else round(angle, 1))
        out.count(f"links={e[5]}")
        if e[4]:
            out.count("end of road")
        return e


def run(case, out, l):
    rng = random.Random(case["seed"])
    straight = rng.random() < 0.5
    kinds = ["line"] if straight else ["line", "arc"]
    net = N.generate(rng, kinds=kinds, pfree=rng.choice([0.0, 0.1, 0.3]), pjunction=rng.choice([0, 0.4, 0.8]), same_lanes=rng.random() < 0.5,
                     nroads=(2, 7), lmin=rng.choice([5, 20, 60]), lmax=rng.choice([80, 150]))
    xml = net.xml()
    out.art("net.xodr", xml)
    l.RM_SetLogFilePath(b"")
    out.need(l.RM_InitWithString(xml.encode()) == 0, "load", "network not accepted")
    ids = {r: l.RM_GetRoadIdFromString(str(r).encode()) for r in net.roads}
    w = Walker(l, net, ids, out, rng)
    info, probe = es.RM_RoadLaneInfo(), es.RM_RoadProbeInfo()
    roads = list(net.order)
    for _ in range(12):
        road = rng.choice(roads)
        r = net.roads[road]
        s = rng.uniform(0, r.length) if rng.random() < 0.8 else rng.choice([0.5, max(0.0, r.length - 0.5)])
        lane = rng.choice([i for i in r.sec(s).lanes if i])
        if any(abs(s - x.s) < 1e-4 for x in r.sections):
            continue
        off = rng.choice([0.0, rng.uniform(-1, 1)])
        hrel = rng.choice([None, None, 0.0, math.pi, rng.uniform(-1.2, 1.2), math.pi + rng.uniform(-1.2, 1.2)])
        h = w.place(road, lane, s, off, hrel)
        p = w.get(h)
        out.need((p["road"], p["lane"]) == (road, lane) and abs(p["s"] - s) < 1e-6, "place", lambda: f"set {road},{lane},{s} got {p}")
        first = dict(p)
        for _ in range(6):
            ds = rng.choice([rng.uniform(0.1, 10), rng.uniform(1, 100), rng.uniform(50, 400), r.length])
            if rng.random() < 0.35:
                ds = -ds
            op = rng.choice(["move", "move", "move", "info", "probe", "split", "back"])
            angle = rng.choice([0.0, 0.0, 0.0, math.pi / 2, 1.5 * math.pi, -1.0, rng.uniform(0, 6.28)])
            p = w.get(h)
            if op == "move":
                rc = l.RM_PositionMoveForward(h, ds, angle)
                q = w.get(h)
                if w.judge("move", p, q, ds, angle, rc) is None:
                    break
            elif op in ("info", "probe"):
                mode = rng.choice([0, 1, 2])
                fn = l.RM_GetLaneInfo if op == "info" else l.RM_GetProbeInfo
                data = info if op == "info" else probe
                rc = fn(h, ds, C.byref(data), mode, False)
                i = info if op == "info" else probe.info
                p2 = w.get(h)
                out.check(p2 == p, op + ":moved", lambda: f"{op} changed the position from {p} to {p2}")
                pp = dict(p)
                if mode == 0:
                    pp["off"] = 0.0
                if mode == 1:
                    if op == "info":
                        t = net.roads[p["road"]].lane_t(p["s"], p["lane"], p["off"])
                        if abs(t) < 1e-3:
                            continue
                        sec = net.roads[p["road"]].sec(p["s"])
                        ln = 1 if t > 0 else -1
                        if ln not in sec.lanes:
                            continue
                        pp["lane"], pp["off"] = ln, -ln * 0.5 * sec.lanes[ln].width(p["s"] - sec.s)
                exp = w.predict(pp, ds, 0.0, scaled=(op == "info" or mode == 0))
                if exp is None:
                    continue
                got = (w.back.get(i.roadId, i.roadId), i.laneId, i.s, i.laneOffset)
                ok = [e for e in exp if e[0] == got[0] and abs(e[2] - i.s) < (1e-3 if mode == 1 else 1e-5) and (mode == 1 or (e[1] == got[1] and abs(got[3] - (-1) ** e[3] * pp["off"]) < 1e-6))]
                out.check(bool(ok), op + ":place", lambda: f"{op} mode {mode} from {p} distance {ds}: reported {got}, declared links lead to {exp}")
                if ok:
                    e = ok[0]
                    if not (op == "probe" and mode == 1):
                        out.check((rc == -2) == e[4] and (rc >= 0) == (not e[4]), op + ":rc", lambda: f"{op} mode {mode} from {p} distance {ds}: rc {rc}, expected {e}")
                    out.fp(op, mode, min(e[5], 4), ds > 0, e[4])
                    rr = net.roads[e[0]]
                    out.check(abs(wrap(i.heading - rr.ref(e[2])[2])) < 1e-4, op + ":heading", lambda: f"road heading {i.heading}, reference {rr.ref(e[2])[2]}")
                    if mode != 1:
                        X, _, _ = rr.st2xyz(e[2], rr.lane_t(e[2], e[1], got[3]))
                        out.check(math.hypot(i.pos.x - X[0], i.pos.y - X[1]) < 1e-3, op + ":world", lambda: f"{i.pos.x},{i.pos.y}, reference {X}")
                    if op == "probe":
                        dx, dy = i.pos.x - p["x"], i.pos.y - p["y"]
                        c, sn = math.cos(-p["h"]), math.sin(-p["h"])
                        rx, ry = dx * c - dy * sn, dx * sn + dy * c
                        out.check(math.hypot(probe.rel.x - rx, probe.rel.y - ry) < 1e-4 and
                                  (math.hypot(rx, ry) < 1e-3 or abs(wrap(probe.relative_h - math.atan2(ry, rx))) < 1e-4), "probe:relative",
                                  lambda: f"relative ({probe.rel.x},{probe.rel.y},{probe.relative_h}) of ({i.pos.x},{i.pos.y}) from {p}")
            else:
                # the same way in parts / there and back: only where the declared links allow one way
                if not straight:
                    continue
                exp = w.predict(p, ds, 0.0)
                if exp is None or len(exp) != 1 or exp[0][4]:
                    continue
                h2 = l.RM_CopyPosition(h)
                out.need(w.get(h2) == p, "copy", lambda: f"copy differs: {w.get(h2)} and {p}")
                rc2 = l.RM_PositionMoveForward(h2, ds, 0.0)
                q2 = w.get(h2)
                if op == "split":
                    n = rng.randint(2, 9)
                    cuts = sorted([0.0, ds] + [rng.uniform(min(0, ds), max(0, ds)) for _ in range(n - 1)], key=abs)
                    for a, b in zip(cuts, cuts[1:]):
                        l.RM_PositionMoveForward(h, b - a, 0.0)
                    q = w.get(h)
                    out.check((q["road"], q["lane"]) == (q2["road"], q2["lane"]) and abs(q["s"] - q2["s"]) < 1e-5 and abs(wrap(q["h"] - q2["h"])) < 1e-6,
                              "split", lambda: f"from {p} by {ds}: at once {q2}, in {n} parts {cuts} {q}")
                    out.fp("split", n, exp[0][5], ds > 0)
                else:
                    # one lane may be reached from several; only where the way back is the same
                    bk = w.predict(q2, -ds, 0.0)
                    if bk is not None and len(bk) == 1 and bk[0][:2] == (p["road"], p["lane"]) and abs(bk[0][2] - p["s"]) < 1e-5:
                        l.RM_PositionMoveForward(h2, -ds, 0.0)
                        q = w.get(h2)
                        out.check((q["road"], q["lane"]) == (p["road"], p["lane"]) and abs(q["s"] - p["s"]) < 1e-5 and abs(wrap(q["h"] - p["h"])) < 1e-6
                                  and abs(q["off"] - p["off"]) < 1e-9, "back", lambda: f"from {p} by {ds} and back: {q}, in between {q2}")
                        out.fp("back", exp[0][5], ds > 0)
        del first
    out.sample(f"{len(net.roads)} roads, {len(net.junctions)} junctions, {sum(len(v) for v in net.next.values())} lane connections, rule {net.rule}")
    l.RM_Close()
