"""C06: relative road positions are the shortest road distance and antisymmetric."""
import ctypes as C
import heapq
import math
import random

import es
import net as N
import odr
import scn

PID = "C06"
LEVEL = "exploration"
RULE = ("random networks (road links, junctions with connecting roads, direct junctions, loops) are loaded; for random pairs of positions (any lane, heading "
        "along or against the road) the reported difference is compared with a Dijkstra search over the generated links: distance, sign, no-connection "
        "answer, lateral and lane difference, same-road antisymmetry; through the road library and for objects of a simulation (with the 1000 m limit, "
        "entity-frame dx/dy, euclidean distances); one evaluation = one compared answer; distinct = answer kind x links passed x sign x road orientation")
ASSUMPTIONS = ["distance is judged where following lane links from the observer's lane reaches the target road by an overall shortest road connection; "
               "equally short connections ahead and behind are not judged for sign",
               "esmini bounds the search to 100 road ends: pairs with more than 70 of them nearer than the target are not judged",
               "positions whose heading is within 3 degrees of perpendicular to the road are not judged"]


def cases(rng, tier):
    n = {"quick": 2200, "thorough": 25000}[tier]
    return [{"id": f"d{i}", "seed": rng.getrandbits(48), "se": i % 4 == 0} for i in range(n)]


class Graph:
    def __init__(self, net):
        self.net = net
        self.rl = {}        # (road, end) -> set of (road2, end2)
        self.edges = {}
        for (r, e, l), v in net.next.items():
            for r2, e2, l2 in v:
                self.rl.setdefault((r, e), set()).add((r2, e2))
        # a road link connects the roads even where no lane continues
        for (r, e), lk in net.link.items():
            if lk[0] == "road":
                self.rl.setdefault((r, e), set()).add((lk[1], lk[2]))

    def search(self, road, lane, s, target, st, first=None, lanes=True, at=None):
        """shortest distance leaving by end `first`; lane-level (lanes) or road-level. Returns (dist, links, lane at target road entry, entry end) list of optima"""
        net = self.net
        L = net.roads[road].length
        ends = [first] if first is not None else [N.START, N.END]
        q, best = [], (math.inf, None)
        n = 0
        for e in ends:
            ln = net.walk_in_road(road, lane, s, L if e == N.END else 0.0) if lanes else 0
            if ln is None:
                continue
            q.append((L - s if e == N.END else s, n, road, e, ln, 0))
            n += 1
        heapq.heapify(q)
        seen = set()
        self.multi = False      # some road end is reached in several lanes
        at = {} if at is None else at
        self.pops = 0
        self.reach = {}
        res = []
        while q:
            d, _, r, e, ln, k = heapq.heappop(q)
            self.pops += 1
            if d > best[0] + 1e-9:
                break
            if (r, e, ln) in seen:
                continue
            seen.add((r, e, ln))
            self.reach.setdefault((r, e), d)
            if at.setdefault((r, e), ln) != ln:
                self.multi = True
            nx = net.next.get((r, e, ln), []) if lanes else [(a, b, 0) for a, b in self.rl.get((r, e), ())]
            for r2, e2, l2 in nx:
                L2 = net.roads[r2].length
                if r2 == target:
                    t = d + (st if e2 == N.START else L2 - st)
                    if t < best[0] - 1e-9:
                        best, res = (t, None), []
                    if abs(t - best[0]) <= 1e-9 * max(1, t):
                        res.append((t, k + 1, l2, e2))
                    # the far side may still be the way on
                e3 = N.END if e2 == N.START else N.START
                l3 = net.walk_in_road(r2, l2, 0.0 if e2 == N.START else L2, L2 if e2 == N.START else 0.0) if lanes else 0
                if l3 is None:
                    continue
                n += 1
                heapq.heappush(q, (d + L2, n, r2, e3, l3, k + 1))
        return best[0], res


def fwd(h):
    return math.cos(h) > 0


def ambiguous(net, road):
    """both ends at the same neighbour or junction: outside what the search is specified for"""
    a, b = net.link.get((road, N.START)), net.link.get((road, N.END))
    return a is not None and b is not None and a[:2] == b[:2]


def expect(g, a, b):
    """None | ("none",) | ("dist", signed, links, lanes...)"""
    net = g.net
    if a["road"] == b["road"]:
        ds = (b["s"] - a["s"]) * (1 if fwd(a["hrel"]) else -1)
        return ("same", ds, 0, None)
    rd = {e: g.search(a["road"], 0, a["s"], b["road"], b["s"], e, lanes=False)[0] for e in (N.START, N.END)}
    best = min(rd.values())
    if best == math.inf:
        return ("none",)
    g.search(a["road"], 0, a["s"], b["road"], b["s"], None, lanes=False)
    if g.pops > 70:
        return None
    road_reach, lane_reach = g.reach, {}
    ld, multi, at = {}, False, {}
    for e in (N.START, N.END):
        ld[e] = g.search(a["road"], a["lane"], a["s"], b["road"], b["s"], e, at=at)
        multi |= g.multi
        for k, v in g.reach.items():
            lane_reach[k] = min(v, lane_reach.get(k, math.inf))
    # roads reached sooner without lane links: the lane carried along is unspecified
    multi |= any(abs(lane_reach.get(k, math.inf) - v) > 1e-6 for k, v in road_reach.items())
    lbest = min(v[0] for v in ld.values())
    if abs(lbest - best) > 1e-6 or abs(rd[N.START] - rd[N.END]) < 1e-5:
        return None
    e = N.START if rd[N.START] < rd[N.END] else N.END
    ahead = (e == N.END) == fwd(a["hrel"])
    return ("other", best * (1 if ahead else -1), ld[e][1][0][1], ld[e][1], multi)


def lane_diff(la, lb):
    d = lb - la
    if (la > 0) != (lb > 0):
        d = (abs(d) - 1) * (1 if d > 0 else -1)
    return d


def run(case, out, l):
    rng = random.Random(case["seed"])
    net = N.generate(rng, kinds=rng.choice([["line"], ["line", "arc"]]), pfree=rng.choice([0.0, 0.1, 0.4]), pjunction=rng.choice([0, 0.4, 0.8]),
                     same_lanes=rng.random() < 0.6, drop=rng.random() < 0.3, nroads=(2, 9), lmin=rng.choice([5, 20, 60]), lmax=rng.choice([80, 150]),
                     bidir=rng.choice([0.3, 1.0]))
    xml = net.xml()
    out.art("net.xodr", xml)
    g = Graph(net)
    if any(ambiguous(net, r) for r in net.roads):
        # roads whose two ends meet the same neighbour: kept, but they make many pairs ambiguous
        out.count("networks with double neighbours")
    amb = any(ambiguous(net, r) for r in net.roads)
    places = []
    for _ in range(7):
        road = rng.choice(list(net.order)) if not places or rng.random() < 0.7 else rng.choice(places)["road"]
        r = net.roads[road]
        s = rng.uniform(0, r.length)
        if any(abs(s - x.s) < 1e-3 for x in r.sections) or r.length - s < 1e-3:
            continue
        lane = rng.choice([i for i in r.sec(s).lanes if i])
        hrel = rng.choice([None, None, 0.0, math.pi, rng.uniform(-1.5, 1.5), math.pi + rng.uniform(-1.5, 1.5)])
        off = rng.choice([0.0, rng.uniform(-1, 1)])
        if hrel is None:
            hrel = 0.0 if net.dirsign(lane) > 0 else math.pi
        p = dict(road=road, lane=lane, s=s, off=off, hrel=hrel, t=r.lane_t(s, lane, off))
        X, _, _ = r.st2xyz(s, p["t"])
        p.update(x=X[0], y=X[1], h=r.ref(s)[2] + hrel)
        places.append(p)
    if case["se"]:
        open("net.xodr", "w").write(xml)
        rel = [(p["hrel"] - (0.0 if net.dirsign(p["lane"]) > 0 else math.pi)) for p in places]
        sc = scn.scenario("net.xodr", [scn.vehicle(f"o{i}") for i in range(len(places))],
                          [scn.private(f"o{i}", scn.teleport(scn.lanepos(p["road"], p["lane"], p["s"], p["off"], scn.orient(rel[i])))) for i, p in enumerate(places)])
        out.art("scn.xosc", sc)
        se = es.SE(l)
        out.need(se.init(xml=sc) == 0, "load", "scenario not accepted")
        ids = [l.SE_GetIdByName(f"o{i}".encode()) for i in range(len(places))]
        for i, p in zip(ids, places):
            st = se.state(i)
            out.need((st.laneId, round(st.s, 5)) == (p["lane"], round(p["s"], 5)) and math.hypot(st.x - p["x"], st.y - p["y"]) < 1e-3 and
                     abs(odr.wrap(st.h - p["h"])) < 1e-4, "place", lambda: f"object declared at {p} is at {st.d()}")
        df = es.PositionDiff()
        lim = 1000.0
    else:
        l.RM_SetLogFilePath(b"")
        out.need(l.RM_InitWithString(xml.encode()) == 0, "load", "network not accepted")
        ids = []
        for p in places:
            h = l.RM_CreatePosition()
            l.RM_SetLanePosition(h, l.RM_GetRoadIdFromString(str(p["road"]).encode()), p["lane"], p["off"], p["s"], True)
            l.RM_SetHMode(h, p["hrel"], 0x70)
            ids.append(h)
        df = es.RM_PositionDiff()
        lim = 1e9
    val = C.c_double()
    ts = C.c_double()
    got = {}
    for i, a in enumerate(places):
        for j, b in enumerate(places):
            if i == j:
                continue
            rc = l.SE_GetDistanceToObject(ids[i], ids[j], False, C.byref(df)) if case["se"] else l.RM_SubtractAFromB(ids[i], ids[j], C.byref(df))
            ans = df.d() if rc == 0 else None
            got[i, j] = ans
            e = expect(g, a, b)
            d = lambda: f"from {a} to {b}: rc {rc} {ans}; shortest connection {e}"  # noqa
            if case["se"] and ans:
                dx, dy = b["x"] - a["x"], b["y"] - a["y"]
                c, s = math.cos(a["h"]), math.sin(a["h"])
                out.check(abs(ans["dx"] - (dx * c + dy * s)) < 1e-3 and abs(ans["dy"] - (-dx * s + dy * c)) < 1e-3, "entity-frame", d)
            if e is None or abs(math.cos(a["hrel"])) < 0.05:
                out.count("pairs not judged")
                continue
            if e[0] == "none" or abs(e[1]) > lim + 1e-3:
                out.check(rc == -2, "no-connection", d)
                out.fp("none", e[0], rc)
                continue
            if abs(e[1]) > lim - 1e-3:
                continue
            if amb and e[0] == "other":
                out.count("pairs in networks with double neighbours")
            if not out.check(rc == 0, "missed", d):
                continue
            out.check(abs(ans["ds"] - e[1]) < 1e-4, "distance", d)
            r = net.roads[b["road"]]
            if e[0] == "same":
                la = net.walk_in_road(a["road"], a["lane"], a["s"], b["s"])
                if len(r.sections) == 1:
                    out.check(ans["dLaneId"] == lane_diff(a["lane"], b["lane"]), "lane", d)
                out.check(abs(ans["dt"] - (b["t"] - a["t"])) < 1e-4, "lateral", d)
            else:
                ls = {net.walk_in_road(b["road"], q[2], 0.0 if q[3] == N.START else r.length, b["s"]) for q in e[3]}
                if len(ls) == 1 and None not in ls:
                    la = ls.pop()
                    # lane-level optima of another lane sequence over the same roads cannot be told apart here: only uniform cases
                    if len({(q[2], q[3]) for q in e[3]}) == 1 and not e[4]:
                        ok = ans["dLaneId"] == lane_diff(la, b["lane"])
                        out.check(ok, "lane", lambda: d() + f" lane of the observer at the target: {la}")
                        out.check(abs(ans["dt"] - (b["t"] - a["t"] * (1 if (la > 0) == (a["lane"] > 0) else -1))) < 1e-4, "lateral", d)
            out.fp(e[0], min(e[2], 6), e[1] > 0, fwd(a["hrel"]), fwd(b["hrel"]), a["lane"] > 0, b["lane"] > 0, net.rule, case["se"])
            out.count(f"links={e[2]}")
            if case["se"]:
                dist = math.hypot(b["x"] - a["x"], b["y"] - a["y"])
                if rng.random() < 0.3 and dist < 490:
                    for ty, ex in ((4, dist), (3, dist), (1, ans["dy"]), (2, ans["dx"])):
                        r2 = l.SE_SimpleGetDistanceToObject(ids[i], ids[j], ty, 600.0, C.byref(val), C.byref(ts))
                        if r2 == 0:
                            out.check(abs(abs(val.value) - abs(ex)) < 1e-3, "simple", lambda: f"type {ty}: {val.value}, geometry gives {ex}")
    for (i, j), v in got.items():
        w = got.get((j, i))
        a, b = places[i], places[j]
        if i < j and a["road"] == b["road"] and v and w and fwd(a["hrel"]) == fwd(b["hrel"]):
            out.check(abs(v["ds"] + w["ds"]) < 1e-6 and abs(v["dt"] + w["dt"]) < 1e-6, "antisymmetry", lambda: f"{a} and {b}: {v} and {w}")
    out.sample(f"{len(net.roads)} roads, {len(net.junctions)} junctions, {len(got)} pairs, {sum(v is not None for v in got.values())} connected, {'simulation' if case['se'] else 'road library'}")
    if case["se"]:
        se.close()
    else:
        l.RM_Close()
