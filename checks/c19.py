"""C19: routes lead through their waypoints by connected roads."""
import ctypes as C
import math
import random

import es
import net as N
import scn
from c06 import Graph, ambiguous
from scn import el

PID = "C19"
LEVEL = "exploration"
RULE = ("random networks (road links, junctions with connecting roads, mixed road directions, left- and right-hand traffic) are loaded; objects get routes of two to four waypoints on different roads, "
        "drawn from random walks over the lane links or unreachable; a search over the generated links gives the shortest connection between consecutive waypoints; the route's length, its points, "
        "its rejection where no connection exists, and the sequence of roads an object visits that follows it to the end are compared; one evaluation = one compared answer; "
        "distinct = waypoints x roads passed x junctions passed x road direction x phase")
ASSUMPTIONS = ["consecutive waypoints are on different roads and no road is used twice", "legs whose shortest connection is not unique, or shorter when lane links are ignored, are not judged",
               "the object starts at the first waypoint and keeps a constant speed"]


def cases(rng, tier):
    n = {"quick": 4000, "thorough": 40000}[tier]
    return [{"id": f"r{i}", "seed": rng.getrandbits(48)} for i in range(n)]


def out_end(net, lane):
    return N.END if net.dirsign(lane) > 0 else N.START


def walk(rng, net, road, lane, s, n):
    """[(road, lane at entry, entry end)] following lane links in driving direction"""
    res = [(road, lane, None)]
    ent = s
    for _ in range(n):
        r = net.roads[road]
        e = out_end(net, lane)
        ln = net.walk_in_road(road, lane, ent, r.length if e == N.END else 0.0)
        if ln is None:
            break
        nx = [q for q in net.next.get((road, e, ln), []) if q[0] not in [w[0] for w in res]]
        if not nx:
            break
        road, e2, lane = rng.choice(nx)
        ent = 0.0 if e2 == N.START else net.roads[road].length
        if out_end(net, lane) == e2:
            break           # against the driving direction
        res.append((road, lane, e2))
    return res


def paths(net, a, b, limit, lanes):
    """all connections from a (road, lane, s) in driving direction to b (road, s): [(distance, (roads))]"""
    res = []

    def go(road, lane, end, d, seen):
        if d > limit + 1e-6 or len(seen) > 12 or len(res) > 400:
            return
        if lanes:
            nx = net.next.get((road, end, lane), [])
        else:
            nx = [(r2, e2, None) for r2, e2 in lanes_free.get((road, end), ())]
        for r2, e2, l2 in nx:
            if r2 in seen and r2 != a[0]:
                continue
            L2 = net.roads[r2].length
            if r2 == b[0]:
                res.append((d + (b[1] if e2 == N.START else L2 - b[1]), tuple(seen[1:]) + (r2,), l2, e2))
                continue
            l3 = net.walk_in_road(r2, l2, 0.0 if e2 == N.START else L2, L2 if e2 == N.START else 0.0) if lanes else None
            if lanes and l3 is None:
                continue
            go(r2, l3, N.END if e2 == N.START else N.START, d + L2, seen + [r2])
    lanes_free = Graph(net).rl
    road, lane, s = a
    e = out_end(net, lane)
    L = net.roads[road].length
    ln = net.walk_in_road(road, lane, s, L if e == N.END else 0.0) if lanes else None
    if lanes and ln is None:
        return []
    go(road, ln, e, L - s if e == N.END else s, [road])
    return sorted(res, key=lambda q: q[0])


def along(net, a, roads, d):
    """(road, lane, s) at distance d from a over the roads"""
    road, lane, s = a
    for nxt in list(roads) + [None]:
        L = net.roads[road].length
        e = out_end(net, lane)
        room = L - s if e == N.END else s
        if d <= room or nxt is None:
            s1 = s + d * (1 if e == N.END else -1)
            return road, net.walk_in_road(road, lane, s, s1), s1
        d -= room
        ln = net.walk_in_road(road, lane, s, L if e == N.END else 0.0)
        road, e2, lane = next(q for q in net.next[(road, e, ln)] if q[0] == nxt)
        s = 0.0 if e2 == N.START else net.roads[road].length


def reachable(net, road, end, target):
    rl = Graph(net).rl
    q, seen = [(road, end)], set()
    while q:
        k = q.pop()
        if k in seen:
            continue
        seen.add(k)
        for r2, e2 in rl.get(k, ()):
            if r2 == target:
                return True
            q.append((r2, N.END if e2 == N.START else N.START))
    return False


def run(case, out, l):
    rng = random.Random(case["seed"])
    net = N.generate(rng, nroads=(4, 9), nsec=(1, 2), pfree=0.1, pjunction=0.6, drop=False, direct=False, same_lanes=rng.random() < 0.5, lmin=30, lmax=150, bidir=0.3)
    xml = net.xml()
    open("net.xodr", "w").write(xml)
    out.art("net.xodr", xml)
    objs = []
    main = [i for i in net.roads if net.roads[i].junction in (-1, None)]
    for _ in range(60):
        if len(objs) >= 4:
            break
        road = rng.choice(main)
        r = net.roads[road]
        s0 = r.length * rng.uniform(0.1, 0.9)
        lane = rng.choice([i for i in r.sections[r.sec_idx(s0)].lanes if i])
        w = walk(rng, net, road, lane, s0, rng.randint(1, 8))
        if len(w) < 2:
            continue
        idx = sorted(rng.sample(range(1, len(w)), min(len(w) - 1, rng.randint(1, 3))))
        wps = [(road, lane, s0)]
        for k in idx:
            rr, ln, e = w[k]
            q = net.roads[rr]
            s = q.length * rng.uniform(0.1, 0.9)
            ln = net.walk_in_road(rr, ln, 0.0 if e == N.START else q.length, s)
            if ln is None:
                break
            wps.append((rr, ln, s))
            if rng.random() < 0.15:        # another one further on the same road
                s2 = rng.uniform(s, q.length * 0.95) if out_end(net, ln) == N.END else rng.uniform(q.length * 0.05, s)
                l2 = net.walk_in_road(rr, ln, s, s2)
                if abs(s2 - s) > 0.5 and l2 is not None:
                    wps.append((rr, l2, s2))
        if len(wps) < 2:
            continue
        want, total, ok = [road], 0.0, True
        for a, b in zip(wps, wps[1:]):
            if a[0] == b[0]:
                total += abs(b[2] - a[2])
                continue
            p = paths(net, a, (b[0], b[2]), 5000.0, True)
            f = paths(net, a, (b[0], b[2]), p[0][0] if p else 0.0, False)
            if not p or (len(p) > 1 and p[1][0] - p[0][0] < 0.01) or not f or f[0][0] < p[0][0] - 1e-6 or len(f) > 1 and f[1][0] - f[0][0] < 0.01:
                ok = False
                break
            best = p[0]
            if net.walk_in_road(b[0], best[2], 0.0 if best[3] == N.START else net.roads[b[0]].length, b[2]) != b[1]:
                ok = False
                break
            total += best[0]
            want += list(best[1])
        if not ok or len(set(want)) < len(want) or any(ambiguous(net, q) for q in want):
            out.count("not judged")
            continue
        kind = rng.choice(["assign", "assign", "assign-late", "acquire", "acquire-late"])
        if kind.startswith("acquire"):
            wps, want = [wps[0], wps[1]], want[:want.index(wps[1][0]) + 1]
            total = paths(net, wps[0], (wps[1][0], wps[1][2]), 5000.0, True)[0][0]
        objs.append(dict(wps=wps, want=want, total=total, kind=kind))
    # a target that cannot be reached in driving direction
    for _ in range(20):
        road = rng.choice(main)
        r = net.roads[road]
        s0 = r.length * rng.uniform(0.1, 0.9)
        lane = rng.choice([i for i in r.sections[r.sec_idx(s0)].lanes if i])
        tgt = rng.choice(main)
        if tgt == road or not objs:
            continue
        if reachable(net, road, out_end(net, lane), tgt):
            continue
        st = net.roads[tgt].length * rng.uniform(0.1, 0.9)
        tl = rng.choice([i for i in net.roads[tgt].sections[net.roads[tgt].sec_idx(st)].lanes if i])
        objs.append(dict(wps=[(road, lane, s0), (tgt, tl, st)], want=None, total=None, kind=rng.choice(["assign", "acquire"])))
        break
    if not objs:
        out.count("no routes")
        return
    ents, init, stories = [], [], []
    for i, o in enumerate(objs):
        ents.append(scn.vehicle(f"o{i}"))
        o["v"] = rng.uniform(5, 25)
        o["t0"] = 0.0
        if o["kind"].startswith("assign"):
            wp = "".join(el("Waypoint", scn.position(scn.lanepos(q[0], q[1], q[2])), routeStrategy="shortest") for q in o["wps"])
            act = el("PrivateAction", el("RoutingAction", el("AssignRouteAction", el("Route", wp, name=f"rt{i}", closed="false"))))
        else:
            q = o["wps"][1]
            act = el("PrivateAction", el("RoutingAction", el("AcquirePositionAction", scn.position(scn.lanepos(q[0], q[1], q[2])))))
        a = o["wps"][0]
        late = o["kind"].endswith("late")
        init.append(scn.private(f"o{i}", scn.teleport(scn.lanepos(*a)), scn.speed_abs(o["v"]), *([] if late else [act])))
        if late:
            L = net.roads[a[0]].length
            o["t0"] = rng.uniform(0.05, 0.5) * (L - a[2] if out_end(net, a[1]) == N.END else a[2]) / o["v"]
            stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [f"o{i}"], [scn.maneuver(f"m{i}", [scn.event(f"e{i}", [scn.action(f"a{i}", act)],
                           scn.trigger("StartTrigger", [scn.cond(scn.simtime(o["t0"]), f"c{i}")]))])])], scn.always(name=f"al{i}"))]))
    # objects placed at a distance along a route
    placed = []
    for i, o in enumerate(objs):
        if not o["want"] or not o["kind"].startswith("assign"):
            continue
        d = rng.uniform(0.01, 0.99) * o["total"]
        rt = el("RouteRef", el("Route", "".join(el("Waypoint", scn.position(scn.lanepos(*q)), routeStrategy="shortest") for q in o["wps"]), name=f"rp{i}", closed="false"))
        rest = d
        where = None
        for a, b in zip(o["wps"], o["wps"][1:]):
            p = paths(net, a, (b[0], b[2]), 5000.0, True)[0] if a[0] != b[0] else (abs(b[2] - a[2]), ())
            if rest < p[0]:
                where = along(net, a, p[1], rest)
                break
            rest -= p[0]
        if where is None or min(where[2], net.roads[where[0]].length - where[2]) < 0.01:
            continue
        lane, off, t = where[1], rng.choice([0.0, rng.uniform(-1, 1)]), rng.uniform(-3, 3)
        how = rng.choice(["lane", "road"])
        inr = el("FromLaneCoordinates", pathS=d, laneId=lane, laneOffset=off) if how == "lane" else el("FromRoadCoordinates", pathS=d, t=t)
        placed.append((how, d, where, lane, off, t, o))
        ents.append(scn.vehicle(f"p{len(placed) - 1}"))
        init.append(scn.private(f"p{len(placed) - 1}", scn.teleport(el("RoutePosition", rt, el("InRoutePosition", inr)))))
    text = scn.scenario("net.xodr", ents, init, stories)
    out.art("s.xosc", text)
    se = es.SE(l)
    out.need(se.init(xml=text) == 0, "load", "scenario not accepted")
    ids = [l.SE_GetIdByName(f"o{i}".encode()) for i in range(len(objs))]

    for k, (how, d, w, lane, off, t, o) in enumerate(placed):
        q = se.state(l.SE_GetIdByName(f"p{k}".encode()))
        out.check(q.roadId == w[0] and abs(q.s - w[2]) < 1e-3 and (how == "road" or q.laneId == lane and abs(q.laneOffset - off) < 1e-3) and (how == "lane" or abs(q.t - t) < 1e-3), "route-position",
                  lambda: f"{d} m along the route {o['wps']} over {o['want']} (from {how} coordinates): road {q.roadId} s {q.s} t {q.t} lane {q.laneId} offset {q.laneOffset}, "
                          f"declared road {w[0]} s {w[2]} t {t} lane {lane} offset {off}")
        out.fp("placed", how, o["want"].index(w[0]), len(o["wps"]), lane > 0)
        out.count("route positions")

    def judge(i, o, total):
        nm = lambda: f"{o['kind']} route {[(q[0], q[1], round(q[2], 3)) for q in o['wps']]} at {se.time():.3f}: "
        L = l.SE_GetRouteTotalLength(i)
        out.check(abs(L - total) < 1e-3, "length", lambda: nm() + f"length {L}, shortest connection {total} over {o['want']}")
        pts = []
        for k in range(l.SE_GetNumberOfRoutePoints(i)):
            ri = es.RouteInfo()
            out.check(l.SE_GetRoutePoint(i, k, C.byref(ri)) == 0, "point", lambda: nm() + f"no route point {k}")
            pts.append((ri.roadId, ri.s, ri.laneId))
            rr = net.roads.get(ri.roadId)
            out.check(rr is not None and ri.laneId != 0 and ri.laneId in rr.sections[rr.sec_idx(ri.s)].lanes, "point-lane", lambda: nm() + f"route point on road {ri.roadId} s {ri.s} in lane {ri.laneId}, which is not there")
        seq = [p[0] for k, p in enumerate(pts) if k == 0 or p[0] != pts[k - 1][0]]
        out.check(seq == o["want"], "points", lambda: nm() + f"route points on roads {pts}, connection {o['want']}")
        if o["kind"].startswith("assign"):
            it = iter(pts)
            for q in o["wps"]:
                out.check(any(p[0] == q[0] and abs(p[1] - q[2]) < 1e-3 and p[2] == q[1] for p in it), "waypoint", lambda: nm() + f"waypoint {q} is not among the route points {pts}, or not in order")
        out.fp("route", o["kind"], len(o["wps"]), len(o["want"]), sum(net.roads[q].junction not in (-1, None) for q in o["want"]), o["alt"])
        out.count("routes with alternatives" if o["alt"] else "routes without alternative")

    for i, o in zip(ids, objs):
        o["seq"], o["on"] = [], not o["kind"].endswith("late")
        if o["want"]:
            o["alt"] = any(a[0] != b[0] and len(paths(net, a, (b[0], b[2]), 5000.0, True)) > 1 for a, b in zip(o["wps"], o["wps"][1:]))
            if o["on"]:
                judge(i, o, o["total"])
        else:
            out.check(l.SE_GetRouteTotalLength(i) < 1e-6 and l.SE_GetObjectRouteStatus(i) != 2, "unreachable",
                      lambda: f"{o['kind']} route {o['wps']} has no connection, but length {l.SE_GetRouteTotalLength(i)} and status {l.SE_GetObjectRouteStatus(i)}")
            out.count("unreachable targets")
            out.fp("unreachable", o["kind"])
    T = max(o["total"] / o["v"] for o in objs if o["want"])
    step = pos = 0
    st = {i: se.state(i) for i in ids}
    while se.time() < T + 0.5 and step < 1500:
        step += 1
        for i, o in zip(ids, objs):
            if not o["seq"] or o["seq"][-1][0] != st[i].roadId:
                o["seq"].append((st[i].roadId, se.time()))
        if se.step(rng.uniform(0.02, 0.15)) != 0:
            break
        old, st = st, {i: se.state(i) for i in ids}
        for e in se.events[pos:]:
            if e[0] == "sb" and e[4] == 7 and e[5] == 2 and e[3][0] == "a":
                k = int(e[3][1:])
                o, q = objs[k], old[ids[k]]
                if q.roadId == o["wps"][0][0]:
                    o["on"] = True
                    total = o["total"]
                    if o["kind"] == "acquire-late":
                        total -= abs(q.s - o["wps"][0][2])
                    judge(ids[k], o, total)
        pos = len(se.events)
        for i, o in zip(ids, objs):
            if o["want"] and o["on"] and o["want"][-1] not in [q[0] for q in o["seq"]] and st[i].roadId in o["want"][:-1] and old[i].roadId in o["want"]:
                s_ = l.SE_GetObjectRouteStatus(i)
                out.check(s_ == 2, "status", lambda: f"{o['kind']} route {o['wps']}: status {s_} at road {st[i].roadId} s {st[i].s} t {se.time()}")
            if not o["want"]:
                s_ = l.SE_GetObjectRouteStatus(i)
                out.check(s_ != 2, "unreachable", lambda: f"{o['kind']} route {o['wps']} has no connection, but status {s_} at {se.time()}")
            if o["want"] and st[i].roadId == old[i].roadId and o["want"][-1] not in [q[0] for q in o["seq"]]:
                d = (st[i].s - old[i].s) * net.dirsign(st[i].laneId)
                out.check(d > -1e-6, "backwards", lambda: f"{o['kind']} route {o['wps']}: from s {old[i].s} to {st[i].s} on road {st[i].roadId}, lane {st[i].laneId}")
    for i, o in zip(ids, objs):
        if not o["want"] or not o["on"]:
            continue
        seq = [q[0] for q in o["seq"]]
        nm = lambda: f"route {[(q[0], q[1], round(q[2], 3)) for q in o['wps']]} at speed {o['v']}: "
        if o["want"][-1] in seq:
            seq = seq[:seq.index(o["want"][-1]) + 1]
            out.count("routes completed")
        # short roads may be passed within one step
        it = iter(o["want"])
        out.check(all(q in it for q in seq), "visited", lambda: nm() + f"roads visited {o['seq']}, connection {o['want']}, length {o['total']}")
        out.count("routes followed")
    out.sample(f"{len(objs)} routes: {[o['want'] for o in objs]}")
    se.close()


def build(B):
    return es.load(B.build("plain", ["libesmini.so"])["libesmini.so"])
