"""C10: lateral actions end in the declared lane and offset along the declared shape."""
import math
import random

import es
import scn
from c09 import shape, PEAK, SHAPES, SHAPE_ENUM, DIM_ENUM

PID = "C10"
LEVEL = "exploration"
RULE = ("vehicles on chains of straight roads (mixed road directions, lane sections, left- and right-hand traffic) run random sequences of lane-change and lane-offset actions "
        "(absolute and relative; all shapes and dimensions; declared, repeated and injected; overtaken by later ones; with speed changes and varying time steps); an online "
        "model of the declared transition, started by the running callback, predicts each object's lateral position at every step, monotonicity, the step of completion, "
        "lane and offset on completion and that the lane is kept afterwards; the distance covered per step is compared with speed times step; one evaluation = one judged "
        "value; distinct = action kind x shape x dimension x target kind x road direction x driving direction x phase")
ASSUMPTIONS = ["where the declared lateral rate exceeds the object's speed only range and the final state are judged",
               "during a lane change the covered distance, not its component along the road, equals speed times step",
               "lane-offset durations follow from the peak lateral acceleration of the shape (linear: as cubic, as esmini documents)"]
SMALL = 1e-6


def cases(rng, tier):
    n = {"quick": 3000, "thorough": 14000}[tier]
    return [{"id": f"l{i}", "seed": rng.getrandbits(48)} for i in range(n)]


class Tr:
    def __init__(self, sp, y0, y1):
        self.sp, self.y0, self.y1 = sp, y0, y1
        d = abs(y1 - y0)
        sh = sp["shape"]
        self.p = 0.0        # time or distance so far
        self.plast = 0.0
        self.dist = False
        if sh == "step":
            self.T = 0.0
        elif sp["kind"] == "offset":
            a = sp["acc"]
            self.T = math.pi * math.sqrt(d / (2 * a)) if sh == "sinusoidal" else math.sqrt(6 * d / a)
        elif sp["dim"] == "time":
            self.T = sp["value"]
        elif sp["dim"] == "rate":
            self.T = d * PEAK[sh] / sp["value"]
        else:
            self.T, self.dist = sp["value"], True
        self.slow = False
        self.name = None
        self.steps = 0
        self.x0 = None
        self.final = False

    def rate(self):
        """peak lateral movement per unit of p"""
        return 0.0 if self.T < SMALL else abs(self.y1 - self.y0) * PEAK.get(self.sp["shape"], 1) / self.T

    def at(self, p):
        if self.T < SMALL:
            return self.y1
        return self.y0 + (self.y1 - self.y0) * shape(self.sp["shape"], p / self.T)


def rnd_spec(rng, ch, injected=False):
    sh = rng.choice(SHAPES + SHAPES[:3])
    if rng.random() < 0.6:
        dim = rng.choice(["time", "rate", "distance"])
        val = {"time": rng.choice([rng.uniform(0.3, 1.5), rng.uniform(1.5, 6)]), "rate": rng.uniform(0.5, 4), "distance": rng.uniform(5, 100)}[dim]
        if sh == "step":
            dim, val = "time", 0.0
        sp = dict(kind="change", shape=sh, dim=dim, value=val, off=None if injected else rng.choice([None, 0.0, rng.uniform(-1, 1)]))
        if rng.random() < 0.45:
            sp.update(rel=True, v=rng.choice([-2, -1, 1, 2, 0]))
        else:
            sp["v"] = rng.choice([i for i in range(-ch.n, ch.n + 1) if i])
    else:
        sp = dict(kind="offset", shape=sh, acc=rng.choice([rng.uniform(0.1, 2), rng.uniform(2, 10), None]) if not injected else rng.uniform(0.2, 8), v=rng.choice([0.0, rng.uniform(-1.4, 1.4)]))
        if rng.random() < 0.35 and not injected:
            sp.update(rel=True, v=rng.uniform(-1.4, 1.4))
    return sp


def xml_action(sp):
    if sp["kind"] == "change":
        return scn.lane_change(sp["v"], sp["shape"], sp["value"], sp["dim"], sp["off"], sp.get("ref"))
    return scn.lane_offset(sp["v"], sp["shape"], sp["acc"], sp.get("ref"))


def rel_lane(lane, v, fwd):
    """v lanes to the left (or right) of lane, without a lane 0"""
    ids = lane
    step = (1 if v > 0 else -1) * (1 if fwd else -1)
    for _ in range(abs(v)):
        ids += step
        if ids == 0:
            ids += step
    return ids


def run(case, out, l):
    rng = random.Random(case["seed"])
    ch = scn.Chain(rng, n=rng.randint(1, 5), rule=rng.choice(["RHT", "LHT"]), lmin=rng.choice([60.0, 400.0]), lmax=600.0)
    # long straight ends so that nobody leaves the road
    xml = ch.xml()
    open("net.xodr", "w").write(xml)
    out.art("net.xodr", xml)
    nv = rng.randint(2, 4)
    ents, init, stories, specs, dirs = [], [], [], {}, []
    inj = nv - 1 if rng.random() < 0.35 else None
    injkind = rng.choice(["change", "offset"])
    vary = rng.random() < 0.3
    places = []
    for i in range(nv):
        ents.append(scn.vehicle(f"o{i}"))
        x = ch.x0 + (ch.x1 - ch.x0) * rng.uniform(0.3, 0.7)
        r = ch.road_at(x)
        lane = rng.choice([j for j in range(-ch.n, ch.n + 1) if j])
        _, s, _ = ch.loc(x, 0)
        off = rng.choice([0.0, rng.uniform(-1, 1)])
        if any(abs(s - q) < 1e-3 for q in ([r["cut"]] if r["cut"] else [])):
            s += 0.01
        v = rng.choice([rng.uniform(5, 15), rng.uniform(15, 30), rng.uniform(1, 5), 0.0]) if i else rng.uniform(1, 12)
        if i and rng.random() < 0.15:
            v = -v                # driving in reverse
        # direction of travel in world x
        dirs.append(r["o"] * (1 if (lane < 0) == (ch.rule == "RHT") else -1))
        places.append((r, lane, s, off))
        init.append(scn.private(f"o{i}", scn.teleport(scn.lanepos(r["id"], lane, s, off)), scn.speed_abs(v)))
        if i == 0 or i == inj:
            continue
        evs, t = [], 0.0
        for k in range(rng.randint(1, 5)):
            t += rng.choice([rng.uniform(0, 0.5), rng.uniform(0.5, 4), rng.uniform(4, 9)])
            sp = rnd_spec(rng, ch)
            if sp.get("rel"):
                sp["ref"] = rng.choice(["o0", "o0", f"o{i}"])
            nm = f"a{i}_{k}"
            specs[nm] = (i, sp)
            evs.append(scn.event(f"e{nm}", [scn.action(nm, xml_action(sp))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(t), f"c{nm}")]),
                                 rng.choice(["parallel", "override"]), rng.choice([1, 1, 1, 2])))
        if vary:
            for k in range(2):
                evs.append(scn.event(f"es{i}_{k}", [scn.action(f"sp{i}_{k}", scn.speed_abs(rng.uniform(2, 25), rng.choice(SHAPES), rng.uniform(0.1, 4), "time"))],
                                     scn.trigger("StartTrigger", [scn.cond(scn.simtime(rng.uniform(0, 10)), f"cs{i}_{k}")]), "parallel", 1))
        stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [f"o{i}"], [scn.maneuver(f"m{i}", evs)])], scn.always())]))
    x = scn.scenario("net.xodr", ents, init, stories)
    out.art("scn.xosc", x)
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    ids = [l.SE_GetIdByName(f"o{i}".encode()) for i in range(nv)]
    prev = [se.state(i) for i in ids]
    for i in range(nv):
        r, lane, s, off = places[i]
        out.check(abs(prev[i].y - ch.lane_y(r, lane, off)) < 1e-4, "initial", lambda: f"o{i} y {prev[i].y}, declared {places[i]}")
    cur = [None] * nv
    want = [p.y for p in prev]
    keep = [None] * nv      # (lane, offset) in the direction of the x axis
    dt0 = rng.choice([0.005, 0.01, 0.05, 0.1])
    fixed = rng.random() < 0.3
    pos = 0
    lastdone = -9
    edges = [r["x"] for r in ch.roads]
    nst = rng.choice([150, 300, 500])
    for step in range(nst):
        dt = dt0 if fixed else rng.choice([dt0, rng.uniform(0.001, 0.02), rng.uniform(0.02, 0.15), dt0])
        injected = None
        if inj is not None and rng.random() < 0.02 and all(abs(prev[inj].x - e) > 20 for e in edges):      # known finding F22
            sp = rnd_spec(rng, ch, True)
            if sp["kind"] == injkind:
                if sp["kind"] == "change":
                    l.SE_InjectLaneChangeAction(es.LaneChangeAction(ids[inj], 1 if sp.get("rel") else 0, sp["v"], SHAPE_ENUM[sp["shape"]], DIM_ENUM[sp["dim"]], sp["value"]))
                else:
                    l.SE_InjectLaneOffsetAction(es.LaneOffsetAction(ids[inj], sp["v"], sp["acc"], SHAPE_ENUM[sp["shape"]]))
                if sp.get("rel"):
                    sp["ref"] = f"o{inj}"
                injected = sp
        se.step(dt)
        evs = [e for e in se.events[pos:] if e[0] == "sb" and e[4] == 7]
        pos = len(se.events)
        st = [se.state(i) for i in ids]
        if any(not ch.x0 + 5 < q.x < ch.x1 - 5 for q in st):
            break
        ended = set()

        def begin(i, sp, nm):
            r = ch.road_at(prev[i].x)
            lane = prev[i].laneId
            sp = dict(sp)
            if sp["kind"] == "change":
                tl = sp["v"]
                if "ref" in sp:
                    j = int(sp["ref"][1:])
                    rr = ch.road_at(prev[j].x)
                    fw = dirs[j] == rr["o"]
                    tl = rel_lane(prev[j].laneId, sp["v"], fw)
                    sp["unsafe"] = abs(prev[j].x - rr["x"]) < 1 or abs(prev[j].x - rr["x"] - rr["L"]) < 1
                    # the lane id is used on the road of the actor
                sp["tl"] = tl
                y1 = ch.lane_y(r, tl, sp["off"] or 0.0) if abs(tl) <= ch.n else None
            else:
                sp["acc"] = sp["acc"] or 0.5
                if "ref" in sp:
                    j = int(sp["ref"][1:])
                    y1 = prev[j].y + sp["v"] * dirs[j]
                    # relative offsets are evaluated in the actor's road coordinates: same direction only
                    if ch.road_at(prev[j].x)["o"] != r["o"]:
                        y1 = None
                    if cur[j] is not None and j != i:
                        y1 = None
                else:
                    y1 = ch.lane_y(r, lane, sp["v"])
            c = Tr(sp, prev[i].y, y1 if y1 is not None else prev[i].y)
            c.judged = y1 is not None and not sp.get("unsafe")
            c.name = nm
            c.road0 = r
            return c

        for i in range(nv):
            if cur[i]:
                cur[i].plast = cur[i].p
                if abs(prev[i].speed) > SMALL or abs(st[i].speed) > SMALL or cur[i].sp["kind"] == "offset":
                    x0 = prev[i].x
                    if cur[i].name is None and cur[i].steps == 0 and abs(st[i].x - cur[i].x0) < 1.01 * max(abs(st[i].speed), abs(prev[i].speed)) * dt + 1e-4:
                        x0 = cur[i].x0          # known finding injected-first-step: it starts from where it was injected, a step behind
                    cur[i].p += abs(st[i].x - x0) if cur[i].dist else dt
                    cur[i].steps += 1
        for e in evs:
            nm = e[3]
            if nm not in specs:
                continue
            i, sp = specs[nm]
            if e[5] == 2:
                cur[i] = begin(i, sp, nm)
                ended.discard(nm)
                if abs(st[i].speed) > SMALL or sp["kind"] == "offset":
                    cur[i].p = abs(st[i].x - prev[i].x) if cur[i].dist else dt
                out.count("actions started")
            elif e[5] == 3:
                ended.add(nm)
        if injected:
            old = cur[inj]
            cur[inj] = begin(inj, injected, None)
            cur[inj].p = 0.0
            cur[inj].x0 = prev[inj].x
            if old is not None or step - lastdone < 3:     # the replaced action still takes a step: only where the new one ends is judged
                rd = cur[inj].road0
                cur[inj].final = cur[inj].judged and not injected.get("rel") and rd["x"] + 20 < prev[inj].x < rd["x"] + rd["L"] - 20
                cur[inj].judged = False
            out.count("actions injected")
        for i in range(nv):
            c = cur[i]
            p, q = prev[i], st[i]
            r = ch.road_at(q.x)
            d = lambda: (f"o{i} at step {step} (t={se.time():.4f} dt={dt}) x {p.x:.4f}->{q.x:.6f} y {p.y:.6f} -> {q.y!r} lane {q.laneId} off {q.laneOffset:.5f} speed {q.speed}; " +  # noqa
                         (f"transition {c.sp} from {c.y0} to {c.y1} T={c.T} p={c.p} gives {c.at(c.p)}" if c else f"no action, expected {want[i]!r}"))
            out.check(all(map(math.isfinite, (q.x, q.y, q.h, q.laneOffset))), "finite", d)
            # distance covered
            ln = math.hypot(q.x - p.x, (q.y - p.y) if c and c.sp["kind"] == "change" and c.T >= SMALL else 0.0)
            v = abs(q.speed)
            if c is None or c.sp["kind"] == "offset":
                out.check(abs(ln - v * dt) < 1e-4, "distance", d)
            elif c.judged and abs(p.speed) > SMALL and c.T >= SMALL and c.steps + (c.name is not None) > 0:
                vm, vx = sorted((abs(p.speed), v))
                err = max(vm * dt - ln, ln - vx * dt)
                lost = err >= 0.08 * v * dt + 0.02 * abs(q.y - p.y) + 1e-3 and c.name is None and c.steps == 1
                if lost:
                    ln1 = math.hypot(q.x - c.x0, q.y - p.y)
                    lost = max(vm * dt - ln1, ln1 - vx * dt) < 0.08 * v * dt + 0.02 * abs(q.y - p.y) + 1e-3
                out.check(err < 0.08 * v * dt + 0.02 * abs(q.y - p.y) + 1e-3 or c.p > c.T or c.slow or c.rate() > (0.5 if c.dist else 0.5 * v), "injected-first-step" if lost else "distance-change", d)
            if c is None:
                out.check(abs(q.y - want[i]) < 1e-4, "kept", d)
                if keep[i]:
                    ln_, of = keep[i]
                    out.check(q.laneId == ln_ * r["o"] and abs(q.laneOffset - of * r["o"]) < 1e-4, "lane-kept", lambda: d() + f" lane and offset {keep[i]}")
                want[i] = q.y
                continue
            if c.sp["kind"] == "change" and (abs(p.speed) > SMALL) != (v > SMALL) and c.judged:
                c.judged, c.final = False, True     # sets off or halts within the step: whether that step counts depends on the order of the actions
            if not c.judged:
                out.count("steps not judged")
                if (c.name in ended) if c.name else not l.SE_InjectedActionOngoing(-1):
                    if c.final:
                        out.check(abs(q.y - c.y1) < 2e-4, "target-replaced", d)
                    cur[i] = None
                    keep[i] = None
                want[i] = q.y
                continue
            if c.name is None and c.p == 0.0 :
                out.check(abs(q.y - p.y) < 1e-6 or c.T < SMALL, "injected-start", d)
                want[i] = q.y
                continue
            lo, hi = min(c.y0, c.y1), max(c.y0, c.y1)
            out.check(lo - 1e-4 <= q.y <= hi + 1e-4, "range", d)
            done = (c.name in ended) if c.name else not l.SE_InjectedActionOngoing(-1)
            if c.sp["kind"] == "change" and not c.dist and c.rate() > 0.95 * v:
                c.slow = True
            moving = v > SMALL or c.sp["kind"] == "offset"
            if not c.slow:
                out.check((q.y - p.y) * (c.y1 - c.y0) >= -1e-6, "monotone", d)
            if not c.slow and (moving and abs(p.speed) > SMALL or c.sp["kind"] == "offset"):
                tol = 2e-4 + (3e-3 if c.dist else 0.0)
                e1 = abs(q.y - c.at(c.p))
                if c.sp["kind"] == "offset":       # evaluated before or after the time step
                    e1 = min(e1, abs(q.y - c.at(c.p - dt)))
                # a change in speed within the step, a road boundary
                out.check(e1 < tol + (0.5 * abs(c.at(c.p) - c.at(c.plast)) if c.dist else 0.0), "shape", d)
                out.fp(c.sp["kind"], c.sp["shape"], c.sp.get("dim"), c.sp.get("ref") is not None, r["o"], dirs[i], c.name is None, int(4 * min(1, c.p / max(c.T, 1e-9))), c.y1 > c.y0)
                lag = dt if c.sp["kind"] == "offset" else 0.0
                if c.dist:
                    lag = v * dt
                if c.p > c.T + lag + 2e-3 * c.T + 1e-5:
                    out.check(done, "late", d)
                if c.p < c.T * (1 - 0.02) - 1e-5 and abs(q.y - c.y1) > 1e-5 and c.T >= SMALL:
                    out.check(not done, "early", d)
            if not moving:
                out.check(abs(q.y - p.y) < 1e-6, "moved-standing", d)
            if done:
                out.check(abs(q.y - c.y1) < 2e-4, "target", d)
                if c.sp["kind"] == "change":
                    o = c.sp["off"] or 0.0
                    tl = c.sp["tl"]
                    if abs(o) < 1.2:
                        out.check(q.laneId * r["o"] == tl * c.road0["o"] and abs(q.laneOffset * r["o"] - o * c.road0["o"]) < 2e-4, "target-lane",
                                  lambda: d() + f" target lane {tl} on road with direction {c.road0['o']}, now {r['o']}")
                out.count("actions completed")
                keep[i] = (q.laneId * r["o"], q.laneOffset * r["o"])
                want[i] = c.y1
                cur[i] = None
                if abs(q.h) < 10:
                    out.check(abs(math.sin(q.h)) < 1e-4, "aligned", lambda: d() + f" heading {q.h}")
            else:
                want[i] = q.y
        if inj is not None and cur[inj] is not None:
            lastdone = step
        prev = st
    out.sample(f"{nv} vehicles on {len(ch.roads)} roads, {len(specs)} declared actions, {step + 1} steps")
    se.close()
