"""C02: road coordinates map to the world pose that the OpenDRIVE description defines."""
import ctypes as C
import math
import random

import es
import numpy as np
import odr

PID = "C02"
LEVEL = "exploration"
RULE = ("a generated road (line/arc/spiral/poly3/paramPoly3 chain, elevation, superelevation, lane offset, 1-4 lane sections with "
        "varying widths, lane heights, both traffic rules) is loaded through the public interface and lane/road positions are set on it; "
        "each set position is one evaluation of pose against an independent reference; distinct = geometry kind x record combination "
        "x lane side x position class x way of arriving there")
ASSUMPTIONS = ["paramPoly3 and poly3 are allowed the approximation error of a tabulated arc length (bounded per curve)",
               "positions within 2 mm of a record boundary may follow either record"]


def make_road(rng, rid=1, kinds=("line", "arc", "spiral", "pp3", "poly3")):
    pose = (rng.uniform(-500, 500), rng.uniform(-500, 500), rng.uniform(-3.2, 6.3))
    geoms = odr.chain(rng, pose, list(kinds))
    L = geoms[-1].s + geoms[-1].length
    return odr.Road(rid, geoms, odr.sections(rng, L), odr.profile(rng, L, 30, 0.12), odr.profile(rng, L, 0.25, 0.01),
                    odr.profile(rng, L, 3, 0.05), rule=rng.choice(["RHT", "RHT", "LHT", ""]))


def cases(rng, tier):
    n = {"quick": 2500, "thorough": 30000}[tier]
    out = [{"id": f"r{i}", "seed": rng.getrandbits(48), "npos": 60} for i in range(n)]
    return out


def tol_for(road, s):
    g = road.geom_at(s)
    if g.kind == "poly3":
        k = max(abs(2 * g.c), abs(2 * g.c + 6 * g.d * g.length))
        return 0.03 + 1.5 * g.length * (10 * k) ** 2 / 24, 0.01    # chords of 10 m instead of arcs
    if g.kind == "pp3":
        return 2e-2, 5e-3
    return 1e-4, 1e-5


def near_break(road, s, eps=2e-3):
    return any(abs(s - b) < eps for b in road.breaks()[1:-1])


def judge(out, road, s, lid, off, d, info, key, t=None, hrel=0.0):
    """compare pose d (x,y,z,h,p,r) with the reference"""
    sec = road.sec(s)
    ds = s - sec.s
    tt = road.lane_t(s, lid, off) if t is None else t
    zl = sec.lanes[lid].height(ds, off) if lid in sec.lanes and sec.lanes[lid].heights else 0.0
    X, R, k = road.st2xyz(s, tt, zl)
    tp, ta = tol_for(road, s)
    e = math.dist((d.x, d.y, d.z), X)
    out.check(e < tp * (1 + abs(k * tt)) + ta * abs(tt), "position:" + key,
              lambda: f"road {road.geom_at(s).kind} s={s:.4f} lane={lid} off={off:.3f} t={tt:.4f}: got ({d.x:.5f},{d.y:.5f},{d.z:.5f}) expected ({X[0]:.5f},{X[1]:.5f},{X[2]:.5f}) err {e:.2g} {info}")
    hoff = math.atan(sec.dcenter(lid, ds) + road.doffset(s))
    _, droll = road.roll(s)
    poff = math.cos(hrel) * math.atan(math.tan(droll) * -tt)
    Q = R @ odr.rotm(hrel + hoff, poff, 0.0)
    G = odr.rotm(d.h, d.p, d.r)
    ea = np.abs(Q - G).max()
    out.check(ea < 2e-5 + 2 * ta, "orientation:" + key,
              lambda: f"road {road.geom_at(s).kind} s={s:.4f} lane={lid} off={off:.3f}: got hpr ({d.h:.5f},{d.p:.5f},{d.r:.5f}) expected {euler(Q)} {info}")


def euler(M):
    return (f"({math.atan2(M[1, 0], M[0, 0]) % (2 * math.pi):.5f},{-math.asin(max(-1, min(1, M[2, 0]))) % (2 * math.pi):.5f},"
            f"{math.atan2(M[2, 1], M[2, 2]) % (2 * math.pi):.5f})")


def run(case, out, l):
    rng = random.Random(case["seed"])
    roads = [make_road(rng, i + 1) for i in range(rng.choice([1, 1, 2, 3]))]
    net = odr.Network(roads)
    xml = net.xml()
    out.art("road.xodr", xml)
    l.RM_SetLogFilePath(b"")
    out.need(l.RM_InitWithString(xml.encode()) == 0, "load", "road not accepted")
    fixed = l.RM_CreatePosition()
    d = es.RM_PositionData()
    prev = None
    for i in range(case["npos"]):
        road = rng.choice(roads)
        how = rng.choice(["fresh", "reuse", "reuse", "road"])
        if how == "reuse":
            h = fixed
        else:
            h = l.RM_CreatePosition()
        if how == "road":
            l.RM_SetSnapLaneTypes(h, -1)
        pick = rng.random()
        if pick < 0.06:
            s = 0.0
        elif pick < 0.12:
            s = road.length
        elif pick < 0.3:
            s = min(max(rng.choice(road.breaks()) + rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, 0), 0), road.length)
        else:
            s = rng.uniform(0, road.length)
        if near_break(road, s):
            continue
        sec = road.sec(s)
        lid = rng.choice([x for x in sec.lanes if x != 0])
        align = True
        fwd = (lid < 0) == (road.rule != "LHT")
        hrel = 0.0 if fwd else math.pi
        w = sec.lanes[lid].width(s - sec.s)
        if w < 0.02 and sec.lanes[lid].heights:
            continue   # where across a lane of no width a point lies is not defined
        if how == "road":
            off = rng.uniform(-0.5, 0.5) * w
            t = road.lane_t(s, lid, off)
            if w < 0.2 or abs(off) > 0.49 * w:
                continue
            rc = l.RM_SetRoadPosition(h, road.id, s, t, True)
            fwd = (t < 0) == (road.rule != "LHT")
            hrel = 0.0 if fwd else math.pi
        else:
            off = rng.choice([0.0, 0.0, rng.uniform(-0.5, 0.5) * w, rng.uniform(-3, 3)])
            t = None
            if how == "reuse" and prev == (road.id, lid):
                # same road and lane id again: the object is moved along its lane, see C05; here a new position is asked for
                h = l.RM_CreatePosition()
                how = "fresh"
            rc = l.RM_SetLanePosition(h, road.id, lid, off, s, True)
            if h == fixed:
                prev = (road.id, lid)
        out.check(rc >= 0, "rejected:" + how, f"valid position refused: road {road.id} lane {lid} s {s} rc {rc}")
        if rc < 0:
            continue
        l.RM_GetPositionData(h, C.byref(d))
        out.check(d.roadId == road.id and abs(d.s - s) < 1e-6 and d.laneId == lid and abs(d.laneOffset - off) < 1e-6 + (0 if t is None else 1e-5),
                  "coords:" + how, lambda: f"asked road {road.id} lane {lid} s {s} off {off}, position reports road {d.roadId} lane {d.laneId} s {d.s} off {d.laneOffset}")
        judge(out, road, s, lid, off, d, how, how, None, hrel)
        g = road.geom_at(s)
        out.fp(g.kind, bool(road.elev), bool(road.sup), bool(road.offs), len(road.sections), lid > 0, how, pick < 0.3,
               bool(sec.lanes[lid].heights), road.rule)
        out.count("geometry " + g.kind)
    out.sample(f"{len(roads)} roads, {[g.kind for g in roads[0].geoms]}, last: road {road.id} s={s:.2f} lane {lid} off {off:.2f} -> ({d.x:.3f},{d.y:.3f},{d.z:.3f}) h {d.h:.4f}")
    l.RM_Close()
