"""C03: world positions map back to the road coordinates they came from."""
import ctypes as C
import math
import random

import es
import numpy as np
import odr

PID = "C03"
LEVEL = "exploration"
RULE = ("one or several separate generated roads (gentle enough that a point beside them projects to one place) are loaded; world points made from "
        "road coordinates (on the road, beside it, beyond its ends) are given to fresh and reused positions, as jumps and as walks of small "
        "steps across lane section and geometry borders; one evaluation = one converted point, judged against the independent reference "
        "(road, s, lateral position, lane, surface z, pitch and roll, kept x, y, h); distinct = geometry kind x profile combination x "
        "point class x history class")
ASSUMPTIONS = ["points nearly equally far (6 m) from two roads are not judged: esmini deliberately resists leaving the current road",
               "s is judged within the error of esmini's polygonal road approximation (chords at most 5 cm off the curve)"]


def make_roads(rng):
    roads = []
    n = rng.choice([1, 1, 1, 2, 3])
    for i in range(n):
        kinds = rng.choice([["line"], ["line", "arc"], ["line", "arc", "spiral"], ["pp3", "line"], ["arc"], ["spiral"]])
        h0 = rng.uniform(-0.4, 0.4)
        pose = (rng.uniform(-50, 50), i * 400.0, h0)
        for _ in range(50):
            geoms = odr.chain(rng, pose, kinds, nmax=4, kmax=0.01, maxturn=0.8, lmax=120)
            if max(abs(g.eval(q * g.length / 8)[2] - h0) for g in geoms for q in range(9)) < 1.0:
                break
        else:
            geoms = [odr.Geom("line", 0.0, *pose, 100.0)]
        L = geoms[-1].s + geoms[-1].length
        flat = rng.random()
        elev = odr.profile(rng, L, 10, 0.06) if flat < 0.6 else []
        sup = odr.profile(rng, L, 0.12, 0.004) if flat > 0.4 else []
        offs = odr.profile(rng, L, 2, 0.04) if rng.random() < 0.5 else []
        uni = rng.random() < 0.4    # the same width everywhere
        secs = odr.sections(rng, L, nl=(0, 3), nr=(0, 3), heights=0, taper=0.05)
        if uni:
            secs = odr.sections(rng, L, nsec=(1, 1), nl=(1, 3), nr=(1, 3), heights=0, wfun=lambda r, L: [(0.0, r.uniform(2, 5), 0.0, 0.0, 0.0)], types=["driving", "shoulder", "biking"])
        roads.append(odr.Road(i + 1, geoms, secs, elev, sup, offs, rule=rng.choice(["RHT", "LHT", ""])))
        roads[-1].uniform = uni
        roads[-1].tmax = min(28.0, 0.4 / max(1e-6, max(abs(g.eval(g.length * q / 20)[3]) for g in geoms for q in range(21))))
        roads[-1].maxslope = max(abs(roads[-1].doffset(q * L / 200)) for q in range(201))
        roads[-1].simple = all(g.kind == "line" for g in geoms) or (len(geoms) == 1 and geoms[0].kind == "arc")
    # a rigid rotation of everything, so that all directions are met
    a = rng.uniform(-3.2, 3.2)
    c, s = math.cos(a), math.sin(a)
    for r in roads:
        for g in r.geoms:
            g.x, g.y, g.hdg = c * g.x - s * g.y, s * g.x + c * g.y, g.hdg + a
    return roads


def cases(rng, tier):
    n = {"quick": 1500, "thorough": 30000}[tier]
    return [{"id": f"r{i}", "seed": rng.getrandbits(48), "npos": 60} for i in range(n)]


def nearest(road, x, y):
    """(distance, s) of the nearest point of the reference line, by dense search and refinement"""
    if not hasattr(road, "_tab"):
        ss = np.unique(np.concatenate([np.arange(0, road.length, 1.0), [road.length]]))
        road._tab = ss, np.array([road.ref(q)[:2] for q in ss])
    ss, xy = road._tab
    d = np.hypot(xy[:, 0] - x, xy[:, 1] - y)
    i = int(d.argmin())
    lo, hi = ss[max(0, i - 1)], ss[min(len(ss) - 1, i + 1)]
    f = lambda q: math.hypot(road.ref(q)[0] - x, road.ref(q)[1] - y)  # noqa: E731
    for _ in range(50):
        m1, m2 = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        if f(m1) < f(m2):
            hi = m2
        else:
            lo = m1
        if hi - lo < 1e-6:
            break
    q = min((0.5 * (lo + hi), 0.0, road.length), key=f)
    return f(q), q


def edges(road, s, none=True):
    sec = road.sec(s)
    ds = s - sec.s
    return (sum(sec.lanes[i].width(ds) for i in sec.lanes if i > 0 and (none or sec.lanes[i].type != "none")),
            sum(sec.lanes[i].width(ds) for i in sec.lanes if i < 0 and (none or sec.lanes[i].type != "none")))


def run(case, out, l):
    rng = random.Random(case["seed"])
    roads = make_roads(rng)
    xml = odr.Network(roads).xml()
    out.art("road.xodr", xml)
    l.RM_SetLogFilePath(b"")
    out.need(l.RM_InitWithString(xml.encode()) == 0, "load", "road not accepted")
    d = es.RM_PositionData()
    h = l.RM_CreatePosition()
    l.RM_SetSnapLaneTypes(h, -1)
    walk = 0
    road = roads[0]
    s = t = 0.0
    wdir = 1
    for i in range(case["npos"]):
        if walk > 0:
            walk -= 1
            s = min(max(s + wdir * rng.uniform(0.05, 4.0), 0.0), road.length)
            t += rng.uniform(-0.5, 0.5)
            hist = "walk"
        else:
            hist = rng.choice(["jump", "fresh"])
            road = rng.choice(roads)
            if rng.random() < 0.3:
                s = min(max(rng.choice(road.breaks()) + rng.uniform(-3, 3), 0.0), road.length)
            else:
                s = rng.uniform(0, road.length)
            a, b = edges(road, s)
            o = road.offset(s)
            where = rng.random()
            if where < 0.7:
                t = o + rng.uniform(-b, a)
            else:
                t = o + rng.choice([a + rng.uniform(0, 15), -b - rng.uniform(0, 15)])
            if rng.random() < 0.4:
                walk = rng.randint(3, 14)
                wdir = rng.choice([-1, 1])
            if hist == "fresh":
                h = l.RM_CreatePosition()
                l.RM_SetSnapLaneTypes(h, -1)
        t = min(max(t, -road.tmax), road.tmax)
        s = min(max(s, 0.02), road.length - 0.02)   # on the very edge of a road either side may be taken
        X, R, k = road.st2xyz(s, t)
        x, y = float(X[0]), float(X[1])
        beyond = 0
        if walk == 0 and rng.random() < 0.08:
            # beyond an end
            e = rng.choice([0.0, road.length])
            gx, gy, gh, _ = road.ref(e)
            u = rng.uniform(0.5, 20) * (1 if e > 0 else -1)
            v = rng.uniform(-10, 10)
            x, y = gx + u * math.cos(gh) - v * math.sin(gh), gy + u * math.sin(gh) + v * math.cos(gh)
            s, t, beyond, walk = e, v, 1, 0
            X, R, k = road.st2xyz(s, t)
        hd = rng.uniform(0, 2 * math.pi)
        # without a z of its own the search on pitched and banked roads has nothing to go by: there z is given
        zabs = (bool(road.elev) and bool(road.sup)) or rng.random() < 0.2 or (beyond and bool(road.elev))
        if zabs:
            l.RM_SetWorldPositionMode(h, x, y, float(X[2]), hd, 0.0, 0.0, 0x7733)
        else:
            l.RM_SetWorldXYHPosition(h, x, y, hd)
        l.RM_GetPositionData(h, C.byref(d))
        info = lambda: f"{hist} to ({x:.4f},{y:.4f}) = road {road.id} {road.geom_at(s).kind} s {s:.4f} t {t:.4f}: got road {d.roadId} s {d.s:.4f} lane {d.laneId} offset {d.laneOffset:.4f}"  # noqa
        out.check(d.x == x and d.y == y, "xy-kept", lambda: f"asked ({x!r},{y!r}) reported ({d.x!r},{d.y!r})")
        out.check(d.roadId == road.id, "road:" + hist, info)
        if d.roadId != road.id:
            continue
        kind = road.geom_at(s).kind
        both = bool(road.elev) and bool(road.sup)
        cls = "end" if beyond else "on" if road.lane_at(s, t) else "off"
        pr = abs(road.z(s)[1]) * abs(math.sin(road.roll(s)[0]))
        side = edges(road, s, False)[0 if t > 0 else 1]
        if (abs(t) - side > 2.5 or beyond) and (not road.uniform or road.offs or (not beyond and not 1 < s < road.length - 1)):
            continue    # a wider part of the road further on may be the nearest road point; see DESIGN.md
        if cls == "off" and not 1.5 < s < road.length - 1.5:
            continue    # beside the end of a road the normals of the shifted lane reference decide whether the road has ended
        ts = 0.02 + 1.5 * road.maxslope * abs(t - road.offset(s))  # the search uses the normals of the laterally shifted lane reference
        ts += 0.005 * abs(t) if road.simple else 0.15 + 0.1 * abs(t)
        ts += (0.5 * abs(t) * pr if both else 0) + (0.2 if kind == "pp3" else 0)
        out.check(abs(d.s - s) < ts, f"s:{cls}", lambda: info() + f" (s error {d.s - s:.4f} > {ts:.3f})")
        if out.trace is not None:
            out.trace.append((kind+'*'*road.simple, both, cls, abs(t), pr, abs(d.s - s), ts, case['id'], road.z(s)[0], hist, info()))
        # lateral: the reported lane and offset must denote the point that was asked for
        sec = road.sec(d.s)
        if d.laneId not in sec.lanes:
            out.check(any(abs(d.s - q.s) < 1e-3 for q in road.sections), "lane-exists", info)
            continue
        tr = road.lane_t(d.s, d.laneId, d.laneOffset)
        slope = 0.02 + abs(k) * abs(d.s - s)
        tt = 5e-3 + slope * abs(d.s - s) + 3e-3 * abs(t)
        if not beyond:
            out.check(abs(tr - t) < tt, f"t:{cls}", lambda: info() + f" which is t {tr:.4f}, expected {t:.4f} (tolerance {tt:.4f})")
            want = road.lane_at(d.s, t)
            if want and not any(abs(d.s - q.s) < 0.05 for q in road.sections):
                w = sec.lanes[want[0]].width(d.s - sec.s)
                if 0.5 * w - abs(want[1]) > 0.02 + tt:
                    out.check(d.laneId == want[0], f"lane:{cls}", lambda: info() + f", expected lane {want}")
                    out.count("lane judged")
            # no farther than any other point of the road
            dm, sm = nearest(road, x, y) if i % 5 == 0 else (1e9, 0)
            rx, ry, rh, _ = road.ref(min(max(d.s, 0.0), road.length))
            out.check(math.hypot(rx - x, ry - y) < dm + 0.01 + (0.02 + pr) * abs(t) + (ts if abs(t) < 1 else 0), "nearest:" + cls, lambda: info() + f", but s {sm:.4f} is nearer")
        else:
            out.check(abs(tr - t) < 0.05 + 0.02 * abs(t), "t:end", lambda: info() + f" which is t {tr:.4f}")
        # surface: z, pitch, roll of the reported road position
        if not beyond and 0.01 < d.s < road.length - 0.01:
            Y, R2, _ = road.st2xyz(d.s, tr)
            if zabs:
                out.check(abs(d.z - X[2]) < 1e-6, "z-kept", lambda: f"asked z {X[2]}, reported {d.z}")
            else:
                out.check(abs(d.z - Y[2]) < 2e-3 + 1e-3 * abs(t), "z", lambda: info() + f" z {d.z:.5f}, road surface {Y[2]:.5f}")
            z = R2[:, 2]
            g = odr.rotm(d.h, d.p, d.r)[:, 2]
            _, droll = road.roll(d.s)
            tol = 4e-3 + 1.2 * abs(droll * tr)
            out.check(np.abs(z - g).max() < tol, "tilt", lambda: info() + f" up vector {g} expected {z}")
        if not (bool(road.elev) or bool(road.sup)):
            out.check(abs(math.sin(0.5 * (d.h - hd))) < 1e-6, "heading", lambda: f"asked heading {hd}, reported {d.h}")
            rh = road.ref(d.s)[2] + math.atan(sec.dcenter(d.laneId, d.s - sec.s) + road.doffset(d.s))
            out.check(abs(math.sin(0.5 * (d.h - rh - d.hRelative))) < 5e-3, "hrel", lambda: info() + f" h {d.h} road {rh} hRelative {d.hRelative}")
        out.fp(kind, bool(road.elev), bool(road.sup), bool(road.offs), len(road.sections), cls, hist, len(roads) > 1)
        out.count(f"{hist} {cls}")
    out.sample(info())
    l.RM_Close()
