"""C04: lane and road attribute queries agree with the OpenDRIVE file."""
import ctypes as C
import math
import random

import es
import odr

PID = "C04"
LEVEL = "exploration"
RULE = ("road networks with several roads of several lane sections, type records (with and without speed, three units), signs with validity "
        "records and numeric, textual or clashing ids are generated and loaded by both libraries; every query is made at, just before and just after "
        "each record start and at random s, in random order; one evaluation = one answered query compared with the generated file; distinct = "
        "query x number of lanes x lane type x position relative to the record starts")
ASSUMPTIONS = ["where no speed is declared esmini's documented fallback (60 km/h, 120 km/h with several driving lanes per direction) is the expected limit"]

RTYPES = ["unknown", "rural", "motorway", "town", "lowSpeed", "pedestrian", "bicycle", "townArterial", "townCollector", "townExpressway",
          "townLocal", "townPlayStreet", "townPrivate"]
UNITS = {"km/h": 1 / 3.6, "mph": 0.44704, "m/s": 1.0}


def cases(rng, tier):
    n = {"quick": 1500, "thorough": 15000}[tier]
    return [{"id": f"a{i}", "seed": rng.getrandbits(48)} for i in range(n)]


def make_ids(rng, n):
    """(strings in file order, predicate for the expected numeric id or None)"""
    mode = rng.choice(["num", "num", "str", "mix", "mix"])
    out, used = [], set()
    while len(out) < n:
        k = mode if mode != "mix" else rng.choice(["num", "str"])
        s = str(rng.choice([rng.randint(0, 12), rng.randint(0, 9999), rng.randint(0, 2 ** 31)])) if k == "num" else rng.choice(
            ["road_", "R", "a b ", "1x", "x1", "-x", "#"]) + str(rng.randint(0, 40))
        if s not in used:
            used.add(s)
            out.append(s)
    return out


def make(rng):
    n = rng.randint(1, 6)
    ids = make_ids(rng, n)
    jids = make_ids(rng, rng.randint(0, 3))
    alltypes = list(odr.LANE_TYPES) + ["driving"] * 12
    roads = []
    for i in range(n):
        pose = (0.0, i * 200.0, rng.uniform(-3, 3))
        geoms = odr.chain(rng, pose, rng.choice([["line"], ["line", "arc"], ["line", "arc", "spiral"]]), nmax=3)
        L = geoms[-1].s + geoms[-1].length
        secs = odr.sections(rng, L, nsec=(1, 5), nl=(0, 5), nr=(0, 5), heights=0, types=alltypes)
        for q in secs:
            q.s = round(q.s * 64) / 64      # exact in binary, so that the very start of a section is well defined
        types = []
        if rng.random() < 0.85:
            s = rng.choice([0.0, 0.0, 0.0, rng.uniform(0, 0.3 * L)])
            while s < L and len(types) < 5:
                sp = rng.choice([None, "0", str(rng.randint(10, 130)), f"{rng.uniform(5, 130):.3f}"])
                types.append((s, rng.choice(RTYPES), sp, rng.choice(list(UNITS))))
                s += rng.uniform(2, 0.6 * L)
        elev = odr.profile(rng, L, 10, 0.05) if rng.random() < 0.5 else []
        r = odr.Road(ids[i], geoms, secs, elev, None, None, rule=rng.choice(["RHT", "LHT", "", "RHT"]), types=types)
        if jids and rng.random() < 0.3:
            r.junction = rng.choice(jids)
        r.signs = []
        for k in range(rng.choice([0, 0, 1, 2, 5])):
            sg = {"id": rng.randint(0, 99999), "name": f"sign {i}/{k}", "s": rng.uniform(0, L), "t": rng.uniform(-8, 8),
                  "o": rng.choice("+-+-n"), "zo": round(rng.uniform(0, 5), 3), "h": round(rng.uniform(0.1, 2), 3),
                  "w": round(rng.uniform(0.1, 2), 3), "l": round(rng.uniform(0.1, 2), 3),
                  "val": [(rng.randint(-4, -1), rng.randint(1, 4)) for _ in range(rng.choice([0, 0, 1, 2, 3]))]}
            r.signs.append(sg)
        r.signals = [f'<signal s="{g["s"]!r}" t="{g["t"]!r}" id="{g["id"]}" name="{g["name"]}" dynamic="no" '
                     f'orientation="{dict(zip("+-n", ("+", "-", "none")))[g["o"]]}" zOffset="{g["zo"]!r}" country="se" type="c" subtype="d" value="-1" '
                     f'height="{g["h"]!r}" width="{g["w"]!r}" length="{g["l"]!r}" hOffset="0" pitch="0" roll="0">'
                     + "".join(f'<validity fromLane="{a}" toLane="{b}"/>' for a, b in g["val"]) + "</signal>" for g in r.signs]
        roads.append(r)
    return roads, jids


def speed(r, s):
    """declared speed, m/s; 0 where nothing is declared"""
    if not r.types:
        return 0.0
    q = odr._rec(r.types, s)
    return 0.0 if q[2] is None else float(q[2]) * UNITS[q[3]]


def run(case, out, l):
    rng = random.Random(case["seed"])
    roads, jids = make(rng)
    net = odr.Network(roads, [{"id": j, "connections": []} for j in jids])
    xml = net.xml()
    out.art("road.xodr", xml)
    l.RM_SetLogFilePath(b"")
    use_se = rng.random() < 0.4
    if rng.random() < 0.3:   # something else was loaded before
        other, oj = make(rng)
        l.RM_InitWithString(odr.Network(other).xml().encode())
        out.count("reload")
    out.need(l.RM_InitWithString(xml.encode()) == 0, "load", "road not accepted")
    chk = out.check
    # ---- ids
    chk(l.RM_GetNumberOfRoads() == len(roads), "nroads", lambda: f"{l.RM_GetNumberOfRoads()} roads, declared {len(roads)}")
    num = {}
    for i, r in enumerate(roads):
        k = l.RM_GetRoadIdFromString(str(r.id).encode())
        num[r.id] = k
        chk(k == l.RM_GetIdOfRoadFromIndex(i), "id:index", lambda: f"road '{r.id}' id {k} but road {i} has id {l.RM_GetIdOfRoadFromIndex(i)}")
        chk(l.RM_GetRoadIdString(k) == str(r.id).encode(), "id:back", lambda: f"'{r.id}' -> {k} -> {l.RM_GetRoadIdString(k)}")
        if r.id.isdigit() and int(r.id) < 2 ** 32 - 1:
            chk(k == int(r.id), "id:numeric", lambda: f"road '{r.id}' got id {k}")
        chk(abs(l.RM_GetRoadLength(k) - r.length) < 1e-9 * max(1, r.length), "length", lambda: f"{l.RM_GetRoadLength(k)} declared {r.length}")
        out.fp("id", r.id.isdigit(), len(roads))
    chk(len(set(num.values())) == len(roads), "id:unique", lambda: f"{num}")
    chk(l.RM_GetIdOfRoadFromIndex(len(roads)) == es.UNDEF, "id:range", "id for an index beyond the last road")
    chk(l.RM_GetRoadIdFromString(b"no such road") == es.UNDEF, "id:unknown", "unknown road string found")
    jn = {}
    for j in jids:
        k = l.RM_GetJunctionIdFromString(j.encode())
        jn[j] = k
        chk(l.RM_GetJunctionIdString(k) == j.encode(), "jid:back", lambda: f"'{j}' -> {k} -> {l.RM_GetJunctionIdString(k)}")
        if j.isdigit() and int(j) < 2 ** 32 - 1:
            chk(k == int(j), "jid:numeric", lambda: f"junction '{j}' got id {k}")
    chk(len(set(jn.values())) == len(jids), "jid:unique", lambda: f"{jn}")
    first = next((t for r in roads for t in r.types), None)
    units = [({"km/h": 1, "m/s": 2, "mph": 3}[t[3]] if t[2] is not None else 2) for r in roads for t in r.types]
    chk(l.RM_GetSpeedUnit() == (units[0] if units else 0), "unit", lambda: f"unit {l.RM_GetSpeedUnit()} first record {first}")
    # ---- attributes along the roads
    h = l.RM_CreatePosition()
    lid, w = C.c_int(), es.D()
    info = es.RM_RoadLaneInfo()
    todo = []
    for r in roads:
        pts = []
        for b in r.breaks():
            for e in (-1e-3, 0.0, 1e-3):
                if 0 <= b + e <= r.length:
                    pts.append((b + e, "at" if e == 0 else "near"))
        pts = rng.sample(pts, min(len(pts), 24)) + [(rng.uniform(0, r.length), "in") for _ in range(6)]
        todo += [(r, s, c) for s, c in pts]
    rng.shuffle(todo)
    for r, s, cls in todo:
        k = num[r.id]
        sec = r.sec(s)
        ds = s - sec.s
        order = sorted(sec.lanes, reverse=True)
        for mask in (-1, odr.ANY_DRIVING, 1 << rng.randint(0, 22), rng.getrandbits(23)):
            want = [i for i in order if odr.LANE_TYPES[sec.lanes[i].type] & mask]
            n = l.RM_GetRoadNumberOfLanes(k, s, mask)
            chk(n == len(want), "lanes:number", lambda: f"road {r.id} s {s:.4f} mask {mask}: {n} lanes, declared {want}")
            got = []
            for i in range(min(n, 40)):
                rc = l.RM_GetLaneIdByIndex(k, i, s, mask, C.byref(lid))
                got.append(lid.value if rc == 0 else None)
            chk(got == want, "lanes:ids", lambda: f"road {r.id} s {s:.4f} mask {mask}: {got} declared {want}")
            chk(l.RM_GetLaneIdByIndex(k, len(want), s, mask, C.byref(lid)) == -1, "lanes:range", "lane found beyond the last index")
        want = [i for i in order if odr.LANE_TYPES[sec.lanes[i].type] & odr.ANY_DRIVING]
        n = l.RM_GetRoadNumberOfDrivableLanes(k, s)
        chk(n == len(want), "drivable:number", lambda: f"road {r.id} s {s:.4f}: {n} drivable lanes, declared {want}")
        got = [lid.value for i in range(n) if l.RM_GetDrivableLaneIdByIndex(k, i, s, C.byref(lid)) == 0]
        chk(got == want, "drivable:ids", lambda: f"road {r.id} s {s:.4f}: {got} declared {want}")
        for i in rng.sample(order, min(4, len(order))):
            ln = sec.lanes[i]
            chk(l.RM_GetLaneTypeByRoadId(k, i, s) == odr.LANE_TYPES[ln.type], "type",
                lambda: f"road {r.id} s {s:.4f} lane {i}: type {l.RM_GetLaneTypeByRoadId(k, i, s)} declared {ln.type}")
            rc = l.RM_GetLaneWidthByRoadId(k, i, s, C.byref(w))
            chk(rc == 0 and abs(w.value - ln.width(ds)) < 1e-6, "width", lambda: f"road {r.id} s {s:.4f} lane {i}: {w.value} declared {ln.width(ds)}")
            out.fp("lane", ln.type, i > 0, cls, len(ln.widths))
        gone = max(order) + 1 if rng.random() < 0.5 else min(order) - 1
        rc = l.RM_GetLaneWidthByRoadId(k, gone, s, C.byref(w))
        chk(w.value == 0.0, "width:none", lambda: f"lane {gone} does not exist, width {w.value}")
        # by position; a fresh handle, since within a road lane ids are followed through the sections by links
        if rng.random() < 0.5:
            h = l.RM_CreatePosition()
            i = rng.choice(order)
            if i == 0:
                i = rng.choice([q for q in order if q] or [0])
            l.RM_SetLanePosition(h, k, i, 0.0, s, True)
            d = es.RM_PositionData()
            l.RM_GetPositionData(h, C.byref(d))
            if abs(d.s - s) > 1e-9 or d.laneId != i:
                out.count("position snapped elsewhere")
                continue
            v = speed(r, s)
            sgn = 1 if i > 0 else -1
            nd = sum(1 for q in order if q * sgn > 0 and odr.LANE_TYPES[sec.lanes[q].type] & odr.ANY_DRIVING)
            lim = v if v > 1e-6 else (120 / 3.6 if nd > 1 else 60 / 3.6)
            if not (v <= 1e-6 and i == 0):
                chk(abs(l.RM_GetSpeedLimit(h) - lim) < 1e-6, "limit", lambda: f"road {r.id} s {s:.4f} lane {i}: limit {l.RM_GetSpeedLimit(h)} declared {v} ({nd} lanes)")
            chk(l.RM_GetLaneInfo(h, 0.0, C.byref(info), 2, False) >= 0, "info", "no lane info")
            rt = RTYPES.index(odr._rec(r.types, s)[1]) if r.types else 0
            chk(info.road_type == rt, "roadtype", lambda: f"road {r.id} s {s:.4f}: road type {info.road_type} declared {rt}")
            chk(abs(info.speed_limit - v) < 1e-6, "speed", lambda: f"road {r.id} s {s:.4f}: speed {info.speed_limit} declared {v}")
            chk(info.road_rule == (1 if r.rule == "LHT" else 0), "rule", lambda: f"rule {info.road_rule} declared {r.rule}")
            chk(info.lane_type == odr.LANE_TYPES[sec.lanes[i].type] and l.RM_GetLaneType(h, i) == info.lane_type, "info:type",
                lambda: f"road {r.id} s {s:.4f} lane {i}: type {info.lane_type}/{l.RM_GetLaneType(h, i)} declared {sec.lanes[i].type}")
            chk(abs(info.width - sec.lanes[i].width(ds)) < 1e-6, "info:width", lambda: f"lane {i} width {info.width} declared {sec.lanes[i].width(ds)}")
            chk(info.roadId == k and d.roadId == k, "info:road", lambda: f"road {info.roadId}/{d.roadId}, set {k}")
            jx = jn[r.junction] if r.junction in jn else es.UNDEF
            chk(info.junctionId == jx and d.junctionId == jx, "info:junction", lambda: f"junction {info.junctionId}/{d.junctionId} declared {r.junction} = {jx}")
            out.fp("pos", rt, v > 0, nd, cls, i > 0, r.rule)
    # ---- signs
    libs = [("RM", l.RM_GetNumberOfRoadSigns, l.RM_GetRoadSign, l.RM_GetNumberOfRoadSignValidityRecords, l.RM_GetRoadSignValidityRecord, num)]
    if use_se:
        open("net.xodr", "w").write(xml)
        se = es.SE(l)
        sc = ('<OpenSCENARIO><FileHeader revMajor="1" revMinor="1" date="2023-01-01T00:00:00" description="x" author="x"/><ParameterDeclarations/>'
              '<CatalogLocations/><RoadNetwork><LogicFile filepath="net.xodr"/></RoadNetwork><Entities/><Storyboard><Init><Actions/></Init>'
              '<StopTrigger/></Storyboard></OpenSCENARIO>')
        l.RM_Close()
        out.need(se.init(xml=sc) == 0, "se-load", "scenario not accepted")
        n2 = {r.id: l.SE_GetRoadIdFromString(str(r.id).encode()) for r in roads}
        chk(n2 == num, "id:libs", lambda: f"ids {n2} and {num} from the two libraries")
        for r in roads:
            chk(l.SE_GetRoadIdString(num[r.id]) == str(r.id).encode(), "id:se", lambda: f"{num[r.id]} -> {l.SE_GetRoadIdString(num[r.id])}")
        for j in jids:
            chk(l.SE_GetJunctionIdFromString(j.encode()) == jn[j] and l.SE_GetJunctionIdString(jn[j]) == j.encode(), "jid:se", lambda: f"{j}")
        libs = [("SE", l.SE_GetNumberOfRoadSigns, l.SE_GetRoadSign, l.SE_GetNumberOfRoadSignValidityRecords, l.SE_GetRoadSignValidityRecord, num)]
    for nm, fn, fs, fv, fr, ids in libs:
        sg, va = es.RoadSign(), es.Validity()
        for r in roads:
            k = ids[r.id]
            n = fn(k)
            chk(n == len(r.signs), "signs:number", lambda: f"{nm}: road {r.id}: {n} signs, declared {len(r.signs)}")
            got = []
            for i in range(n):
                chk(fs(k, i, C.byref(sg)) == 0, "signs:get", f"{nm}: sign {i} not available")
                g = sg.d()
                g["val"] = []
                for q in range(fv(k, i)):
                    chk(fr(k, i, q, C.byref(va)) == 0, "signs:validity", "validity record not available")
                    g["val"].append((va.fromLane, va.toLane))
                chk(fr(k, i, len(g["val"]), C.byref(va)) == -1, "signs:vrange", "validity record beyond the last")
                got.append(g)
            chk(fs(k, n, C.byref(sg)) == -1, "signs:range", "sign beyond the last index")
            for g in r.signs:
                m = [q for q in got if q["name"] == g["name"].encode()]
                if not chk(len(m) == 1, "signs:once", lambda: f"{nm}: sign {g['name']} reported {len(m)} times"):
                    continue
                q = m[0]
                X, R, _ = r.st2xyz(g["s"], g["t"])
                chk(max(abs(q["x"] - X[0]), abs(q["y"] - X[1]), abs(q["z"] - X[2])) < 2e-2, "signs:pos",
                    lambda: f"{nm}: sign at ({q['x']},{q['y']},{q['z']}) declared s {g['s']} t {g['t']} = {X}")
                for a, b in (("id", g["id"]), ("roadId", k if k < 2 ** 31 else k - 2 ** 32), ("s", g["s"]), ("t", g["t"]), ("z_offset", g["zo"]), ("height", g["h"]),
                             ("width", g["w"]), ("length", g["l"]), ("orientation", -1 if g["o"] == "-" else 1)):
                    chk(abs(q[a] - b) < 1e-5, "signs:" + a, lambda: f"{nm}: sign {g['name']} {a} {q[a]} declared {b}")
                chk(q["val"] == g["val"], "signs:val", lambda: f"{nm}: validity {q['val']} declared {g['val']}")
                out.fp("sign", nm, g["o"], len(g["val"]), len(r.signs))
    out.sample(f"{len(roads)} roads {[r.id for r in roads]}, junctions {jids}, {len(todo)} places, {sum(len(r.signs) for r in roads)} signs")
    if use_se:
        se.close()
    else:
        l.RM_Close()
