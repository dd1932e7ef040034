"""C20: actions relative to other objects reach the relation they declare."""
import math
import random

import es
import scn

PID = "C20"
LEVEL = "exploration"
RULE = ("two vehicles run longitudinal distance, lateral distance and synchronize actions with random parameters (distance or time gap, free space or reference points, "
        "displacement, coordinate system, dynamic limits, tolerances, final speed, steady state, repeated execution) on straight and curved roads in both directions; a "
        "monitor of both state traces computes the relation from the vehicles' world positions and boxes at every step; one evaluation = one relation or limit at one step; "
        "distinct = action kind x parameter class x direction x phase")
ASSUMPTIONS = ["a relation is judged once the time an attainable approach needs has passed"]


def cases(rng, tier):
    n = {"quick": 400, "thorough": 5000}[tier]
    return [{"id": f"{k}{i}", "seed": rng.getrandbits(48), "kind": k} for k, m in (("rigid", 1), ("dyn", 1), ("sync", 2), ("latrigid", .4), ("latdyn", .4), ("latent", .4))
            for i in range(int(n * m))]


def rbox(rng):
    return dict(cx=rng.uniform(0.5, 2), cy=0.0, w=rng.uniform(1.5, 2.5), l=rng.uniform(3, 6))


def chain(rng, length, lanes=3):
    """One long road, or many (some in the opposite direction, some with several lane sections), along the x axis."""
    if rng.random() < 0.4:
        c = scn.Chain(rng, 1, lanes, length, length, flip=0.5)
    else:
        c = scn.Chain(rng, int(length / 250) + 1, lanes, 120.0, 600.0)
        while c.x1 < length:
            c = scn.Chain(rng, len(c.roads) + 2, lanes, 120.0, 600.0)
    return c


def place(c, x, d, k):
    r, s, _ = c.loc(x, 0.0)
    return scn.lanepos(r["id"], -d * k * r["o"], s, o=scn.orient(h=0.0))


def setup(out, l, rng, xodr, where, v, act, count=1, evs0=(), t0=0.0):
    """Reference o0 and actor o1; act: the action of o1, started at t0 and run count times."""
    open("net.xodr", "w").write(xodr)
    bb = [rbox(rng), rbox(rng)]
    ents = [scn.vehicle(f"o{i}", bb=bb[i], dec=200.0) for i in (0, 1)]
    init = [scn.private(f"o{i}", scn.teleport(where[i]), scn.speed_abs(v[i])) for i in (0, 1)]
    tr = scn.trigger("StartTrigger", [scn.cond(scn.simtime(t0, "greaterOrEqual"), "c")])
    grp = [scn.group("g1", ["o1"], [scn.maneuver("m1", [scn.event("e1", [scn.action("rel", act)], tr, "parallel", count)])])]
    st1 = scn.story("s1", [scn.act("a1", grp, scn.always())])
    sts = [st1]
    if evs0:
        st0 = scn.story("s0", [scn.act("a0", [scn.group("g0", ["o0"], [scn.maneuver("m0", list(evs0))])], scn.always())])
        sts = [st0, st1] if rng.random() < 0.5 else [st1, st0]
    x = scn.scenario("net.xodr", ents, init, sts)
    out.art("scn.xosc", x)
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    return se, [l.SE_GetIdByName(b"o0"), l.SE_GetIdByName(b"o1")], bb


def ref_events(rng, tmax, vlo=2.0, vhi=25.0):
    evs, t = [], 0.0
    for k in range(rng.randint(0, 3)):
        t += rng.uniform(0.5, tmax / 3)
        evs.append(scn.event(f"x{k}", [scn.action(f"xa{k}", scn.speed_abs(rng.uniform(vlo, vhi), rng.choice(["step", "linear"]), rng.uniform(0.5, 3)))],
                             scn.trigger("StartTrigger", [scn.cond(scn.simtime(t, "greaterOrEqual"), f"xc{k}")]), "override"))
    return evs


def longact(rng, dist, gap, free, cont, disp, cs, dyn=None):
    d = scn.el("DynamicConstraints", **dyn) if dyn else ""
    kw = {"timeGap" if gap else "distance": dist}
    if disp:
        kw["displacement"] = disp
    if cs:
        kw["coordinateSystem"] = cs
    return scn.el("PrivateAction", scn.el("LongitudinalAction", scn.el("LongitudinalDistanceAction", d, entityRef="o0", continuous="true" if cont else "false",
                                                                       freespace="true" if free else "false", **kw)))


def fgap(st, bb, free, disp, d):
    """distance from the actor forward to the reference, as declared"""
    g = (st[0].x - st[1].x) * d
    if not free:
        return g
    front = [bb[i]["cx"] + bb[i]["l"] / 2 for i in (0, 1)]
    rear = [bb[i]["l"] / 2 - bb[i]["cx"] for i in (0, 1)]
    if disp == "leadingReferencedEntity":
        return g + rear[1] + front[0]
    return g - front[1] - rear[0]


def rigid(case, out, l):
    dyn = case["kind"] == "dyn"
    rng = random.Random(case["seed"])
    d = rng.choice([1, -1])
    c = chain(rng, 3600.0)
    lanes = [rng.randint(1, 3) for _ in (0, 1)]
    x0 = 900.0 if d > 0 else c.x1 - 900.0
    gap, free, cs = rng.random() < 0.4, rng.random() < 0.5, rng.choice([None, "entity", "road", "lane"])
    cont = rng.random() < (0.6 if dyn else 0.5)
    disp = rng.choice([None, "any", "trailingReferencedEntity", "leadingReferencedEntity"])
    dist = rng.uniform(0.5, 4) if gap else rng.choice([rng.uniform(1, 20), rng.uniform(20, 80)])
    side = rng.choice([1, -1])
    start = side * rng.uniform(12, 90)        # o0 ahead of o1 by this much
    vv = [rng.uniform(4, 25), rng.uniform(4, 25)]
    t0 = rng.choice([0.0, rng.uniform(0, 2)])
    lim = None
    if dyn:
        lim = dict(maxAcceleration=rng.uniform(2, 8))
        lim["maxDeceleration"] = lim["maxAcceleration"] * rng.uniform(0.7, 1.5)
        if rng.random() < 0.4:
            lim["maxSpeed"] = rng.uniform(32, 60)
        vv[1] = max(4.0, min(25.0, vv[0] + rng.uniform(-6, 6)))
    count = 1 if cont else rng.choice([1, 2, 3])
    act = longact(rng, dist, gap, free, cont, disp, cs, lim)
    evs = ref_events(rng, 8) if not dyn else []
    se, ids, bb = setup(out, l, rng, c.xml(), [place(c, x0 + d * start, d, lanes[0]), place(c, x0, d, lanes[1])], vv, act, count, evs, t0)
    ed = disp or "trailingReferencedEntity"
    running, nrun, pos, ends, starts, ta = False, None, 0, 0, 0, 0.0
    prev = [se.state(i) for i in ids]
    T = 40.0 if dyn else 10.0
    while se.time() < T + t0:
        dt = rng.choice([0.01, 0.05, rng.uniform(0.005, 0.1)])
        se.step(dt)
        st = [se.state(i) for i in ids]
        ended = False
        for e in se.events[pos:]:
            if e[0] == "sb" and e[3] == "rel":
                if e[5] == 2:
                    running, nrun, ta = True, 0, se.time()
                    starts += 1
                    if starts == 1 and ed == "any":
                        g = (prev[0].x - prev[1].x) * d
                        ed = "leadingReferencedEntity" if g < 0 else "trailingReferencedEntity"
                elif e[5] == 3:
                    ended = True
        pos = len(se.events)
        dv = abs(st[0].speed - prev[0].speed)
        g = fgap(st, bb, free, ed, d)
        want = dist * (abs(st[0].speed) if gap else 1.0) * (-1 if ed.startswith("lead") else 1)
        m = lambda: f"t={se.time():.3f} dt={dt:.4f} since {se.time() - ta:.3f}: distance {g:.4f}, declared {want:.4f} ({'gap ' if gap else ''}{dist} free={free} {disp} {cs} cont={cont} lim={lim}) speeds {st[0].speed:.3f} {st[1].speed:.3f}"  # noqa
        if running and not dyn:
            tol = 1e-3 + (dv * (dt + (dist if gap else 0)))
            nrun = nrun + 1
            if not (free and nrun <= 3 + 16 / max(0.1, abs(want))):      # from overlap or the other side it takes a further step
                out.check(abs(g - want) < tol, "relation", m)
            out.check(abs(st[1].speed - st[0].speed) < 1e-6 + dv, "speed-copied", m)
            out.fp("rigid", gap, free, cs, ed, cont, d, side, dv > 0, starts)
        if running and dyn:
            a = (st[1].speed - prev[1].speed) / dt
            out.check(-lim["maxDeceleration"] - 1e-3 <= a <= lim["maxAcceleration"] + 1e-3, "acc-limit", lambda: m() + f" acc {a}")
            if "maxSpeed" in lim:
                out.check(abs(st[1].speed) <= lim["maxSpeed"] + 1e-6, "max-speed", m)
            out.fp("dyn", gap, free, cs, ed, cont, d, side, g > want, a > 0)
        if ended:
            ends += 1
            running = False
            out.check(not cont, "continuous-ended", m)
            if dyn:
                out.check(abs(g - want) < 0.1 + 1e-3 + abs(st[0].speed - st[1].speed) * dt + 8 * dt * dt, "ended-short", m)
            out.fp("end", dyn, gap, free, cs, ed, starts)
        prev = st
    if dyn:
        out.check(starts > 0 and (running if cont else ends > 0), "not-reached", m)
        if cont:
            out.check(abs(g - want) < 0.05 and abs(st[0].speed - st[1].speed) < 0.05, "not-held", m)
    else:
        out.check(starts > 0 and (cont or ends > 0), "no-end", m)
    out.count("long distance runs")
    out.sample(f"longitudinal {dist} gap={gap} free={free} {disp} {cs}: final {g}")
    se.close()


def sync(case, out, l):
    rng = random.Random(case["seed"])
    R = rng.choice([None, None, rng.uniform(200, 800), -rng.uniform(200, 800)])
    dirs = [rng.choice([1, -1]) for _ in (0, 1)]
    ks = [rng.randint(1, 3) for _ in (0, 1)]
    if R is None:
        c = chain(rng, 3000.0)
    else:
        L = 3000.0
        c = None
        xodr = scn.straight(L, geom=f'<geometry s="0" x="0" y="0" hdg="0" length="{L}"><arc curvature="{1 / R}"/></geometry>')
    T = rng.uniform(5, 20)
    vm, v0 = rng.uniform(4, 25), rng.uniform(2, 20)
    dm = vm * T
    fin = rng.choice(["abs", "abs", "none", "rel"])
    v1 = rng.uniform(3, 20)
    ss = None
    if fin == "none":
        dist = rng.uniform(0.6, 1.6) * v0 * T
        fx = ""
    else:
        lo, hi = min(v0, v1), max(v0, v1)
        dist = rng.uniform(0.6 * lo, 1.4 * hi) * T
        sx = ""
        if rng.random() < 0.4:
            ss = rng.uniform(0.5, 2.0)
            dist += ss * v1
            dm += ss * vm
            T += ss
            sx = scn.el("TargetTimeSteadyState", time=ss) if rng.random() < 0.5 else scn.el("TargetDistanceSteadyState", distance=ss * v1)
        fx = scn.el("FinalSpeed", scn.el("AbsoluteSpeed", sx, value=v1) if fin == "abs" else scn.el("RelativeSpeedToMaster", sx, value=v1 - vm, speedTargetValueType="delta"))
    tol, tolm = rng.choice([0.0, rng.uniform(0.5, 4)]), rng.choice([0.0, rng.uniform(0.5, 4)])
    s0 = [1500.0 + rng.uniform(-100, 100) for _ in (0, 1)]
    pl = (lambda i, q: place(c, s0[i] + dirs[i] * q, dirs[i], ks[i])) if c else (lambda i, q: scn.lanepos(1, -dirs[i] * ks[i], s0[i] + dirs[i] * q))
    tg = [pl(0, dm), pl(1, dist)]
    act = scn.el("PrivateAction", scn.el("SynchronizeAction", scn.el("TargetPositionMaster", tg[0]), scn.el("TargetPosition", tg[1]), fx,
                                         masterEntityRef="o0", targetToleranceMaster=tolm, targetTolerance=tol))
    evs = []
    vary = fin != "rel" and not ss and rng.random() < 0.3
    if vary:      # the master changes its speed on the way
        evs.append(scn.event("x", [scn.action("xa", scn.speed_abs(vm * rng.uniform(0.8, 1.25), rng.choice(["linear", "sinusoidal"]), rng.uniform(1, 2)))],
                             scn.trigger("StartTrigger", [scn.cond(scn.simtime(T * rng.uniform(0.1, 0.4), "greaterOrEqual"), "xc")]), "override"))
    se, ids, bb = setup(out, l, rng, c.xml() if c else xodr, [pl(0, 0.0), pl(1, 0.0)], [vm, v0], act, evs0=evs)
    pos, ended = 0, False
    dt = rng.choice([0.01, 0.02, 0.05])
    inss = 0
    st = None
    while se.time() < T * 1.3 + 5:
        se.step(dt)
        st = [se.state(i) for i in ids]
        rem = [q - ((st[i].x if c else st[i].s) - s0[i]) * dirs[i] for i, q in ((0, dm), (1, dist))]
        m = lambda: f"t={se.time():.3f} dt={dt}: remaining master {rem[0]:.3f} (tol {tolm:.2f}) actor {rem[1]:.3f} (tol {tol:.2f}) speed {st[1].speed:.3f} final {fin} {v1:.3f} v0 {v0:.3f} vm {vm:.3f} T {T:.3f} dist {dist:.3f} ss {ss} R {R} vary {vary}"  # noqa
        for e in se.events[pos:]:
            if e[0] == "sb" and e[3] == "rel" and e[5] == 3:
                ended = True
        pos = len(se.events)
        if ended:
            break
        if ss and rem[0] - tolm < ss * vm - 2 * vm * dt and rem[1] - tol < ss * v1 - 2 * v1 * dt:
            out.check(abs(st[1].speed - v1) < 0.01, "steady-state", m)
            inss += 1
    out.check(ended, "not-ended", m)
    sl = 2 * dt * max(vm, st[1].speed) + 0.3 + (ss * (v1 + vm) * 11 / abs(R) if ss and R else 0.0)     # speed is kept in the lane, the distance taken along the road
    out.check(abs(rem[0]) < tolm + sl, "master-destination", m)
    out.check(abs(rem[1]) < tol + sl, "destination", m)
    if fin != "none":
        out.check(abs(st[1].speed - v1) < 1e-3, "final-speed", m)
    if ss:
        out.check(inss > 0, "no-steady-state", m)
    out.fp("sync", fin, vary, ss is not None, R is None, *dirs, tol > 0, tolm > 0, dist / T > v0, dist / T > v1)
    out.count("synchronizations")
    out.sample(m())
    se.close()


def lat(case, out, l):
    rng = random.Random(case["seed"])
    k = case["kind"]
    same = k == "latent" or rng.random() < 0.6
    dirs = [rng.choice([1, -1])]
    dirs.append(dirs[0] if same else -dirs[0])
    c = chain(rng, 4000.0, 8)
    x0 = [(c.x1 * 0.05 + 100 if dirs[i] > 0 else c.x1 * 0.95 - 100) + rng.uniform(-50, 50) for i in (0, 1)]
    wh = [place(c, x0[i], dirs[i], rng.randint(1, 3)) for i in (0, 1)]
    free = rng.random() < 0.5
    cont = rng.random() < 0.6
    disp = rng.choice([None, "leftToReferencedEntity", "rightToReferencedEntity"])
    cs = "road" if k != "latent" else "entity"
    dist = rng.uniform(0.5, 8)
    vv = [rng.uniform(5, 20), rng.uniform(8, 20)]
    lim = None
    if k == "latdyn":
        lim = {}
        if rng.random() < 0.8:
            lim["maxAcceleration"] = rng.uniform(0.5, 6)
        if rng.random() < 0.5 or not lim:
            lim["maxSpeed"] = rng.uniform(0.5, 4)
    if k == "latent" and rng.random() < 0.5:
        lim = dict(maxAcceleration=rng.uniform(1, 8))
    kw = dict(displacement=disp) if disp else {}
    act = scn.el("PrivateAction", scn.el("LateralAction", scn.el("LateralDistanceAction", scn.el("DynamicConstraints", **lim) if lim else "", entityRef="o0", distance=dist,
                                                                  continuous="true" if cont else "false", freespace="true" if free else "false", coordinateSystem=cs, **kw)))
    count = 1 if cont else rng.choice([1, 2, 3])
    t0 = rng.choice([0.0, rng.uniform(0, 1)])
    se, ids, bb = setup(out, l, rng, c.xml(), wh, vv, act, count, (), t0)
    want = (dist + ((bb[0]["w"] + bb[1]["w"]) / 2 if free else 0.0)) * (-1 if disp and disp.startswith("right") else 1)
    T = 10.0 if lim is None else 40.0
    pos, running, starts, ends, nrun = 0, False, 0, 0, 0
    prev = [se.state(i) for i in ids]
    vl = 0.0
    while se.time() < T + t0:
        dt = rng.choice([0.01, 0.05, rng.uniform(0.005, 0.1)])
        se.step(dt)
        st = [se.state(i) for i in ids]
        ended = False
        for e in se.events[pos:]:
            if e[0] == "sb" and e[3] == "rel":
                if e[5] == 2:
                    running, nrun, starts = True, 0, starts + 1
                elif e[5] == 3:
                    ended = True
        pos = len(se.events)
        nrun += 1
        g = (st[1].y - st[0].y) * dirs[0]
        m = lambda: f"t={se.time():.3f} dt={dt:.4f} run {starts} step {nrun}: lateral {g:.4f}, declared {want:.4f} ({dist} free={free} {disp} {cs} cont={cont} lim={lim}) dirs {dirs} speed {st[1].speed:.3f}"  # noqa
        if running:
            if lim is None and nrun > 2:
                out.check(abs(g - want) < 0.011, "lateral", m)
            if lim is not None:
                nv = (st[1].y - prev[1].y) / dt
                if k == "latdyn":
                    out.check(abs(nv) <= lim.get("maxSpeed", 1e9) + 1e-3, "lat-speed", lambda: m() + f" lateral speed {nv}")
                    if "maxAcceleration" in lim and nrun > 1 and not ended:
                        out.check(abs(nv - vl) / dt <= lim["maxAcceleration"] + 0.05, "lat-acc", lambda: m() + f" lateral acc {(nv - vl) / dt}")
                vl = nv
                stp = math.hypot(st[1].x - prev[1].x, st[1].y - prev[1].y)
                if nrun > 1:
                    out.check(abs(stp - st[1].speed * dt) < 0.01 * st[1].speed * dt + 1e-3, "speed-kept", lambda: m() + f" moved {stp} expected {st[1].speed * dt}")
            out.fp(k, free, disp, cont, *dirs, lim and tuple(lim), starts, g > want)
        if ended:
            ends += 1
            running = False
            vl = 0.0
            out.check(not cont, "continuous-ended", m)
            out.check(abs(g - want) < 0.05, "ended-short", m)
        prev = st
    out.check(starts > 0 and (running if cont else ends > 0), "not-reached", m)
    if cont:
        out.check(abs(g - want) < 0.02, "not-held", m)
    out.count("lateral distance runs")
    out.sample(m())
    se.close()


def run(case, out, l):
    k = case["kind"]
    if k in ("rigid", "dyn"):
        return rigid(case, out, l)
    if k == "sync":
        return sync(case, out, l)
    return lat(case, out, l)
