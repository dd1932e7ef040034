"""C09: speed actions reach their target along the declared transition."""
import math
import random

import es
import scn

PID = "C09"
LEVEL = "exploration"
RULE = ("vehicles with random performance limits run random sequences of speed actions (absolute and relative target; linear, cubic, sinusoidal, step; time, rate, "
        "distance; declared, repeated and injected; overtaken by later ones; with random and varying time steps) on a straight road; an online model of the declared "
        "transition, started by the action's running callback, predicts each object's speed at every step, the step of completion, and that nothing else changes "
        "speed; one evaluation = one object speed at one step or one completion; distinct = shape x dimension x target kind x sign pattern x limited x phase")
ASSUMPTIONS = ["for cubic and sinusoidal shapes a rate is the peak rate of change (as esmini documents)",
               "a limited transition is stretched in time by the ratio of peak rate to limit", "distance transitions through standstill are judged for the linear shape only"]

SHAPES = ["linear", "cubic", "sinusoidal", "step"]
SHAPE_ENUM = {"cubic": 0, "linear": 1, "sinusoidal": 2, "step": 3}
DIM_ENUM = {"distance": 0, "rate": 1, "time": 2}
SMALL = 1e-6


def cases(rng, tier):
    n = {"quick": 1200, "thorough": 15000}[tier]
    return ([{"id": f"v{i}", "seed": rng.getrandbits(48)} for i in range(n)]
            + [{"id": f"p{i}", "seed": rng.getrandbits(48), "profile": True} for i in range(n // 4)])


def shape(kind, x):
    x = min(1.0, max(0.0, x))
    if kind == "linear":
        return x
    if kind == "cubic":
        return x * x * (3 - 2 * x)
    return (1 - math.cos(math.pi * x)) / 2


PEAK = {"linear": 1.0, "cubic": 1.5, "sinusoidal": math.pi / 2}


class Tr:
    """The declared transition."""

    def __init__(self, sp, v0, v1, lim):
        self.sp, self.v0 = sp, v0
        self.raw = v1
        self.v1 = max(-lim["vmax"], min(lim["vmax"], v1))
        self.t = 0.0
        self.loose = False
        d = self.v1 - v0
        sh, dim, val = sp["shape"], sp["dim"], sp["value"]
        self.judged = True
        if sh == "step":
            self.T = 0.0
        elif dim == "time":
            self.T = val
        elif dim == "rate":
            self.T = abs(d) * PEAK[sh] / val
        else:
            if abs(v1 - v0) < SMALL:
                self.T = 0.0
            elif v0 * v1 < 0 and min(abs(v0), abs(v1)) > SMALL:
                self.T = 2 * val * (abs(v0) + abs(v1)) / (v0 * v0 + v1 * v1)
                self.judged = sh == "linear"
            else:
                self.T = 2 * val / abs(v0 + v1)
            if self.v1 != v1:
                self.judged = False     # the declared target cannot be reached: distance not defined
        self.limited = False
        self.D = self.T
        if self.T > SMALL and abs(d) > 0:
            peak = abs(d) * PEAK[sh] / self.T
            m = lim["acc"] if d > 0 else lim["dec"]
            if peak > m:
                self.limited = True
                self.D = self.T * peak / m

    def at(self, t):
        if self.T < SMALL:
            return self.v1
        return self.v0 + (self.v1 - self.v0) * shape(self.sp["shape"], t / self.D)


def rnd_spec(rng, i, nveh):
    sh = rng.choice(SHAPES + SHAPES[:3])
    dim = rng.choice(["time", "rate", "distance"])
    val = {"time": rng.choice([0.0, rng.uniform(0.01, 1), rng.uniform(1, 8)]), "rate": rng.choice([rng.uniform(0.2, 3), rng.uniform(3, 20)]),
           "distance": rng.choice([rng.uniform(0.5, 10), rng.uniform(10, 120)])}[dim]
    if sh == "step":
        val = 0.0
        dim = "time"
    sp = dict(shape=sh, dim=dim, value=val)
    if rng.random() < 0.3 and i > 0:
        sp.update(ref=0, kind=rng.choice(["delta", "factor"]), cont=rng.random() < 0.3)
        sp["v"] = rng.uniform(-8, 8) if sp["kind"] == "delta" else rng.uniform(0, 2)
    else:
        sp["v"] = rng.choice([0.0, rng.uniform(0, 30), rng.uniform(0, 30), rng.uniform(20, 60), rng.uniform(-15, 0), rng.uniform(-1, 1), rng.uniform(-60, -10)])
    return sp


def xml_action(sp):
    if "ref" in sp:
        return scn.speed_rel(f"o{sp['ref']}", sp["v"], sp["kind"], sp["cont"], sp["shape"], sp["value"], sp["dim"])
    return scn.speed_abs(sp["v"], sp["shape"], sp["value"], sp["dim"])


def profile(case, out, l):
    """Speed profile in position mode: piecewise linear through the entries."""
    rng = random.Random(case["seed"])
    open("net.xodr", "w").write(scn.straight(6000.0))
    v0 = rng.choice([0.0, rng.uniform(0, 25)])
    t0 = rng.choice([0.0, rng.uniform(0, 3)])
    ref = rng.random() < 0.3
    vr = rng.uniform(0, 10) if ref else 0.0
    ent, pts, prevk = [], [(0.0, v0)], None
    for k in range(rng.randint(1, 5)):
        for _ in range(20):
            d, v = rng.uniform(0.3, 4), rng.choice([0.0, rng.uniform(0, 30), pts[-1][1] - vr])
            v = max(v, -vr + 0.0)
            sl = (v + vr - pts[-1][1]) / d
            if prevk is None or abs(sl - prevk) > 0.05:
                break
        prevk = sl
        ent.append((d, v))
        pts.append((pts[-1][0] + d, v + vr))
    prof = scn.el("PrivateAction", scn.el("LongitudinalAction", scn.el("SpeedProfileAction", scn.el("EntityRef", entityRef="o0") if ref else "",
                  *[scn.el("SpeedProfileEntry", speed=v, time=d) for d, v in ent], followingMode="position")))
    x = scn.scenario("net.xodr", [scn.vehicle("o0"), scn.vehicle("o1")],
                     [scn.private("o0", scn.teleport(scn.lanepos(1, -1, 3000.0)), scn.speed_abs(vr)), scn.private("o1", scn.teleport(scn.lanepos(1, -2, 3000.0)), scn.speed_abs(v0))],
                     [scn.story("s", [scn.act("a", [scn.group("g", ["o1"], [scn.maneuver("m", [scn.event("e", [scn.action("pa", prof)],
                      scn.trigger("StartTrigger", [scn.cond(scn.simtime(t0, "greaterOrEqual"), "c")]))])])], scn.always())])])
    out.art("scn.xosc", x)
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    o1 = l.SE_GetIdByName(b"o1")
    start, done, pos = None, False, 0
    for step in range(800):
        dt = rng.choice([0.01, 0.05, rng.uniform(0.001, 0.2)])
        tb = se.time()
        se.step(dt)
        for e in se.events[pos:]:
            if e[0] == "sb" and e[3] == "pa":
                if e[5] == 2:
                    start = tb
                elif e[5] == 3:
                    done = True
        pos = len(se.events)
        v = se.state(o1).speed
        T = (se.time() - start) if start is not None else -1.0
        if T < 0:
            want = v0
        else:
            want = pts[-1][1]
            for (ta, va), (tb2, vb) in zip(pts, pts[1:]):
                if T <= tb2:
                    want = va + (vb - va) * (T - ta) / (tb2 - ta)
                    break
        out.check(abs(v - want) < 2e-5 * max(1.0, abs(prevk)) + 1e-4, "profile", lambda: f"{T} s into profile {ent} from {v0} (reference {vr}): speed {v}, declared {want}")
        out.fp("profile", len(ent), ref, T < 0, done, sum(T > q[0] for q in pts))
        if done and T > pts[-1][0] + 2:
            break
    out.check(start is not None and (done or T < pts[-1][0] + 0.3), "profile-complete", lambda: f"profile {ent} started {start}, not complete at {T}")
    out.sample(f"speed profile {ent} from {v0}")
    se.close()


def run(case, out, l):
    if case.get("profile"):
        return profile(case, out, l)
    rng = random.Random(case["seed"])
    open("net.xodr", "w").write(scn.straight(6000.0))
    nv = rng.randint(2, 4)
    withinj = rng.random() < 0.4
    lims, ents, init, stories, specs = [], [], [], [], {}
    speed, isps = [], []
    moving = rng.random() < 0.3       # the reference object changes its speed, too
    for i in range(nv):
        lim = dict(vmax=rng.choice([70.0, rng.uniform(15, 50), rng.uniform(6, 20)]), acc=rng.choice([200.0, rng.uniform(1, 10)]), dec=rng.choice([200.0, rng.uniform(1, 10)]))
        lims.append(lim)
        ents.append(scn.vehicle(f"o{i}", vmax=lim["vmax"], acc=lim["acc"], dec=lim["dec"]))
        v = rng.choice([0.0, rng.uniform(0, 25), rng.uniform(0, 25), rng.uniform(-10, 0)])
        lane = rng.choice([-3, -2, -1, 1, 2, 3])
        v = max(-lim["vmax"], min(lim["vmax"], v))
        speed.append(v)
        isp = None
        if rng.random() < 0.25 and i and not (withinj and i == nv - 1):
            isp = rnd_spec(rng, 0, nv)
        isps.append(isp)
        init.append(scn.private(f"o{i}", scn.teleport(scn.lanepos(1, lane, rng.uniform(2900, 3100))), xml_action(isp) if isp else scn.speed_abs(v)))
        if isp:
            speed[i] = 0.0 if isp["shape"] != "step" and (isp["dim"] != "time" or isp["value"] > 0) else max(-lim["vmax"], min(lim["vmax"], isp["v"]))
        if (i == 0 and not moving) or (withinj and i == nv - 1):
            continue        # the reference keeps its speed; the last one gets injected actions only
        evs = []
        t = 0.0
        for k in range(rng.randint(1, 5)):
            t += rng.choice([rng.uniform(0, 0.5), rng.uniform(0.5, 4), rng.uniform(4, 9)])
            sp = rnd_spec(rng, i, nv)
            nm = f"a{i}_{k}"
            specs[nm] = (i, sp)
            cnt = 1
            trig = scn.trigger("StartTrigger", [scn.cond(scn.simtime(t, rng.choice(["greaterThan", "greaterOrEqual"])), f"c{nm}")])
            if rng.random() < 0.25:
                cnt = rng.randint(2, 3)      # repeated execution of the same action
                # fires every time the (constant or changing) time window opens again: a fresh rising edge is not needed
            evs.append(scn.event(f"e{nm}", [scn.action(nm, xml_action(sp))], trig, rng.choice(["parallel", "override"]), cnt))
        stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [f"o{i}"], [scn.maneuver(f"m{i}", evs)])], scn.always())]))
    x = scn.scenario("net.xodr", ents, init, stories)
    out.art("scn.xosc", x)
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    ids = [l.SE_GetIdByName(f"o{i}".encode()) for i in range(nv)]
    prev = [se.state(i).speed for i in ids]
    for i in range(nv):
        out.check(abs(prev[i] - speed[i]) < 1e-9, "initial", lambda: f"o{i} initial speed {prev[i]}, declared {speed[i]}")
    cur = [None] * nv       # running transition
    want = list(prev)       # speed to be kept while none runs
    stable = 0.0            # time since the reference last changed its speed
    for i in range(nv):
        if isps[i] and abs(speed[i] - isps[i]["v"]) > 0 and speed[i] == 0.0:
            cur[i] = Tr(isps[i], 0.0, isps[i]["v"], lims[i])
            cur[i].name = None
            out.count("initial transitions")
    inj = nv - 1
    fixed = rng.random() < 0.3
    dt0 = rng.choice([0.005, 0.01, 0.05, 0.1, 0.2])
    pos = 0
    for step in range(rng.choice([120, 250, 400])):
        dt = dt0 if fixed else rng.choice([dt0, rng.uniform(0.001, 0.02), rng.uniform(0.02, 0.3), dt0])
        injected = None
        if withinj and rng.random() < 0.03:
            sp = rnd_spec(rng, 0, nv)
            l.SE_InjectSpeedAction(es.SpeedAction(ids[inj], sp["v"], SHAPE_ENUM[sp["shape"]], DIM_ENUM[sp["dim"]], sp["value"]))
            injected = (inj, sp)
        se.step(dt)
        evs = [e for e in se.events[pos:] if e[0] == "sb" and e[4] == 7]
        pos = len(se.events)
        sts = [se.state(i) for i in ids]
        if any(not 100 < q.s < 5900 for q in sts):
            break
        v = [q.speed for q in sts]
        ended = {}
        overridden = {}
        ref = {}
        for i in range(nv):
            if cur[i]:
                cur[i].t += dt
        for e in evs:
            nm = e[3]
            if nm not in specs:
                continue
            i, sp = specs[nm]
            if e[5] == 2:
                tgt = sp["v"]
                if "ref" in sp:
                    tgt = v[0] + sp["v"] if sp["kind"] == "delta" else v[0] * sp["v"]
                # an earlier action of the same step may already have changed the speed
                b0 = want[i] if i in ref else prev[i]
                loose = i in ref and moving and (cur[i].loose or "ref" in cur[i].sp)     # after an action with moving target in the same step
                cur[i] = Tr(sp, b0, tgt, lims[i])
                cur[i].loose = loose
                if cur[i].T < SMALL:
                    want[i] = cur[i].v1
                else:
                    want[i] = b0
                ref[i] = True
                ended.pop(nm, None)
                # whatever ran on this object was stopped by this one
                for n2, (i2, _) in specs.items():
                    if i2 == i and n2 != nm:
                        overridden[n2] = True
                cur[i].t = dt
                cur[i].name = nm
                out.count("actions started")
            elif e[5] == 3:
                ended[nm] = True
                out.count("actions ended")
        if injected:
            i, sp = injected
            # a running injected action takes its step before it is replaced
            b0 = cur[i].at(cur[i].t) if cur[i] else prev[i]
            if cur[i] and (cur[i].loose or not cur[i].judged):
                b0 = None
            cur[i] = Tr(sp, prev[i] if b0 is None else b0, sp["v"], lims[i])
            cur[i].loose = b0 is None
            cur[i].t = 0.0          # injected actions are started after the storyboard's step
            cur[i].name = None
            out.count("actions injected")
        stable = stable + dt if v[0] == prev[0] else 0.0
        for i in range(nv):
            c = cur[i]
            d = lambda: f"o{i} at step {step} (t={se.time():.4f} dt={dt}): speed {v[i]!r} (before {prev[i]!r}); " + (f"transition {c.sp} from {c.v0} to {c.v1} T={c.T} D={c.D} t={c.t} gives {c.at(c.t)} limits {lims[i]}" if c else f"no action, expected {want[i]!r}")  # noqa
            out.check(math.isfinite(v[i]) and abs(v[i]) <= lims[i]["vmax"] + 1e-6, "max-speed", d)
            if c is None:
                out.check(abs(v[i] - want[i]) < 1e-6, "kept", d)
                continue
            if c.loose:
                want[i] = v[i]
                if c.name in ended:
                    cur[i] = None
                elif c.name is None and c.t == 0.0 and c.T >= SMALL:
                    cur[i] = Tr(c.sp, v[i], c.raw, lims[i])      # judged from here on
                    cur[i].name = None
                out.count("steps not judged")
                continue
            if "ref" in c.sp and (moving or c.sp["cont"]):
                def tgt(vr):
                    q = vr + c.sp["v"] if c.sp["kind"] == "delta" else vr * c.sp["v"]
                    return max(-lims[i]["vmax"], min(lims[i]["vmax"], q))
                tg = [tgt(v[0]), tgt(prev[0])]
                if c.T >= SMALL:
                    a = (v[i] - (c.v0 if c.t == dt else prev[i])) / dt
                    out.check(-lims[i]["dec"] - 1e-3 <= a <= lims[i]["acc"] + 1e-3, "acc-limit-relative", d)
                done = c.name in ended
                if c.sp["cont"]:
                    if not overridden.get(c.name):
                        out.check(not done, "continuous-ended", d)
                    c.dv = max(getattr(c, "dv", 0), max(abs(q - c.v0) for q in tg))
                    m = min(lims[i]["acc"], lims[i]["dec"])
                    if c.sp["dim"] != "distance" and c.t > c.D + 4 * c.dv / min(m, c.sp["value"] if c.sp["dim"] == "rate" else m) + 2 * c.sp["value"] * (c.sp["dim"] == "time") \
                            and stable > 2 * 130 / m:
                        out.check(abs(v[i] - tg[0]) < 1e-5, "continuous", lambda: d() + f" reference {v[0]}")
                        out.count("continuous speed relations judged")
                        out.fp("cont", c.sp["shape"], c.sp["dim"], c.sp["kind"], tg[0] > 0, moving)
                elif done:
                    out.check(min(abs(v[i] - q) for q in tg) < 1e-5, "target-relative", lambda: d() + f" reference {v[0]} (before {prev[0]})")
                    out.fp("rel", c.sp["shape"], c.sp["dim"], c.sp["kind"], tg[0] > 0, moving)
                want[i] = v[i]
                if done:
                    cur[i] = None
                continue
            lo, hi = min(c.v0, c.v1), max(c.v0, c.v1)
            out.check(lo - 1e-6 <= v[i] <= hi + 1e-6, "overshoot", d)
            if c.T >= SMALL:
                a = (v[i] - (c.v0 if c.t == dt else prev[i])) / dt
                out.check(-lims[i]["dec"] - 1e-3 <= a <= lims[i]["acc"] + 1e-3, "acc-limit", d)
            done = (c.name in ended) if c.name else c.t > c.D
            if c.judged:
                out.check(abs(v[i] - c.at(c.t)) < 1e-5 + 2e-6 * abs(c.v1 - c.v0) / max(c.D, 1e-3), "shape", d)
                if abs(c.t - c.D) > 1e-4:
                    out.check(done == (c.t > c.D), "completion", lambda: d() + f" done={done}")
            if done:
                out.check(abs(v[i] - c.v1) < 1e-6, "target", d)
                want[i] = c.v1
                out.fp(c.sp["shape"], c.sp["dim"], c.sp.get("kind"), c.v0 > 0, c.v0 < 0, c.v1 > 0, c.v1 < 0, c.v1 > c.v0, c.limited, c.v1 != c.raw, c.name is None)
                cur[i] = None
            else:
                want[i] = v[i]
        prev = v
    out.sample(f"{nv} vehicles, {len(specs)} declared actions, {step + 1} steps")
    se.close()
