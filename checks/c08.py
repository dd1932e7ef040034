"""C08: triggers fire exactly when their condition logic says so."""
import ctypes as C
import math
import random

import es
import scn

PID = "C08"
LEVEL = "exploration"
RULE = ("vehicles on chains of straight roads drive, brake, stop, change lanes and collide while probe acts and events wait on random triggers (groups of one to three conditions of "
        "every kind, any/all entities, rules, edges, delays, repeated executions, act start and stop triggers, variables and parameters changed through the API and by actions); an "
        "online monitor evaluates the same conditions, three-valued, on the state the API reported before each step and predicts for each armed trigger and step whether it fires; "
        "one evaluation = one prediction compared with the life-cycle callbacks; distinct = condition kinds of the trigger x edges x delays x predicted value")
ASSUMPTIONS = ["values within rounding distance of their threshold are not judged",
               "headway and time-to-collision are false where undefined (target behind, not moving, moving apart)",
               "an edge needs an earlier evaluation since the trigger was armed; a delay looks at the evaluations since then"]
SMALL = 1e-6
RULES = ["greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "equalTo", "notEqualTo"]
KINDS = ["time", "speed", "acc", "relspeed", "dist", "reldist", "headway", "ttc", "travel", "still", "coll", "reach", "param", "var", "state", "angle"]


def cases(rng, tier):
    n = {"quick": 2200, "thorough": 14000}[tier]
    return [{"id": f"t{i}", "seed": rng.getrandbits(48)} for i in range(n)]


# ------------------------------------------------------------------ three-valued logic

def t_and(vs):
    r = True
    for v in vs:
        if v is False:
            return False
        if v is None:
            r = None
    return r


def t_or(vs):
    r = False
    for v in vs:
        if v is True:
            return True
        if v is None:
            r = None
    return r


def cmp(a, b, rule, m=3e-6):
    """m: how far a may be off"""
    d = a - b
    if abs(d) > m:
        return {"greaterThan": d > 0, "greaterOrEqual": d > 0, "lessThan": d < 0, "lessOrEqual": d < 0, "equalTo": False, "notEqualTo": True}[rule]
    if d == 0.0 and m <= 3e-6:
        return {"greaterThan": False, "greaterOrEqual": True, "lessThan": False, "lessOrEqual": True, "equalTo": True, "notEqualTo": False}[rule]
    return None


def cmp_exact(a, b, rule):
    return {"greaterThan": a > b, "greaterOrEqual": a >= b, "lessThan": a < b, "lessOrEqual": a <= b, "equalTo": a == b, "notEqualTo": a != b}[rule]


# ------------------------------------------------------------------ geometry

class Ob:
    pass


def corners(o):
    c, s = math.cos(o.h), math.sin(o.h)
    return [(o.x + c * px - s * py, o.y + s * px + c * py) for px, py in ((o.cx + a * o.l / 2, o.cy + b * o.w / 2) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1)))]


def sat_gap(a, b):
    """largest separation over the axes of two boxes: > 0 apart, < 0 overlapping"""
    ca, cb = corners(a), corners(b)
    best = -1e9
    for h in (a.h, a.h + math.pi / 2, b.h, b.h + math.pi / 2):
        ux, uy = math.cos(h), math.sin(h)
        pa, pb = [x * ux + y * uy for x, y in ca], [x * ux + y * uy for x, y in cb]
        best = max(best, min(pb) - max(pa), min(pa) - max(pb))
    return best


def pt_seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    q = dx * dx + dy * dy
    u = 0.0 if q == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / q))
    return math.hypot(p[0] - a[0] - u * dx, p[1] - a[1] - u * dy)


def box_dist(ca, cb):
    return min(min(pt_seg(p, cb[k], cb[(k + 1) % len(cb)]) for p in ca for k in range(len(cb))), min(pt_seg(p, ca[k], ca[(k + 1) % len(ca)]) for p in cb for k in range(len(ca))))


def gap(pa, pb):
    """signed gap between intervals, 0 when they overlap"""
    if min(pb) > max(pa):
        return min(pb) - max(pa)
    if max(pb) < min(pa):
        return max(pb) - min(pa)
    return 0.0


def distance(a, b, cs, typ, free):
    """signed distance from object a to b (an object or a point (x, y)); None when not judged"""
    pt = isinstance(b, tuple)
    bx, by = b if pt else (b.x, b.y)
    c, s = math.cos(a.h), math.sin(a.h)
    if not free:
        lx, ly = c * (bx - a.x) + s * (by - a.y), -s * (bx - a.x) + c * (by - a.y)
        if typ == "euclidianDistance":
            return math.copysign(math.hypot(lx, ly), lx)
        if cs == "entity":
            return lx if typ == "longitudinal" else ly
        sg = 1 if c > 0 else -1
        return (bx - a.x) * sg if typ == "longitudinal" else (by - a.y) * sg
    ca, cb = corners(a), ([b] if pt else corners(b))
    if not pt:
        g = sat_gap(a, b)
        if abs(g) < 1e-3:
            return None
        if g < 0:
            return 0.0
    loc = lambda ps: [(c * (x - a.x) + s * (y - a.y), -s * (x - a.x) + c * (y - a.y)) for x, y in ps]   # noqa
    la, lb = loc(ca), loc(cb)
    if typ == "euclidianDistance":
        if pt:
            inside = abs(lb[0][0] - a.cx) < a.l / 2 and abs(lb[0][1] - a.cy) < a.w / 2
            d = 0.0 if inside else min(pt_seg(cb[0], ca[k], ca[(k + 1) % 4]) for k in range(4))
        else:
            d = box_dist(ca, cb)
        g = gap([p[0] for p in la], [p[0] for p in lb])
        return math.copysign(d, g) if g else d
    k = 0 if typ == "longitudinal" else 1
    if cs == "entity":
        return gap([p[k] for p in la], [p[k] for p in lb])
    if k == 1 and len(a.co | (set() if pt else b.co)) > 1:
        # lateral free space over roads of opposite direction: esmini decides the sign by the lane of each corner, which fails for
        # corners outside of the linked lanes. Not judged.
        return None
    sg = 1 if c > 0 else -1
    return gap([p[k] for p in ca], [p[k] for p in cb]) * sg


# ------------------------------------------------------------------ conditions

def rnd_cond(rng, W, nm):
    k = rng.choice(W["kinds"])
    c = dict(kind=k, name=nm, edge=rng.choice(["none", "none", "none", "rising", "falling", "risingOrFalling"]), delay=rng.choice([0.0, 0.0, 0.0, rng.uniform(0.05, 2.0), W["dt"] * rng.randint(1, 5)]),
             rule=rng.choice(RULES[:4] * 3 + RULES[4:]))
    c["ents"] = rng.sample(range(W["nv"]), rng.choice([1, 1, 2, min(3, W["nv"])]))
    c["all"] = rng.random() < 0.5
    if k == "time":
        c["v"] = rng.uniform(0, W["T"])
    elif k == "speed":
        c["v"] = rng.choice([rng.uniform(0, 25), 0.0])
        c["dir"] = rng.choice([None, None, "longitudinal", "lateral", "vertical"])
        if c["dir"] == "lateral":
            c["v"] = rng.uniform(-1.5, 1.5)
    elif k == "acc":
        c["v"] = rng.choice([rng.uniform(-6, 6), 0.0])
        c["dir"] = rng.choice([None, "longitudinal", "lateral", "vertical"])
    elif k == "relspeed":
        c["v"] = rng.uniform(-20, 20)
        c["dir"] = rng.choice([None, None, "longitudinal", "lateral"])
        c["ref"] = rng.randrange(W["nv"])
    elif k in ("dist", "reldist", "headway", "ttc"):
        c["free"] = rng.random() < 0.5
        c["cs"] = rng.choice(["entity", "road", "lane", None])
        c["typ"] = rng.choice(["longitudinal", "longitudinal", "lateral", "euclidianDistance", None]) if k in ("dist", "reldist") else rng.choice(["longitudinal", "longitudinal", None])
        if k == "dist":
            c["pos"] = W["pos"](rng)
        else:
            c["ref"] = rng.randrange(W["nv"])
            c["ents"] = [e for e in c["ents"] if e != c["ref"]] or [(c["ref"] + 1) % W["nv"]]
        c["v"] = rng.uniform(0, 60) if k in ("dist", "reldist") else rng.uniform(0, 6)
        if c["typ"] == "lateral":
            c["v"] = rng.uniform(0, 8)
    elif k == "travel":
        c["v"] = rng.uniform(0, 15 * W["T"])
    elif k == "still":
        c["v"] = rng.choice([0.0, rng.uniform(0, 3)])
    elif k == "coll":
        c["ref"] = rng.choice([None, rng.randrange(W["nv"])])
        if c["ref"] is not None:
            c["ents"] = [e for e in c["ents"] if e != c["ref"]] or [(c["ref"] + 1) % W["nv"]]
    elif k == "reach":
        c["pos"] = W["pos"](rng)
        c["v"] = rng.choice([rng.uniform(0.5, 5), rng.uniform(5, 30)])
        c["ori"] = rng.choice([None, None, 0.0, math.pi, rng.uniform(-0.2, 0.2), 2 * math.pi, -0.03])
    elif k == "angle":
        c["typ"] = rng.choice(["heading", "heading", "pitch", "roll"])
        c["cs"] = rng.choice(["world", "road", "lane", None])
        c["v"] = rng.choice([0.0, math.pi, -math.pi, 6.28, rng.uniform(-0.3, 0.3), rng.uniform(-4, 4)])
        c["tol"] = rng.choice([rng.uniform(0.005, 0.3), rng.uniform(0.005, 3)])
    elif k in ("param", "var"):
        c["ref"] = rng.choice(list(W[k]))
        typ = W[k][c["ref"]]
        c["v"] = W["val"](rng, typ)
        c["edge"] = rng.choice(["none", "rising", "falling", "risingOrFalling"])
    elif k == "state":
        c["ref"], c["typ"] = rng.choice(W["targets"])
        c["state"] = rng.choice(["completeState", "runningState", "standbyState", "startTransition", "endTransition", "stopTransition"])
    return c


def cond_xml(c, W):
    k = c["kind"]
    e = [f"o{i}" for i in c["ents"]]
    be = lambda body: scn.by_entity(e, body, "all" if c["all"] else "any")  # noqa
    el = scn.el
    free = "true" if c.get("free") else "false"
    if k == "time":
        b = scn.simtime(c["v"], c["rule"])
    elif k == "speed":
        b = be(el("SpeedCondition", value=c["v"], rule=c["rule"], direction=c["dir"]))
    elif k == "acc":
        b = be(el("AccelerationCondition", value=c["v"], rule=c["rule"], direction=c["dir"]))
    elif k == "relspeed":
        b = be(el("RelativeSpeedCondition", entityRef=f"o{c['ref']}", value=c["v"], rule=c["rule"], direction=c["dir"]))
    elif k == "dist":
        b = be(el("DistanceCondition", scn.position(scn.lanepos(*c["pos"][:4])), value=c["v"], rule=c["rule"], freespace=free, coordinateSystem=c["cs"], relativeDistanceType=c["typ"]))
    elif k == "reldist":
        b = be(el("RelativeDistanceCondition", entityRef=f"o{c['ref']}", value=c["v"], rule=c["rule"], freespace=free, coordinateSystem=c["cs"], relativeDistanceType=c["typ"]))
    elif k == "headway":
        b = be(el("TimeHeadwayCondition", entityRef=f"o{c['ref']}", value=c["v"], rule=c["rule"], freespace=free, coordinateSystem=c["cs"], relativeDistanceType=c["typ"]))
    elif k == "ttc":
        b = be(el("TimeToCollisionCondition", el("TimeToCollisionConditionTarget", el("EntityRef", entityRef=f"o{c['ref']}")), value=c["v"], rule=c["rule"], freespace=free,
                  coordinateSystem=c["cs"], relativeDistanceType=c["typ"]))
    elif k == "travel":
        b = be(el("TraveledDistanceCondition", value=c["v"]))
    elif k == "still":
        b = be(el("StandStillCondition", duration=c["v"]))
    elif k == "coll":
        b = be(el("CollisionCondition", el("ByType", type="vehicle") if c["ref"] is None else el("EntityRef", entityRef=f"o{c['ref']}")))
    elif k == "reach":
        o = "" if c["ori"] is None else scn.orient(h=c["ori"])
        b = be(el("ReachPositionCondition", scn.position(scn.lanepos(*c["pos"][:4], o)), tolerance=c["v"]))
    elif k == "angle":
        b = be(el("AngleCondition", angle=c["v"], angleTolerance=c["tol"], angleType=c["typ"], coordinateSystem=c["cs"]))
    elif k == "param":
        b = scn.by_value(el("ParameterCondition", parameterRef=c["ref"], value=txt(c["v"]), rule=c["rule"]))
    elif k == "var":
        b = scn.by_value(el("VariableCondition", variableRef=c["ref"], value=txt(c["v"]), rule=c["rule"]))
    elif k == "state":
        b = scn.by_value(el("StoryboardElementStateCondition", storyboardElementRef=c["ref"], storyboardElementType=c["typ"], state=c["state"]))
    return scn.cond(b, c["name"], c["edge"], c["delay"])


def txt(v):
    return "true" if v is True else "false" if v is False else v


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def truth(c, S, W):
    """S: snapshot before the step"""
    k = c["kind"]
    if k == "time":
        return cmp(S["t"], c["v"], c["rule"])
    if k in ("param", "var"):
        a = S[k].get(c["ref"])
        if a is None:
            return None
        if isinstance(a, float):
            return cmp(a, c["v"], c["rule"])
        return cmp_exact(a, c["v"], c["rule"])
    if k == "state":
        return c["st"]
    out = []
    for i in c["ents"]:
        o = S["o"][i]
        b = S["o"][c["ref"]] if isinstance(c.get("ref"), int) else None
        v = None
        if S["moved"] and k not in ("travel", "still"):
            pass
        elif k == "speed":
            a = {None: o.speed, "longitudinal": o.vl, "lateral": o.vt, "vertical": o.vz}[c["dir"]]
            v = cmp(a, c["v"], c["rule"])
        elif k == "acc":
            a = {None: o.acc, "longitudinal": o.al, "lateral": o.at, "vertical": o.az}[c["dir"]]
            v = cmp(a, c["v"], c["rule"])
        elif k == "relspeed":
            if c["dir"] is None:
                a = o.speed - b.speed
            else:
                ch, sh = math.cos(b.h), math.sin(b.h)
                a = (ch * o.vx + sh * o.vy) - b.vl if c["dir"] == "longitudinal" else (-sh * o.vx + ch * o.vy) - b.vt
            v = cmp(a, c["v"], c["rule"])
        elif k in ("dist", "reldist"):
            cs, ty = c["cs"] or "entity", c["typ"] or "euclidianDistance"
            d = distance(o, b if k == "reldist" else c["pos"][4:6], cs, ty, c["free"])
            if ty != "euclidianDistance" and cs != "entity" and (not o.on or (b is not None and not b.on)):
                d = None
            v = None if d is None else cmp(abs(d), c["v"], c["rule"], 2e-3)
        elif k == "headway":
            cs, ty = c["cs"] or "entity", c["typ"] or "euclidianDistance"
            d = distance(o, b, cs, ty, c["free"])
            if not o.on or not b.on:
                d = None
            if o.speed < 1e-5:
                v = False if o.speed < 1e-7 else None
            elif d is None or (abs(d) < 2e-3 and d != 0.0):
                v = None
            elif d < 0:
                v = False
            else:
                v = cmp(d / o.speed, c["v"], c["rule"], 1e-5 + 2e-3 / o.speed)
        elif k == "ttc":
            cs, ty = c["cs"] or "entity", c["typ"] or "euclidianDistance"
            d = distance(o, b, cs, ty, c["free"])
            if not o.on or not b.on:
                d = None
            if d is None or abs(math.sin(o.h)) > 1e-4 or abs(math.sin(b.h)) > 1e-4 or any(abs(q.vy) > 1e-3 or abs(q.vl - q.speed) > 1e-3 for q in (o, b)) or (abs(d) < 2e-3 and d != 0.0):
                v = None
            else:
                fw = 1 if math.cos(o.h) > 0 else -1
                clos = (o.vx - b.vx) * fw      # closing speed when b is ahead
                if d == 0.0:
                    v = False if c["free"] else None
                elif abs(clos) < 1e-3 or 1e-8 < abs(b.speed) < 2e-3 or 1e-8 < abs(o.speed) < 2e-3:
                    v = None
                elif d / clos < 0:
                    v = False
                else:
                    v = cmp(d / clos, c["v"], c["rule"], 1e-4 + 2e-3 / abs(clos) + 1e-4 * d / clos)
        elif k == "travel":
            v = None if abs(o.odo - c["v"]) < 1e-6 else o.odo >= c["v"]
        elif k == "still":
            if o.still is None:
                v = False
            else:
                d, d1 = S["t"] - o.still[0], S["t"] - o.still[1]
                v = None if (abs(d - c["v"]) < 1e-6 or abs(d1 - c["v"]) < 1e-6 or (d > c["v"]) != (d1 > c["v"])) else d > c["v"]
        elif k == "coll":
            gs = [sat_gap(o, q) for j, q in enumerate(S["o"]) if j != i and (c["ref"] is None or j == c["ref"])]
            v = t_or([None if abs(g) < 1e-3 else g < 0 for g in gs])
            if c["ref"] is None and S["first"]:
                v = None        # collision detection is enabled after the initialization: no list of collisions before the first step
        elif k == "reach":
            d = math.hypot(o.x - c["pos"][4], o.y - c["pos"][5])
            v = None if abs(d - c["v"]) < 1e-3 else d < c["v"]
            if v and c["ori"] is not None:
                a = abs(wrap(o.h - c["pos"][6] - c["ori"]))
                v = None if abs(a - 0.05) < 1e-4 else a < 0.05
        elif k == "angle":
            a = o.h if c["typ"] == "heading" else 0.0
            if c["typ"] == "heading":
                if c["cs"] == "road":
                    a -= 0.0 if o.ro > 0 else math.pi
                elif c["cs"] == "lane":
                    a -= (0.0 if o.ro > 0 else math.pi) + (0.0 if (o.lane < 0) == (W["rule"] == "RHT") else math.pi)
            d = abs(wrap(a - c["v"]))
            v = None if abs(d - c["tol"]) < 1e-4 or not o.on else d < c["tol"]
        out.append(v)
    return t_and(out) if c["all"] else t_or(out)


class Cond:
    def __init__(self, c):
        self.c = c
        self.reset()

    def reset(self):
        self.hist = []       # (time, value)
        self.i = 0
        self.last = "unset"

    def eval(self, S, W):
        raw = truth(self.c, S, W)
        e = self.c["edge"]
        if e == "none":
            v = raw
        elif self.last == "unset":
            v = False
        elif raw is None or self.last is None:
            v = False if (e == "rising" and (raw is False or self.last is True)) or (e == "falling" and (raw is True or self.last is False)) else None
        else:
            v = {"rising": raw and not self.last, "falling": self.last and not raw, "risingOrFalling": raw != self.last}[e]
        self.last = raw
        t, dl = S["t"], self.c["delay"]
        self.hist.append((t, v))
        if dl == 0.0:
            return v
        # value at t - delay, or any rise since the last look
        res, near = None, False
        rose = []
        j = self.i
        while j < len(self.hist) and self.hist[j][0] <= t - dl + 2e-6:
            if abs(self.hist[j][0] - (t - dl)) < 2e-6 and abs(self.hist[j][0] - (t - dl)) > 5e-7:
                near = True
            rose.append(self.hist[j][1])
            j += 1
        if j < len(self.hist) and abs(self.hist[j][0] - (t - dl)) < 2e-6:
            near = True
        base = self.hist[self.i - 1][1] if self.i else "none"
        self.i = j
        if near:
            return None
        if not rose:
            return False if base == "none" else base
        res = rose[-1]
        prev = base
        for v1 in rose:
            if v1 is True and prev is not True:
                res = t_or([res, True if prev is False or prev == "none" else None])
            if v1 is None and prev is not True:
                res = t_or([res, None])
            prev = v1
        return res


class Trig:
    def __init__(self, groups):
        self.groups = [[Cond(c) for c in g] for g in groups]

    def reset(self):
        for g in self.groups:
            for c in g:
                c.reset()

    def eval(self, S, W):
        return t_or([t_and([c.eval(S, W) for c in g]) for g in self.groups])

    def fired(self):
        for g in self.groups:
            for c in g:
                c.last = "unset"

    def text(self):
        return " OR ".join(" AND ".join(f"{c.c} raw={c.last} hist={c.hist[-3:]}" for c in g) for g in self.groups)


def rnd_trig(rng, W, nm):
    return [[rnd_cond(rng, W, f"{nm}_{g}_{k}") for k in range(rng.choice([1, 1, 1, 2, 2, 3]))] for g in range(rng.choice([1, 1, 1, 2]))]


VALS = {"integer": [0, 1, 2, 3, -1], "double": [0.0, 1.5, 2.5, -3.25], "string": ["a", "b", "abc", "zz"], "boolean": [True, False]}
SETTER = {"integer": "Int", "double": "Double", "string": "String", "boolean": "Bool"}
CT = {"integer": C.c_int, "double": C.c_double, "string": C.c_char_p, "boolean": C.c_bool}


def read_all(l, table, what):
    out = {}
    for n, ty in table.items():
        v = CT[ty]()
        rc = getattr(l, f"SE_Get{what}{SETTER[ty]}")(n.encode(), C.byref(v))
        out[n] = (v.value.decode() if ty == "string" and v.value is not None else v.value) if rc == 0 else None
    return out


def run(case, out, l):
    rng = random.Random(case["seed"])
    ch = scn.Chain(rng, n=rng.randint(1, 3), rule=rng.choice(["RHT", "LHT"]), lmin=rng.choice([80.0, 300.0]), lmax=500.0)
    xml = ch.xml()
    open("net.xodr", "w").write(xml)
    out.art("net.xodr", xml)
    nv = rng.randint(2, 4)
    dt0 = rng.choice([0.01, 0.05, 0.1, 0.2])
    fixed = rng.random() < 0.6
    nst = rng.choice([80, 150, 220])
    T = dt0 * nst
    xc = ch.x0 + (ch.x1 - ch.x0) * rng.uniform(0.4, 0.6)
    lanes = [j for j in range(-ch.n, ch.n + 1) if j]

    def pos(r_):
        x = min(max(xc + r_.uniform(-60, 60), ch.x0 + 6), ch.x1 - 6)
        r, s, _ = ch.loc(x, 0)
        ln = r_.choice(lanes)
        off = r_.choice([0.0, r_.uniform(-1, 1)])
        h = (0.0 if r["o"] > 0 else math.pi) + (0.0 if (ln < 0) == (ch.rule == "RHT") else math.pi)
        return (r["id"], ln, s, off, x, ch.lane_y(r, ln, off), h)

    W = dict(nv=nv, T=T, dt=dt0, pos=pos, rule=ch.rule, kinds=KINDS if rng.random() < 0.5 else rng.sample(KINDS, 4),
             param={f"p{i}": ty for i, ty in enumerate(VALS)}, var={f"v{i}": ty for i, ty in enumerate(VALS)},
             val=lambda r_, ty: r_.choice(VALS[ty]), targets=[])
    decl = {n: rng.choice(VALS[ty]) for n, ty in list(W["param"].items()) + list(W["var"].items())}
    params = "<ParameterDeclarations>" + "".join(scn.el("ParameterDeclaration", name=n, parameterType=ty, value=txt(decl[n])) for n, ty in W["param"].items()) + "</ParameterDeclarations>"
    variables = "<VariableDeclarations>" + "".join(scn.el("VariableDeclaration", name=n, variableType=ty, value=txt(decl[n])) for n, ty in W["var"].items()) + \
        "".join(scn.el("VariableDeclaration", name=n, variableType="integer", value=0) for n in ("mk", "pr")) + "</VariableDeclarations>"
    ents, init, evs, sizes = [], [], [], []
    for i in range(nv):
        bb = dict(cx=rng.uniform(0, 2), cy=rng.choice([0.0, 0.2]), w=rng.uniform(1.6, 2.4), l=rng.uniform(3.5, 7))
        ents.append(scn.vehicle(f"o{i}", bb))
        p = pos(rng)
        init.append(scn.private(f"o{i}", scn.teleport(scn.lanepos(*p[:4])), scn.speed_abs(rng.choice([0.0, rng.uniform(0, 20), rng.uniform(5, 25)]))))
    # what drives the state
    groups = []
    for i in range(nv):
        es_ = []
        for k in range(rng.randint(0, 3)):
            a = rng.random()
            if a < 0.55:
                act_ = scn.speed_abs(rng.choice([0.0, rng.uniform(0, 20), rng.uniform(-3, 0)]), rng.choice(["linear", "sinusoidal", "step", "cubic"]), rng.uniform(0.2, 3), "time")
            elif a < 0.8:
                act_ = scn.lane_change(rng.choice(lanes), "sinusoidal", rng.uniform(1, 3), "time")
            else:
                act_ = scn.variable_set(rng.choice(["v0", "v1"]), rng.choice([0, 1, 2, 3]))
            nm = f"{i}_{k}"
            es_.append(scn.event(f"e{nm}", [scn.action(f"a{nm}", act_)], scn.trigger("StartTrigger", [scn.cond(scn.simtime(rng.uniform(0, 0.8 * T)), f"d{nm}")]), rng.choice(["parallel", "override"]), rng.choice([1, 1, 2])))
            W["targets"] += [(f"e{nm}", "event"), (f"a{nm}", "action")]
        if es_:
            groups.append(scn.group(f"g{i}", [f"o{i}"], [scn.maneuver(f"m{i}", es_)]))
            W["targets"] += [(f"g{i}", "maneuverGroup"), (f"m{i}", "maneuver")]
    if not groups:
        W["kinds"] = [k for k in W["kinds"] if k != "state"] or ["time"]
    else:
        W["targets"] += [("drv", "act")] * 2
    stories = []
    if groups:
        stories.append(scn.story("sdrv", [scn.act("drv", groups, scn.always(), rng.choice(["", scn.trigger("StopTrigger", [scn.cond(scn.simtime(rng.uniform(0.3 * T, T)), "dstop")])]))]))
    never = scn.event("nev", [scn.action("nact", scn.variable_set("pr", 1))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(1e9), "nc")]))
    stories.append(scn.story("smk", [scn.act("mka", [scn.group("mkg", [], [scn.maneuver("mkm", [scn.event(
        "mke", [scn.action("mkx", scn.variable_set("mk", 1))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(-1.0), "mkc")]), "parallel", 1000000)])])], scn.always())]))
    probes = []     # (kind, name, act, Trig)
    acts = []
    for a in range(rng.randint(1, 3)):
        an = f"pa{a}"
        plain = rng.random() < 0.6
        st = [[dict(kind="time", name=f"{an}s", edge="none", delay=0.0, rule="greaterThan", v=0.001 + rng.choice([0.0, rng.uniform(0, T / 2)]), ents=[], all=False)]] if plain else rnd_trig(rng, W, an + "s")
        probes.append(("start", an, an, Trig(st)))
        sp = None
        if rng.random() < 0.4:
            sp = rnd_trig(rng, W, an + "x")
            probes.append(("stop", an, an, Trig(sp)))
        evl = []
        for k in range(rng.randint(1, 3)):
            tg = rnd_trig(rng, W, f"{an}e{k}")
            cnt = rng.choice([1, 1, 2, 3])
            evl.append(scn.event(f"{an}e{k}", [scn.action(f"{an}a{k}", scn.variable_set("pr", 1))], scn.trigger("StartTrigger", *[[cond_xml(c, W) for c in g] for g in tg]), "parallel", cnt))
            probes.append(("event", f"{an}e{k}", an, Trig(tg)))
        acts.append(scn.act(an, [scn.group(f"{an}g", [], [scn.maneuver(f"{an}m", evl), scn.maneuver(f"{an}n", [never])])], scn.trigger("StartTrigger", *[[cond_xml(c, W) for c in g] for g in st]),
                            scn.trigger("StopTrigger", *[[cond_xml(c, W) for c in g] for g in sp]) if sp else ""))
    stories.append(scn.story("sprb", acts))
    x = scn.scenario("net.xodr", ents, init, stories, params=params, variables=variables)
    out.art("scn.xosc", x)
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    if rng.random() < 0.3:
        l.SE_CollisionDetection(True)
    ids = [l.SE_GetIdByName(f"o{i}".encode()) for i in range(nv)]
    still = [None] * nv

    def snap():
        S = {"t": se.time(), "o": [], "param": read_all(l, W["param"], "Parameter"), "var": read_all(l, W["var"], "Variable")}
        for i, oid in enumerate(ids):
            q, o = se.state(oid), Ob()
            o.x, o.y, o.h, o.speed, o.lane = q.x, q.y, q.h, q.speed, q.laneId
            o.cx, o.cy, o.l, o.w = q.centerOffsetX, q.centerOffsetY, q.length, q.width
            o.vx, o.vy, o.vz = se.vec("SE_GetObjectVelocityGlobalXYZ", oid)
            o.vl, o.vt = o.vx * math.cos(o.h) + o.vy * math.sin(o.h), -o.vx * math.sin(o.h) + o.vy * math.cos(o.h)
            _, _, o.az = se.vec("SE_GetObjectAccelerationGlobalXYZ", oid)
            o.at, o.al = se.vec("SE_GetObjectAccelerationLocalLatLong", oid, 2)
            o.acc = l.SE_GetObjectAcceleration(oid)
            o.odo = l.SE_GetObjectOdometer(oid)
            if abs(q.speed) < 1e-3:
                still[i] = (S["t"], S["t"]) if still[i] is None else (0.0, S["t"]) if still[i] == (0.0, 0.0) else still[i]
            else:
                still[i] = None
            o.still = still[i]
            o.ro = ch.road_at(q.x)["o"]
            o.co = {ch.road_at(x)["o"] for x, _ in corners(o)}
            o.on = ch.x0 + 10 < q.x < ch.x1 - 10
            S["o"].append(o)
        return S

    armed = {}       # probe index -> first frame it is evaluated in
    status = {}      # element -> state
    for i, (kind, nm, an, tg) in enumerate(probes):
        if kind == "start":
            armed[i] = 0
    tstate = {}          # target -> (state, list of changes since last marker)
    tnew = {}
    ACTN = {"event": 6, "action": 7, "maneuverGroup": 4, "maneuver": 5, "act": 3}
    SN = {"standbyState": 1, "runningState": 2, "completeState": 3}
    kinds_of = {(n, ACTN[t]): n for n, t in W["targets"]}
    for step in range(-1, nst):
        if step >= 0:
            for _ in range(rng.choice([0, 0, 1])):
                what = rng.choice(["Parameter", "Variable"])
                n, ty = rng.choice(list(W["param" if what == "Parameter" else "var"].items()))
                v = rng.choice(VALS[ty])
                getattr(l, f"SE_Set{what}{SETTER[ty]}")(n.encode(), v.encode() if ty == "string" else v)
            S = snap()
            p0 = len(se.events)
            dt = dt0 if fixed else rng.choice([dt0, rng.uniform(0.3, 1.7) * dt0])
            se.step(dt)
        else:
            S, p0 = None, 0
        evs = [e for e in se.events[p0:] if e[0] == "sb"]
        if S:
            aft = read_all(l, W["var"], "Variable")
            for n in aft:
                if aft[n] != S["var"][n]:
                    S["var"][n] = None
        frame = step + 1
        # state changes of the targets before and after the probes' turn
        mk = next((k for k, e in enumerate(evs) if e[3] == "mke" and e[5] == 2), None)
        before = evs[:mk] if mk is not None else []
        # evaluate
        chg = {}
        for e in before:
            if (e[3], e[4]) in kinds_of:
                chg.setdefault(e[3], []).append(e[5])
        acted = {(e[3], e[5]) for e in evs}
        if S:
            S["first"] = step == 0
            S["moved"] = any(e[4] == 7 and e[5] == 2 for e in before)     # an action that started (and another that it ended) earlier in the same pass may have set speed or heading
        for i, (kind, nm, an, tg) in enumerate(probes):
            if i not in armed and kind == "event" and (nm, 1) in acted and status.get(nm, 0) == 0:
                armed[i] = frame
            if i not in armed or frame < armed[i]:
                continue
            if kind == "event" and (an, 3) in acted:
                armed.pop(i)
                continue
            fired = {"start": (an, 2) in acted, "stop": (an, 3) in acted, "event": (nm, 2) in acted}[kind]
            if S is None:
                pred = None
                for g in tg.groups:
                    for c in g:
                        c.last = None
                        c.hist.append((0.0, None))
            else:
                for g in tg.groups:
                    for c in g:
                        if c.c["kind"] == "state":
                            c.c["st"] = state_truth(c, SN, tstate, tnew, chg)
                pred = tg.eval(S, W)
            if pred is None:
                out.count("predictions undecided")
            else:
                out.need(pred == fired, ("late-" if pred else "early-") + "-".join(sorted({c.c["kind"] for g in tg.groups for c in g})), lambda: f"{kind} trigger of {nm} at step {step} (t={S['t']:.4f}) {'fired' if fired else 'did not fire'}, expected {pred}: {tg.text()}")
                if pred or not fired:
                    ck = tuple(sorted(f"{c.c['kind']}{c.c['edge'][:1]}{c.c['delay'] > 0}{len(c.c['ents']) > 1 and c.c['all']}" for g in tg.groups for c in g))
                    out.fp(kind, ck, pred)
                    if pred:
                        out.count(f"fired {kind}")
            for g in tg.groups:
                for c in g:
                    if c.c["kind"] == "state":
                        c.seen = True
            if fired:
                tg.fired()
                armed.pop(i)
                if kind == "start":
                    for j, (k2, n2, a2, t2) in enumerate(probes):
                        if k2 == "stop" and a2 == an:
                            armed[j] = frame + 1
                if kind == "event":
                    last = [e[5] for e in evs if e[3] == nm][-1]
                    if last == 1:
                        tg.reset()
                        armed[i] = frame + 1
        for e in evs:
            status[e[3]] = e[5]
        # bookkeeping of the targets: changes since the probes' turn
        tnew = {}
        for k, e in enumerate(evs):
            if (e[3], e[4]) in kinds_of:
                tstate[e[3]] = e[5]
                if mk is None or k > mk:
                    tnew.setdefault(e[3], []).append(e[5])
    out.sample(f"{nv} vehicles, {len(probes)} probes, {nst} steps of {dt0}")
    se.close()


def state_truth(c, SN, tstate, tnew, chg):
    """value of a storyboard state condition: c evaluated in every step since it was armed"""
    n, want = c.c["ref"], c.c["state"]
    changes = tnew.get(n, []) + chg.get(n, [])
    cur = changes[-1] if changes else tstate.get(n, 0)
    first = not c.hist
    if want in SN:
        if cur == SN[want]:
            return True
        return None if SN[want] in changes or first or (changes and c.last is None) else False
    if first:
        return None
    if not changes:
        return False
    # which transition: running = start; complete or standby after running = end or stop
    if want == "startTransition":
        return True if 2 in changes else False
    if 3 in changes or 1 in changes:
        return None
    return False
