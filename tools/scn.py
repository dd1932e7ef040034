"""Small builders for OpenSCENARIO text."""


def f(v):
    return repr(float(v)) if isinstance(v, float) else str(v)


def at(**kw):
    return "".join(f' {k.rstrip("_")}="{f(v)}"' for k, v in kw.items() if v is not None)


def el(name, /, *body, **kw):
    b = "".join(body)
    return f"<{name}{at(**kw)}>{b}</{name}>" if b else f"<{name}{at(**kw)}/>"


# ---------------------------------------------------------------- entities

def bbox(cx=1.4, cy=0.0, cz=0.75, w=2.0, l=5.0, h=1.5):  # noqa
    return el("BoundingBox", el("Center", x=cx, y=cy, z=cz), el("Dimensions", width=w, length=l, height=h))


def vehicle(name, bb=None, vmax=69.0, acc=200.0, dec=10.0, cat="car", props=None, ctrl="", axles=None, extra=""):
    pr = "".join(el("Property", name=k, value=v) for k, v in (props or {}).items())
    ax = axles if axles is not None else el("Axles", el("FrontAxle", maxSteering=0.5, wheelDiameter=0.6, trackWidth=1.8, positionX=2.8, positionZ=0.3),
                                           el("RearAxle", maxSteering=0.0, wheelDiameter=0.6, trackWidth=1.8, positionX=0.0, positionZ=0.3))
    return el("ScenarioObject", el("Vehicle", "<ParameterDeclarations/>", el("Performance", maxSpeed=vmax, maxAcceleration=acc, maxDeceleration=dec),
                                   bbox(**(bb or {})), ax, "<Properties>" + pr + "</Properties>", extra, name=name + "_t", vehicleCategory=cat), ctrl, name=name)


def pedestrian(name, bb=None, cat="pedestrian", props=None):
    pr = "".join(el("Property", name=k, value=v) for k, v in (props or {}).items())
    return el("ScenarioObject", el("Pedestrian", "<ParameterDeclarations/>", bbox(**(bb or dict(cx=0.0, cz=0.9, w=0.5, l=0.6, h=1.8))), "<Properties>" + pr + "</Properties>",
                                   name=name + "_t", mass=80, model="ped", pedestrianCategory=cat), name=name)


def misc(name, bb=None, cat="obstacle", props=None):
    pr = "".join(el("Property", name=k, value=v) for k, v in (props or {}).items())
    return el("ScenarioObject", el("MiscObject", "<ParameterDeclarations/>", bbox(**(bb or dict(cx=0.0, cz=0.5, w=1.0, l=1.0, h=1.0))), "<Properties>" + pr + "</Properties>",
                                   name=name + "_t", mass=80, miscObjectCategory=cat), name=name)


# ---------------------------------------------------------------- positions

def orient(h=0.0, p=0.0, r=0.0, rel=True):
    return el("Orientation", h=h, p=p, r=r, type="relative" if rel else "absolute")


def lanepos(road, lane, s, offset=0.0, o=""):
    return el("LanePosition", o, roadId=road, laneId=lane, s=s, offset=offset)


def roadpos(road, s, t, o=""):
    return el("RoadPosition", o, roadId=road, s=s, t=t)


def worldpos(x, y, z=None, h=None, p=None, r=None):
    return el("WorldPosition", x=x, y=y, z=z, h=h, p=p, r=r)


def position(p):
    return "<Position>" + p + "</Position>"


# ---------------------------------------------------------------- actions

def teleport(p):
    return el("PrivateAction", el("TeleportAction", position(p)))


def speed_abs(v, shape="step", value=0.0, dim="time"):
    return el("PrivateAction", el("LongitudinalAction", el("SpeedAction", el("SpeedActionDynamics", dynamicsShape=shape, value=value, dynamicsDimension=dim),
                                                           el("SpeedActionTarget", el("AbsoluteTargetSpeed", value=v)))))


def speed_rel(ent, v, kind="delta", cont=False, shape="step", value=0.0, dim="time"):
    return el("PrivateAction", el("LongitudinalAction", el("SpeedAction", el("SpeedActionDynamics", dynamicsShape=shape, value=value, dynamicsDimension=dim),
                                                           el("SpeedActionTarget", el("RelativeTargetSpeed", entityRef=ent, value=v, speedTargetValueType=kind,
                                                                                      continuous="true" if cont else "false")))))


def lane_change(target, shape="sinusoidal", value=3.0, dim="time", offset=None, rel=None):
    tg = el("RelativeTargetLane", entityRef=rel, value=target) if rel else el("AbsoluteTargetLane", value=target)
    return el("PrivateAction", el("LateralAction", el("LaneChangeAction", el("LaneChangeActionDynamics", dynamicsShape=shape, value=value, dynamicsDimension=dim),
                                                      el("LaneChangeTarget", tg), targetLaneOffset=offset)))


def lane_offset(target, shape="sinusoidal", maxacc=None, rel=None, cont=False):
    tg = el("RelativeTargetLaneOffset", entityRef=rel, value=target) if rel else el("AbsoluteTargetLaneOffset", value=target)
    return el("PrivateAction", el("LateralAction", el("LaneOffsetAction", el("LaneOffsetActionDynamics", dynamicsShape=shape, maxLateralAcc=maxacc),
                                                      el("LaneOffsetTarget", tg), continuous="true" if cont else "false")))


def variable_set(name, value):
    return el("GlobalAction", el("VariableAction", el("SetAction", value=value), variableRef=name))


def parameter_set(name, value):
    return el("GlobalAction", el("ParameterAction", el("SetAction", value=value), parameterRef=name))


def private(ent, *acts):
    return el("Private", *acts, entityRef=ent)


# ---------------------------------------------------------------- conditions and triggers

def cond(body, name, edge="none", delay=0.0):
    return el("Condition", body, name=name, delay=delay, conditionEdge=edge)


def by_value(body):
    return el("ByValueCondition", body)


def by_entity(ents, body, rule="any"):
    return el("ByEntityCondition", el("TriggeringEntities", *[el("EntityRef", entityRef=e) for e in ents], triggeringEntitiesRule=rule), el("EntityCondition", body))


def simtime(v, rule="greaterThan"):
    return by_value(el("SimulationTimeCondition", value=v, rule=rule))


def trigger(tag, *groups):
    """groups: lists of condition texts"""
    return f"<{tag}>" + "".join(el("ConditionGroup", *g) for g in groups) + f"</{tag}>"


def always(tag="StartTrigger", name="always"):
    return trigger(tag, [cond(simtime(0.0, "greaterOrEqual"), name)])


# ---------------------------------------------------------------- storyboard

def action(name, a):
    return el("Action", a, name=name)


def event(name, acts, start, prio="parallel", count=None):
    return el("Event", *acts, start, name=name, priority=prio, maximumExecutionCount=count)


def maneuver(name, events):
    return el("Maneuver", *events, name=name)


def group(name, actors, maneuvers, count=1, sel="false"):
    return el("ManeuverGroup", el("Actors", *[el("EntityRef", entityRef=a) for a in actors], selectTriggeringEntities=sel), *maneuvers,
              maximumExecutionCount=count, name=name)


def act(name, groups, start="", stop=""):
    return el("Act", *groups, start, stop, name=name)


def story(name, acts):
    return el("Story", "<ParameterDeclarations/>", *acts, name=name)


def scenario(road, entities, init, stories=(), stop="", params="", variables="", minor=3, extra=""):
    init = "".join(init)
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<OpenSCENARIO>' + el("FileHeader", revMajor=1, revMinor=minor, date="2024-01-01T00:00:00", description="g", author="g")
            + (params or "<ParameterDeclarations/>") + variables + "<CatalogLocations/>" + ("<RoadNetwork>" + el("LogicFile", filepath=road) + "</RoadNetwork>" if road else "<RoadNetwork/>")
            + "<Entities>" + "".join(entities) + "</Entities>\n<Storyboard><Init><Actions>" + init + "</Actions></Init>\n" + "".join(stories)
            + (stop or "<StopTrigger/>") + extra + "</Storyboard></OpenSCENARIO>\n")


# ---------------------------------------------------------------- plain roads

def straight(length=100000.0, right=3, left=3, width=3.5, rid=1, rule="RHT", x=0.0, y=0.0, hdg=0.0, geom=None, speed=None):
    def lane(i):
        return (f'<lane id="{i}" type="driving" level="false"><link/><width sOffset="0" a="{width}" b="0" c="0" d="0"/></lane>')
    g = geom or f'<geometry s="0" x="{x}" y="{y}" hdg="{hdg}" length="{length}"><line/></geometry>'
    ty = f'<type s="0" type="rural"><speed max="{speed}" unit="m/s"/></type>' if speed else ""
    return ('<?xml version="1.0"?>\n<OpenDRIVE><header revMajor="1" revMinor="6" name="" version="1" date="2024-01-01"/>'
            f'<road name="r" length="{length}" id="{rid}" junction="-1" rule="{rule}"><link/>{ty}<planView>{g}</planView><elevationProfile/><lateralProfile/>'
            '<lanes><laneSection s="0">' + (("<left>" + "".join(lane(i) for i in range(left, 0, -1)) + "</left>") if left else "")
            + '<center><lane id="0" type="none" level="false"/></center>'
            + (("<right>" + "".join(lane(-i) for i in range(1, right + 1)) + "</right>") if right else "") + '</laneSection></lanes></road></OpenDRIVE>')


class Chain:
    """Roads one after the other along the x axis, some with opposite direction, lanes linked."""

    def __init__(self, rng, n=4, lanes=3, lmin=80.0, lmax=500.0, rule="RHT", flip=0.4, widths=None, x0=0.0):
        self.rule, self.n = rule, lanes
        self.w = widths or [rng.choice([3.0, 3.5, 4.25]) for _ in range(lanes)]
        self.roads = []
        x = x0
        for i in range(n):
            L = rng.uniform(lmin, lmax)
            self.roads.append(dict(id=i + 1, x=x, L=L, o=-1 if rng.random() < flip else 1, cut=rng.uniform(0.2, 0.8) * L if rng.random() < 0.4 else None))
            x += L
        self.x0, self.x1 = x0, x

    def center(self, lane):
        a = abs(lane)
        return (sum(self.w[:a - 1]) + self.w[a - 1] / 2) * (1 if lane > 0 else -1)

    def road_at(self, x):
        for r in self.roads:
            if x < r["x"] + r["L"]:
                return r
        return self.roads[-1]

    def loc(self, x, y):
        """road, s, t"""
        r = self.road_at(x)
        return (r, x - r["x"], y) if r["o"] > 0 else (r, r["x"] + r["L"] - x, -y)

    def lane_y(self, r, lane, off=0.0):
        return (self.center(lane) + off) * r["o"]

    def edge(self):
        return sum(self.w)

    def xml(self):
        out = ['<?xml version="1.0"?>\n<OpenDRIVE><header revMajor="1" revMinor="6" name="" version="1" date="2024-01-01"/>']
        for i, r in enumerate(self.roads):
            prev, nxt = (self.roads[i - 1] if i else None), (self.roads[i + 1] if i + 1 < len(self.roads) else None)
            if r["o"] < 0:
                prev, nxt = nxt, prev       # along s
            link = ""
            for tag, q in (("predecessor", prev), ("successor", nxt)):
                if q:
                    # the end of q that touches r
                    before = q["x"] < r["x"]
                    cp = ("end" if q["o"] > 0 else "start") if before else ("start" if q["o"] > 0 else "end")
                    link += f'<{tag} elementType="road" elementId="{q["id"]}" contactPoint="{cp}"/>'
            gx, h = (r["x"], 0.0) if r["o"] > 0 else (r["x"] + r["L"], 3.141592653589793)
            secs = [0.0] + ([r["cut"]] if r["cut"] else [])

            def lane(i, k):
                p = i if k else (i * (prev["o"] * r["o"]) if prev else None)
                s = i if k + 1 < len(secs) else (i * (nxt["o"] * r["o"]) if nxt else None)
                lk = (f'<predecessor id="{p}"/>' if p is not None else "") + (f'<successor id="{s}"/>' if s is not None else "")
                return f'<lane id="{i}" type="driving" level="false"><link>{lk}</link><width sOffset="0" a="{self.w[abs(i) - 1]}" b="0" c="0" d="0"/></lane>'
            ls = "".join(f'<laneSection s="{s0!r}"><left>' + "".join(lane(j, k) for j in range(self.n, 0, -1)) + '</left><center><lane id="0" type="none" level="false"/></center><right>'
                         + "".join(lane(-j, k) for j in range(1, self.n + 1)) + '</right></laneSection>' for k, s0 in enumerate(secs))
            out.append(f'<road name="" length="{r["L"]!r}" id="{r["id"]}" junction="-1" rule="{self.rule}"><link>{link}</link><planView><geometry s="0" x="{gx!r}" y="0" hdg="{h!r}" '
                       f'length="{r["L"]!r}"><line/></geometry></planView><elevationProfile/><lateralProfile/><lanes>{ls}</lanes></road>')
        out.append("</OpenDRIVE>")
        return "\n".join(out)
