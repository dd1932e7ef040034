"""Generated scenarios which mix as many actions, entities and controllers as possible (workload for C01, C13, C14)."""
import math

import scn
from scn import el

VT = ["brakeLights", "fogLights", "lowBeam", "highBeam", "indicatorLeft", "indicatorRight", "warningLights", "reversingLights", "daytimeRunningLights", "licensePlateIllumination"]


def controller(rng, kind, name, extra=None):
    pr = {"esminiController": kind}
    if kind == "ACCController":
        pr.update(timeGap=rng.uniform(0.5, 2), setSpeed=rng.uniform(5, 30))
    elif kind == "NaturalDriver":
        pr.update(desiredSpeed=rng.uniform(5, 30), desiredDistance=rng.uniform(5, 20), lookAheadDistance=rng.uniform(20, 60))
    elif kind == "FollowGhostController":
        pr.update(headstartTime=rng.uniform(0.5, 3), followMode=rng.choice(["position", "time"]))
    elif kind == "SloppyDriverController":
        pr.update(sloppiness=rng.uniform(0, 1))
    elif kind == "OffroadFollowerController":
        pr.update(followEntity="o0")
    elif kind == "ALKS_R157SM_Controller":
        pr.update(model=rng.choice(["Regulation", "FSM", "ReferenceDriver", "RSS"]))
    pr.update(extra or {})
    return el("Controller", "<ParameterDeclarations/>", el("Properties", *[el("Property", name=k, value=v) for k, v in pr.items()]), name=name)


def constraints(rng):
    return el("DynamicConstraints", maxAcceleration=rng.uniform(1, 8), maxDeceleration=rng.uniform(1, 8), maxSpeed=rng.uniform(5, 60))


def trajectory(rng, name, pos, heading=False):
    n = rng.randint(2, 6)
    t, v = 0.0, ""
    for i in range(n):
        v += el("Vertex", scn.position(pos(i)), time=t)
        t += rng.uniform(0.4, 3)
    return el("Trajectory", "<ParameterDeclarations/>", el("Shape", el("Polyline", v)), name=name, closed=rng.choice(["false", "false", "true"]))


def generate(rng, ch, swarm=True, ghosts=True, stochastic=True, nmax=6, events=5, horizon=6.0, catalog=None):
    """(scenario text, names of the entities). ch: a chain of roads (scn.Chain or a subclass)"""
    lanes = [j for j in range(-ch.n, ch.n + 1) if j]

    def lp(lane=None):
        x = ch.x0 + (ch.x1 - ch.x0) * rng.uniform(0.05, 0.95)
        r = ch.road_at(x)
        return scn.lanepos(r["id"], lane or rng.choice(lanes), ch.loc(x, 0)[1], rng.choice([0.0, rng.uniform(-1.5, 1.5)]), rng.choice(["", "", scn.orient(h=rng.uniform(-4, 4))]))

    nv = rng.randint(2, nmax)
    ents, init, names, kinds = [], [], [], {}
    ctrls = ["ACCController", "NaturalDriver", "LoomingController", "FollowRouteController", "OffroadFollowerController", "ALKS_R157SM_Controller", "ECE_ALKS_REF_DRIVER"]
    if stochastic:
        ctrls.append("SloppyDriverController")
    if ghosts:
        ctrls.append("FollowGhostController")
    for i in range(nv):
        nm = f"o{i}"
        k = rng.choice(["car", "car", "car", "car", "car", "ped", "misc", "tow"]) if i else "car"
        c = ""
        if k == "tow":
            ents.append(scn.vehicle(nm + "t", cat="trailer", extra=el("TrailerCoupler", dx=rng.uniform(2, 6))))
            names.append(nm + "t")
            kinds[nm + "t"] = "trailer"
            ents.append(scn.vehicle(nm, extra=el("TrailerHitch", dx=-0.7) + el("Trailer", el("TrailerRef", entityRef=nm + "t"))))
        elif k == "ped":
            ents.append(scn.pedestrian(nm))
        elif k == "misc":
            ents.append(scn.misc(nm))
        else:
            if rng.random() < 0.45:
                kd = rng.choice(ctrls)
                if not (kd == "OffroadFollowerController" and i == 0):
                    c = el("ObjectController", controller(rng, kd, "c_" + nm))
                    kinds["ctrl_" + nm] = kd
            ents.append(scn.vehicle(nm, bb=dict(cx=rng.uniform(0, 2), w=rng.uniform(1, 3), l=rng.uniform(2, 9)), cat=rng.choice(["car", "bus", "truck", "van", "motorbike", "bicycle"]),
                                    props=rng.choice([None, {"model_id": rng.randint(0, 5), "control": "internal"}]), ctrl=c))
        names.append(nm)
        kinds[nm] = k
        v = rng.choice([rng.uniform(1, 30), rng.uniform(1, 30), 0.0, -rng.uniform(0, 5)])
        acts = [scn.teleport(lp())]
        if k != "misc":
            acts.append(scn.speed_abs(v))
        if c and rng.random() < 0.7:
            acts.append(el("PrivateAction", el("ActivateControllerAction", longitudinal=rng.choice(["true", "true", "false"]), lateral=rng.choice(["true", "false"]))))
        init.append(scn.private(nm, *acts))
    movers = [n for n in names if kinds[n] in ("car", "ped", "tow")]
    cars = [n for n in names if kinds[n] == "car"]
    stories = []
    gid = 0

    def some(exclude=None):
        return rng.choice([n for n in names if n != exclude] or names)

    def make(nm, an):
        dyn = dict(shape=rng.choice(["linear", "cubic", "sinusoidal", "step"]), value=rng.uniform(0.1, 4), dim=rng.choice(["time", "distance", "rate"]))
        car = kinds.get(nm) == "car"
        opts = ["speed", "speed", "speedrel", "lane", "lane", "lanerel", "offset", "teleport", "teleport", "trajectory", "visibility", "delete", "add", "variable", "parameter", "environment", "acquire", "route",
                "profile", "longdist", "latdist", "sync", "user", "offsetrel"]
        if car:
            opts += ["light", "override", "activate", "assign", "assign", "connect", "disconnect", "randomroute", "animation"]
        if swarm:
            opts += ["swarm"]
        o = rng.choice(opts)
        other = some(nm)
        if o == "speed":
            return scn.speed_abs(rng.uniform(-3, 35), **dyn)
        if o == "speedrel":
            return scn.speed_rel(other, rng.uniform(-5, 5) if rng.random() < 0.6 else rng.uniform(0.5, 1.5), rng.choice(["delta", "factor"]), rng.random() < 0.2, **dyn)
        if o == "lane":
            return scn.lane_change(rng.choice(lanes), offset=rng.choice([None, rng.uniform(-1, 1)]), **dyn)
        if o == "lanerel":
            return scn.lane_change(rng.randint(-2, 2), rel=other, **dyn)
        if o in ("offset", "offsetrel"):
            return scn.lane_offset(rng.uniform(-2, 2), rng.choice(["linear", "cubic", "sinusoidal", "step"]), rng.uniform(0.3, 3), rel=other if o == "offsetrel" else None, cont=rng.random() < 0.2)
        if o == "teleport":
            p = rng.choice([lp, lambda: el("RelativeObjectPosition", entityRef=other, dx=rng.uniform(-20, 20), dy=rng.uniform(-4, 4)),
                            lambda: el("RelativeLanePosition", entityRef=other, dLane=rng.randint(-1, 1), ds=rng.uniform(-20, 20), offset=0.0),
                            lambda: el("RelativeRoadPosition", entityRef=other, ds=rng.uniform(-20, 20), dt=rng.uniform(-3, 3)),
                            lambda: el("RelativeWorldPosition", entityRef=other, dx=rng.uniform(-20, 20), dy=rng.uniform(-9, 9))])()
            return scn.teleport(p)
        if o == "trajectory":
            tr = trajectory(rng, "tr_" + an, rng.choice([lambda i: lp(-1), lambda i: el("RelativeObjectPosition", entityRef=nm, dx=5.0 * i, dy=rng.uniform(-2, 2))]))
            tref = el("TimeReference", rng.choice([el("None"), el("Timing", domainAbsoluteRelative=rng.choice(["relative", "absolute"]), scale=1.0, offset=0.0)]))
            return el("PrivateAction", el("RoutingAction", el("FollowTrajectoryAction", el("TrajectoryRef", tr), tref, el("TrajectoryFollowingMode", followingMode=rng.choice(["position", "follow"])))))
        if o == "visibility":
            return el("PrivateAction", el("VisibilityAction", graphics=rng.choice(["true", "false"]), traffic=rng.choice(["true", "false"]), sensors=rng.choice(["true", "false"])))
        if o == "delete":
            return el("GlobalAction", el("EntityAction", "<DeleteEntityAction/>", entityRef=some()))
        if o == "add":
            return el("GlobalAction", el("EntityAction", el("AddEntityAction", scn.position(lp())), entityRef=some()))
        if o == "variable":
            return rng.choice([scn.variable_set("var", rng.randint(-3, 9)), el("GlobalAction", el("VariableAction", el("ModifyAction", el("Rule", el(rng.choice(["AddValue", "MultiplyByValue"]),
                                                                                                                                          value=rng.uniform(-2, 2)))), variableRef="var"))])
        if o == "parameter":
            return scn.parameter_set("par", rng.uniform(0, 20))
        if o == "environment":
            return el("GlobalAction", el("EnvironmentAction", el("Environment", el("TimeOfDay", animation="false", dateTime="2024-05-01T%02d:00:00" % rng.randint(0, 23)),
                                                                el("Weather", el("Fog", visualRange=rng.uniform(10, 1000)), cloudState="free"),
                                                                el("RoadCondition", frictionScaleFactor=rng.uniform(0.1, 1)), name="env")))
        if o == "acquire":
            return el("PrivateAction", el("RoutingAction", el("AcquirePositionAction", scn.position(lp()))))
        if o == "route":
            wp = "".join(el("Waypoint", scn.position(lp()), routeStrategy=rng.choice(["shortest", "fastest", "leastIntersections"])) for _ in range(rng.randint(2, 4)))
            return el("PrivateAction", el("RoutingAction", el("AssignRouteAction", el("Route", wp, name="rt_" + an, closed="false"))))
        if o == "randomroute":
            return el("PrivateAction", el("RoutingAction", "<RandomRouteAction/>"))
        if o == "profile":
            es_ = "".join(el("SpeedProfileEntry", speed=rng.uniform(0, 25), time=rng.uniform(0.2, 3) if i else None) for i in range(rng.randint(1, 4)))
            return el("PrivateAction", el("LongitudinalAction", el("SpeedProfileAction", rng.choice(["", constraints(rng)]), es_, followingMode=rng.choice(["follow", "position"]))))
        if o == "longdist":
            d = {"distance": rng.uniform(2, 40)} if rng.random() < 0.6 else {"timeGap": rng.uniform(0.5, 3)}
            return el("PrivateAction", el("LongitudinalAction", el("LongitudinalDistanceAction", constraints(rng), entityRef=other, freespace=rng.choice(["true", "false"]),
                                                                   continuous=rng.choice(["true", "false"]), displacement=rng.choice(["any", "trailingReferencedEntity", "leadingReferencedEntity"]), **d)))
        if o == "latdist":
            return el("PrivateAction", el("LateralAction", el("LateralDistanceAction", constraints(rng), entityRef=other, freespace=rng.choice(["true", "false"]), distance=rng.uniform(0.5, 5),
                                                              continuous=rng.choice(["true", "false"]), coordinateSystem=rng.choice(["road", "entity", "lane"]),
                                                              displacement=rng.choice(["any", "leftToReferencedEntity", "rightToReferencedEntity"]))))
        if o == "sync":
            fs = rng.choice(["", el("FinalSpeed", el("AbsoluteSpeed", value=rng.uniform(1, 20), **{})), el("FinalSpeed", el("RelativeSpeedToMaster", value=rng.uniform(-3, 3), speedTargetValueType="delta"))])
            return el("PrivateAction", el("SynchronizeAction", el("TargetPositionMaster", lp()), el("TargetPosition", lp()), fs, masterEntityRef=other, targetTolerance=1.0, targetToleranceMaster=1.0))
        if o == "user":
            return el("UserDefinedAction", el("CustomCommandAction", "echo", type="none"))
        if o == "light":
            return el("PrivateAction", el("AppearanceAction", el("LightStateAction", el("LightType", el("VehicleLight", vehicleLightType=rng.choice(VT))),
                                                                el("LightState", mode=rng.choice(["on", "off", "flashing"]), luminousIntensity=100.0, flashingOnDuration=0.5, flashingOffDuration=0.3),
                                                                transitionTime=rng.uniform(0, 1))))
        if o == "animation":
            return el("PrivateAction", el("AppearanceAction", el("AnimationAction", el("AnimationType", el("UserDefinedAnimation", userDefinedAnimationType="x")), animationDuration=1.0, loop="false")))
        if o == "override":
            return el("PrivateAction", el("ControllerAction", el("OverrideControllerValueAction", *[el(k, value=rng.uniform(0, 1), active=rng.choice(["true", "false"]))
                                                                                                   for k in rng.sample(["Throttle", "Clutch", "SteeringWheel"], rng.randint(1, 3))])))
        if o == "activate":
            return el("PrivateAction", el("ActivateControllerAction", longitudinal=rng.choice(["true", "false"]), lateral=rng.choice(["true", "false"])))
        if o == "assign":
            kd = rng.choice([c for c in ctrls if c != "FollowGhostController" and not (c == "OffroadFollowerController" and nm == "o0")])
            return el("PrivateAction", el("ControllerAction", el("AssignControllerAction", controller(rng, kd, "ca_" + an), activateLateral=rng.choice(["true", "false"]),
                                                                 activateLongitudinal=rng.choice(["true", "false"]))))
        if o == "connect":
            tr = [n for n in names if kinds[n] == "trailer"]
            if tr and "ped" not in kinds.values():
                return el("PrivateAction", el("TrailerAction", el("ConnectTrailerAction", trailerRef=rng.choice(tr))))
            return scn.speed_abs(1.0)
        if o == "disconnect" and "ped" not in kinds.values():
            return el("PrivateAction", el("TrailerAction", "<DisconnectTrailerAction/>"))
        return el("GlobalAction", el("TrafficAction", el("TrafficSwarmAction", el("CentralObject", entityRef=rng.choice(cars)), innerRadius=rng.uniform(20, 60), semiMajorAxis=rng.uniform(80, 250),
                                                         semiMinorAxis=rng.uniform(80, 250), numberOfVehicles=rng.randint(1, 15), velocity=rng.uniform(3, 30), offset=0.0), trafficName="sw"))

    def condition(nm, cn):
        t = rng.uniform(0, horizon)
        other = some(nm)
        rule = rng.choice(["greaterThan", "lessThan", "greaterOrEqual"])
        q = rng.random()
        edge = rng.choice(["none", "none", "rising", "falling", "risingOrFalling"])
        dl = rng.choice([0.0, 0.0, rng.uniform(0, 1)])
        if q < 0.5:
            b = scn.simtime(t)
        else:
            b = scn.by_entity([nm], rng.choice([
                lambda: el("SpeedCondition", value=rng.uniform(0, 20), rule=rule), lambda: el("TraveledDistanceCondition", value=rng.uniform(0, 60)), lambda: el("StandStillCondition", duration=0.5),
                lambda: el("RelativeDistanceCondition", entityRef=other, relativeDistanceType=rng.choice(["longitudinal", "lateral", "cartesianDistance", "euclidianDistance"]), value=rng.uniform(0, 80),
                           freespace=rng.choice(["true", "false"]), rule=rule),
                lambda: el("TimeHeadwayCondition", entityRef=other, value=rng.uniform(0, 5), freespace=rng.choice(["true", "false"]), alongRoute="true", rule=rule),
                lambda: el("TimeToCollisionCondition", el("TimeToCollisionConditionTarget", el("EntityRef", entityRef=other)), value=rng.uniform(0, 9), freespace=rng.choice(["true", "false"]),
                           alongRoute="true", rule=rule),
                lambda: el("CollisionCondition", el("EntityRef", entityRef=other)), lambda: el("EndOfRoadCondition", duration=0.1), lambda: el("OffroadCondition", duration=0.1),
                lambda: el("ReachPositionCondition", scn.position(lp()), tolerance=20.0), lambda: el("AccelerationCondition", value=1.0, rule=rule),
                lambda: el("RelativeSpeedCondition", entityRef=other, value=0.0, rule=rule), lambda: el("RelativeClearanceCondition", oppositeLanes="true", distanceForward=30.0, distanceBackward=20.0,
                                                                                                        freeSpace="true")])(), rng.choice(["any", "all"]))
        return scn.cond(b, cn, edge, dl)

    for i, nm in enumerate(movers):
        evs = []
        for k in range(rng.randint(1, events)):
            an = f"{nm}_{k}"
            acts = [scn.action(f"a{an}_{j}", make(nm, f"{an}_{j}")) for j in range(rng.choice([1, 1, 2]))]
            groups = [[condition(nm, f"c{an}_{g}_{h}") for h in range(rng.choice([1, 1, 2]))] for g in range(rng.choice([1, 1, 2]))]
            evs.append(scn.event(f"e{an}", acts, scn.trigger("StartTrigger", *groups), rng.choice(["parallel", "overwrite", "override", "skip"]), rng.choice([1, 1, 2, 5])))
        h = len(evs) // 2
        mans = [scn.maneuver(f"m{i}", evs)] if rng.random() < 0.6 or h == 0 else [scn.maneuver(f"m{i}", evs[:h]), scn.maneuver(f"mm{i}", evs[h:])]
        stop = scn.trigger("StopTrigger", [scn.cond(scn.simtime(rng.uniform(1, horizon)), f"st{i}")]) if rng.random() < 0.2 else ""
        stories.append(scn.story(f"s{i}", [scn.act(f"act{i}", [scn.group(f"g{i}", [nm] if rng.random() < 0.8 else rng.sample(movers, min(2, len(movers))), mans, rng.choice([1, 1, 2]))],
                                                   scn.always(name=f"al{i}"), stop)]))
    params = el("ParameterDeclarations", el("ParameterDeclaration", name="par", parameterType="double", value=3.0))
    var = el("VariableDeclarations", el("VariableDeclaration", name="var", variableType="double", value=0.0))
    return scn.scenario("net.xodr", ents, init, stories, params=params, variables=var), names
