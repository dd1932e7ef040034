"""C15: damaged input is refused or tolerated, never fatal."""
import glob
import os
import random
import shutil
import subprocess
import xml.etree.ElementTree as ET

import es
import odr
import rich
import scn
import vlib
from c11 import Bend, bundled

PID = "C15"
LEVEL = "exploration"
VARIANT = "asan"
TIMEOUT = 60
RULE = ("no execution on a damaged file ends in a crash, a report of AddressSanitizer, UndefinedBehaviorSanitizer or the checked standard library, or a time-out; the loading call returns; afterwards an undamaged "
        "scenario loads and runs to the same state as before the damage")
ASSUMPTIONS = ["one to three damages per file: truncation, bytes replaced, elements or attributes removed, repeated, renamed, moved or given values of another type",
               "values put in are short texts and small numbers: very large numbers (lane ids, lengths, times) which only make a run long are not used",
               "UDP, OSI, SUMO and viewer parts are not in this build"]


def cases(rng, tier):
    k = {"quick": 1, "thorough": 12}[tier]
    out = []
    for kind, n in (("xosc", 170), ("xodr", 100), ("bundled", 60), ("catalog", 30), ("dist", 20)):
        out += [{"id": f"{kind}{i}", "kind": kind, "seed": rng.getrandbits(48)} for i in range(n * k)]
    rng.shuffle(out)
    return out


def build(B):
    return es.load(B.build("asan", ["libesmini.so"])["libesmini.so"])


BAD = ["", "abc", "-1", "0", "1", "2.5", "true", "$nosuch", "${1 +", "${1/0}", "${", "$", "nan", "-0.0", " ", "a b", "/", "7e", "o0", "Ego", "&amp;"]


def mutate_tree(rng, root, n):
    what = []
    for _ in range(n):
        els = [e for e in root.iter()]
        par = {c: p for p in root.iter() for c in p}
        e = rng.choice(els[1:] or els)
        k = rng.choice(["delattr", "delattr", "delattr", "badattr", "badattr", "badattr", "delel", "delel", "dupel", "rename", "renattr", "empty", "move", "swapattr"])
        what.append(k)
        if k == "delattr" and e.attrib:
            del e.attrib[rng.choice(list(e.attrib))]
        elif k == "badattr" and e.attrib:
            e.attrib[rng.choice(list(e.attrib))] = rng.choice(BAD)
        elif k == "delel" and e in par:
            par[e].remove(e)
        elif k == "dupel" and e in par:
            p = par[e]
            p.insert(rng.randint(0, len(p)), ET.fromstring(ET.tostring(e)))
        elif k == "rename":
            e.tag = rng.choice([e.tag + "x", e.tag.lower(), rng.choice(els).tag])
        elif k == "renattr" and e.attrib:
            a = rng.choice(list(e.attrib))
            v = e.attrib.pop(a)
            e.attrib[rng.choice([a + "x", a.upper(), "name"])] = v
        elif k == "empty":
            for c in list(e):
                e.remove(c)
        elif k == "move" and e in par:
            q = rng.choice(els)
            if q is not e and q not in set(e.iter()):
                par[e].remove(e)
                q.append(e)
        elif k == "swapattr" and e.attrib:
            q = rng.choice([x for x in els if x.attrib])
            e.attrib[rng.choice(list(e.attrib))] = q.attrib[rng.choice(list(q.attrib))]
    return what


def damage(rng, text):
    """a damaged copy of an XML text"""
    k = rng.random()
    if k < 0.08:
        return text[:rng.randint(0, len(text))], "cut"
    if k < 0.16:
        s = list(text)
        for _ in range(rng.choice([1, 1, 3, 10])):
            i = rng.randrange(len(s))
            s[i] = rng.choice(["", "<", ">", '"', "/", "\x01", " ", "&", s[i] * 2, "\u00e9"])
        return "".join(s), "bytes"
    if k < 0.18:
        return rng.choice(["", " ", "<", "<a/>", "<OpenSCENARIO/>", "<OpenDRIVE/>", "<OpenSCENARIO><FileHeader revMajor='1' revMinor='0'/></OpenSCENARIO>", "no xml at all"]), "tiny"
    root = ET.fromstring(text)
    w = mutate_tree(rng, root, rng.choice([1, 1, 1, 2, 3]))
    return ET.tostring(root, encoding="unicode"), "+".join(sorted(w))


def valid(rng):
    ch = Bend(rng, rng.randint(1, 3), rng.choice([1, 2]), rng.choice(["RHT", "LHT"]), 0.02, 0.0)
    open("net.xodr", "w").write(ch.xml())
    return ch


PLAIN = None


def reference(se):
    r = []
    for _ in range(6):
        se.step(0.1)
        for i in se.ids():
            o = se.state(i)
            r.append((i, o.x, o.y, o.h, o.speed, o.roadId, o.laneId))
    return r


def good(l):
    """an undamaged scenario, and what it does"""
    open("good.xodr", "w").write(scn.straight(500.0))
    ev = scn.event("e", [scn.action("a", scn.lane_change(-2, value=1.0))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(0.15), "c")]))
    par = '<ParameterDeclarations><ParameterDeclaration name="v" parameterType="double" value="12.5"/></ParameterDeclarations>'
    x = scn.scenario("good.xodr", [scn.vehicle("Ego"), scn.pedestrian("Ped")], [scn.private("Ego", scn.teleport(scn.lanepos(1, -1, 20.0)), scn.speed_abs("$v")),
                     scn.private("Ped", scn.teleport(scn.lanepos(1, 1, 40.0)), scn.speed_abs(1.0))],
                     [scn.story("s", [scn.act("ac", [scn.group("g", ["Ego"], [scn.maneuver("m", [ev])])], scn.always())])], params=par)
    open("good.xosc", "w").write(x)
    l.SE_SetSeed(1)
    se = es.SE(l)
    if se.init(xosc="good.xosc") != 0:
        return None
    r = reference(se)
    se.close()
    return r


def run(case, out, l):
    rng = random.Random(case["seed"])
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    ref = good(l)
    out.need(ref is not None, "valid", "a valid scenario is refused")
    kind = case["kind"]
    files = {}
    if kind == "bundled":
        f = rng.choice([f for f in bundled() if os.path.getsize(f"{vlib.REPO}/{f}") < 60000])
        src = f"{vlib.REPO}/{f}"
        text = open(src, errors="replace").read()
        target = os.path.basename(src)
        d = os.path.dirname(src)
        l.SE_AddPath(d.encode())
        l.SE_AddPath(f"{vlib.REPO}/resources/xodr".encode())
        l.SE_AddPath(f"{vlib.REPO}/EnvironmentSimulator/Unittest/xodr".encode())
        main = target
    else:
        ch = valid(rng)
        text, _ = rich.generate(rng, ch, nmax=3, events=3, horizon=1.0)
        main = "s.xosc"
        open(main, "w").write(text)
        target = main
        if kind == "xodr":
            target = "net.xodr"
            if rng.random() < 0.5:
                small = sorted(p for d in ("resources/xodr", "EnvironmentSimulator/Unittest/xodr") for p in glob.glob(f"{vlib.REPO}/{d}/*.xodr") if os.path.getsize(p) < 120000)
                src = rng.choice(small)
                text = open(src, errors="replace").read()
                main = None
            else:
                text = open(target).read()
        elif kind == "catalog":
            os.makedirs("cat")
            hdr = '<FileHeader revMajor="1" revMinor="1" date="2024-01-01T00:00:00" description="g" author="g"/>'
            v = scn.vehicle("x", props={"a": "$w"}).replace("<ParameterDeclarations/>", '<ParameterDeclarations><ParameterDeclaration name="w" parameterType="double" value="1.5"/></ParameterDeclarations>')
            v = v[v.index("<Vehicle"):v.index("</ScenarioObject>")].replace('name="x_t"', 'name="car"')
            m = scn.maneuver("man", [scn.event("ce", [scn.action("ca", scn.speed_abs(3.0))], scn.always(name="k"))])
            r = f'<Route name="rt" closed="false"><Waypoint routeStrategy="shortest">{scn.position(scn.lanepos(1, -1, 5.0))}</Waypoint><Waypoint routeStrategy="shortest">{scn.position(scn.lanepos(1, -1, 50.0))}</Waypoint></Route>'
            c = rich.controller(rng, "ACCController", "ctl")
            t = rich.trajectory(rng, "trj", lambda i: scn.worldpos(float(i * 10), 0.0))
            text = '<?xml version="1.0"?><OpenSCENARIO>' + hdr + f'<Catalog name="K">{v}{m}{r}{c}{t}</Catalog></OpenSCENARIO>'
            target = "cat/K.xosc"
            ref_ = lambda n: f'<CatalogReference catalogName="K" entryName="{n}"/>'  # noqa
            ra = f'<PrivateAction><RoutingAction><AssignRouteAction>{ref_("rt")}</AssignRouteAction></RoutingAction></PrivateAction>'
            fa = (f'<PrivateAction><RoutingAction><FollowTrajectoryAction><TrajectoryRef>{ref_("trj")}</TrajectoryRef><TimeReference><None/></TimeReference><TrajectoryFollowingMode followingMode="position"/>'
                  '</FollowTrajectoryAction></RoutingAction></PrivateAction>')
            ents = [f'<ScenarioObject name="Ego">{ref_("car")}<ObjectController>{ref_("ctl")}</ObjectController></ScenarioObject>']
            ev = scn.event("e", [scn.action("a", fa)], scn.trigger("StartTrigger", [scn.cond(scn.simtime(0.2), "c")]))
            st = scn.story("s", [scn.act("ac", [scn.group("g", ["Ego"], [ref_("man"), scn.maneuver("m2", [ev])])], scn.always())])
            dirs = "<CatalogLocations>" + "".join(f'<{n}Catalog><Directory path="cat"/></{n}Catalog>' for n in ("Vehicle", "Maneuver", "Route", "Controller", "Trajectory")) + "</CatalogLocations>"
            doc = scn.scenario("net.xodr", ents, [scn.private("Ego", scn.teleport(scn.lanepos(1, -1, 5.0)), scn.speed_abs(3.0), ra)], [st]).replace("<CatalogLocations/>", dirs)
            open(main, "w").write(doc)
            if rng.random() < 0.3:
                target, text = main, doc
                open("cat/K.xosc", "w").write('<?xml version="1.0"?><OpenSCENARIO>' + hdr + f'<Catalog name="K">{v}{m}{r}{c}{t}</Catalog></OpenSCENARIO>')
        elif kind == "dist":
            open(main, "w").write(text.replace("<ParameterDeclarations/>", '<ParameterDeclarations><ParameterDeclaration name="q" parameterType="double" value="1.5"/></ParameterDeclarations>', 1))
            target = "dist.xml"
            text = ('<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="1" date="2024-01-01T00:00:00" description="g" author="g"/><ParameterValueDistribution><ScenarioFile filepath="s.xosc"/><Deterministic>'
                    '<DeterministicSingleParameterDistribution parameterName="q"><DistributionSet><Element value="1"/><Element value="2"/></DistributionSet></DeterministicSingleParameterDistribution>'
                    '<DeterministicSingleParameterDistribution parameterName="q"><DistributionRange stepWidth="1"><Range lowerLimit="0" upperLimit="3"/></DistributionRange></DeterministicSingleParameterDistribution>'
                    '<DeterministicMultiParameterDistribution><ValueSetDistribution><ParameterValueSet><ParameterAssignment parameterRef="q" value="4"/></ParameterValueSet></ValueSetDistribution>'
                    '</DeterministicMultiParameterDistribution></Deterministic></ParameterValueDistribution></OpenSCENARIO>')
    try:
        ET.fromstring(text)
    except ET.ParseError:
        out.check(True, "x", "")
        return
    for _ in range(4):
        d, what = damage(rng, text)
        open(target, "w", encoding="utf-8").write(d)
        print("DAMAGE", what, flush=True)
        rc = None
        if kind == "xodr" and (main is None or rng.random() < 0.4):
            rc = l.RM_Init(target.encode())
            if rc == 0:
                h = l.RM_CreatePosition()
                for i in range(min(l.RM_GetNumberOfRoads(), 12)):
                    r = l.RM_GetIdOfRoadFromIndex(i)
                    L = l.RM_GetRoadLength(r)
                    for s in (0.0, L * 0.3, L):
                        n = l.RM_GetRoadNumberOfLanes(r, s, -1)
                        for q in range(min(n, 8)):
                            lid = es.I()
                            if l.RM_GetLaneIdByIndex(r, q, s, -1, es.C.byref(lid)) == 0:
                                l.RM_SetLanePosition(h, r, lid.value, 0.1, s, True)
                                l.RM_PositionMoveForward(h, 15.0, 0.0)
                    for q in range(l.RM_GetNumberOfRoadSigns(r)):
                        l.RM_GetRoadSign(r, q, es.C.byref(es.RoadSign()))
                for _ in range(20):
                    l.RM_SetWorldXYHPosition(h, rng.uniform(-300, 300), rng.uniform(-300, 300), 0.0)
            l.RM_Close()
        else:
            se = es.SE(l)
            if kind == "dist":
                l.SE_SetParameterDistribution(b"dist.xml")
                l.SE_GetNumberOfPermutations()
            rc = se.init(xosc=main)
            if rc == 0:
                for _ in range(12):
                    if se.step(0.1) != 0:
                        break
                    for i in se.ids():
                        se.state(i)
            se.close()
            l.SE_ResetParameterDistribution()
        out.check(rc is not None, "returned", "")
        out.count("accepted" if rc == 0 else "refused")
        out.fp(kind, what, rc)
    now = good(l)
    out.check(now == ref, "after", f"after damaged input the undamaged scenario {'is refused' if now is None else 'gives other positions: ' + str([(a, b) for a, b in zip(now, ref) if a != b][:2])}")
