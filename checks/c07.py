"""C07: storyboard elements follow the declared life cycle."""
import ctypes
import random

import es
import scn
from scn import el

PID = "C07"
LEVEL = "exploration"
RULE = ("random storyboards (1-3 stories, acts with start and stop triggers, repeated maneuver groups, maneuvers with competing events of every priority and execution count, instantaneous, timed "
        "and endless actions that conflict on object and domain, a storyboard stop trigger) run with random step lengths while the variables their triggers look at are toggled through the API; "
        "an online automaton over the life-cycle callbacks judges every transition (allowed for the type, parent running, execution count, priority, reason for every start, end and stop) and "
        "after each step that every element with a reason to start, stop or complete did; counters incremented by the actions are compared with the number of action starts; one evaluation "
        "= one judged transition or element state; distinct = element type x transition x reason x priority x repetition")
ASSUMPTIONS = ["triggers are compositions of variable and time comparisons, whose value during the step is known (C08 judges the conditions)",
               "the execution counter of an event is not required to restart when its group is repeated",
               "an act that has not started yet is not stopped by its stop trigger"]
TYPE = {2: "story", 3: "act", 4: "maneuverGroup", 5: "maneuver", 6: "event", 7: "action"}
NAME = {1: "storyboard", 2: "story", 3: "act", 4: "group", 5: "maneuver", 6: "event", 7: "action"}
INIT, STANDBY, RUN, DONE = 0, 1, 2, 3


def cases(rng, tier):
    n = {"quick": 3000, "thorough": 15000}[tier]
    return [{"id": f"b{i}", "seed": rng.getrandbits(48)} for i in range(n)]


class E:
    def __init__(self, ty, name, parent):
        self.ty, self.name, self.parent = ty, name, parent
        self.ch = []
        self.state = INIT
        self.start = self.stop = None
        self.maxn = None
        self.prio = None
        self.runs = 0           # in total
        self.pass_runs = 0      # since the parent's own start
        self.spec = None
        self.evs = []           # transitions of this step
        self.mark = False
        self.probe = None       # (element, state or transition) that starts this event
        if parent:
            parent.ch.append(self)

    def all(self):
        yield self
        for c in self.ch:
            yield from c.all()

    def silent_reset(self):
        for c in self.ch:
            for e in c.all():
                e.state = INIT
                e.pass_runs = 0

    def up(self):
        p = self.parent
        while p:
            yield p
            p = p.parent

    def text(self):
        return f"{NAME[self.ty]} {self.name}"


def rnd_trig(rng, W):
    gs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        g = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.3:
                g.append(("t", rng.choice(["greaterThan", "lessThan"]) if rng.random() < 0.3 else "greaterThan", rng.uniform(-0.5, W["T"]) + 1e-4))
            elif r < 0.4:
                g.append(("t", "greaterOrEqual", -1.0))
            else:
                g.append(("v", rng.randrange(W["nvar"]), rng.choice([0, 0, 1, 1, 2])))
        gs.append(g)
    return gs


def trig_xml(tag, gs, nm):
    def c(x, i, j):
        if x[0] == "t":
            b = scn.simtime(x[2], x[1])
        else:
            b = scn.by_value(el("VariableCondition", variableRef=f"v{x[1]}", value=x[2], rule="equalTo"))
        return scn.cond(b, f"{nm}_{i}_{j}")
    return scn.trigger(tag, *[[c(x, i, j) for j, x in enumerate(g)] for i, g in enumerate(gs)])


def trig_val(gs, t, vs):
    def c(x):
        if x[0] == "t":
            return {"greaterThan": t > x[2], "lessThan": t < x[2], "greaterOrEqual": t >= x[2]}[x[1]]
        return vs[x[1]] == x[2]
    return any(all(c(x) for x in g) for g in gs)


def rnd_action(rng, nm, ent, W):
    r = rng.random()
    if r < 0.4 or ent is None:
        W["cnt"].append(nm)
        k = rng.randint(1, 5)
        return scn.action(nm, el("GlobalAction", el("VariableAction", el("ModifyAction", el("Rule", el("AddValue", value=k))), variableRef=f"c_{nm}"))), dict(kind="count", k=k)
    if r < 0.5:
        return scn.action(nm, scn.speed_abs(rng.uniform(5, 20))), dict(kind="step", dom="long", ent=ent)
    if r < 0.75:
        T = rng.choice([rng.uniform(0.2, 4.0), 1e5])
        return scn.action(nm, scn.speed_abs(rng.uniform(21, 40), "linear", T, "time")), dict(kind="speed", T=T, dom="long", ent=ent)
    T = rng.uniform(0.5, 6.0)
    return scn.action(nm, scn.lane_change(rng.choice([-1, -2, -3]), "sinusoidal", T, "time")), dict(kind="lane", T=T, dom="lat", ent=ent)


def run(case, out, l):
    rng = random.Random(case["seed"])
    W = dict(T=rng.uniform(2, 12), nvar=rng.randint(1, 5), cnt=[])
    nv = rng.randint(1, 3)
    open("net.xodr", "w").write(scn.straight(3000.0))
    root = E(1, "storyBoard", None)
    byname = {}
    n = [0]

    def mk(ty, parent):
        n[0] += 1
        e = E(ty, f"{'?bsagmex'[ty]}{n[0]}", parent)
        byname[(e.ty, e.name)] = e
        return e

    stories = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = mk(2, root)
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ac = mk(3, st)
            ac.start = rnd_trig(rng, W) if rng.random() < 0.7 else [[("t", "greaterOrEqual", -1.0)]]
            ac.stop = rnd_trig(rng, W) if rng.random() < 0.4 else None
            groups = []
            for _ in range(rng.choice([1, 1, 2])):
                gr = mk(4, ac)
                gr.maxn = rng.choice([1, 1, 1, 2, 3])
                ent = rng.randrange(nv)
                man = []
                for _ in range(rng.choice([1, 1, 2])):
                    m = mk(5, gr)
                    evs = []
                    for _ in range(rng.choice([1, 2, 2, 3, 4])):
                        ev = mk(6, m)
                        ev.maxn = rng.choice([1, 1, 1, 2, 3, 5])
                        ev.prio = rng.choice(["override", "skip", "parallel", "overwrite"])
                        ev.start = rnd_trig(rng, W)
                        aa = []
                        for _ in range(rng.choice([1, 1, 1, 2, 3])):
                            a = mk(7, ev)
                            x, a.spec = rnd_action(rng, a.name, ent, W)
                            aa.append(x)
                        evs.append(scn.event(ev.name, aa, trig_xml("StartTrigger", ev.start, ev.name), ev.prio, ev.maxn if ev.maxn > 1 or rng.random() < 0.7 else None))
                    man.append(scn.maneuver(m.name, evs))
                groups.append(scn.group(gr.name, [f"o{ent}"], man, gr.maxn))
            acts.append(scn.act(ac.name, groups, trig_xml("StartTrigger", ac.start, ac.name), trig_xml("StopTrigger", ac.stop, ac.name + "p") if ac.stop else ""))
        stories.append(scn.story(st.name, acts))
    probes = []
    if rng.random() < 0.6:
        # observers in the last act, evaluated after everything else; mk starts in every step and marks the turn of the observers
        st = mk(2, root)
        ac = mk(3, st)
        ac.start = [[("t", "greaterOrEqual", -1.0)]]
        gr = mk(4, ac)
        gr.maxn = 1
        m = mk(5, gr)
        targets = [e for e in root.all() if e.ty > 1 and e is not st and not any(a is st for a in e.up())]
        mke = mk(6, m)
        mke.maxn, mke.prio, mke.start, mke.mark = 100000, "parallel", [[("t", "greaterOrEqual", -1.0)]], True
        a = mk(7, mke)
        x, a.spec = rnd_action(rng, a.name, None, W)
        evs = [scn.event(mke.name, [x], trig_xml("StartTrigger", mke.start, mke.name), "parallel", mke.maxn)]
        for _ in range(rng.randint(2, 8)):
            ev = mk(6, m)
            ev.maxn, ev.prio = 1, "parallel"
            tg, what = rng.choice(targets), rng.choice(["startTransition", "completeState", "runningState", "standbyState", "endTransition+"])
            ev.probe = (tg, what)
            probes.append(ev)
            a = mk(7, ev)
            x, a.spec = rnd_action(rng, a.name, None, W)
            ts = [what] if what[-1] != "+" else ["endTransition", "stopTransition"]
            evs.append(scn.event(ev.name, [x], scn.trigger("StartTrigger", *[[scn.cond(scn.by_value(el("StoryboardElementStateCondition", storyboardElementType=TYPE[tg.ty],
                       storyboardElementRef=tg.name, state=w)), f"{ev.name}_{w}")] for w in ts]), "parallel", 1))
        stories.append(scn.story(st.name, [scn.act(ac.name, [scn.group(gr.name, [], [scn.maneuver(m.name, evs)], 1)], trig_xml("StartTrigger", ac.start, ac.name))]))
    root.stop = rnd_trig(rng, W) if rng.random() < 0.3 else None
    if root.stop and trig_val(root.stop, 0.0, [0] * W["nvar"]):
        root.stop = [[("t", "greaterThan", W["T"] * 0.7)]]
    init = [scn.private(f"o{i}", scn.teleport(scn.lanepos(1, rng.choice([-1, -2, -3]), 100.0 + 40 * i)), scn.speed_abs(rng.uniform(10, 20))) for i in range(nv)]
    vx = "<VariableDeclarations>" + "".join(el("VariableDeclaration", name=f"v{i}", variableType="integer", value=0) for i in range(W["nvar"]))
    vx += "".join(el("VariableDeclaration", name=f"c_{nm}", variableType="integer", value=0) for nm in W["cnt"]) + "</VariableDeclarations>"
    x = scn.scenario("net.xodr", [scn.vehicle(f"o{i}") for i in range(nv)], init, stories, variables=vx, stop=trig_xml("StopTrigger", root.stop, "sbstop") if root.stop else "")
    out.art("scn.xosc", x)
    vs = [0] * W["nvar"]
    se = es.SE(l)
    out.need(se.init(xml=x) == 0, "load", "scenario not accepted")
    M = Monitor(out, root, byname)
    dt0 = rng.choice([0.01, 0.05, 0.1, 0.3])
    pos = 0
    t = 0.0
    ended = False
    M.step(se.events, t, vs, -1)
    pos = len(se.events)
    W2 = rng.choice([0.05, 0.2, 0.6])
    for step in range(rng.choice([30, 60, 120])):
        for i in range(W["nvar"]):
            if rng.random() < W2:
                vs[i] = rng.choice([0, 1, 2])
                l.SE_SetVariableInt(f"v{i}".encode(), vs[i])
        t = se.time()
        dt = rng.choice([dt0, dt0, rng.uniform(0.3, 1.7) * dt0])
        r = se.step(dt)
        evs = se.events[pos:]
        pos = len(se.events)
        if ended:
            out.need(not evs, "after-stop", lambda: f"element state change after the storyboard stopped: {evs[:3]}")
            if rng.random() < 0.5:
                break
            continue
        M.step(evs, t, vs, step)
        if root.state != RUN:
            ended = True
            out.need(l.SE_GetQuitFlag() == 1, "quit-flag", "no quit flag after the storyboard stopped")
            out.count("storyboards stopped")
    for nm in W["cnt"]:
        e = byname[(7, nm)]
        q = ctypes.c_int(-1)
        l.SE_GetVariableInt(f"c_{nm}".encode(), ctypes.byref(q))
        v = q.value
        out.check(v == e.runs * e.spec["k"], "exactly-once", lambda: f"action {nm} started {e.runs} times adding {e.spec['k']}, but the variable is {v}")
    out.sample(f"{n[0]} elements, {pos} transitions")
    out.count("transitions", pos)
    se.close()


class Monitor:
    def __init__(self, out, root, byname):
        self.out, self.root, self.byname = out, root, byname
        self.elems = [e for e in root.all()]
        self.marker = next((e for e in self.elems if e.mark), None)
        self.pend = set()       # (element, state or transition) since the turn of the observers
        self.fresh = True

    def step(self, events, t, vs, step):
        out, need = self.out, self.out.need
        where = f"at step {step} (t={t:.4f})"
        evs = [e for e in events if e[0] == "sb"]
        before = {}
        for e in self.elems:
            before[e] = e.state
            e.evs = []
        tv = {}

        def tr(gs):
            k = id(gs)
            if k not in tv:
                tv[k] = trig_val(gs, t, vs)
            return tv[k]

        stopping = [e for e in self.elems if e.stop and before[e] == RUN and tr(e.stop)]
        seq = []
        for ev in evs:
            if ev[4] == 1:
                e = self.root
            else:
                e = self.byname.get((ev[4], ev[3]))
                if e is None:
                    continue        # init actions
            seq.append((e, ev[5]))
        runs_at = {}
        for k, (e, s) in enumerate(seq):
            if s == RUN:
                runs_at.setdefault(e, []).append(k)
        mkk = runs_at[self.marker][0] if self.marker in runs_at else None
        now = set(self.pend)
        for k, (e, s) in enumerate(seq):
            old = e.state
            e.evs.append(s)
            if k == mkk:
                self.judge = now
                now = self.pend = set()
            if e.ty > 1:
                if s == RUN:
                    now.add((e, "startTransition"))
                if old == RUN:
                    now.add((e, "endTransition+"))
                elif s == DONE:
                    now.add((e, "endTransition+"))
                now.add((e, {STANDBY: "standbyState", RUN: "runningState", DONE: "completeState"}[s]))
            okay = {(INIT, STANDBY), (INIT, RUN), (STANDBY, RUN), (RUN, DONE), (STANDBY, DONE)}
            if e.ty in (4, 6):
                okay.add((RUN, STANDBY))
            need((old, s) in okay, "transition", lambda: f"{e.text()} made transition {old}->{s} {where}")
            if e.start is None and e.ty != 1 and not e.probe:
                need((old, s) != (INIT, STANDBY), "standby", lambda: f"{e.text()} without start trigger went to standby {where}")
            if e.start is not None or e.probe:
                need((old, s) != (INIT, RUN), "no-standby", lambda: f"{e.text()} started without standby {where}")
            stop_anc = [a for a in [e, *e.up()] if a in stopping]
            reason = ""
            if s == RUN:
                for a in e.up():
                    need(a.state == RUN, "parent", lambda: f"{e.text()} started {where} while {a.text()} is in state {a.state}")
                need(not stop_anc, "start-stop", lambda: f"{e.text()} started {where} although {stop_anc[0].text()} stops")
                if e.probe:
                    need(mkk is not None and e.probe in self.judge, "observer-early", lambda: f"{e.text()} started {where} on {e.probe[1]} of {e.probe[0].text()}")
                    out.count("observers fired")
                    out.fp("observer", e.probe[1], e.probe[0].ty)
                elif e.start is not None:
                    need(tr(e.start), "trigger", lambda: f"{e.text()} started {where} although its trigger is false")
                e.runs += 1
                e.pass_runs += 1
                if e.maxn is not None:
                    need(e.pass_runs <= e.maxn, "count", lambda: f"{e.text()} runs for the {e.pass_runs}. time {where}, declared {e.maxn}")
                if e.ty == 6:
                    sib = [q for q in e.parent.ch if q is not e and q.state == RUN]
                    if e.prio in ("override", "overwrite"):
                        need(not sib, "override", lambda: f"{e.text()} (override) runs {where} and {sib[0].text()} still runs")
                    elif e.prio == "skip":
                        need(not sib, "skip", lambda: f"{e.text()} (skip) started {where} while {sib[0].text()} runs")
                    reason = e.prio + str(bool(sib))
            elif old == RUN or s == DONE:
                if e.ty == 1:
                    need(e in stopping, "end-reason", lambda: f"storyboard ended {where} with no reason")
                    reason = "stop"
                elif stop_anc:
                    reason = "stop"
                elif old == RUN:
                    reason = self.why_end(e, k, seq, runs_at, where)
                else:
                    need(False, "standby-end", lambda: f"{e.text()} went from standby to complete {where} with no reason")
                if e.maxn is not None and not stop_anc:
                    if s == DONE:
                        need(e.runs >= e.maxn, "early-complete", lambda: f"{e.text()} complete {where} after {e.runs} of {e.maxn} executions")
                    else:
                        need(e.runs < e.maxn, "late-complete", lambda: f"{e.text()} back to standby {where} after {e.runs} of {e.maxn} executions")
            e.state = s
            if s == RUN and e.ty != 6:
                for c in e.ch:
                    c.pass_runs = 0 if c.state == INIT else c.pass_runs
            if e.ty in (4, 6) and old == RUN and s == STANDBY:
                e.silent_reset()
            out.fp(e.ty, old, s, reason, e.prio, (e.maxn or 0) > 1, min(e.runs, 3))
        # ---- after the step
        busy = {}
        for e in self.elems:
            if e.ty == 7 and e.state == RUN and e.spec.get("dom"):
                k = (e.spec["ent"], e.spec["dom"])
                need(k not in busy, "conflict", lambda: f"{e.text()} and {busy[k].text()} both run after step {step} for object o{k[0]}, domain {k[1]}")
                busy[k] = e
        for e in self.elems:
            p = e.parent
            if e.state == RUN and p:
                need(p.state == RUN, "orphan", lambda: f"{e.text()} runs after step {step} but {p.text()} is in state {p.state}")
            if e.ch and e.state == RUN:
                need(any(c.state != DONE for c in e.ch) or e.ty == 1, "not-complete", lambda: f"{e.text()} still runs after step {step} with all children complete")
                if e.ty == 6:
                    for c in e.ch:
                        need(c.state != INIT, "action-not-started", lambda: f"{e.text()} runs after step {step} but {c.text()} was not started")
                elif before[e] != RUN:
                    for c in e.ch:
                        need(c.state != INIT or c.evs, "child-not-started", lambda: f"{e.text()} started {where} but {c.text()} is in init state")
            if e in stopping:
                need(e.state == DONE, "not-stopped", lambda: f"{e.text()} in state {e.state} after its stop trigger was true {where}")
                for c in e.all():
                    need(c.state not in (STANDBY, RUN), "left-over", lambda: f"{c.text()} in state {c.state} after {e.text()} was stopped {where}")
            if e.state == STANDBY and before[e] == STANDBY and not e.evs and p and before[p] == RUN and p.state == RUN and not p.evs:
                if e.probe:
                    need(mkk is None or e.probe not in self.judge, "observer-late", lambda: f"{e.text()} not started {where} on {e.probe[1]} of {e.probe[0].text()}")
                elif e.start is None:
                    need(False, "no-restart", lambda: f"{e.text()} not restarted {where}")
                elif tr(e.start):
                    sib = e.ty == 6 and e.prio == "skip" and any(q is not e and (before[q] == RUN or q.evs) for q in p.ch)
                    need(sib, "no-start", lambda: f"{e.text()} not started {where} although its trigger is true")
                    out.fp(e.ty, "skipped")
            out.check(True, "", "")

    def why_end(self, e, k, seq, runs_at, where):
        need = self.out.need
        if e.ty == 7:
            sp = e.spec
            if sp["kind"] in ("count", "step"):
                return "done"
            if any(a.ty == 6 and self.overridden(a, k, seq) for a in e.up()):
                return "overridden"
            for (o, s) in seq[k:]:
                if o.ty == 7 and s == RUN and o is not e and o.spec.get("ent") == sp["ent"] and o.spec.get("dom") == sp["dom"]:
                    return "conflict"
            need(sp["T"] < 1e4, "action-end", lambda: f"{e.text()} ended {where} with no reason")
            return "timed"
        if e.ty == 6:
            if all(c.state == DONE for c in e.ch):
                # the last action may have ended for its own reasons
                return "children"
            need(self.overridden(e, k, seq), "event-end", lambda: f"{e.text()} ended {where} with actions in state {[c.state for c in e.ch]} and no overriding event")
            return "overridden"
        need(all(c.state == DONE for c in e.ch), "end-reason", lambda: f"{e.text()} ended {where} with children in state {[c.state for c in e.ch]}")
        return "children"

    def overridden(self, ev, k, seq):
        for (o, s) in seq[k:]:
            if o.ty == 6 and s == RUN and o is not ev and o.parent is ev.parent:
                return o.prio in ("override", "overwrite")
        return False
