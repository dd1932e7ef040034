"""Random connected road networks (road links, junctions with connecting roads, direct junctions) and an
independent reference for following their links.  Uses odr.py; nothing here is derived from esmini's code."""
import heapq
import math

import odr

START, END = 0, 1


class Net:
    """adj[(road, end)] -> kind ("none" | "road" | "junction") and for each lane the declared continuations:
       next[(road, end, lane)] = [(road2, end2, lane2)], where end2 is the end at which road2 is entered"""

    def __init__(self):
        self.roads = {}
        self.next = {}
        self.link = {}      # (road, end) -> ("road", road2, end2) | ("junction", id)
        self.junctions = []
        self.rule = "RHT"

    def xml(self):
        return odr.Network([self.roads[i] for i in self.order], self.junctions).xml()

    def dirsign(self, lane):
        """+1 if the lane is driven along increasing s"""
        return (-1 if lane > 0 else 1) * (1 if self.rule == "RHT" else -1)

    def end_section(self, rid, end):
        r = self.roads[rid]
        return r.sections[0] if end == START else r.sections[-1]

    # -- following links --------------------------------------------------
    def walk_in_road(self, rid, lane, s0, s1):
        """lane id at s1 when following section links from s0; None where a link is missing"""
        r = self.roads[rid]
        i, j = r.sec_idx(s0), r.sec_idx(s1)
        while i < j:
            lane = r.sections[i].lanes[lane].succ
            i += 1
            if lane is None:
                return None
        while i > j:
            lane = r.sections[i].lanes[lane].pred
            i -= 1
            if lane is None:
                return None
        return lane


def _road(rng, rid, pose, kinds, nsec, nl, nr, lmin, lmax, rule, straight=False, const=True):
    geoms = odr.chain(rng, pose, ["line"] if straight else kinds, nmin=1, nmax=1 if straight else 3, lmin=lmin, lmax=lmax, kmax=0.02, maxturn=2.5)
    L = geoms[-1].s + geoms[-1].length
    secs = odr.sections(rng, L, nsec=nsec, nl=nl, nr=nr, types=["driving"], heights=0, taper=0,
                        wfun=lambda r, l: [(0.0, r.choice([3.0, 3.5, 4.0]), 0.0, 0.0, 0.0)])
    return odr.Road(rid, geoms, secs, rule=rule)


def generate(rng, nroads=(3, 7), nsec=(1, 3), nl=(1, 3), nr=(1, 3), pfree=0.2, pjunction=0.5, kinds=("line", "arc"), direct=True, curved_in=True,
             drop=True, same_lanes=False, lmin=20, lmax=150, rule=None, bidir=0.3):
    net = Net()
    net.rule = rule or rng.choice(["RHT", "RHT", "LHT"])
    n = rng.randint(*nroads)
    rids = rng.sample(range(0, 60), n)
    net.order = []
    if same_lanes:
        nl = (rng.randint(*nl),) * 2
        nr = (rng.randint(*nr),) * 2
    for k, rid in enumerate(rids):
        pose = (rng.uniform(-2000, 2000), 1000.0 * k, rng.uniform(-3, 3))
        r = _road(rng, rid, pose, list(kinds), nsec, nl, nr, lmin, lmax, net.rule, straight=not curved_in)
        net.roads[rid] = r
        net.order.append(rid)
    ends = [(rid, e) for rid in rids for e in (START, END)]
    rng.shuffle(ends)
    free = [e for e in ends if rng.random() >= pfree]
    nextid = 100
    jid = rng.randint(0, 3)
    while len(free) >= 2:
        if rng.random() < pjunction:
            grp = []
            for e in list(free):
                if all(e[0] != g[0] for g in grp):
                    grp.append(e)
                if len(grp) == rng.choice([2, 3, 3, 4]):
                    break
            if len(grp) < 2:
                break
            for g in grp:
                free.remove(g)
            if direct and rng.random() < 0.3:
                _direct(rng, net, jid, grp)
            else:
                nextid = _junction(rng, net, jid, grp, nextid, drop, list(kinds), bidir)
            jid += rng.randint(1, 5)
        else:
            a = free.pop()
            b = next((e for e in free if e[0] != a[0] and not any(v[0] == "road" and {k[0], v[1]} == {a[0], e[0]} for k, v in net.link.items())), None)
            if b is None:
                continue
            free.remove(b)
            _link(rng, net, a, b, drop)
    for rid, r in net.roads.items():
        for e in (START, END):
            lk = net.link.get((rid, e))
            v = None
            if lk:
                v = ("road", lk[1], "start" if lk[2] == START else "end") if lk[0] == "road" else ("junction", lk[1], None)
            if e == START:
                r.pred = v
            else:
                r.succ = v
    return net


def _pair(rng, na, nb, drop):
    c = min(na, nb)
    if drop and c > 1 and rng.random() < 0.15:
        c -= 1
    return list(zip(sorted(rng.sample(range(1, na + 1), c)), sorted(rng.sample(range(1, nb + 1), c))))


def _connect_lanes(net, a, la, b, lb):
    """lane la at end a of its road continues as lb at end b"""
    ln = net.end_section(*a).lanes[la]
    if a[1] == END:
        ln.succ = lb
    else:
        ln.pred = lb
    net.next.setdefault((a[0], a[1], la), []).append((b[0], b[1], lb))


def _count(sec, sg):
    return sum(1 for i in sec.lanes if i * sg > 0)


def _link(rng, net, a, b, drop):
    net.link[a] = ("road", b[0], b[1])
    net.link[b] = ("road", a[0], a[1])
    sa, sb = net.end_section(*a), net.end_section(*b)
    for sg in (1, -1):
        sg2 = sg if a[1] != b[1] else -sg
        for x, y in _pair(rng, _count(sa, sg), _count(sb, sg2), drop):
            _connect_lanes(net, a, sg * x, b, sg2 * y)
            _connect_lanes(net, b, sg2 * y, a, sg * x)


def _insign(net, e):
    """sign of lanes driven towards the end e"""
    s = -1 if e[1] == END else 1
    return s if net.rule == "RHT" else -s


def _junction(rng, net, jid, grp, nextid, drop, kinds, bidir):
    J = {"id": jid, "connections": []}
    for g in grp:
        net.link[g] = ("junction", jid)
    pairs = [(a, b) for a in grp for b in grp if a < b]
    cid = 0
    for a, b in pairs:
        todo = []
        u = rng.random()
        if u < bidir:
            todo = [(a, b, True)]
        else:
            if rng.random() < 0.8:
                todo.append((a, b, False))
            if rng.random() < 0.8:
                todo.append((b, a, False))
        for f, t, both in todo:
            rev = rng.random() < 0.4        # the connecting road is drawn against the travel direction
            c = nextid
            nextid += 1
            cs, ce = (t, f) if rev else (f, t)        # road ends at its start and its end
            # side of the connecting road used for travel f -> t
            fwd = -1 if net.rule == "RHT" else 1
            side = -fwd if rev else fwd
            lanes = {}
            maps = []
            for x, y, sd in ([(f, t, side), (t, f, -side)] if both else [(f, t, side)]):
                si, so = _insign(net, x), -_insign(net, y)
                m = _pair(rng, _count(net.end_section(*x), si), _count(net.end_section(*y), so), drop)
                for k, (p, q) in enumerate(m):
                    maps.append((x, si * p, sd * (k + 1), y, so * q))
                    lanes[sd * (k + 1)] = 1
            if not maps:
                continue
            geoms = odr.chain(rng, (rng.uniform(-500, 500), -1000.0 - 50 * c, rng.uniform(-3, 3)), kinds, nmin=1, nmax=2, lmin=8, lmax=40, kmax=0.05, maxturn=2.0)
            L = geoms[-1].s + geoms[-1].length
            ss = [0.0] if rng.random() < 0.7 else [0.0, L * rng.uniform(0.3, 0.7)]
            secs = []
            for k, s0 in enumerate(ss):
                ls = [odr.Lane(i, "driving", [(0.0, 3.5, 0.0, 0.0, 0.0)], succ=i if k + 1 < len(ss) else None, pred=i if k else None) for i in sorted(lanes, reverse=True)]
                secs.append(odr.Section(s0, ls))
            r = odr.Road(c, geoms, secs, rule=net.rule, junction=jid)
            net.roads[c] = r
            net.order.append(c)
            net.link[(c, START)] = ("road", cs[0], cs[1])
            net.link[(c, END)] = ("road", ce[0], ce[1])
            ends_declared = set()
            for x, lx, lc, y, ly in maps:
                ex = END if ce == x else START       # end of the connecting road at x
                ey = START if ex == END else END
                # connecting road lanes link to both roads
                for e, (g, lg) in ((ex, (x, lx)), (ey, (y, ly))):
                    ln = net.end_section(c, e).lanes[lc]
                    if e == END:
                        ln.succ = lg
                    else:
                        ln.pred = lg
                    net.next.setdefault((c, e, lc), []).append((g[0], g[1], lg))
                ends_declared.add((x, ex))
            for x, ex in sorted(ends_declared):
                lk = [(lx, lc) for q, lx, lc, _, _ in maps if q == x]
                J["connections"].append((cid, x[0], c, "start" if ex == START else "end", lk))
                cid += 1
                for lx, lc in lk:
                    net.next.setdefault((x[0], x[1], lx), []).append((c, ex, lc))
            if len(ends_declared) == 1:
                # the way back over the same lane links
                for x, lx, lc, y, ly in maps:
                    ey = END if ce == y else START
                    net.next.setdefault((y[0], y[1], ly), []).append((c, ey, lc))
    rng.shuffle(J["connections"])
    net.junctions.append(J)
    return nextid


def _direct(rng, net, jid, grp):
    J = {"id": jid, "type": "direct", "connections": []}
    for g in grp:
        net.link[g] = ("junction", jid)
    a = grp[0]
    sa = net.end_section(*a)
    for cid, b in enumerate(grp[1:]):
        sb = net.end_section(*b)
        lk = []
        for sg in (1, -1):
            sg2 = sg if a[1] != b[1] else -sg
            for x, y in _pair(rng, _count(sa, sg), _count(sb, sg2), True):
                lk.append((sg * x, sg2 * y))
                net.next.setdefault((a[0], a[1], sg * x), []).append((b[0], b[1], sg2 * y))
                net.next.setdefault((b[0], b[1], sg2 * y), []).append((a[0], a[1], sg * x))
        J["connections"].append((cid, a[0], b[0], "start" if b[1] == START else "end", lk))
    net.junctions.append(J)


class Lost(Exception):
    """a declared link is missing: the continuation is esmini's choice"""


def move(net, road, lane, s, d, ds, links=0, choose=None):
    """all (road, lane, s, direction, flips, ended) reachable by going ds >= 0 along reference lines in direction d (+1/-1 of s).
       choose(road, end, lane, continuations) may narrow the continuations"""
    r = net.roads[road]
    room = r.length - s if d > 0 else s
    if ds <= room:
        s1 = s + d * ds
        ln = net.walk_in_road(road, lane, s, s1)
        if ln is None:
            raise Lost("section")
        return [(road, ln, s1, d, 0, False, links)]
    e = END if d > 0 else START
    se = r.length if d > 0 else 0.0
    ln = net.walk_in_road(road, lane, s, se)
    if ln is None:
        raise Lost("section")
    lk = net.link.get((road, e))
    nx = net.next.get((road, e, ln), [])
    if lk is None or (lk[0] == "junction" and not nx):
        return [(road, ln, se, d, 0, True, links)]
    if not nx:
        raise Lost("road link")
    if links >= 7:
        raise Lost("too far")
    if choose:
        nx = choose(road, e, ln, nx)
    out = []
    for r2, e2, l2 in nx:
        L2 = net.roads[r2].length
        d2 = 1 if e2 == START else -1
        fl = 1 if e == e2 else 0
        for q in move(net, r2, l2, 0.0 if e2 == START else L2, d2, ds - room, links + 1, choose):
            out.append(q[:4] + (q[4] + fl,) + q[5:])
    return out
