"""C14: a recording reproduces the run it was made from."""
import os
import random
import re
import subprocess

import dat
import es
import rich
import vlib
from c11 import Bend, bundled

PID = "C14"
LEVEL = "exploration"
TIMEOUT = 120
RULE = ("runs with recording on (generated scenarios with all kinds of actions and controllers, bundled scenarios; objects added, reported and deleted through the API; fixed, piecewise fixed and "
        "irregular time steps) are traced through the API after every step; the file is then converted by dat2csv and read by an independent packet reader, and both must give for every step exactly the "
        "objects that existed, with the traced pose, road coordinates, speed, wheel state, name, type and size, each time once and in order; the file cut at random bytes must be refused or give the same rows up to "
        "the last complete time step; one evaluation = one value of one object at one step; distinct = scenario kind x time step pattern x API calls x presence of deletions")
ASSUMPTIONS = ["values are recorded with the precision of their change detection (1e-6)", "runs with a ghost, which restart time, are left out",
               "a step whose time differs less than 1e-6 from the previous one is not a time step of its own"]
TOL = 3e-6
D2C = None


def build(B):
    global D2C
    r = B.build("plain", ["libesmini.so", "dat2csv"])
    D2C = r["dat2csv"]
    return es.load(r["libesmini.so"])


def cases(rng, tier):
    n = {"quick": 1500, "thorough": 12000}[tier]
    cs = [{"id": f"g{i}", "seed": rng.getrandbits(48)} for i in range(n)]
    fs = [f for f in bundled() if not re.search("udp|sumo|ghost", open(f"{vlib.REPO}/{f}", errors="replace").read().lower())]
    if tier == "quick":
        fs = rng.sample(fs, min(len(fs), 40))
    cs += [{"id": "b:" + f, "file": f, "seed": rng.getrandbits(48)} for f in fs]
    rng.shuffle(cs)
    return cs


def steps(rng):
    """(kind, dts)"""
    n = rng.choice([3, 40, 120])
    k = rng.choice(["fixed", "fixed", "piecewise", "piecewise", "random", "two"])
    if k == "fixed":
        return k, [rng.choice([0.01, 0.05, 0.1, 1.0 / 60, 0.033])] * n
    if k == "random":
        return k, [rng.uniform(0.001, 0.2) for _ in range(n)]
    if k == "two":
        a, b = rng.uniform(0.01, 0.1), rng.uniform(0.01, 0.1)
        return k, [rng.choice([a, b]) for _ in range(n)]
    d = []
    while len(d) < n:
        d += [rng.choice([0.01, 0.02, 0.05, 0.1, rng.uniform(0.005, 0.1)])] * rng.choice([1, 1, 2, 3, 10, 30])
    return k, d


COLS = ["x", "y", "z", "h", "p", "r", "roadId", "laneId", "laneOffset", "t", "s", "speed", "wheel_angle", "wheel_rot"]


def snap(se):
    o = {}
    for i in se.ids():
        s = se.state(i)
        nm = se.l.SE_GetObjectName(i)
        o[i] = {"name": nm.decode(errors="replace") if nm else "", **{c: getattr(s, c) for c in COLS},
                "BOUNDING_BOX": (s.centerOffsetX, s.centerOffsetY, s.centerOffsetZ, s.length, s.width, s.height), "OBJ_TYPE": s.objectType, "OBJ_CATEGORY": s.objectCategory,
                "MODEL_ID": s.model_id, "CTRL_TYPE": s.ctrl_type}
    return o


def convert(f, out_csv):
    p = subprocess.run([D2C, "--file", f, "--csv", out_csv, "--extended", "--precision", "9"], capture_output=True, timeout=60, errors="replace")
    rows = []
    if p.returncode == 0 and os.path.exists(out_csv):
        for ln in open(out_csv, errors="replace").read().split("\n")[1:]:
            if not ln.strip():
                continue
            q = ln.split(", ")
            nm = ", ".join(q[2:len(q) - 14])
            v = q[len(q) - 14:]
            try:
                rows.append((float(q[0]), int(q[1]), nm, [float(x) for x in v]))
            except (ValueError, IndexError):
                rows.append((None, None, ln, []))
    return p.returncode, rows, p.stdout + p.stderr


def near(a, b, ang=False):
    d = abs(a - b)
    if ang:
        d = min(d, abs(d - 6.283185307179586))
    return d <= TOL + 1e-9 * abs(a) or (a != a and b != b)


def run(case, out, l):
    rng = random.Random(case["seed"])
    kind, dts = steps(rng)
    api = rng.random() < 0.5
    if "file" in case:
        path = f"{vlib.REPO}/{case['file']}"
        api = False
        dts = dts[:80]
        sk = "bundled"
    else:
        ch = Bend(rng, rng.randint(1, 6), rng.choice([2, 3]), rng.choice(["RHT", "LHT"]), 0.02, rng.choice([0.0, 0.03]))
        open("net.xodr", "w").write(ch.xml())
        sk = rng.choice(["rich", "rich", "idle"])
        t, _ = rich.generate(rng, ch, ghosts=False, events=5 if sk == "rich" else 1, horizon=max(0.3, sum(dts)))
        if sk == "idle":   # nothing moves: most steps leave no trace of their own
            t = re.sub(r"<AbsoluteTargetSpeed value=['\"][^'\"]*['\"]", "<AbsoluteTargetSpeed value='0'", t)
        open("s.xosc", "w").write(t)
        out.art("s.xosc", t)
        path = "s.xosc"
    se = es.SE(l)
    l.SE_ResetParameterDistribution()
    l.SE_AddPath((vlib.REPO + "/resources/xosc").encode())
    l.SE_SetSeed(rng.randint(1, 1000))
    l.SE_SetDatFilePath(b"rec.dat")
    if se.init(xosc=path, record=1) != 0:
        out.skipped = "scenario not accepted"
        return
    trace = [(se.time(), snap(se))]
    evs = [list(se.events)]
    ne = len(se.events)
    added = []
    calls = 0
    removed = 0
    for n, dt in enumerate(dts):
        if api and rng.random() < 0.15:
            k = rng.choice(["add", "del", "pos", "pos", "speed", "wheel"])
            ids = se.ids()
            calls += 1
            if k == "add":
                i = l.SE_AddObject(f"added{n}".encode(), rng.choice([1, 2]), rng.randint(0, 3), 0, rng.choice([0, 1, 7]), b"")
                if i >= 0:
                    l.SE_ReportObjectPosXYH(i, rng.uniform(-100, 300), rng.uniform(-20, 20), rng.uniform(0, 6))
                    added.append(i)
            elif k == "del" and ids:
                i = rng.choice(ids)
                removed += l.SE_DeleteObject(i) == 0
                if i in added:
                    added.remove(i)
            elif added:
                i = rng.choice(added)
                if k == "pos":
                    l.SE_ReportObjectPosXYH(i, rng.uniform(-100, 300), rng.uniform(-20, 20), rng.uniform(0, 6))
                elif k == "speed":
                    l.SE_ReportObjectSpeed(i, rng.uniform(-5, 30))
                else:
                    l.SE_ReportObjectWheelStatus(i, rng.uniform(-3, 3), rng.uniform(-1, 1))
        rc = se.step(dt)
        if rc != 0 or (l.SE_GetQuitFlag() and se.time() == trace[-1][0]):
            break   # the end of the scenario is no time step
        trace.append((se.time(), snap(se)))
        evs.append(se.events[ne:])
        ne = len(se.events)
        if l.SE_GetQuitFlag():
            break
    se.close()
    try:
        b = open("rec.dat", "rb").read()
    except OSError:
        b = b""
    if not b and [f for f in os.listdir(".") if f.startswith("rec") and f != "rec.dat"]:
        out.skipped = "recorded under another name (parameter distribution)"
        return
    out.need(len(b) > 0, "no recording", "no recording was written")
    nd = sum(1 for a, c in zip(trace, trace[1:]) if set(a[1]) - set(c[1]))
    out.fp(sk, kind, api, calls > 3, nd > 0, len(trace) > 50, len(trace[0][1]))
    out.count("recorded steps", len(trace))
    out.count("steps with a deletion", nd)
    what = f"{kind} {len(trace)} steps, {len(trace[0][1])} objects, {calls} calls"

    def obj(tag, t, i, name, vals, live):
        for c, v in zip(COLS, vals):
            e = live[c]
            if c in ("roadId", "laneId"):
                ok = int(v) & 0xffffffff == int(e) & 0xffffffff
            else:
                ok = near(v, e, c in ("h", "p", "r"))
            out.check(ok, tag + " " + c, lambda: f"{what}: time {t:.6f} object {i} ({name}): {c} {v!r}, reported live {e!r}")
        out.check(name == live["name"], tag + " name", lambda: f"{what}: time {t:.6f} object {i} is named {name!r}, reported live {live['name']!r}")

    # converted by dat2csv
    rc, rows, log = convert("rec.dat", "rec.csv")
    out.need(rc == 0, "conversion fails", lambda: f"{what}: dat2csv returned {rc}: {log[-300:]}")
    bt = []
    for r in rows:
        if r[0] is None:
            out.viol("csv", f"{what}: unreadable row {r[2]!r}")
            return
        if not bt or bt[-1][0] != r[0]:
            bt.append((r[0], []))
        bt[-1][1].append(r)
    want = [(t, o) for t, o in trace if o]
    out.check([round(t, 5) for t, _ in bt] == [round(t, 5) for t, _ in want] or (len(bt) == len(want) and all(abs(x[0] - y[0]) < 2e-6 for x, y in zip(bt, want))), "csv time steps",
              lambda: f"{what}: converted times {cmp_times([t for t, _ in bt], [t for t, _ in want])}")
    bad = len(bt) != len(want)
    for k in range(min(len(bt), len(want))):
        t, rs = bt[k]
        if abs(t - want[k][0]) > 2e-6:
            bad = True
            break
        ids = [r[1] for r in rs]
        out.check(sorted(ids) == sorted(want[k][1]), "csv objects", lambda: f"{what}: time {t:.6f} converted objects {sorted(ids)}, live {sorted(want[k][1])}")
        for r in rs:
            if r[1] in want[k][1]:
                obj("csv", t, r[1], r[2], r[3], want[k][1][r[1]])
    # read by the independent reader
    hdr, pk = dat.packets(b)
    sts = dat.states(pk)
    out.check(pk[-1][0] == "END_OF_SCENARIO" and abs(pk[-1][1] - trace[-1][0]) < 2e-6, "end of recording", lambda: f"{what}: last packet {pk[-1]}, last time {trace[-1][0]}")
    out.check(all(a[0] < c[0] for a, c in zip(sts, sts[1:])), "file time order", lambda: f"{what}: times in the file {[a[0] for a in sts][:20]}")
    j = 0
    cur = None
    for k, (t, o) in enumerate(trace):
        fresh = None
        while j < len(sts) and sts[j][0] < t + 1e-7:
            out.check(abs(sts[j][0] - t) < 1e-6, "file time", lambda: f"{what}: recorded time {sts[j][0]} is no simulated time (next {t})")
            cur = fresh = sts[j]
            j += 1
        if cur is None:
            out.viol("file time", f"{what}: nothing recorded at {t}")
            break
        out.check(set(cur[1]) == set(o), "file objects", lambda: f"{what}: time {t:.6f} recorded objects {sorted(cur[1])}, live {sorted(o)}")
        for i in set(cur[1]) & set(o):
            r = cur[1][i]
            pose = r.get("POSE", (0.0,) * 6)
            obj("file", t, i, r.get("NAME", ""), list(pose) + [r.get("ROAD_ID", -1), r.get("LANE_ID", 0), r.get("POS_OFFSET", 0.0), r.get("POS_T", 0.0), r.get("POS_S", 0.0), r.get("SPEED", 0.0),
                                                             r.get("WHEEL_ANGLE", 0.0), r.get("WHEEL_ROT", 0.0)], o[i])
            for a in ("OBJ_TYPE", "OBJ_CATEGORY", "MODEL_ID", "CTRL_TYPE"):
                out.check(r.get(a, -1) == o[i][a], "file " + a, lambda: f"{what}: time {t:.6f} object {i}: {a} {r.get(a)}, live {o[i][a]}")
            bb = r.get("BOUNDING_BOX")
            out.check(bb is not None and all(near(x, float(y)) or abs(x - y) < 1e-5 for x, y in zip(bb, o[i]["BOUNDING_BOX"])), "file bounding box",
                      lambda: f"{what}: time {t:.6f} object {i}: bounding box {bb}, live {o[i]['BOUNDING_BOX']}")
        # storyboard changes of this step
        ch_ = [tuple(x.split(";")[:3]) for e in (fresh[3] if fresh else []) for x in e.split("\n") if x.strip()]
        le = [(str(e[4]), str(e[5]), e[3]) for e in evs[k] if e[0] == "sb"]
        if k > 0:
            out.check(sorted(ch_) == sorted(le), "file storyboard changes", lambda: f"{what}: time {t:.6f} recorded changes {ch_[:6]}, live {le[:6]}")
    out.check(j == len(sts), "file time", lambda: f"{what}: recorded times after the end {[s[0] for s in sts[j:]][:5]}")
    # cut off anywhere
    if not bad and "file" not in case:
        for _ in range(6):
            n = rng.choice([rng.randint(0, len(b)), rng.randint(0, min(len(b), 600)), rng.choice([p[2] for p in pk])])
            open("cut.dat", "wb").write(b[:n])
            if os.path.exists("cut.csv"):
                os.remove("cut.csv")
            rc, rr, log = convert("cut.dat", "cut.csv")
            out.count("cut recordings")
            out.check(rc >= 0 and (rc < 128 or rc == 255), "cut recording crashes", lambda: f"{what}: recording cut at byte {n} of {len(b)}: dat2csv ended with {rc}: {log[-200:]}")
            if rc != 0 or not rr:
                out.count("cut recordings refused or empty")
                continue
            out.count("rows of cut recordings", len(rr))
            last = rr[-1][0]
            a = [r for r in rr if r[0] is None or r[0] < last - 1e-7]
            c = rows[:len(a)]
            out.check(repr(a) == repr(c), "cut recording", lambda: f"{what}: recording cut at byte {n} of {len(b)}: row {first(a, c)} of {len(a)} differs from the complete recording")
    out.sample(f"{case['id']}: {what}; {len(b)} bytes, {len(pk)} packets, {len(rows)} rows")


def cmp_times(a, b):
    n = next((k for k, (x, y) in enumerate(zip(a, b)) if abs(x - y) > 2e-6), min(len(a), len(b)))
    return f"{len(a)} against {len(b)} simulated, first difference at {n}: {a[max(0, n - 2):n + 4]} against {b[max(0, n - 2):n + 4]}"


def first(a, c):
    k = next(k for k, (x, y) in enumerate(zip(a + [0], c + [0])) if repr(x) != repr(y))
    return f"{k} {a[k:k + 1]} / {c[k:k + 1]}"
