"""Random OpenDRIVE road networks together with an independent reference evaluation of the format.

Nothing here is derived from esmini's numerical code: clothoids are integrated with Gauss-Legendre
quadrature, cubic polynomials are parameterised by arc length numerically, lanes are laid out by
summing widths from the centre outwards, and 3D is composed with plain rotation matrices.
"""
import math

import numpy as np

LANE_TYPES = {  # OpenDRIVE name -> bit that the public interface documents (roadmanager::Lane::LaneType)
    "none": 1, "driving": 2, "stop": 4, "shoulder": 8, "biking": 16, "sidewalk": 32, "border": 64, "restricted": 128,
    "parking": 256, "bidirectional": 512, "median": 1024, "special1": 2048, "special2": 4096, "special3": 8192,
    "roadWorks": 16384, "tram": 32768, "rail": 65536, "entry": 131072, "exit": 262144, "offRamp": 524288, "onRamp": 1048576,
    "curb": 2097152, "connectingRamp": 4194304,
}
ANY_DRIVING = sum(LANE_TYPES[t] for t in ("driving", "entry", "exit", "offRamp", "onRamp", "bidirectional", "connectingRamp"))

_GLX, _GLW = np.polynomial.legendre.leggauss(12)


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def poly(p, x):
    return p[0] + x * (p[1] + x * (p[2] + x * p[3]))


def dpoly(p, x):
    return p[1] + x * (2 * p[2] + x * 3 * p[3])


def ddpoly(p, x):
    return 2 * p[2] + 6 * p[3] * x


def _quad(f, a, b, panels):
    h = (b - a) / panels
    t = 0.0
    for i in range(panels):
        m = a + (i + 0.5) * h
        t = t + (f(m + 0.5 * h * _GLX) @ _GLW) * 0.5 * h
    return t


class Geom:
    """kind: line | arc(k) | spiral(k0,k1) | poly3(c,d) | pp3(U,V,norm)"""

    def __init__(self, kind, s, x, y, hdg, length, **kw):
        self.kind, self.s, self.x, self.y, self.hdg, self.length = kind, s, x, y, hdg, length
        self.__dict__.update(kw)

    def local(self, ds):
        """u, v, relative heading, curvature"""
        k = self.kind
        if k == "line":
            return ds, 0.0, 0.0, 0.0
        if k in ("arc", "spiral"):
            k0 = self.k if k == "arc" else self.k0
            k1 = self.k if k == "arc" else self.k1
            kd = (k1 - k0) / self.length
            n = max(1, int(math.ceil(abs(ds) * (abs(k0) + abs(k1)) / 0.7)))
            th = lambda q: k0 * q + 0.5 * kd * q * q  # noqa: E731
            u = _quad(lambda q: np.cos(th(q)), 0.0, ds, n)
            v = _quad(lambda q: np.sin(th(q)), 0.0, ds, n)
            return u, v, th(ds), k0 + kd * ds
        if k == "poly3":
            u = self._inv(ds, lambda q: np.sqrt(1 + (2 * self.c * q + 3 * self.d * q * q) ** 2), self.length)
            p = (0.0, 0.0, self.c, self.d)
            d1 = dpoly(p, u)
            return u, poly(p, u), math.atan(d1), ddpoly(p, u) / (1 + d1 * d1) ** 1.5
        if k == "pp3":
            U, V = self.U, self.V
            pmax = 1.0 if self.norm else self.length
            p = self._inv(ds, lambda q: np.sqrt((U[1] + 2 * U[2] * q + 3 * U[3] * q * q) ** 2
                                                + (V[1] + 2 * V[2] * q + 3 * V[3] * q * q) ** 2), pmax)
            up, vp = dpoly(U, p), dpoly(V, p)
            cur = (up * ddpoly(V, p) - vp * ddpoly(U, p)) / (up * up + vp * vp) ** 1.5
            return poly(U, p), poly(V, p), math.atan2(vp, up), cur
        raise ValueError(k)

    def _inv(self, ds, f, hi):
        """parameter at which the arc length integral of f reaches ds"""
        if ds <= 0:
            return 0.0
        lo, p = 0.0, min(hi, hi * ds / self.length)
        for _ in range(40):
            e = _quad(f, 0.0, p, 8) - ds
            step = e / float(f(np.array(p)))
            p = min(max(p - step, lo), hi * 1.5)
            if abs(step) < 1e-13 * max(1.0, hi):
                break
        return p

    def eval(self, ds):
        u, v, dh, k = self.local(ds)
        c, s = math.cos(self.hdg), math.sin(self.hdg)
        return float(self.x + u * c - v * s), float(self.y + u * s + v * c), float(self.hdg + dh), float(k)

    def xml(self):
        a = f'<geometry s="{self.s!r}" x="{self.x!r}" y="{self.y!r}" hdg="{self.hdg!r}" length="{self.length!r}">'
        if self.kind == "line":
            b = "<line/>"
        elif self.kind == "arc":
            b = f'<arc curvature="{self.k!r}"/>'
        elif self.kind == "spiral":
            b = f'<spiral curvStart="{self.k0!r}" curvEnd="{self.k1!r}"/>'
        elif self.kind == "poly3":
            b = f'<poly3 a="0" b="0" c="{self.c!r}" d="{self.d!r}"/>'
        else:
            U, V = self.U, self.V
            b = ('<paramPoly3 ' + " ".join(f'{n}U="{x!r}"' for n, x in zip("abcd", U)) + " "
                 + " ".join(f'{n}V="{x!r}"' for n, x in zip("abcd", V))
                 + f' pRange="{"normalized" if self.norm else "arcLength"}"/>')
        return a + b + "</geometry>"


def _rec(recs, s):
    """the last record (s0, ...) starting at or before s; the first one before that"""
    r = recs[0]
    for q in recs:
        if q[0] <= s:
            r = q
        else:
            break
    return r


class Lane:
    def __init__(self, lid, typ="driving", widths=None, heights=None, pred=None, succ=None):
        self.id, self.type = lid, typ
        self.widths = widths if widths is not None else ([] if lid == 0 else [(0.0, 3.5, 0.0, 0.0, 0.0)])
        self.heights = heights or []
        self.pred, self.succ = pred, succ

    def width(self, ds):
        if self.id == 0:
            return 0.0
        w = _rec(self.widths, ds)
        return poly(w[1:], ds - w[0])

    def dwidth(self, ds):
        if self.id == 0:
            return 0.0
        w = _rec(self.widths, ds)
        return dpoly(w[1:], ds - w[0])

    def height(self, ds, off):
        if not self.heights:
            return 0.0
        i = max([k for k, h in enumerate(self.heights) if h[0] <= ds] or [0])
        inner, outer = self.heights[i][1:]
        if i + 1 < len(self.heights):
            f = (ds - self.heights[i][0]) / (self.heights[i + 1][0] - self.heights[i][0])
            inner += f * (self.heights[i + 1][1] - inner)
            outer += f * (self.heights[i + 1][2] - outer)
        w = self.width(ds)
        sg = 1 if self.id > 0 else -1
        q = min(max((off * sg + 0.5 * w) / w, 0.0), 1.0)
        return inner + q * (outer - inner)

    def xml(self):
        link = ""
        if self.pred is not None or self.succ is not None:
            link = "<link>" + (f'<predecessor id="{self.pred}"/>' if self.pred is not None else "") + (
                f'<successor id="{self.succ}"/>' if self.succ is not None else "") + "</link>"
        w = "".join(f'<width sOffset="{r[0]!r}" a="{r[1]!r}" b="{r[2]!r}" c="{r[3]!r}" d="{r[4]!r}"/>' for r in self.widths)
        h = "".join(f'<height sOffset="{r[0]!r}" inner="{r[1]!r}" outer="{r[2]!r}"/>' for r in self.heights)
        m = getattr(self, "marks", "")
        return f'<lane id="{self.id}" type="{self.type}" level="false">{link}{w}{m}{h}</lane>'


class Section:
    def __init__(self, s, lanes):
        self.s = s
        self.lanes = {ln.id: ln for ln in lanes}
        if 0 not in self.lanes:
            self.lanes[0] = Lane(0, "none")

    def xml(self):
        out = f'<laneSection s="{self.s!r}">'
        for nm, ids in (("left", sorted([i for i in self.lanes if i > 0], reverse=True)), ("center", [0]),
                        ("right", sorted([i for i in self.lanes if i < 0], reverse=True))):
            if ids:
                out += f"<{nm}>" + "".join(self.lanes[i].xml() for i in ids) + f"</{nm}>"
        return out + "</laneSection>"

    def inner(self, lid, ds):
        """unsigned lateral distance from the lane reference to the lane's inner edge"""
        sg = 1 if lid > 0 else -1
        return sum(self.lanes[sg * k].width(ds) for k in range(1, abs(lid)))

    def center(self, lid, ds):
        """signed lateral position of the lane's centre relative to the lane reference line"""
        if lid == 0:
            return 0.0
        sg = 1 if lid > 0 else -1
        return sg * (self.inner(lid, ds) + 0.5 * self.lanes[lid].width(ds))

    def dcenter(self, lid, ds):
        if lid == 0:
            return 0.0
        sg = 1 if lid > 0 else -1
        return sg * (sum(self.lanes[sg * k].dwidth(ds) for k in range(1, abs(lid))) + 0.5 * self.lanes[lid].dwidth(ds))


def rotm(h, p, r):
    ch, sh, cp, sp, cr, sr = math.cos(h), math.sin(h), math.cos(p), math.sin(p), math.cos(r), math.sin(r)
    rz = np.array([[ch, -sh, 0], [sh, ch, 0], [0, 0, 1]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    return rz @ ry @ rx


class Road:
    def __init__(self, rid, geoms, sections, elev=None, sup=None, offs=None, rule="RHT", junction=-1, types=None, pred=None, succ=None,
                 signals=None, objects=""):
        self.id, self.geoms, self.sections = rid, geoms, sections
        self.elev, self.sup, self.offs = elev or [], sup or [], offs or []
        self.rule, self.junction = rule, junction
        self.types = types or []       # (s, type, speed max string or None, unit)
        self.pred, self.succ = pred, succ   # (elementType, id, contactPoint or None)
        self.signals = signals or []
        self.objects = objects
        self.length = geoms[-1].s + geoms[-1].length

    # -- reference evaluation
    def geom_at(self, s):
        g = self.geoms[0]
        for q in self.geoms:
            if q.s <= s:
                g = q
        return g

    def ref(self, s):
        g = self.geom_at(s)
        return g.eval(s - g.s)

    def sec_idx(self, s):
        i = 0
        for k, q in enumerate(self.sections):
            if q.s <= s:
                i = k
        return i

    def sec(self, s):
        return self.sections[self.sec_idx(s)]

    def offset(self, s):
        if not self.offs:
            return 0.0
        r = _rec(self.offs, s)
        return poly(r[1:], s - r[0])

    def doffset(self, s):
        if not self.offs:
            return 0.0
        r = _rec(self.offs, s)
        return dpoly(r[1:], s - r[0])

    def z(self, s):
        if not self.elev:
            return 0.0, 0.0
        r = _rec(self.elev, s)
        return poly(r[1:], s - r[0]), dpoly(r[1:], s - r[0])

    def roll(self, s):
        if not self.sup:
            return 0.0, 0.0
        r = _rec(self.sup, s)
        return poly(r[1:], s - r[0]), dpoly(r[1:], s - r[0])

    def lane_t(self, s, lid, off=0.0):
        sec = self.sec(s)
        return self.offset(s) + sec.center(lid, s - sec.s) + off

    def st2xyz(self, s, t, zl=0.0):
        x, y, h, k = self.ref(s)
        z, dz = self.z(s)
        rl, _ = self.roll(s)
        R = rotm(h, -math.atan(dz), rl)
        return np.array([x, y, z]) + R @ np.array([0.0, t, zl]), R, k

    def lane_at(self, s, t):
        """(lane id, offset from its centre) of the lane that contains t, by lane boundaries; None outside all lanes"""
        sec = self.sec(s)
        ds = s - sec.s
        tl = t - self.offset(s)
        sg = 1 if tl > 0 else -1
        k, acc = 1, 0.0
        while sg * k in sec.lanes:
            w = sec.lanes[sg * k].width(ds)
            if abs(tl) <= acc + w:
                return sg * k, tl - sg * (acc + 0.5 * w)
            acc += w
            k += 1
        return None

    def breaks(self):
        """all s where some record starts"""
        b = {0.0, self.length}
        for g in self.geoms:
            b.add(g.s)
        for rec in self.elev + self.sup + self.offs:
            b.add(rec[0])
        for t in self.types:
            b.add(t[0])
        for sec in self.sections:
            b.add(sec.s)
            for ln in sec.lanes.values():
                for w in ln.widths:
                    b.add(sec.s + w[0])
                for hgt in ln.heights:
                    b.add(sec.s + hgt[0])
        return sorted(x for x in b if 0 <= x <= self.length)

    def xml(self):
        out = f'<road name="r{self.id}" length="{self.length!r}" id="{self.id}" junction="{self.junction}"' + (
            f' rule="{self.rule}"' if self.rule else "") + ">"
        if self.pred or self.succ:
            out += "<link>"
            for nm, lk in (("predecessor", self.pred), ("successor", self.succ)):
                if lk:
                    out += f'<{nm} elementType="{lk[0]}" elementId="{lk[1]}"' + (f' contactPoint="{lk[2]}"' if lk[2] else "") + "/>"
            out += "</link>"
        for t in self.types:
            out += f'<type s="{t[0]!r}" type="{t[1]}">' + (f'<speed max="{t[2]}" unit="{t[3]}"/>' if t[2] is not None else "") + "</type>"
        out += "<planView>" + "".join(g.xml() for g in self.geoms) + "</planView>"
        if self.elev:
            out += "<elevationProfile>" + "".join(
                f'<elevation s="{r[0]!r}" a="{r[1]!r}" b="{r[2]!r}" c="{r[3]!r}" d="{r[4]!r}"/>' for r in self.elev) + "</elevationProfile>"
        if self.sup:
            out += "<lateralProfile>" + "".join(
                f'<superelevation s="{r[0]!r}" a="{r[1]!r}" b="{r[2]!r}" c="{r[3]!r}" d="{r[4]!r}"/>' for r in self.sup) + "</lateralProfile>"
        out += "<lanes>" + "".join(f'<laneOffset s="{r[0]!r}" a="{r[1]!r}" b="{r[2]!r}" c="{r[3]!r}" d="{r[4]!r}"/>' for r in self.offs)
        out += "".join(s.xml() for s in self.sections) + "</lanes>"
        out += self.objects
        if self.signals:
            out += "<signals>" + "".join(self.signals) + "</signals>"
        return out + "</road>\n"


class Network:
    def __init__(self, roads, junctions=()):
        self.roads = {r.id: r for r in roads}
        self.order = [r.id for r in roads]
        self.junctions = list(junctions)  # dicts: id, connections [(id, incoming, connecting, contact, [(from,to)])]

    def xml(self):
        out = '<?xml version="1.0" encoding="UTF-8"?>\n<OpenDRIVE><header revMajor="1" revMinor="6" name="" version="1.00" date="" north="0" south="0" east="0" west="0"/>\n'
        out += "".join(self.roads[i].xml() for i in self.order)
        for j in self.junctions:
            ty = j.get("type")
            out += f'<junction name="j{j["id"]}" id="{j["id"]}"' + (f' type="{ty}"' if ty else "") + ">"
            attr = "linkedRoad" if ty == "direct" else "connectingRoad"
            for cid, inc, con, cp, links in j["connections"]:
                out += f'<connection id="{cid}" incomingRoad="{inc}" {attr}="{con}" contactPoint="{cp}">' + "".join(
                    f'<laneLink from="{a}" to="{b}"/>' for a, b in links) + "</connection>"
            out += "</junction>\n"
        return out + "</OpenDRIVE>\n"


# ---------------------------------------------------------------- generators

def chain(rng, pose, kinds, nmin=1, nmax=5, lmin=15, lmax=180, kmax=0.02, maxturn=5.0):
    """a tangent-continuous chain of geometries from pose (x, y, hdg)"""
    x, y, h = pose
    out, s = [], 0.0
    turned = 0.0
    for _ in range(rng.randint(nmin, nmax)):
        kind = rng.choice(kinds)
        L = rng.uniform(lmin, lmax)
        if kind == "arc":
            k = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, math.log10(kmax))
            L = min(L, 2.5 / abs(k))
            g = Geom("arc", s, x, y, h, L, k=k)
        elif kind == "spiral":
            k0 = rng.choice([0.0, 0.0, rng.uniform(-kmax, kmax)])
            k1 = rng.choice([0.0, rng.uniform(-kmax, kmax), rng.uniform(-kmax, kmax)])
            k0, k1 = (q if abs(q) > 1e-5 else 0.0 for q in (k0, k1))
            if abs(k1 - k0) < 1e-5:
                k1 = k0 + kmax / 4
            g = Geom("spiral", s, x, y, h, L, k0=k0, k1=k1)
        elif kind == "poly3":
            c = rng.uniform(-0.002, 0.002)
            d = rng.uniform(-8e-6, 8e-6)
            g = Geom("poly3", s, x, y, h, L, c=c, d=d)
        elif kind == "pp3":
            # Hermite-like curve that starts along +u; arc length close to uniform or not, as the draw falls
            norm = rng.random() < 0.6
            dx = L * rng.uniform(0.8, 1.0)
            dy = dx * rng.uniform(-0.25, 0.25)
            m = rng.uniform(-0.4, 0.4)
            t0, t1 = L * rng.uniform(0.8, 1.2), L * rng.uniform(0.8, 1.2)
            U = [0.0, t0, 3 * dx - 2 * t0 - t1 * math.cos(m), -2 * dx + t0 + t1 * math.cos(m)]
            V = [0.0, 0.0, 3 * dy - t1 * math.sin(m), -2 * dy + t1 * math.sin(m)]
            f = lambda q: np.sqrt((U[1] + 2 * U[2] * q + 3 * U[3] * q * q) ** 2 + (V[1] + 2 * V[2] * q + 3 * V[3] * q * q) ** 2)  # noqa
            L = float(_quad(f, 0.0, 1.0, 40))
            if norm:
                g = Geom("pp3", s, x, y, h, L, U=U, V=V, norm=True)
            else:
                g = Geom("pp3", s, x, y, h, L, U=[U[i] / L ** i for i in range(4)], V=[V[i] / L ** i for i in range(4)], norm=False)
        else:
            g = Geom("line", s, x, y, h, L)
        x2, y2, h2, _ = g.eval(g.length)
        if abs(turned + h2 - h) > maxturn and out:
            continue
        turned += h2 - h
        out.append(g)
        x, y, h = x2, y2, h2
        s += g.length
    if not out:
        out = [Geom("line", 0.0, *pose, rng.uniform(lmin, lmax))]
    return out


def profile(rng, length, amp, slope, n=(0, 4), zero_start=None):
    """a C1 piecewise cubic profile: list of (s, a, b, c, d)"""
    k = rng.randint(*n)
    if k == 0:
        return []
    ss = sorted([0.0] + [rng.uniform(1, max(2, length - 1)) for _ in range(k - 1)])
    ss = [q for i, q in enumerate(ss) if i == 0 or q - ss[i - 1] > 2.0]
    knots = ss + [length]
    v = [rng.uniform(-amp, amp) for _ in knots]
    m = [rng.uniform(-slope, slope) for _ in knots]
    if rng.random() < 0.2:
        m = [0.0] * len(m)
    out = []
    for i in range(len(ss)):
        L = max(knots[i + 1] - knots[i], 1.0)
        dv = min(max(v[i + 1] - v[i], -slope * L), slope * L)
        v[i + 1] = v[i] + dv
        a, b = v[i], m[i]
        c = (3 * dv / L - 2 * m[i] - m[i + 1]) / L
        d = (m[i] + m[i + 1] - 2 * dv / L) / L ** 2
        out.append((ss[i], a, b, c, d))
    return out


def widths(rng, L, taper=False):
    def seg(s0, w0, w1, l):
        if rng.random() < 0.5:
            return (s0, w0, (w1 - w0) / l, 0.0, 0.0)
        return (s0, w0, 0.0, 3 * (w1 - w0) / l ** 2, -2 * (w1 - w0) / l ** 3)
    n = rng.choice([1, 1, 1, 2, 3])
    w = rng.uniform(1.2, 5.0)
    if n == 1 and not taper:
        if rng.random() < 0.6:
            return [(0.0, w, 0.0, 0.0, 0.0)]
        return [seg(0.0, w, min(max(w + rng.uniform(-0.08, 0.08) * L, 0.8), 6.0), L)]
    cuts = sorted(rng.uniform(0.1, 0.9) * L for _ in range(n - 1))
    ks = [0.0] + cuts + [L]
    ws = [w]
    for i in range(1, len(ks)):
        ws.append(min(max(ws[-1] + rng.uniform(-0.08, 0.08) * (ks[i] - ks[i - 1]), 0.8), 6.0))
    if taper:
        if rng.random() < 0.5:
            ws[0] = 0.0
        else:
            ws[-1] = 0.0
    return [seg(ks[i], ws[i], ws[i + 1], max(ks[i + 1] - ks[i], 1e-3)) for i in range(len(ks) - 1)]


def sections(rng, length, nsec=(1, 4), nl=(0, 4), nr=(0, 4), types=None, heights=0.3, taper=0.1, wfun=None):
    types = types or ["driving"] * 6 + ["shoulder", "border", "sidewalk", "biking", "parking", "restricted", "median", "entry", "exit", "stop", "none"]
    k = rng.randint(*nsec)
    ss = sorted([0.0] + [rng.uniform(0.05, 0.95) * length for _ in range(k - 1)])
    ss = [q for i, q in enumerate(ss) if i == 0 or q - ss[i - 1] > 3.0]
    out = []
    for i, s0 in enumerate(ss):
        L = (ss[i + 1] if i + 1 < len(ss) else length) - s0
        a, b = rng.randint(*nl), rng.randint(*nr)
        if a + b == 0:
            b = 1
        lanes = []
        for lid in list(range(a, 0, -1)) + list(range(-1, -b - 1, -1)):
            hs = []
            if rng.random() < heights:
                hs = [(0.0, rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3))]
                for q in sorted(rng.uniform(0.1, 0.9) for _ in range(rng.choice([0, 0, 1, 2, 3]))):
                    if L * q - hs[-1][0] > 0.5:
                        hs.append((L * q, rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3)))
            w = wfun(rng, L) if wfun else widths(rng, L, rng.random() < taper)
            lanes.append(Lane(lid, rng.choice(types), w, hs))
        out.append(Section(s0, lanes))
    # order-preserving lane links between consecutive sections
    for p, q in zip(out, out[1:]):
        for sg in (1, -1):
            m = max([abs(i) for i in p.lanes if i * sg > 0] or [0])
            n = max([abs(i) for i in q.lanes if i * sg > 0] or [0])
            c = min(m, n)
            fa = sorted(rng.sample(range(1, m + 1), c))
            fb = sorted(rng.sample(range(1, n + 1), c))
            for x, y in zip(fa, fb):
                p.lanes[sg * x].succ = sg * y
                q.lanes[sg * y].pred = sg * x
    return out
