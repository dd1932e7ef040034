"""C16: parameters, expressions and distributions evaluate to their defined values."""
import ctypes as C
import itertools
import math
import random

import es
import scn
from scn import el

PID = "C16"
LEVEL = "exploration"
RULE = ("every declared parameter and variable, read through the typed getters after the file is loaded, after every API set and after every set, add and multiply action, has the value an independent "
        "evaluator gives its declaration; attributes written as references or expressions (poses, speeds, lanes, times, names, object properties, catalog and story scopes) show that value in the "
        "loaded objects and the run; over the permutations of a distribution every combination of values appears exactly once")
ASSUMPTIONS = ["esmini carries expression results as text with six decimals: values are compared with that tolerance, propagated through dependent declarations",
               "% is the IEEE remainder and round the IEEE rounding to even, as the unit tests of esmini say", "parameter names never contain another declared name followed by an operator character",
               "expressions use the operators and functions of the OpenSCENARIO 1.x grammar and the additional functions of the user guide"]


def cases(rng, tier):
    k = {"quick": 1, "thorough": 10}[tier]
    out = [{"id": f"e{i}", "kind": "expr", "seed": rng.getrandbits(48)} for i in range(420 * k)]
    out += [{"id": f"s{i}", "kind": "scope", "seed": rng.getrandbits(48)} for i in range(240 * k)]
    out += [{"id": f"a{i}", "kind": "action", "seed": rng.getrandbits(48)} for i in range(240 * k)]
    out += [{"id": f"d{i}", "kind": "dist", "seed": rng.getrandbits(48)} for i in range(120 * k)]
    return out


# ---------------------------------------------------------------- expressions with a reference evaluator

PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}
FUN = {"round": lambda a: float(round(a)), "floor": lambda a: float(math.floor(a)), "ceil": lambda a: float(math.ceil(a)), "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos,
       "abs": abs, "sign": lambda a: -1.0 if a < 0 else 1.0, "atan": math.atan}
FUN2 = {"pow": math.pow, "max": max, "min": min}


def num(rng):
    k = rng.randrange(5)
    if k == 0:
        return str(rng.randint(0, 20))
    if k == 1:
        return f"{rng.uniform(0, 50):.{rng.randint(1, 5)}f}"
    if k == 2:
        return str(rng.randint(0, 9)) + "." + rng.choice(["0", "25", "5", "125"])
    if k == 3:
        return f"{rng.uniform(0.001, 500):.{rng.randint(1, 4)}e}"
    return str(rng.choice([0, 1, 2, 10, 100, 360]))


def tree(rng, pars, depth, boolean=False):
    """pars: names by type ('num' and 'bool')"""
    if boolean:
        if depth <= 0 or rng.random() < 0.2:
            if pars["bool"] and rng.random() < 0.7:
                return ("par", rng.choice(pars["bool"]))
            return ("lit", rng.choice(["true", "false"]))
        k = rng.random()
        if k < 0.4:
            return (rng.choice(["<", ">", "<=", ">=", "==", "!="]), tree(rng, pars, depth - 1), tree(rng, pars, depth - 1))
        if k < 0.8:
            return (rng.choice(["and", "or"]), tree(rng, pars, depth - 1, True), tree(rng, pars, depth - 1, True))
        return ("not", tree(rng, pars, depth - 1, True))
    if depth <= 0 or rng.random() < 0.15:
        if pars["num"] and rng.random() < 0.7:
            return ("par", rng.choice(pars["num"]))
        return ("lit", num(rng)) if rng.random() < 0.93 else ("lit", rng.choice(["pi", "e"]))
    k = rng.random()
    if k < 0.65:
        return (rng.choice("++--**/%"), tree(rng, pars, depth - 1), tree(rng, pars, depth - 1))
    if k < 0.75:
        return ("neg", tree(rng, pars, depth - 1))
    if k < 0.92:
        return ("f", rng.choice(list(FUN)), tree(rng, pars, depth - 1))
    return ("f", rng.choice(list(FUN2)), tree(rng, pars, depth - 1), tree(rng, pars, depth - 1))


def ev(t, env):
    o = t[0]
    if o == "lit":
        return {"true": 1.0, "false": 0.0, "pi": math.pi, "e": math.e}.get(t[1]) if t[1] in ("true", "false", "pi", "e") else float(t[1])
    if o == "par":
        return float(env[t[1]])
    if o == "neg":
        return -ev(t[1], env)
    if o == "not":
        return 0.0 if ev(t[1], env) else 1.0
    if o == "f":
        a = [ev(x, env) for x in t[2:]]
        return float(FUN[t[1]](a[0]) if t[1] in FUN else FUN2[t[1]](*a))
    a, b = ev(t[1], env), ev(t[2], env)
    if o == "%":
        return math.remainder(a, b)
    if o in "+-*/":
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[o]()
    return float({"and": lambda: bool(a) and bool(b), "or": lambda: bool(a) or bool(b), "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                  "==": lambda: a == b, "!=": lambda: a != b}[o]())


def text(rng, t, parent=0, right=False):
    o = t[0]
    sp = lambda: rng.choice(["", " ", " "])  # noqa
    if o == "lit":
        return t[1]
    if o == "par":
        return "$" + t[1]
    if o == "f":
        return t[1] + "(" + sp() + ("," + sp()).join(text(rng, x) for x in t[2:]) + ")"
    if o == "neg":
        s = text(rng, t[1], 9)
        return "-" + s
    if o == "not":
        s = text(rng, t[1])
        return "not(" + s + ")" if rng.random() < 0.5 else "not (" + s + ")"
    p = PREC[o]
    cmp = p in (3, 4)
    a, b = text(rng, t[1], p + (1 if cmp else 0)), text(rng, t[2], p + 1, True)
    s = f"{a} {o} {b}" if o in ("and", "or") else a + sp() + o + sp() + b
    return "(" + s + ")" if p < parent or (rng.random() < 0.1) else s


def tolerance(t, env, tol):
    """value and the tolerance that follows from the uncertainty of the referenced parameters, or None where the expression is undefined or discontinuous nearby"""
    try:
        v = ev(t, env)
        if not math.isfinite(v) or abs(v) > 1e7:
            return None
        spread = 0.0
        names = sorted({n for n in names_of(t)})
        for eps in (1.0, -1.0):
            for n in names:
                e2 = dict(env)
                e2[n] = env[n] + eps * max(tol[n], 1e-9)
                spread += abs(ev(t, e2) - v)
        # discontinuities next to the value, without any uncertainty
        if near(t, env):
            return None
        if spread > 1e-3:
            return None
        return v, 1.5e-6 + 2 * spread + 1e-9 * abs(v)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


def names_of(t):
    if t[0] == "par":
        yield t[1]
    elif t[0] != "lit":
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from names_of(x)


def near(t, env):
    """is any discontinuous node within a hair of its jump, where the last bit of double arithmetic decides?"""
    if t[0] in ("lit", "par"):
        return False
    for x in t[1:]:
        if isinstance(x, tuple) and near(x, env):
            return True
    o = t[0]
    if o == "f" and t[1] in ("round", "floor", "ceil", "sign", "sqrt"):
        a = ev(t[2], env)
        f = a - math.floor(a)
        exact = a == float(f"{a:.3f}") and t[2][0] in ("lit", "par")
        if exact:
            return False
        d = {"round": abs(f - 0.5), "floor": min(f, 1 - f), "ceil": min(f, 1 - f), "sign": abs(a), "sqrt": abs(a)}[t[1]]
        return d < 1e-7
    if o == "%":
        a, b = ev(t[1], env), ev(t[2], env)
        q = a / b
        return abs(q - math.floor(q) - 0.5) < 1e-7 or abs(b) < 1e-3 or abs(q) > 1e6
    if o == "/":
        return abs(ev(t[2], env)) < 1e-4
    if o in ("<", ">", "<=", ">=", "==", "!="):
        a, b = ev(t[1], env), ev(t[2], env)
        simple = t[1][0] in ("lit", "par") and t[2][0] in ("lit", "par")
        return abs(a - b) < 1e-7 * (1 + abs(a)) and not simple
    return False


class Decls:
    """random declarations with their reference values"""

    def __init__(self, rng, n, prefix="p", outer=None, variables=False):
        self.rng, self.items = rng, []                      # (name, type, value text, tree)
        self.env, self.tol, self.pars, self.strs, self.types = {}, {}, {"num": [], "bool": []}, {}, {}
        if outer:
            self.env, self.tol, self.strs, self.types = dict(outer.env), dict(outer.tol), dict(outer.strs), dict(outer.types)
            self.pars = {k: list(v) for k, v in outer.pars.items()}
        for i in range(n):
            self.add(f"{prefix}{i}{rng.choice(['', '_x', 'Val', '.k'])}")

    def literal(self, typ):
        rng = self.rng
        if typ == "integer":
            return str(rng.randint(-20, 40))
        if typ == "boolean":
            return rng.choice(["true", "false"])
        if typ == "double":
            return rng.choice(["", "-"]) + num(rng)
        return rng.choice(["abc", "Ego", "a b c", "x_1", "", "12abc", "7", "T-shirt", "lane/2"])

    def expr(self, boolean=False, integer=False):
        rng = self.rng
        for _ in range(60):
            t = tree(rng, self.pars, rng.randint(1, 3), boolean)
            if t[0] == "lit":
                continue
            if integer:
                t = ("f", "round", t)
            r = tolerance(t, self.env, self.tol)
            if r is None or (integer and abs(r[0]) > 1e6):
                continue
            return t, r
        return None

    def add(self, name, typ=None):
        rng = self.rng
        typ = typ or rng.choice(["double", "double", "double", "integer", "boolean", "string"])
        t = None
        text_ = None
        if typ != "string" and rng.random() < 0.5:
            g = self.expr(typ == "boolean", typ == "integer")
            if g:
                t, (v, tol) = g
                text_ = "${" + rng.choice(["", " "]) + text(rng, t) + rng.choice(["", " "]) + "}"
        if t is None and rng.random() < 0.15:
            same = [n for n, ty in self.types.items() if ty == typ]
            if same:
                src = rng.choice(same)
                text_, t = "$" + src, ("par", src)
                v, tol = (self.env.get(src), self.tol.get(src))
        if text_ is None:
            text_ = self.literal(typ)
            v, tol = ((1.0 if text_ == "true" else 0.0) if typ == "boolean" else float(text_) if typ != "string" else None), 1e-12
        self.items.append((name, typ, text_, t))
        self.define(name, typ, v, tol, self.strs.get(t[1]) if typ == "string" and t else text_)

    def define(self, name, typ, v, tol, s):
        self.types[name] = typ
        if typ == "string":
            self.strs[name] = s
        else:
            self.env[name], self.tol[name] = v, (tol if typ == "double" else 1e-9)
            k = "bool" if typ == "boolean" else "num"
            if name not in self.pars[k]:
                self.pars[k].append(name)

    def xml(self, tag="ParameterDeclarations"):
        one, ty = ("ParameterDeclaration", "parameterType") if tag.startswith("P") else ("VariableDeclaration", "variableType")
        return "<" + tag + ">" + "".join(f'<{one} name="{n}" {ty}="{t}" value="{esc(x)}"/>' for n, t, x, _ in self.items) + "</" + tag + ">"

    def replay(self, sets):
        """values after the declarations are evaluated again with the names in sets fixed"""
        env, tol, strs = {}, {}, {}
        for n, typ, x, t in self.items:
            if n in sets:
                v, e = sets[n], 1e-6
                if t is not None and t[0] != "par" and tolerance(t, env, tol) is None:
                    return None                 # the declaration that is overridden has no value
                if typ == "string":
                    strs[n] = v
                    continue
            elif typ == "string":
                strs[n] = strs[t[1]] if t else x
                continue
            elif t is None:
                v, e = ((1.0 if x == "true" else 0.0) if typ == "boolean" else float(x)), 1e-12
            else:
                r = (env[t[1]], tol[t[1]]) if t[0] == "par" else tolerance(t, env, tol)
                if r is None or (typ == "integer" and abs(r[0]) > 1e6):
                    return None
                v, e = r
            env[n], tol[n] = v, (e if typ == "double" else 1e-9)
        return env, tol, strs


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def getter(l, what, name, typ):
    k = {"integer": ("Int", es.I), "double": ("Double", es.D), "boolean": ("Bool", es.B), "string": ("String", es.S)}[typ]
    v = k[1]()
    rc = getattr(l, f"SE_Get{what}{k[0]}")(name.encode(), C.byref(v))
    return (v.value.decode() if typ == "string" and v.value is not None else v.value) if rc == 0 else None


def setter(l, what, name, typ, v):
    k = {"integer": "Int", "double": "Double", "boolean": "Bool", "string": "String"}[typ]
    return getattr(l, f"SE_Set{what}{k}")(name.encode(), v.encode() if typ == "string" else v)


def compare(out, l, what, types, env, tol, strs, when):
    for n, typ in types.items():
        g = getter(l, what, n, typ)
        if typ == "string":
            ok = g == strs[n]
            ref = strs[n]
        else:
            ref = env[n]
            ok = g is not None and (abs(g - ref) <= tol[n] + 1e-9 if typ == "double" else g == ref if typ == "integer" else bool(g) == bool(ref))
        out.check(ok, f"{what.lower()}_value", f"{when}: {typ} {what.lower()} {n} reads {g!r}, its definition gives {ref!r}")
        other = {"integer": "double", "double": "integer", "boolean": "integer", "string": "double"}[typ]
        out.check(getter(l, what, n, other) is None, "type", f"{when}: {what.lower()} {n} is declared {typ}, but can be read as {other}")
    out.check(getter(l, what, "no_such_name", "double") is None, "unknown", f"{when}: an undeclared {what.lower()} can be read")
    n = getattr(l, f"SE_GetNumberOf{what}s")()
    names = []
    for i in range(n):
        ty = es.I()
        names.append((getattr(l, f"SE_Get{what}Name")(i, C.byref(ty)).decode(), ty.value))
    want = sorted((n_, {"integer": 1, "double": 2, "string": 3, "boolean": 4}[t]) for n_, t in types.items())
    out.check(sorted(names) == want, "list", f"{when}: listed {what.lower()}s {sorted(names)}, declared {want}")


def rand_value(rng, typ):
    return {"integer": lambda: rng.randint(-50, 50), "double": lambda: round(rng.uniform(-100, 100), rng.randint(0, 6)), "boolean": lambda: rng.random() < 0.5,
            "string": lambda: rng.choice(["new", "n e w", "", "-3", "true"])}[typ]()


ROAD = scn.straight(4000.0)


def run(case, out, l):
    rng = random.Random(case["seed"])
    out.fp(case["kind"])
    open("net.xodr", "w").write(ROAD)
    {"expr": expr_case, "scope": scope_case, "action": action_case, "dist": dist_case}[case["kind"]](rng, out, l)


def expr_case(rng, out, l):
    d = Decls(rng, rng.randint(2, 9))
    vd = Decls(rng, rng.randint(0, 4), "v", outer=d)
    # ModifyAction and VariableDeclarations may refer to parameters, never to variables
    for it in list(vd.items):
        if it[3] and any(n in [x[0] for x in vd.items] for n in names_of(it[3])):
            return expr_case(rng, out, l)
    sets = {}
    if rng.random() < 0.5:
        for n, typ, _, _ in d.items:
            if rng.random() < 0.4:
                sets[n] = rand_value(rng, typ)
    num_sets = {k: (float(v) if not isinstance(v, str) else v) for k, v in sets.items()}
    r = d.replay(num_sets)
    if r is None:
        return expr_case(rng, out, l)
    env, tol, strs = r
    d2 = Decls(rng, 0)
    d2.env, d2.tol, d2.strs, d2.types = env, tol, strs, dict(d.types)
    d2.pars = d.pars
    venv, vtol, vstrs, vtypes = {}, {}, {}, {}
    for n, typ, x, t in vd.items:
        vtypes[n] = typ
        if typ == "string":
            vstrs[n] = strs[t[1]] if t else x
            continue
        rr = (((1.0 if x == "true" else 0.0) if typ == "boolean" else float(x)), 1e-12) if t is None else (env[t[1]], tol[t[1]]) if t[0] == "par" else tolerance(t, env, tol)
        if rr is None or (typ == "integer" and abs(rr[0]) > 1e6):
            return expr_case(rng, out, l)
        venv[n], vtol[n] = rr[0], (rr[1] if typ == "double" else 1e-9)

    # attributes given by expressions
    def attr(lo, hi, integer=False):
        """text, value, tolerance of an attribute in [lo, hi]"""
        for _ in range(40):
            g = d2.expr(integer=integer)
            if g is None:
                break
            t, (v, e) = g
            v2, e2 = lo + abs(math.remainder(v, hi - lo)), e
            t2 = ("+", ("lit", repr(float(lo)) if not integer else str(lo)), ("f", "abs", ("%", t, ("lit", repr(float(hi - lo)))))) if lo >= 0 else None
            if t2 is None or not lo <= v2 <= hi:
                break
            rr = tolerance(t2, env, tol)
            if rr:
                return "${" + esc(text(rng, t2)) + "}", rr[0], rr[1]
        v = rng.uniform(lo, hi) if not integer else rng.randint(lo, hi)
        return repr(v), v, 1e-9
    s_, off, sp = attr(10.0, 500.0), attr(0.0, 1.0), attr(0.0, 40.0)
    tt = attr(0.5, 1.5)
    sp2 = attr(0.0, 40.0)
    props = {}
    for i in range(3):
        g = d2.expr()
        if g:
            props[f"q{i}"] = (esc("${" + text(rng, g[0]) + "}"), g[1])
    for i, (n, typ) in enumerate(list(d.types.items())[:3]):
        if typ == "string" or typ == "double":
            props[f"r{i}"] = ("$" + n, strs[n] if typ == "string" else (env[n], tol[n]))
    ego = scn.vehicle("Ego", props={k: v[0] for k, v in props.items()}, vmax=300.0, acc=1000.0, dec=1000.0)
    init = [scn.private("Ego", scn.teleport(scn.lanepos(1, -1, s_[0], off[0])), scn.speed_abs(sp[0]))]
    ev_ = scn.event("ev", [scn.action("ac", scn.speed_abs(sp2[0]))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(tt[0]), "c")]))
    st = scn.story("st", [scn.act("a", [scn.group("g", ["Ego"], [scn.maneuver("m", [ev_])])], scn.always())])
    xml = scn.scenario("net.xodr", [ego], init, [st], params=d.xml(), variables=vd.xml("VariableDeclarations") if vd.items else "")
    out.art("scenario.xosc", xml)
    S = es.SE(l)

    def decl(_):
        compare(out, l, "Parameter", d.types, d.env, d.tol, d.strs, "in the declaration callback")
        for n, v in sets.items():
            typ = d.types[n]
            out.check(setter(l, "Parameter", n, typ, v) == 0, "set", f"setting {typ} parameter {n} to {v!r} is refused")
            wrong = {"integer": "double", "double": "boolean", "boolean": "string", "string": "integer"}[typ]
            out.check(setter(l, "Parameter", n, wrong, rand_value(rng, wrong)) != 0, "type", f"parameter {n} is declared {typ}, but accepts {wrong}")
    S.on_params = decl
    rc = S.init(xml=xml)
    if rc != 0:
        out.viol("refused", "a scenario with valid parameters and expressions is refused")
        return
    compare(out, l, "Parameter", d.types, env, tol, strs, "after loading")
    compare(out, l, "Variable", vtypes, venv, vtol, vstrs, "after loading")
    oid = S.ids()[0]
    o = S.state(oid)
    for what, got, (txt, v, e) in (("s", o.s, s_), ("lane offset", o.laneOffset, off), ("speed", o.speed, sp)):
        out.check(abs(got - v) <= e + 1e-6, "attribute", f"{what} is {got}, declared as {txt} = {v}")
    for k, (txt, v) in props.items():
        g = l.SE_GetObjectPropertyValue(oid, k.encode())
        g = g.decode() if g is not None else None
        ok = g == v if isinstance(v, str) else g is not None and isnum(g) and abs(float(g) - v[0]) <= v[1] + 1e-6
        out.check(ok, "property", f"property {k} declared as {txt} is {g!r}, expected {v}")
    fired = None
    while S.time() < 2.0:
        S.step(0.05)
        if fired is None and abs(S.state(oid).speed - sp2[1]) < sp2[2] + 1e-6 and abs(sp2[1] - sp[1]) > 1e-4:
            fired = S.time()
    if abs(sp2[1] - sp[1]) > 1e-4:
        out.check(fired is not None and tt[1] - 0.06 <= fired <= tt[1] + 0.16, "attribute", f"speed declared as {sp2[0]} = {sp2[1]} at time {tt[0]} = {tt[1]} reached at {fired}, final {S.state(oid).speed}")
    # API sets at run time
    for n, typ in d.types.items():
        if rng.random() < 0.5:
            v = rand_value(rng, typ)
            out.check(setter(l, "Parameter", n, typ, v) == 0, "set", f"setting {typ} parameter {n} is refused")
            if typ == "string":
                strs[n] = v
            else:
                env[n], tol[n] = float(v), 1e-9
    compare(out, l, "Parameter", d.types, env, tol, strs, "after setting values at run time")
    out.fp(len(d.items), len(sets), len(props))
    out.count("declarations", len(d.items) + len(vd.items))
    S.close()


def isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def scope_case(rng, out, l):
    """the same names declared at global, story, maneuver and catalog level"""
    names = ["a", "b", "c", "d"]
    val = lambda: round(rng.uniform(1.0, 60.0), 2)  # noqa

    def decl(level, p=0.5):
        return {n: val() for n in names if rng.random() < p}

    def xml(ds, ref=None):
        return "<ParameterDeclarations>" + "".join(f'<ParameterDeclaration name="{n}" parameterType="double" value="{v}"/>' for n, v in ds.items()) + "</ParameterDeclarations>"
    glob = {n: val() for n in names}
    override = {n: val() for n in names if rng.random() < 0.25}        # set in the callback
    g2 = dict(glob, **override)
    # catalogs
    vdecl = [decl("v", 0.6) for _ in range(2)]
    mdecl = [decl("m", 0.6) for _ in range(2)]
    rnames = [rng.choice(names) for _ in range(2)]
    mn = [rng.choice(names) for _ in range(2)]
    import os
    os.makedirs("cat", exist_ok=True)
    hdr = el("FileHeader", revMajor=1, revMinor=1, date="2024-01-01T00:00:00", description="g", author="g")

    def veh(i):
        v = scn.vehicle("x", vmax=300.0, acc=1000.0, dec=1000.0, props={n: "$" + n for n in names})
        body = v[v.index("<Vehicle"):v.index("</ScenarioObject>")]
        body = body.replace('name="x_t"', f'name="car{i}"').replace("<ParameterDeclarations/>", xml(vdecl[i]) if vdecl[i] else "<ParameterDeclarations/>").replace('width="2.0"', f'width="$' + rnames[i] + '"')
        return body
    open("cat/V.xosc", "w").write('<?xml version="1.0"?><OpenSCENARIO>' + hdr + el("Catalog", veh(0), veh(1), name="V") + "</OpenSCENARIO>")

    def man(i):
        e = scn.event(f"ce{i}", [scn.action(f"ca{i}", scn.speed_abs("$" + mn[i]))], scn.trigger("StartTrigger", [scn.cond(scn.simtime(0.15), f"cc{i}")]))
        return f'<Maneuver name="man{i}">' + (xml(mdecl[i]) if mdecl[i] or rng.random() < 0.3 else "") + e + "</Maneuver>"
    open("cat/M.xosc", "w").write('<?xml version="1.0"?><OpenSCENARIO>' + hdr + el("Catalog", man(0), man(1), name="M") + "</OpenSCENARIO>")

    def assign(decls, scope):
        """ParameterAssignments text and the resulting values"""
        res = dict(decls)
        ps = []
        for n in decls:
            if rng.random() < 0.5:
                if rng.random() < 0.5:
                    v = val()
                    t = repr(v)
                else:
                    q = rng.choice(names)
                    k = rng.choice([1, 2])
                    t, v = rng.choice([("$" + q, scope[q]), ("${$" + q + f" * {k}}}", scope[q] * k)])
                res[n] = v
                ps.append(el("ParameterAssignment", parameterRef=n, value=t))
        return ("<ParameterAssignments>" + "".join(ps) + "</ParameterAssignments>") if ps else "", dict(scope, **res)
    ents, want = [], {}
    init = []
    for i in range(rng.randint(2, 4)):
        name = f"E{i}"
        init.append(scn.private(name, scn.teleport(scn.lanepos(1, -1 - i % 3, 50.0 + 40 * i)), scn.speed_abs(0.5)))
        if rng.random() < 0.7:
            k = rng.randrange(2)
            ptext, sc = assign(vdecl[k], g2)
            ents.append(el("ScenarioObject", el("CatalogReference", ptext, catalogName="V", entryName=f"car{k}"), name=name))
            want[name] = (sc, sc[rnames[k]])
        else:
            loc = decl("inline", 0.4)
            sc = dict(g2, **loc)
            ents.append(scn.vehicle(name, vmax=300.0, acc=1000.0, dec=1000.0, props={n: "$" + n for n in names}).replace("<ParameterDeclarations/>", xml(loc) if loc else "<ParameterDeclarations/>"))
            want[name] = (sc, 2.0)
    stories, target = [], {}
    free = list(want)
    rng.shuffle(free)
    for si in range(rng.randint(1, 3)):
        sd = decl("s", 0.5)
        ss = dict(g2, **sd)
        acts = []
        for ai in range(rng.randint(1, 2)):
            groups = []
            for gi in range(rng.randint(1, 2)):
                if not free:
                    break
                who = free.pop()
                ms = []
                for mi in range(rng.randint(1, 2)):
                    # the last started maneuver decides the final speed: only the first of the group acts in time order
                    if rng.random() < 0.45:
                        k = rng.randrange(2)
                        ptext, sc = assign(mdecl[k], ss)
                        ms.append(("cat", el("CatalogReference", ptext, catalogName="M", entryName=f"man{k}"), sc[mn[k]], 0.15))
                    else:
                        md = decl("im", 0.4)
                        sc = dict(ss, **md)
                        n = rng.choice(names)
                        t = 0.15 + 0.1 * (mi + 1)
                        e = scn.event(f"e{si}{ai}{gi}{mi}", [scn.action(f"x{si}{ai}{gi}{mi}", scn.speed_abs(rng.choice(["$" + n, "${$" + n + "}"])))],
                                      scn.trigger("StartTrigger", [scn.cond(scn.simtime(t), f"t{si}{ai}{gi}{mi}")]))
                        ms.append(("inl", f'<Maneuver name="m{si}{ai}{gi}{mi}">' + (xml(md) if md or rng.random() < 0.3 else "") + e + "</Maneuver>", sc[n], t))
                # catalog references stand before inline maneuvers in the file
                ms.sort(key=lambda m: m[0] != "cat")
                if sum(m[0] == "cat" for m in ms) > 1:
                    ms = ms[:1]
                target[who] = [(m[3], m[2]) for m in ms]
                groups.append(scn.group(f"g{si}{ai}{gi}", [who], [m[1] for m in ms]))
            if groups:
                acts.append(scn.act(f"a{si}{ai}", groups, scn.always(name=f"st{si}{ai}")))
        if acts:
            stories.append(f'<Story name="s{si}">' + (xml(sd) if sd or rng.random() < 0.5 else "") + "".join(acts) + "</Story>")
    params = xml(glob)
    doc = scn.scenario("net.xodr", ents, init, stories, params=params).replace(
        "<CatalogLocations/>", '<CatalogLocations><VehicleCatalog><Directory path="cat"/></VehicleCatalog><ManeuverCatalog><Directory path="cat"/></ManeuverCatalog></CatalogLocations>')
    open("s.xosc", "w").write(doc)
    out.art("s.xosc", doc)
    S = es.SE(l)

    def cb(_):
        for n, v in override.items():
            setter(l, "Parameter", n, "double", v)
    S.on_params = cb
    out.need(S.init(xosc="s.xosc") == 0, "refused", "a scenario with nested declarations is refused")
    for n, v in g2.items():
        g = getter(l, "Parameter", n, "double")
        out.check(g is not None and abs(g - v) < 1e-9, "global", f"global parameter {n} reads {g}, expected {v}")
    out.check(l.SE_GetNumberOfParameters() == len(names), "list", f"{l.SE_GetNumberOfParameters()} parameters are left after loading, {len(names)} are declared globally")
    oid = {l.SE_GetObjectName(i).decode(): i for i in S.ids()}
    for name, (sc, width) in want.items():
        for n in names:
            g = l.SE_GetObjectPropertyValue(oid[name], n.encode())
            g = g.decode() if g is not None else ""
            out.check(isnum(g) and abs(float(g) - sc[n]) < 2e-6, "object_scope", f"in the declaration of {name}, ${n} is {g}, its scope gives {sc[n]}")
        w = S.state(oid[name]).width
        out.check(abs(w - width) < 1e-4, "object_scope", f"width of {name} is {w}, its scope gives {width}")
    hist = {n: [] for n in want}
    while S.time() < 0.6:
        S.step(0.05)
        for n in want:
            hist[n].append((S.time(), S.state(oid[n]).speed))
    for n, ms in target.items():
        for k, (t, v) in enumerate(ms):
            lo, hi = t + 0.11, (ms[k + 1][0] if k + 1 < len(ms) else 9.0)
            for tm, g in hist[n]:
                if lo < tm < hi + 0.02 and (k + 1 == len(ms) or tm < ms[k + 1][0]):
                    out.check(abs(g - v) < 2e-6, "story_scope", f"{n} drives {g} at {tm}, the scope of its action gives {v}")
                    break
    out.fp(len(target), len(override), tuple(sorted(len(m) for m in target.values())))
    out.count("scopes", len(want) + len(target))
    S.close()


def action_case(rng, out, l):
    """set, add and multiply actions and API calls, with conditions on the values"""
    P = Decls(rng, 4, "p")
    V = Decls(rng, 0, "v")
    for i in range(rng.randint(2, 5)):
        typ = rng.choice(["double", "double", "integer", "boolean", "string"])
        name, lit = f"v{i}", None
        x = V.literal(typ)
        V.items.append((name, typ, x, None))
        V.define(name, typ, ((1.0 if x == "true" else 0.0) if typ == "boolean" else float(x) if typ != "string" else None), 1e-9, x)
    env, tol, strs = dict(V.env), dict(V.tol), dict(V.strs)
    penv, ptol, pstrs = dict(P.env), dict(P.tol), dict(P.strs)
    evs, plan, t = [], [], 0.1
    for i in range(rng.randint(4, 10)):
        t = round(t + rng.choice([0.1, 0.15, 0.2]), 3)
        kind = rng.choice(["set", "set", "add", "mul", "pset", "api", "papi"])
        if kind in ("add", "mul"):
            cand = [n for n, ty in V.types.items() if ty in ("double", "integer")]
            if not cand:
                continue
            n = rng.choice(cand)
            if V.types[n] == "integer":
                v = float(rng.randint(-5, 5))
                x = str(int(v))
            else:
                v = round(rng.uniform(-4, 4), 3)
                x = repr(v)
                ref = [m for m, ty in P.types.items() if ty == "double" and abs(penv[m]) < 20]
                if ref and rng.random() < 0.4:
                    q = rng.choice(ref)
                    x, v = "$" + q, P.env[q]
            a = el("GlobalAction", el("VariableAction", el("ModifyAction", el("Rule", el("AddValue" if kind == "add" else "MultiplyByValue", value=x))), variableRef=n))
        elif kind in ("set", "pset"):
            D = V if kind == "set" else P
            n = rng.choice(list(D.types))
            typ = D.types[n]
            v = rand_value(rng, typ)
            x = ("true" if v else "false") if typ == "boolean" else v if typ == "string" else repr(v)
            if typ == "double" and rng.random() < 0.3:
                g = P.expr()
                if g:
                    x, v = "${" + esc(text(rng, g[0])) + "}", g[1][0]
                    D.tol[n] = max(D.tol[n], g[1][1])
            a = scn.variable_set(n, x) if kind == "set" else scn.parameter_set(n, x)
        else:
            D = V if kind == "api" else P
            n = rng.choice(list(D.types))
            v = rand_value(rng, D.types[n])
            a = None
        plan.append((t, kind, n, v))
        if a is not None:
            evs.append(scn.event(f"e{i}", [scn.action(f"a{i}", a)], scn.trigger("StartTrigger", [scn.cond(scn.simtime(t), f"c{i}")])))
    st = scn.story("st", [scn.act("a", [scn.group("g", [], [scn.maneuver("m", evs)])], scn.always())]) if evs else None
    init = [scn.private("Ego", scn.teleport(scn.lanepos(1, -1, 50.0)), scn.speed_abs(5.0))]
    # some set actions in the init section
    glob = []
    ini = []
    for n, typ in V.types.items():
        if rng.random() < 0.2:
            v = rand_value(rng, typ)
            glob.append(scn.variable_set(n, ("true" if v else "false") if typ == "boolean" else v if typ == "string" else repr(v)))
            ini.append((n, v))
    xml = scn.scenario("net.xodr", [scn.vehicle("Ego")], glob + init, [st] if st else [], params=P.xml(), variables=V.xml("VariableDeclarations"))
    out.art("scenario.xosc", xml)
    S = es.SE(l)
    out.need(S.init(xml=xml) == 0, "refused", "a scenario with parameter and variable actions is refused")

    def put(D, e, tl, s, n, v, tolv=1e-6):
        if D.types[n] == "string":
            s[n] = v
        else:
            e[n], tl[n] = float(v), max(tolv, D.tol[n]) if D.types[n] == "double" else 1e-9
    for n, v in ini:
        put(V, env, tol, strs, n, v)
    compare(out, l, "Variable", V.types, env, tol, strs, "after init")
    compare(out, l, "Parameter", P.types, penv, ptol, pstrs, "after init")
    pend = list(plan)
    n_ok = 0
    while S.time() < t + 0.4:
        now = S.time()
        while pend and pend[0][1] in ("api", "papi") and pend[0][0] + 0.051 < now:
            _, k, n, v = pend.pop(0)
            D, e, tl, s = (V, env, tol, strs) if k == "api" else (P, penv, ptol, pstrs)
            out.check(setter(l, "Variable" if k == "api" else "Parameter", n, D.types[n], v) == 0, "set", f"setting {n} to {v!r} at {now} is refused")
            put(D, e, tl, s, n, v, 1e-9)
        S.step(0.05)
        done = {e[3] for e in S.events if e[0] == "sb" and e[4] == 7 and e[5] == 3}
        while pend and pend[0][1] not in ("api", "papi"):
            tt, k, n, v = pend[0]
            if S.time() < tt + 0.051:
                break
            if S.time() < tt + 0.149 and f"a{plan.index(pend[0])}" not in done:
                pass
            pend.pop(0)
            if k == "set":
                put(V, env, tol, strs, n, v)
            elif k == "pset":
                put(P, penv, ptol, pstrs, n, v)
            elif k == "add":
                env[n] += v
                tol[n] += 1e-6
            else:
                tol[n] = tol[n] * abs(v) + 2e-6 * (1 + abs(env[n]))
                env[n] *= v
            for q in (n,):
                if k != "pset" and V.types[q] == "integer":
                    env[q], tol[q] = float(int(env[q])), 1e-9
        # compare only when no action is due around now
        if all(abs(S.time() - x[0]) > 0.101 for x in plan if x[1] not in ("api", "papi")) and (not pend or pend[0][0] > S.time() - 0.05):
            compare(out, l, "Variable", V.types, env, tol, strs, f"at {S.time():.2f}")
            compare(out, l, "Parameter", P.types, penv, ptol, pstrs, f"at {S.time():.2f}")
            n_ok += 1
    out.fp(tuple(sorted({k for _, k, _, _ in plan})), n_ok)
    out.count("actions", len(plan))
    S.close()


def dist_case(rng, out, l):
    ps = {f"p{i}": rng.choice(["double", "double", "integer", "string"]) for i in range(rng.randint(1, 6))}
    base = {n: (rng.randint(0, 9) if t == "integer" else "base" if t == "string" else 1.5) for n, t in ps.items()}
    left = list(ps)
    rng.shuffle(left)
    body, dims = "", []
    while left and len(dims) < 3:
        n = left.pop()
        k = rng.random()
        if k < 0.35:
            vals = [rand_value(rng, ps[n]) for _ in range(rng.randint(1, 4))]
            body += el("DeterministicSingleParameterDistribution", "<DistributionSet>" + "".join(el("Element", value=v) for v in vals) + "</DistributionSet>", parameterName=n)
            dims.append([{n: v} for v in vals])
        elif k < 0.7 and ps[n] != "string":
            lo = rng.randint(-5, 5) if ps[n] == "integer" else round(rng.uniform(-5, 5), 2)
            stp = rng.choice([1, 2, 3]) if ps[n] == "integer" else rng.choice([0.1, 0.25, 0.3, 1.7])
            m = rng.randint(1, 5)
            hi = lo + stp * (m - 1) + (0 if rng.random() < 0.5 else 0.4 * stp)
            hi = round(hi, 4)
            body += el("DeterministicSingleParameterDistribution", el("DistributionRange", el("Range", lowerLimit=lo, upperLimit=hi), stepWidth=stp), parameterName=n)
            dims.append([{n: lo + stp * i} for i in range(m)])
        else:
            more = [n] + [left.pop() for _ in range(min(len(left), rng.randint(0, 2)))]
            sets = [{q: rand_value(rng, ps[q]) for q in more if rng.random() < 0.9 or q == n} for _ in range(rng.randint(1, 4))]
            body += el("DeterministicMultiParameterDistribution", "<ValueSetDistribution>" + "".join(
                "<ParameterValueSet>" + "".join(el("ParameterAssignment", parameterRef=q, value=v) for q, v in s.items()) + "</ParameterValueSet>" for s in sets) + "</ValueSetDistribution>")
            dims.append(sets)
    def merge(c):
        r = dict(base)
        for x in c:
            r.update(x)
        return r
    combos = [merge(c) for c in itertools.product(*dims)]
    hdr = el("FileHeader", revMajor=1, revMinor=1, date="2024-01-01T00:00:00", description="g", author="g")
    open("dist.xml", "w").write('<?xml version="1.0"?><OpenSCENARIO>' + hdr + '<ParameterValueDistribution><ScenarioFile filepath="s.xosc"/><Deterministic>' + body
                                + '</Deterministic></ParameterValueDistribution></OpenSCENARIO>')
    dbl = [n for n in ps if ps[n] == "double"]
    decl = "<ParameterDeclarations>" + "".join(f'<ParameterDeclaration name="{n}" parameterType="{t}" value="{base[n]}"/>' for n, t in ps.items()) + \
        (f'<ParameterDeclaration name="dep" parameterType="double" value="${{2 * ${dbl[0]} + 1}}"/>' if dbl else "") + "</ParameterDeclarations>"
    init = [scn.private("Ego", scn.teleport(scn.lanepos(1, -1, "${100 + $" + dbl[0] + "}" if dbl else 100.0)), scn.speed_abs(5.0))]
    xml = scn.scenario("net.xodr", [scn.vehicle("Ego")], init, params=decl)
    open("s.xosc", "w").write(xml)
    out.art("dist.xml", open("dist.xml").read())
    out.art("s.xosc", xml)
    out.need(l.SE_SetParameterDistribution(b"dist.xml") == 0, "refused", "a valid distribution file is refused")
    n = l.SE_GetNumberOfPermutations()
    out.check(n == len(combos), "number", f"{n} permutations reported, the declared values give {len(combos)}")
    out.check(l.SE_SelectPermutation(len(combos)) != 0, "range", "a permutation index beyond the last is accepted")

    def load():
        S = es.SE(l)
        out.need(S.init(xosc="s.xosc") == 0, "refused", "the scenario is refused under a parameter distribution")
        r = {q: getter(l, "Parameter", q, t) for q, t in ps.items()}
        if dbl:
            x = r[dbl[0]]
            g = getter(l, "Parameter", "dep", "double")
            out.check(x is not None and g is not None and abs(g - (2 * x + 1)) < 4e-6, "dependent", f"dependent parameter is {g}, from {x}")
            s = S.state(S.ids()[0]).s
            out.check(abs(s - (100 + x)) < 4e-6, "attribute", f"s is {s}, expected {100 + x}")
        S.step(0.1)
        S.close()
        return r

    def same(a, b):
        return all((a[k] == b[k]) if isinstance(b[k], str) else a[k] is not None and abs(a[k] - b[k]) < 2e-6 for k in b)
    if rng.random() < 0.5 or len(combos) > 40:
        order = list(range(len(combos)))
        rng.shuffle(order)
        order = order[:40]
        seen = {}
        for i in order:
            out.check(l.SE_SelectPermutation(i) == 0, "select", f"permutation {i} of {len(combos)} can not be selected")
            seen[i] = load()
            out.check(l.SE_GetPermutationIndex() == i, "index", f"reported permutation index {l.SE_GetPermutationIndex()}, selected {i}")
    else:
        seen = {}
        for i in range(len(combos)):
            r = load()
            seen[l.SE_GetPermutationIndex()] = r
        out.check(sorted(seen) == list(range(len(combos))), "index", f"permutation indices {sorted(seen)} over {len(combos)} runs")
    # each loaded combination is one of the declared ones, and no declared one is used more often than it is declared
    pool = list(combos)
    for i, r in sorted(seen.items()):
        k = next((j for j, c in enumerate(pool) if same(r, c)), None)
        out.check(k is not None, "combination", f"permutation {i} gives {r}, which is not (or no longer) among the declared combinations")
        if k is not None:
            pool.pop(k)
    if len(seen) == len(combos):
        out.check(not pool, "missing", f"declared combinations never used: {pool[:3]}")
    l.SE_ResetParameterDistribution()
    out.check(l.SE_GetNumberOfPermutations() == 0, "reset", "permutations are reported after the distribution is reset")
    r = load()
    out.check(same(r, base), "reset", f"after the distribution is reset the parameters are {r}, declared {base}")
    out.fp(len(dims), len(combos))
    out.count("permutations", len(seen))
