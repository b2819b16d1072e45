"""P22: a component's time bases and ports."""
from sa.q import *
from rules.p17 import fns, fn, ALL, once
from rules.p19 import NONE, strip, callp, isnull
from rules.p21 import P, lastfield, ptype
import itertools

PROP = dict(
    title="Time units convert exactly and each port is configured once as asked",
    statement="A time or frequency is turned into core cycles by exact division by the core time base, rounded to whole cycles; a text that is no time, one too long for 64 bits or, other than 0, shorter than one cycle raises an "
              "error. Converting multiplies by that number of cycles, converting back divides and truncates; a component reads the current time in any unit, also those finer than the core time base. A port yields the link of that "
              "name, the component's own or, where ports are shared, an unconfigured one of the nearest parent, which then loses it with its port modules; it gets the given handler or polling, each port module in order, the "
              "asked or default time base, and the next order tag.",
    over=["configurations", "inputs"], text="all time texts and bases, sharing flags, depths of subcomponents, handlers, port modules and tools",
    why="A period rounded differently, a link handed to two subcomponents, or a port module left behind changes what a model simulates without an error; the tests use a handful of units and few shared ports.",
    files=["src/sst/core/timeLord.cc", "src/sst/core/timeConverter.h", "src/sst/core/baseComponent.cc", "src/sst/core/baseComponent.h", "src/sst/core/componentInfo.cc", "src/sst/core/link.cc", "src/sst/core/linkMap.h"],
    mech=[("TimeLord, TimeConverter", "src/sst/core/timeLord.cc"), ("BaseComponent::configureLink_impl, getLinkFromParentSharedPort", "src/sst/core/baseComponent.cc"), ("BaseComponent::getCurrentSimTime", "src/sst/core/baseComponent.cc"), ("LinkMap", "src/sst/core/linkMap.h")],
    technique="abstract evaluation of conversions and of port configuration over all cases of ownership, sharing and handlers (case tables), obligations along every path of the control-flow graph")

TUS = ["timeLord.cc", "baseComponent.cc", "componentInfo.cc", "link.cc", "simulation.cc"]
TL = "TimeLord::"
B = "BaseComponent::"


def oracle(*tests):
    """each test: (predicate on a term, value): decides null and truth tests of such terms"""
    def dec(at, ctx=None):
        xs = [strip(x) for x in at[1:] if is_term(x)]
        if at[0] in ("nz", "pos"):
            if isnull(xs[0]): return False
            for p, v in tests:
                if p(xs[0]): return v if isinstance(v, bool) else None
        if at[0] == "==":
            for x, y in ((xs[0], xs[-1]), (xs[-1], xs[0])):
                if isnull(y):
                    for p, v in tests:
                        if p(x): return not v
        return None
    return dec


def conversion(R):
    """TimeLord::getFactorForTime and the caches: s divides by the base, Hz divides the inverted base, anything else, overflow and underflow raise; the cache holds what was computed for the text."""
    fs = R.need([f for f in R.prog.find("SST::" + TL + "getFactorForTime", False) if "UnitAlgebra" in ptype(f, 0)], "TimeLord::getFactorForTime(UnitAlgebra)")
    f = fs[0]
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    val = lambda t: callp("getValue")(strip(t))
    units = lambda t, u: callp("hasUnits")(strip(t)) and u in [y[1].strip('"') for y in subterms(t) if y[0] == "str"]

    def cmp(v):
        """v: 'big', 'small', 'zero', 'fit'"""
        def leaf(t):
            t = strip(t)
            if val(t) or lastfield(t, "value") or (t[0] == "call" and t[2] is not None and (val(strip(t[2])) or lastfield(strip(t[2]), "value")) and last(t[1]) in ("toUnsignedLong", "toDouble")): return {"big": 1 << 64, "small": 0.5, "zero": 0, "fit": 1000, "one": 1, "max": (1 << 64) - 1}[v]
            if "MAX_SIMTIME_T" in show(t) or "numeric_limits" in show(t): return (1 << 64) - 1
            return None
        return leaf

    def fold2(at, leaf):
        xs = [num(x, leaf) for x in at[1:] if is_term(x)]
        if not xs or None in xs: return None
        if at[0] == "nz": return xs[0] != 0
        if at[0] == "pos": return xs[0] > 0
        if at[0] == "==": return xs[0] == xs[1]
        if at[0] == "<": return xs[0] < xs[1]
        return None

    def num(t, leaf):
        t = strip(t)
        v = leaf(t)
        if v is not None: return v
        if "decimal_fixedpoint" in str(t[1]) or "sst_big_num" in str(t[1]):
            args = [x for x in (t[3] if t[0] == "call" else t[2] if len(t) > 2 and isinstance(t[2], tuple) else ()) if is_term(x)]
            if args: return num(args[0], leaf)
        return const(t)
    opcmp = {"operator<": lambda a, b: a < b, "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b, "operator>=": lambda a, b: a >= b, "operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b}
    for unit, size in itertools.product(("s", "Hz", None), ("big", "small", "zero", "fit", "one", "max")):
        leaf = cmp(size)

        def dec(at, ctx=None):
            for u in ("s", "Hz"):
                if at[0] in ("nz", "pos") and units(at[1], u): return unit == u
            if at[0] in ("nz", "pos"):
                t = strip(at[1])
                if t[0] == "call" and last(t[1]) in opcmp:
                    ys = [num(y, leaf) for y in ((t[2],) if t[2] is not None else ()) + tuple(t[3]) if is_term(y)]
                    if len(ys) == 2 and None not in ys: return opcmp[last(t[1])](*ys)
            return fold2(at, leaf)
        rs = runs(g, [g.entry], lambda n: False, dec)
        rets = [(r.ret(), [n.d["obj"] for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "invert"]) for r in rs if r.ret() is not None and not r.fatal()]
        fatal = any(r.fatal() for r in rs)
        bad = unit is None or size in ("big", "small")
        nm = f"{unit or 'no time'}:{size}"
        R.ob("conversion", nm + ":accepted", (bool(rets) != bad) and (fatal == bad), "a time that cannot be represented is accepted" if bad else "a valid time is refused", f.where())
        if not bad:
            for v, turned in rets:
                v = strip(v)
                ok = any(callp("getRoundedValue")(x) for x in subterms(v))
                R.ob("conversion", nm + ":rounded", ok, "a time is not rounded to whole cycles", f.where())
                src = [x for x in subterms(v) if callp("getRoundedValue")(x)]
                for x in src:
                    q = strip(x[2])
                    R.ob("conversion", nm + ":quotient", quotient(q, f, unit, turned), "a time is not divided by the core time base", f.where())
    for q in ("getFactorForTime", "getTimeConverter", "getSimCycles"):
        for f in R.need([f for f in R.prog.find("SST::" + TL + q, False) if "UnitAlgebra" not in ptype(f, 0) and "string" in ptype(f, 0)], TL + q):
            g = CFG(R.prog, f, inline=NONE)
            R.cfg_used(g)
            cache = lambda t: has_field(t, TL + "parse_cache_")
            for hit in (True, False):
                rs = [r for r in runs(g, [g.entry], lambda n: False, has_key(cache, hit)) if r.ret() is not None or r.fatal()]
                for r in rs:
                    v = r.ret()
                    put = [n for n, _ in r.events if (n.kind == "call" and last(n.d["q"]) in ("operator=", "insert", "emplace", "insert_or_assign") and n.d["obj"] is not None and cache(n.d["obj"])) or (n.kind == "asg" and cache(n.d["lhs"]))]
                    made = [(n, vv) for n, vv in r.events if n.kind == "call" and last(n.d["q"]) == "getTimeConverter" and any(P(f, 0)(x) for x in subterms(n.d["args"][0]) if x[0] == "param")]
                    if hit:
                        R.ob("conversion", q + ":cached", v is not None and any(strip(x)[0] == "idx" and cache(strip(x)[1]) and P(f, 0)(strip(x)[2]) for x in subterms(v)) or v is not None and "second" in show(v), "a time text yields what was computed for another", f.where())
                    else:
                        R.ob("conversion", q + ":computed", bool(made) and v is not None, "a time text is not converted", f.where())
                        R.ob("conversion", q + ":stored", all(keyok(n, f, cache) for n in put), "a time is stored for another text", f.where())
                    if q != "getTimeConverter": R.ob("conversion", q + ":factor", v is not None and (callp("getFactor")(strip(v)) or lastfield(v, "factor")), "the number of cycles is not returned", f.where())
                R.ob("conversion", f"{q}:{'cached' if hit else 'new'} returns", bool(rs), "no time is returned", f.where())
    f = R.need([f for f in R.prog.find("SST::" + TL + "getTimeConverter", False) if "UnitAlgebra" in ptype(f, 0)], TL + "getTimeConverter(UnitAlgebra)")[0]
    g = CFG(R.prog, f, inline=NONE)
    o = evaluate(R, g, lambda at, ctx=None: True if at[0] in ("nz", "pos") and has_field(at[1], TL + "initialized_") else None)
    R.ob("conversion", "of a value", bool(o.rets) and all(any(callp("getFactorForTime")(x) and P(f, 0)(x[3][0]) for x in subterms(v)) for _, v in o.rets), "another time is converted", f.where())
    o = evaluate(R, g, lambda at, ctx=None: False if at[0] in ("nz", "pos") and has_field(at[1], TL + "initialized_") else None)
    R.ob("conversion", "uninitialised", o.fatal and not o.rets, "times are converted before the core time base is known", f.where())
    f = fn(R, TL + "init")
    g = CFG(R.prog, f, inline=NONE)
    base = lambda n: n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], TL + "timebase_") or n.kind == "asg" and is_field(n.d["lhs"], TL + "timebase_")
    always(R, "conversion", "init:base", g, base, "the core time base is not set")
    units_ = {"nano_": "1ns", "micro_": "1us", "milli_": "1ms"}
    conv = lambda n: n.kind == "call" and last(n.d["q"]) == "getTimeConverter"
    never(R, "conversion", "init:order", g, conv, "times are converted before the core time base is set", avoid=base)
    for fld, txt in units_.items():
        setf = lambda n: (n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], TL + fld)) or (n.kind == "asg" and is_field(n.d["lhs"], TL + fld))
        always(R, "conversion", "init:" + fld, g, setf, "a unit is not set")
        vs = [expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"]) for n in g.nodes() if setf(n)]
        got = {y[1].strip('"').replace(" ", "") for v in vs for y in subterms(v) if y[0] == "str"}
        R.ob("conversion", "init:" + fld + " value", got == {txt}, "a unit stands for another", f.where())
        cat = [n for n in g.nodes() if setf(n) and not any(y[0] == "str" for y in subterms(expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"])))]
        R.ob("conversion", "init:" + fld + " too fine", len(cat) == 1 and 0 in {const(x) for n in cat for x in subterms(expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"]))}, "a unit finer than the core time base is not marked so", f.where())
    # the converter
    for name, op in (("convertToCoreTime", "*"), ("convertFromCoreTime", "/")):
        f = fn(R, "TimeConverter::" + name)
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        for n in root_rets(g):
            v = strip(n.d["val"])
            ok = v[0] == "bin" and v[1] == op and (P(f, 0)(v[2]) and lastfield(v[3], "factor") or op == "*" and P(f, 0)(v[3]) and lastfield(v[2], "factor"))
            R.ob("conversion", name, ok, "a time is converted wrongly", n.where())
    for f in R.need([f for f in R.prog.find("SST::TimeConverter::TimeConverter", False) if len(f.params) == 1 and ("string" in ptype(f, 0) or "UnitAlgebra" in ptype(f, 0))], "TimeConverter constructors"):
        g = CFG(R.prog, f, inline=NONE)
        always(R, "conversion", "converter from " + ("text" if "string" in ptype(f, 0) else "value"), g, lambda n: n.kind in ("asg", "init") and lastfield(n.d.get("lhs") or n.d["var"], "factor") and n.d.get("rhs") is not None and any(callp("getFactorForTime")(x) and P(f, 0)(x[3][0]) for x in subterms(n.d["rhs"])), "a time converter has another period")
    f = fn(R, "TimeConverter::getPeriod")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    for n in root_rets(g):
        v = strip(n.d["val"])
        R.ob("conversion", "period", ((v[0] == "bin" and v[1] == "*") or (v[0] == "call" and last(v[1]) == "operator*")) and any(lastfield(x, "factor") for x in subterms(v)) and any(lastfield(x, "timebase_") or callp("getTimeBase")(x) for x in subterms(v)), "a converter's period is not its cycles times the core time base", n.where())


def keyok(n, f, cache):
    if n.kind == "asg": return n.d["lhs"][0] == "idx" and P(f, 0)(n.d["lhs"][2])
    if last(n.d["q"]) == "operator=": return strip(n.d["obj"])[0] == "idx" and P(f, 0)(strip(n.d["obj"])[2])
    return any(P(f, 0)(x) for a in n.d["args"] for x in subterms(a))


def quotient(q, f, unit, turned=()):
    """period / timebase, or inverted timebase / period"""
    while q[0] in ("ctor",) and len(q[3] if len(q) > 3 else ()) == 1: q = strip(q[3][0])
    if q[0] == "bin" and q[1] == "/": a, b = q[2], q[3]
    elif q[0] == "call" and last(q[1]) == "operator/":
        xs = ((q[2],) if q[2] is not None else ()) + tuple(q[3])
        if len(xs) != 2: return False
        a, b = xs
    else: return False
    copies = list(turned)
    tb = lambda t: any(x[0] == "mem" and last(x[2]) == "timebase_" for x in subterms(t)) or strip(t) in copies
    inv = lambda t: any(x[0] == "call" and last(x[1]) == "invert" for x in subterms(t)) or strip(t) in copies
    tm = lambda t: any(param_idx(f, x) == 0 for x in subterms(t))
    if unit == "s": return tm(a) and tb(b) and not inv(a) and not inv(b)
    return tb(a) and inv(a) and tm(b) and not inv(b) or False


def view(R):
    """the component's clock readings."""
    cyc = lambda t: callp("getCurrentSimCycle")(strip(t)) or lastfield(t, "currentSimCycle")
    conv = lambda v, tc: (callp("convertFromCoreTime")(v) and tc(v[2]) and cyc(v[3][0])) or (v[0] == "bin" and v[1] == "/" and cyc(v[2]) and any(tc(x) for x in subterms(v[3])))
    under = lambda t, f: callp("processCurrentTimeWithUnderflowedBase")(t) and P(f, 0)(t[3][0])
    for f in fns(R, B + "getCurrentSimTime"):
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        if not f.params:
            R.ob("view", "time:default", bool(root_rets(g)) and all(any(lastfield(x, "defaultTimeBase") for x in subterms(n.d["val"])) for n in root_rets(g)), "a component does not read the current time in its default time base", f.where())
        elif "TimeConverter" in ptype(f, 0):
            for n in root_rets(g): R.ob("view", "time", conv(strip(n.d["val"]), P(f, 0)), "a component does not read the current time in the unit asked for", n.where())
        elif "char" in ptype(f, 0) and "string" not in ptype(f, 0):
            for n in root_rets(g): R.ob("view", "time:characters", any(x[0] == "call" and last(x[1]) == "getCurrentSimTime" and any(P(f, 0)(y) for a in x[3] for y in subterms(a)) for x in subterms(n.d["val"])), "the time is read in another unit", n.where())
        else:
            rs = [r for r in runs(g, [g.entry], lambda n: False, lambda at, ctx=None: None) if not r.fatal()]
            fine = 0
            mine = lambda t: any(x[0] == "call" and last(x[1]) == "getTimeConverter" and P(f, 0)(x[3][0]) or x[0] == "ctor" and last(str(x[1])) == "TimeConverter" and any(P(f, 0)(y) for y in subterms(x)) for x in subterms(expand(g.T, t, 4)))
            for r in rs:
                v = strip(r.ret()) if r.ret() is not None else ("none",)
                u = under(v, f)
                fine += u
                c = conv(v, mine) or (callp("getCurrentSimTime")(v) and mine(v[3][0]))
                R.ob("view", "time:returned", u or c, "the time read is not returned in the unit asked for", f.where())
            R.ob("view", "time:finer", fine >= 1 and len(rs) > fine, "the time cannot be read in a unit finer than the core time base", f.where())
            caught = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "processCurrentTimeWithUnderflowedBase"]
            R.ob("view", "time:text", all(P(f, 0)(n.d["args"][0]) for n in caught), "the time is read in another unit", f.where())
    for u, txt in (("Nano", "1ns"), ("Micro", "1us"), ("Milli", "1ms")):
        f = fn(R, B + "getCurrentSimTime" + u)
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        isf = lambda t: callp("getFactor")(strip(t)) or callp("isInitialized")(strip(t)) or callp("operator bool")(strip(t)) or lastfield(t, "factor")
        unit = lambda t: any(x[0] == "call" and last(x[1]) == "get" + u or x[0] == "mem" and last(x[2]) == u.lower() + "_" for x in subterms(t))
        for known in (True, False):
            dec = lambda at, ctx=None: known if at[0] in ("nz", "pos") and isf(at[1]) else (not known) if at[0] == "==" and any(isf(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else None
            o = evaluate(R, g, dec)
            for _, v in o.rets:
                v = strip(v)
                text = any(x[0] == "call" and last(x[1]) in ("getCurrentSimTime", "processCurrentTimeWithUnderflowedBase") for x in subterms(v)) and {y[1].strip('"').replace(" ", "") for y in subterms(v) if y[0] == "str"} == {txt}
                R.ob("view", f"{u}:{'unit' if known else 'finer'}", text or known and conv(v, unit), "the time is read in another unit" if known else "the time cannot be read in a unit finer than the core time base", f.where())
            R.ob("view", f"{u}:{known}", bool(o.rets), "no time is returned", f.where())
    for q, fld in (("getNano", "nano_"), ("getMicro", "micro_"), ("getMilli", "milli_"), ("getTimeBase", "timebase_")):
        f = fn(R, TL + q)
        g = CFG(R.prog, f, inline=NONE)
        R.ob("view", "TimeLord " + q, bool(root_rets(g)) and all(lastfield(strip(n.d["val"]), fld) for n in root_rets(g)), "a unit stands for another", f.where())
    f = fn(R, B + "processCurrentTimeWithUnderflowedBase")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    now = lambda a: callp("getElapsedSimTime")(a) or lastfield(a, "currentSimCycle")
    for n in root_rets(g):
        v = expand(g.T, n.d["val"], 6)
        ok = False
        for x in subterms(v):
            if not ((x[0] == "bin" and x[1] == "/") or (x[0] == "call" and last(x[1]) == "operator/")): continue
            a, b = (x[2], x[3]) if x[0] == "bin" else (((x[2],) if x[2] is not None else ()) + tuple(x[3]))[:2]
            ok = ok or (any(now(y) for y in subterms(a)) and not any(now(y) for y in subterms(b)) and any(param_idx(f, y) == 0 for y in subterms(b)))
        R.ob("view", "finer", ok, "the current time is not divided by the unit", n.where())
    big = lambda at, ctx=None: True if at[0] == "<" and "MAX_SIMTIME_T" in show(at[1]) else False if at[0] == "<" and "MAX_SIMTIME_T" in show(at[2]) else None
    o = evaluate(R, g, big)
    R.ob("view", "finer:overflow", o.fatal and not o.rets, "a time that does not fit is returned", f.where())
    for q, fld, per in (("getCurrentSimCycle", "currentSimCycle", 0), ("getElapsedSimTime", "currentSimCycle", 1), ("getEndSimCycle", "endSimCycle", 0), ("getEndSimTime", "endSimCycle", 1), ("getCurrentPriority", "currentPriority", 0), ("getRank", "my_rank", 0), ("getNumRanks", "num_ranks", 0)):
        f = fn(R, B + q)
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        for n in root_rets(g):
            v = strip(n.d["val"])
            if per: ok = callp(q)(v) or (((v[0] == "bin" and v[1] == "*") or (v[0] == "call" and last(v[1]) == "operator*")) and any(lastfield(x, fld) for x in subterms(v)) and any(lastfield(x, "timebase_") for x in subterms(v)))
            else: ok = callp(q)(v) or any(lastfield(x, fld) for x in [v] + list(subterms(v))[:2])
            R.ob("view", q, ok, "a component reads something else", n.where())
        R.ob("view", q + ":returns", bool(root_rets(g)), "a component reads something else", f.where())


def ports(R):
    """configureLink_impl over: own link or not, sharing, parent's link or not, handler or polling, port modules or not."""
    f = fn(R, B + "configureLink_impl")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    own = lambda t: callp("getLink")(t)
    par = lambda t: callp("getLinkFromParentSharedPort")(t)
    shares = lambda t: callp("sharesPorts")(t) or (t[0] == "bin" and t[1] == "&" and "SHARE_PORTS" in show(t)) or "SHARE_PORTS" in show(t)
    maps = lambda t: callp("getLinkMap")(t) or lastfield(t, "link_map") or t[0] == "new" or (t[0] == "var" and t[3] == "myLinks")
    hand = lambda t: param_idx(f, t) == 2
    pmods = lambda t: lastfield(t, "port_modules_") and has_field(t, "ComponentInfo::port_modules_")
    wired = lambda t: callp("isWireUpFinished")(t) or lastfield(t, "wireUpFinished_")
    handed = [v for v in {strip(x) for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "getLinkFromParentSharedPort" for x in n.d["args"]} if v[0] == "var"]
    got = lambda t: strip(t) in handed or strip(t)[0] == "ctor" and last(str(strip(t)[1])) == "vector"
    for o, s, p, h, m, w in itertools.product((True, False), repeat=6):
        if (o or not s) and p or w and not p: continue
        link = o or (s and p)
        if not link and (h or m): continue
        base = oracle((own, o), (shares, s), (par, p), (hand, h), (wired, False), (maps, True))

        def dec(at, ctx=None):
            if at[0] in ("nz", "pos") and shares(strip(at[1])): return s
            if at[0] == "==" and any("SHARE_PORTS" in show(x) for x in at[1:]): return not s
            r = base(at)
            if r is not None: return r
            if at[0] in ("nz", "pos"):
                x = strip(at[1])
                if callp("size")(x) and got(x[2]): return w
                if callp("empty")(x) and got(x[2]): return not w
            if at[0] == "<" and const(at[1]) == 0 and callp("size")(strip(at[2])) and got(strip(at[2])[2]): return w
            r = has_key(pmods, m)(at)
            if r is not None: return r
            if at[0] in ("nz", "pos") and pmods(strip(at[1])): return True if m else None
            return None
        rs = runs(g, [g.entry], lambda n: False, dec)
        nm = f"{'own' if o else 'shared' if s else 'none'}{' parent' if p else ''}{' handler' if h else ''}{' modules' if m else ''}{' handed' if w else ''}"
        R.ob("ports", nm + ":returns", bool(rs), "configuring a port does not end", f.where())
        for r in rs:
            if r.fatal():
                recv = any(n.kind == "br" and any(c is not None and is_term(c) and "installOnReceive" in show(c) for _, c, _ in n.succ) for n, _ in r.events)
                R.ob("ports", nm + ":accepted", link and (m or p) and not h and recv, "a valid port configuration ends the simulation", f.where())
                continue
            v = r.ret()
            want = own if o else par if p else isnull
            R.ob("ports", nm + ":link", v is not None and (want(strip(v)) or not link and (own(strip(v)) or par(strip(v)))), "a port yields another link", f.where())
            lk = lambda n, vv: n.d["obj"] is not None and want(strip(vv(n.d["obj"])))
            ev = lambda q: [(n, vv) for n, vv in r.events if n.kind == "call" and last(n.d["q"]) == q and lk(n, vv)]
            if not link:
                R.ob("ports", nm + ":nothing", not any(n.kind == "call" and last(n.d["q"]) in ("setTag", "getNextLinkOrderTag", "setPolling", "setFunctor", "insertLink") for n, _ in r.events), "a port without a link is configured", f.where())
                continue
            pol, fun, tb, tag = ev("setPolling"), ev("setFunctor"), ev("setDefaultTimeBase"), ev("setTag")
            R.ob("ports", nm + ":handler", (len(fun) == 1 and not pol and hand(strip(fun[0][1](fun[0][0].d["args"][0])))) if h else (len(pol) == 1 and not fun), "a port does not get its handler" if h else "a port without a handler is not polled", f.where())
            R.ob("ports", nm + ":time base", bool(tb) and any(param_idx(f, x) == 1 for x in subterms(tb[-1][1](tb[-1][0].d["args"][0]))), "a port does not get the time base asked for", f.where())
            R.ob("ports", nm + ":tag", len(tag) == 1 and callp("getNextLinkOrderTag")(strip(tag[0][1](tag[0][0].d["args"][0]))), "a port does not get the next order tag", f.where())
            R.ob("ports", nm + ":one tag", sum(1 for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "getNextLinkOrderTag") == 1, "order tags are skipped", f.where())
            ins = [(n, vv) for n, vv in r.events if n.kind == "call" and last(n.d["q"]) == "insertLink"]
            if p:
                R.ob("ports", nm + ":kept", len(ins) == 1 and param_idx(f, strip(ins[0][1](ins[0][0].d["args"][0]))) == 0 and par(strip(ins[0][1](ins[0][0].d["args"][1]))), "a shared link is not kept by the subcomponent", f.where())
                rst = ev("resetDefaultTimeBase")
                R.ob("ports", nm + ":reset", True if tb else bool(rst), "a shared link keeps its parent's time base", f.where())
                mine = lambda x: strip(x)[0] == "idx" and pmods(strip(strip(x)[1])) and P(f, 0)(strip(strip(x)[2]))
                mv = [n for n, vv in r.events if n.kind == "call" and last(n.d["q"]) in ("swap", "operator=", "insert", "emplace", "insert_or_assign", "assign", "push_back") and any(got(x) for a in list(n.d["args"]) + ([n.d["obj"]] if n.d["obj"] is not None else []) for x in subterms(a))]
                mv += [n for n, vv in r.events if n.kind == "asg" and got(n.d["rhs"])]
                lost = [n for n in mv if not any(mine(x) for a in (list(n.d["args"]) + ([n.d["obj"]] if n.d["obj"] is not None else []) if n.kind == "call" else [n.d["lhs"]]) for x in subterms(a)) and not (n.kind == "call" and n.d["obj"] is not None and pmods(strip(n.d["obj"])) and any(P(f, 0)(x) for a in n.d["args"] for x in subterms(a)))]
                R.ob("ports", nm + ":modules moved", (bool(mv) or not w) and not lost, "a shared link's port modules stay with the parent", f.where())
            else: R.ob("ports", nm + ":not inserted", not ins, "an own link is entered again", f.where())
            if not o: R.ob("ports", nm + ":asked", any(n.kind == "call" and last(n.d["q"]) == "getLinkFromParentSharedPort" and "parent_info" in show(n.d["obj"]) and param_idx(f, strip(n.d["args"][0])) == 0 for n, _ in r.events), "a shared port is not looked for in the parent", f.where())
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "getLink": R.ob("ports", "name", P(f, 0)(n.d["args"][0]), "the link of another port is configured", n.where())
    # port modules and tools
    mods = [h for h in loop_heads(g) if any(n.kind == "call" and last(n.d["q"]) == "CreateWithParams" and n.nid in h[3] for n in g.nodes())]
    R.ob("ports", "modules", bool(mods), "port modules are not created", f.where())
    for h in mods[:1]:
        for snd, rcv, hd in itertools.product((True, False), repeat=3):
            dec = oracle((lambda t: callp("installOnSend")(t), snd), (lambda t: callp("installOnReceive")(t), rcv), (hand, hd))
            for r in runs(g, h[1], lambda n: n is h[0], dec):
                nm = f"module:{'send ' if snd else ''}{'receive ' if rcv else ''}{'handler' if hd else 'polling'}"
                if rcv and not hd:
                    R.ob("ports", nm, r.fatal(), "a port module that cannot be installed is passed over", h[0].where())
                    continue
                R.ob("ports", nm + ":accepted", not r.fatal(), "a port module ends the simulation", h[0].where())
                mk = lambda t: any(callp("CreateWithParams")(x) for x in subterms(t))
                a = [(n, v) for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "attachTool" and mk(v(n.d["args"][0]))]
                b = [(n, v) for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "attachInterceptTool" and mk(v(n.d["args"][0]))]
                k = [(n, v) for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and has_field(n.d["obj"], B + "port_modules_") and mk(v(n.d["args"][0]))]
                R.ob("ports", nm + ":send", len(a) == int(snd), "a port module is not installed on the sending side exactly if it asks for it", h[0].where())
                R.ob("ports", nm + ":receive", len(b) == int(rcv) and all(hand(strip(v(n.d["obj"]))) for n, v in b), "a port module is not installed on the receiving side exactly if it asks for it", h[0].where())
                R.ob("ports", nm + ":kept", len(k) == 1, "a port module is not kept", h[0].where())
                cnt = [n for n, _ in r.events if n.kind == "asg" and (n.d["op"] == "++" or n.d["op"] == "+=")]
                ids = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and "port_module_id_" in show(n.d["obj"])]
                mks = [i for i, (n, _) in enumerate(r.events) if n.kind == "call" and last(n.d["q"]) == "CreateWithParams"]
                R.ob("ports", nm + ":id", len(ids) == 1 and [n for n, _ in r.events].index(ids[0]) < mks[0] and len(cnt) == 1, "port modules of a port share an id", h[0].where())
    tools = [h for h in loop_heads(g) if any(n.kind == "call" and last(n.d["q"]) == "profileReceives" and n.nid in h[3] for n in g.nodes()) or any(c is not None and is_term(c) and has_call(c, "getProfileTool") for _, c, _ in h[0].succ)]
    for h in tools[:1]:
        for a, b in itertools.product((True, False), repeat=2):
            dec = oracle((lambda t: callp("profileReceives")(t) or lastfield(t, "profile_receives_"), a), (lambda t: callp("profileSends")(t) or lastfield(t, "profile_sends_"), b))
            for r in runs(g, h[1], lambda n: n is h[0], dec):
                at = [strip(v(n.d["obj"])) for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "attachTool"]
                R.ob("ports", f"profile:{int(a)}{int(b)}", sum(1 for t in at if hand(t)) == int(a) and sum(1 for t in at if not hand(t)) == int(b), "a profile tool is attached to the wrong side", h[0].where())
    # the parent's side
    f = fn(R, B + "getLinkFromParentSharedPort")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    for o, c, m, s in itertools.product((True, False), repeat=4):
        if not o and (c or m): continue
        if c and m: continue
        pm = lambda t: lastfield(t, "port_modules_")
        dec0 = oracle((own, o), (lambda t: callp("isConfigured")(t) or lastfield(t, "type"), c), (maps, True), (pm, True))

        def dec(at, ctx=None):
            if at[0] in ("nz", "pos") and shares(strip(at[1])): return s
            if at[0] == "==" and any("SHARE_PORTS" in show(x) for x in at[1:]): return not s
            if at[0] == "==" and any(lastfield(strip(x), "type") for x in at[1:]): return not c
            r = dec0(at)
            return r if r is not None else has_key(pm, m)(at)
        nm = f"shared port:{'own' if o else 'none'}{' configured' if c else ''}{' modules' if m else ''}{' shares' if s else ''}"
        rs = [r for r in runs(g, [g.entry], lambda n: False, dec)]
        R.ob("ports", nm + ":returns", bool(rs), "looking for a shared port does not end", f.where())
        for r in rs:
            v = strip(r.ret()) if r.ret() is not None else None
            rem = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "removeLink"]
            mv = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) in ("swap", "operator=") and any(param_idx(f, strip(x)) == 1 for x in ([n.d["obj"]] if n.d["obj"] is not None else []) + list(n.d["args"]))]
            if o and not c:
                R.ob("ports", nm + ":given", v is not None and own(v), "an unconfigured link is not given to the subcomponent", f.where())
                R.ob("ports", nm + ":given up", len(rem) == 1 and P(f, 0)(rem[0].d["args"][0]), "a link is owned twice", f.where())
                R.ob("ports", nm + ":modules", len(mv) == int(m), "a port's modules do not go with its link", f.where())
            else:
                R.ob("ports", nm + ":kept", not rem and not mv, "a link in use is taken away", f.where())
                R.ob("ports", nm + ":next", v is not None and (par(v) and "parent_info" in show(v[2]) and P(f, 0)(v[3][0]) and P(f, 1)(v[3][1]) if s else isnull(v)), "a shared port is not looked for in the next parent" if s else "a port that is not shared is given away", f.where())


def selflinks(R):
    """configureSelfLink adds the link and configures it with all it was given."""
    for f in R.need(R.prog.find("SST::" + B + "configureSelfLink", False), B + "configureSelfLink"):
        g = CFG(R.prog, f, inline=NONE)
        add = lambda n: n.kind == "call" and last(n.d["q"]) == "addSelfLink" and P(f, 0)(n.d["args"][0])
        always(R, "selflinks", f"added/{len(f.params)}", g, add, "a self link is not created")
        conf = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("configureLink", "configureLink_impl")]
        R.ob("selflinks", f"configured/{len(f.params)}", bool(conf), "a self link is not configured", f.where())
        for n in conf:
            used = {param_idx(f, x) for a in n.d["args"] if is_term(a) for x in subterms(expand(g.T, a)) if x[0] == "param"}
            R.ob("selflinks", f"all/{len(f.params)}", used >= set(range(len(f.params))), "the handler or time base given for a self link is dropped", n.where())
            never(R, "selflinks", f"order/{len(f.params)}", g, lambda m, n=n: m is n, "a self link is configured before it exists", avoid=add)


def bases(R):
    """default time bases: asked for, the component's, or set later for configured links without one; clocks and time bases set it only when asked."""
    f = fn(R, B + "setDefaultTimeBaseForLinks")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    hs = [h for h in loop_heads(g) if any(c is not None and is_term(c) and ("getLinkMap" in show(c) or "more" in show(c)) for _, c, _ in h[0].succ)]
    R.ob("bases", "links", bool(hs), "the default time base does not reach the links", f.where())
    for h in hs[:1]:
        for z, c in itertools.product((True, False), repeat=2):
            isz = lambda t: lastfield(t, "factor") or callp("getFactor")(strip(t)) or callp("getDefaultTimeBase")(strip(t)) or lastfield(t, "defaultTimeBase")
            dec = lambda at, ctx=None: z if at[0] == "==" and any(isz(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else c if at[0] in ("nz", "pos") and callp("isConfigured")(strip(at[1])) else (not z) if at[0] in ("nz", "pos") and (isz(at[1]) or callp("isInitialized")(strip(at[1]))) else (not c) if at[0] == "==" and any(lastfield(x, "type") for x in at[1:]) else None
            for r in runs(g, h[1], lambda n: n is h[0], dec):
                st = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "setDefaultTimeBase"]
                R.ob("bases", f"links:{'unset' if z else 'set'} {'configured' if c else 'unconfigured'}", len(st) == int(z and c) and all(P(f, 0)(n.d["args"][0]) for n in st), "a link without a time base does not get the component's" if z and c else "a link's own time base is replaced", h[0].where())
    comp = lambda n: (n.kind == "call" and last(n.d["q"]) == "operator=" and lastfield(n.d["obj"], "defaultTimeBase")) or (n.kind == "asg" and lastfield(n.d["lhs"], "defaultTimeBase"))
    for q, idx in (("registerTimeBase", 1), ("registerClock_impl", 2)):
        f = fn(R, B + q)
        for v in (True, False):
            g = CFG(R.prog, f, inline=NONE, assume=lambda at, ctx=None: v if at[0] in ("nz", "pos") and param_idx(f, strip(at[1])) == idx else None)
            R.cfg_used(g)
            lk = lambda n: n.kind == "call" and last(n.d["q"]) == "setDefaultTimeBaseForLinks"
            if v:
                always(R, "bases", q + ":links", g, lk, "the links do not get the default time base")
                always(R, "bases", q + ":component", g, comp, "the component does not get the default time base")
            else:
                never(R, "bases", q + ":unasked", g, lambda n: lk(n) or comp(n), "the default time base is set unasked")
        for n in g.nodes():
            pass
    f = fn(R, B + "registerTimeBase")
    g = CFG(R.prog, f, inline=NONE)
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "getTimeConverter": R.ob("bases", "registered", P(f, 0)(n.d["args"][0]), "another time base is registered", n.where())
    R.ob("bases", "registered:returned", all(callp("getTimeConverter")(strip(expand(g.T, n.d["val"]))) for n in root_rets(g)) and bool(root_rets(g)), "the time base registered is not returned", f.where())
    f = R.need([f for f in R.prog.find("SST::" + B + "configureLink", False) if len(f.params) == 2], B + "configureLink")[0]
    g = CFG(R.prog, f, inline=NONE)
    for v in (True, False):
        tb = lambda t: lastfield(t, "defaultTimeBase") or (t[0] == "call" and last(t[1]) in ("operator bool", "isInitialized") and lastfield(t[2], "defaultTimeBase"))
        o = evaluate(R, g, oracle((tb, v), (lambda t: t[0] == "call" and last(t[1]) in ("operator bool", "isInitialized", "getFactor") and "defaultTimeBase" in show(t), v)))
        for n, val in o.calls("configureLink_impl"):
            a = strip(val(n.d["args"][1]))
            a = pick(a, oracle((tb, v), (lambda t: "defaultTimeBase" in show(t), v)))
            R.ob("bases", f"link:{'component base' if v else 'no base'}", P(f, 0)(val(n.d["args"][0])) and P(f, 1)(val(n.d["args"][2])) and ("defaultTimeBase" in show(a) if v else const(strip(a)) == 0 or "defaultTimeBase" in show(a)), "a link does not get the component's time base", n.where())
        R.ob("bases", f"link:{v}", bool(o.calls("configureLink_impl")), "a link is not configured", f.where())
    f = fn(R, B + "addSelfLink")
    g = CFG(R.prog, f, inline=NONE)
    for dup in (True, False):
        o = evaluate(R, g, oracle((lambda t: callp("getLink")(t), dup)))
        ins = o.calls("insertLink")
        R.ob("bases", "self link:" + ("duplicate" if dup else "new"), (o.fatal and not ins) if dup else (not o.fatal and len(ins) >= 1 and all(P(f, 0)(v(n.d["args"][0])) and (v(n.d["args"][1])[0] == "new" or strip(v(n.d["args"][1]))[0] == "var") for n, v in ins)), "a self link replaces another link" if dup else "a self link is not entered under its name", f.where())
    always(R, "bases", "self link:port", g, lambda n: n.kind == "call" and last(n.d["q"]) == "addSelfPort" and P(f, 0)(n.d["args"][0]), "a self link's port is not known")
    # the map of links
    f = fn(R, "LinkMap::getLink")
    g = CFG(R.prog, f, inline=NONE)
    lm = lambda t: has_field(t, "LinkMap::linkMap")
    for hit in (True, False):
        o = evaluate(R, g, has_key(lm, hit))
        R.ob("bases", f"map:get {hit}", bool(o.rets) and all((lm(v) and not isnull(strip(v))) if hit else isnull(strip(v)) for _, v in o.rets), "a port's link is not found" if hit else "an unknown port yields a link", f.where())
    for q, ops, msg in (("insertLink", ("insert", "emplace", "insert_or_assign", "operator[]", "operator="), "a link is not entered"), ("removeLink", ("erase",), "a link is not removed")):
        f = fn(R, "LinkMap::" + q)
        g = CFG(R.prog, f, inline=NONE)
        always(R, "bases", "map:" + q, g, lambda n: n.kind == "call" and last(n.d["q"]) in ops and n.d["obj"] is not None and lm(n.d["obj"]) and any(P(f, 0)(x) for a in list(n.d["args"]) + [n.d["obj"]] for x in subterms(a)) or n.kind == "asg" and n.d["lhs"][0] == "idx" and lm(n.d["lhs"][1]) and P(f, 0)(n.d["lhs"][2]), msg)
    for q, fld, val in (("Link::setDefaultTimeBase", "defaultTimeBase", None), ("Link::resetDefaultTimeBase", "defaultTimeBase", 0)):
        f = fn(R, q)
        g = CFG(R.prog, f, inline=NONE)
        always(R, "bases", q, g, lambda n: n.kind == "asg" and lastfield(n.d["lhs"], fld) and (const(n.d["rhs"]) == 0 if val == 0 else any(param_idx(f, x) == 0 for x in subterms(n.d["rhs"]))) or n.kind == "call" and last(n.d["q"]) == "operator=" and lastfield(n.d["obj"], fld), "a link's time base is not set")


CLAUSES = [conversion, view, ports, bases, selflinks]
