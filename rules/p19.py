"""P19: enabling of statistics."""
from sa.q import *
from rules.p17 import fns, fn, ALL, once

PROP = dict(
    title="A registered statistic is the one the configuration enables for it",
    statement="Each statistic enabled on a (sub)component has an id that is unique in its component tree; its name, type and parameters are kept there, and everything the model adds to it, also later, reaches it. "
              "Registering a statistic that is not in the ELI (own, or the parent's where shared) ends the simulation. An explicitly enabled name yields the statistic of that id: one per sharing, "
              "else one per name and sub id, with its parameters. Otherwise, with all enabled, a statistic is created unless its level exceeds the load level; a subcomponent that may insert into its parent "
              "follows the parent's settings; anything else is the disabled statistic.",
    over=["configurations", "histories"], text="all component trees, enabled names, levels, share flags, orders of enabling and registering",
    why="Which statistics are collected, and with which rate, output and limits, is decided once at construction. A wrong choice gives missing or mislabelled columns without any error; the tests enable a "
        "handful of statistics on flat components.",
    files=["src/sst/core/baseComponent.h", "src/sst/core/baseComponent.cc", "src/sst/core/model/configComponent.cc", "src/sst/core/componentInfo.cc", "src/sst/core/componentInfo.h", "src/sst/core/statapi/statengine.h"],
    mech=[("ConfigComponent::enableStatistic", "src/sst/core/model/configComponent.cc"), ("BaseComponent::registerStatistic_impl", "src/sst/core/baseComponent.h"),
          ("BaseComponent::createExplicitlyEnabledStatistic", "src/sst/core/baseComponent.cc")],
    technique="abstract evaluation of the enabling and registration functions over all decided configurations (case tables), path obligations over control-flow graphs of every template instantiation")

TUS = ["baseComponent.cc", "componentInfo.cc", "model/configComponent.cc", "factory.cc"]
LOAD = dict(extra=[VERIF + "/tool/witness/comp.cc"])
C = "ConfigComponent::"
I = "ComponentInfo::"
NONE = lambda f, e, ctx: False
SMALL = ("getNextStatisticID", "insertStatistic", "findStatistic", "getParent", "enableStatistic", "addStatisticParameter", "setStatisticParameters", "setStatisticLoadLevel", "insert", "createStatistic")
keep = ALL(*SMALL)


def callp(name): return lambda t: t[0] == "call" and last(t[1]) == name
def fieldp(name): return lambda t: is_field(strip(t), name)


def strip(t):
    while t[0] in ("cast", "deref", "addr") or t[0] == "un" and t[1] in ("&", "*"): t = t[-1]
    return t


def parentis(has):
    def d(at, ctx=None):
        if at[0] in ("nz", "pos") and callp("getParent")(at[1]): return has
        if at[0] == "==" and any(callp("getParent")(x) for x in at[1:]): return not has
        if at[0] == "==" and all(has_field(x, C + "id") or const(x) is not None for x in at[1:]): return not has   # id == COMPONENT_ID_MASK(id)
        return None
    return d


def nameall(f, val, i=0):
    """the name given is the one that stands for all statistics"""
    def d(at, ctx=None):
        xs = [x for x in at[1:] if is_term(x)]
        if at[0] == "==" and any(param_idx(f, x) == i for x in xs) and any("ALLSTATS" in show(x) for x in xs): return val
        if at[0] in ("nz", "pos") and xs[0][0] == "call" and last(xs[0][1]) in ("operator==", "operator!=", "compare"):
            ys = [y for y in ((xs[0][2],) + tuple(xs[0][3])) if is_term(y)]
            if any(param_idx(f, y) == i for y in ys) and any("ALLSTATS" in show(y) for y in ys): return val == (last(xs[0][1]) == "operator==")
        return None
    return d


def rec(f, flag, val):
    i = [k for k, p in enumerate(f.params) if p[1] == "recursively"]
    i = i[0] if i else len(f.params) - 1
    return lambda at, ctx=None: val if at[0] in ("nz", "pos") and param_idx(f, at[1]) == i else None


def recursive(R, clause, f, npass):
    """with `recursively`, each subcomponent gets the same call; without it none does"""
    nm = last(f.sq)
    g = CFG(R.prog, f, inline=NONE, assume=rec(f, "recursively", True))
    ev = lambda n: n.kind == "call" and last(n.d["q"]) == nm and n.d["obj"] is not None and [param_idx(f, a) for a in n.d["args"][:npass]] == list(range(npass)) and (const(n.d["args"][npass]) == 1 or param_idx(f, n.d["args"][npass]) == npass)
    for_each(R, clause, nm + ":recursive", g, lambda c: has_field(c, C + "subComponents"), ev, "a subcomponent is left out")
    g = CFG(R.prog, f, inline=NONE, assume=rec(f, "recursively", False))
    never(R, clause, nm + ":alone", g, lambda n: n.kind == "call" and last(n.d["q"]) == nm and n.d["obj"] is not None and has_field(n.d["obj"], C + "subComponents"), "subcomponents are changed that were not asked for")
    return g


def ids(R):
    """Statistic ids are drawn from the counter of the component at the root; the statistics are kept by it and found there."""
    P = R.prog
    for q in ("getNextStatisticID", "insertStatistic", "createStatistic"):
        f = fn(R, C + q)
        g = CFG(P, f, inline=NONE, assume=parentis(True))
        o = evaluate(R, g, parentis(True))
        R.ob("ids", q + ":up", bool(o.rets) and all(callp(q)(v) and v[2] is not None and callp("getParent")(v[2]) for _, v in o.rets), "a subcomponent does not use the statistics of its parent", f.where())
        never(R, "ids", q + ":up only", g, lambda n: n.kind == "asg" and (has_field(n.d["lhs"], C + "next_stat_id") or has_field(n.d["lhs"], C + "statistics_")), "a subcomponent keeps statistics or ids of its own")
    f = fn(R, C + "getNextStatisticID")
    g = CFG(P, f, inline=NONE, assume=parentis(False))
    inc = lambda n: n.kind == "asg" and is_field(n.d["lhs"], C + "next_stat_id")
    once(R, "ids", "next", g, inc, "an id is given twice", "an id is skipped")
    R.ob("ids", "next:one", all(n.d["op"] == "++" or n.d["op"] == "+=" and const(n.d["rhs"]) == 1 or n.d["op"] == "=" and sum_is(n.d["rhs"], fieldp(C + "next_stat_id"), lambda t: const(t) == 1) for n in g.nodes() if inc(n)), "ids are not counted up", f.where())
    f = fn(R, C + "insertStatistic")
    for n in root_rets(CFG(P, f, inline=NONE, assume=parentis(False))):
        v = strip(n.d["val"])
        R.ob("ids", "insert", v[0] == "idx" and is_field(v[1], C + "statistics_") and param_idx(f, v[2]) == 0 or has_field(v, C + "statistics_") and 0 in [param_idx(f, x) for x in subterms(expand(CFG(P, f).T, v)) if x[0] == "param"], "another statistic is returned", n.where())
    f = fn(R, C + "createStatistic")
    g = CFG(P, f, inline=NONE, assume=parentis(False))
    o = evaluate(R, g, parentis(False))
    nx = callp("getNextStatisticID")
    slot = lambda t: strip(t)[0] == "idx" and is_field(strip(t)[1], C + "statistics_") and nx(strip(t)[2]) or callp("insertStatistic")(strip(t)) and nx(strip(t)[3][0])
    R.ob("ids", "create", bool(o.rets) and all(slot(v) for _, v in o.rets), "a statistic is not kept under its new id", f.where())
    once(R, "ids", "create:id", g, lambda n: n.kind == "asg" and n.d["lhs"][0] == "mem" and last(n.d["lhs"][2]) == "id" and has_call(expand(g.T, n.d["rhs"]), "getNextStatisticID"), "a statistic does not know its id", "it is set twice")
    # findStatistic(id) and findStatistic(name)
    fs = fns(R, C + "findStatistic", 1)
    for f in fs:
        byname = "string" in str(f.params[0])
        if byname:
            cont = fieldp(C + "enabledStatNames")
            for known in (True, False):
                dec = has_key(cont, known)
                o = evaluate(R, CFG(P, f, inline=NONE), dec)
                if known: R.ob("ids", "find name", bool(o.rets) and all(callp("findStatistic")(v) and keyed(f, v[3][0], cont) for _, v in o.rets), "a statistic that is enabled is not found by its name", f.where())
                else: R.ob("ids", "find unknown name", bool(o.rets) and all(isnull(v) for _, v in o.rets), "a statistic that is not enabled is found", f.where())
        else:
            cont = fieldp(C + "statistics_")
            o = evaluate(R, CFG(P, f, inline=NONE), parentis(True))
            R.ob("ids", "find:up", bool(o.rets) and all(callp("findStatistic")(v) and callp("getParent")(v[2]) and param_idx(f, v[3][0]) == 0 for _, v in o.rets), "a subcomponent does not look in its parent", f.where())
            for known in (True, False):
                o = evaluate(R, CFG(P, f, inline=NONE), table(parentis(False), has_key(cont, known)))
                if known: R.ob("ids", "find", bool(o.rets) and all(keyed(f, strip(v), cont) for _, v in o.rets), "a statistic is not found by its id", f.where())
                else: R.ob("ids", "find unknown", bool(o.rets) and all(isnull(v) for _, v in o.rets), "something else is found", f.where())


def isnull(v): return const(v) == 0 or v[0] in ("null", "nullptr") or show(v) == "nullptr"


def keyed(f, t, cont, i=0):
    """t is the value stored in the container under parameter i"""
    t = strip(t)
    if t[0] == "idx": return cont(t[1]) and param_idx(f, t[2]) == i
    for x in subterms(t):
        if x[0] == "call" and last(x[1]) in ("find", "at", "operator[]") and x[2] is not None and cont(x[2]): return param_idx(f, x[3][0]) == i and (last(x[1]) != "find" or t[0] == "mem" and last(t[2]) == "second")
    return False


def enable(R):
    """enableStatistic(): the sentinel name enables all with the parameters, kept apart; another name gets a new id on first use and
    keeps it, and the parameters go to the statistic of that id."""
    P = R.prog
    f = fn(R, C + "enableStatistic", 3)
    recursive(R, "enable", f, 2)
    norec = rec(f, "", False)
    names = fieldp(C + "enabledStatNames")
    nx = callp("getNextStatisticID")
    ALLC = C + "allStatConfig"
    base = ALL(*[s for s in SMALL])
    g = CFG(P, f, inline=base)
    ins = lambda o: [(v(n.d["obj"]), [param_idx(f, a) for a in n.d["args"]]) for n, v in o.calls("insert") if n.d["obj"] is not None and last(show(n.d["obj"]).replace(".", "::")) == "params"]
    o = evaluate(R, g, table(norec, nameall(f, True)))
    R.ob("enable", "all:flag", any(n.kind == "asg" and is_field(n.d["lhs"], C + "enabledAllStats") and const(n.d["rhs"]) == 1 for n, v in o.events), "all statistics are not enabled", f.where())
    R.ob("enable", "all:parameters", bool(ins(o)) and all(has_field(x, ALLC) and a == [1] for x, a in ins(o)), "the parameters of all statistics are not kept", f.where())
    R.ob("enable", "all:result", bool(o.rets) and all(is_field(strip(v), ALLC) for _, v in o.rets), "the configuration of all statistics is not returned", f.where())
    R.ob("enable", "all:names", not any(n.kind == "asg" and has_field(n.d["lhs"], C + "enabledStatNames") for n, v in o.events) and not o.calls("getNextStatisticID"), "the sentinel is enabled as if it were a name", f.where())
    for known in (True, False):
        for par in (True, False):
            c = ("known" if known else "new") + (", subcomponent" if par else "")
            dec = table(norec, nameall(f, False), has_key(names, known), parentis(par))
            o = evaluate(R, g, dec)
            isid = (lambda t: keyed(f, t, names)) if known else (lambda t: nx(strip(t)) or t[0] == "idx" and names(t[1]))
            # the statistic of the id, in the root component
            def stat(t):
                t = strip(t)
                if callp("insertStatistic")(t) or callp("findStatistic")(t) and known: return isid(t[3][0])
                if t[0] == "idx" and is_field(t[1], C + "statistics_"): return not par and isid(t[2])
                return False
            got = ins(o)
            R.ob("enable", c + ":parameters", bool(got) and all(stat(strip(x)[1]) and a == [1] for x, a in got if strip(x)[0] == "mem"), "the parameters do not reach the statistic at the root of the component tree", f.where())
            R.ob("enable", c + ":result", bool(o.rets) and all(stat(v) for _, v in o.rets), "another statistic is returned", f.where())
            setid = [v(n.d["rhs"]) for n, v in o.events if n.kind == "asg" and n.d["lhs"][0] == "mem" and last(n.d["lhs"][2]) == "id" and not has_field(n.d["lhs"], ALLC)]
            R.ob("enable", c + ":id", bool(setid) and all(isid(x) for x in setid), "the statistic does not know its id", f.where())
            reg = [n for n, v in o.events if n.kind == "asg" and n.d["lhs"][0] == "idx" and names(n.d["lhs"][1]) or n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and n.d["obj"] is not None and names(n.d["obj"])]
            drawn = {n.nid for n, _ in o.calls("getNextStatisticID")}
            if known: R.ob("enable", c + ":kept", not reg and not drawn, "a statistic that is enabled again loses its id", f.where())
            else:
                R.ob("enable", c + ":registered", bool(reg) and len(drawn) == 1, "the name is not registered under one new id", f.where())
            R.ob("enable", c + ":not all", not any(n.kind == "asg" and is_field(n.d["lhs"], C + "enabledAllStats") for n, v in o.events), "one name enables all statistics", f.where())
    gg = CFG(P, f, inline=base, assume=allof(nameall(f, False), has_key(names, False)))
    reg = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and names(n.d["lhs"][1]) and param_idx(f, n.d["lhs"][2]) == 0 or n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and n.d["obj"] is not None and names(n.d["obj"])
    always(R, "enable", "new:name", gg, reg, "a new name is not registered")
    gg = CFG(P, f, inline=base)
    always(R, "enable", "parameters", gg, lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and any(param_idx(f, a) == 1 for a in n.d["args"]), "the parameters are lost")


def later(R):
    """Parameters and load levels set later reach the statistic of that name, or the settings for all; an unknown name is an error."""
    P = R.prog
    for q, arg in (("addStatisticParameter", (1, 2)), ("setStatisticParameters", (1,))):
        f = fn(R, C + q, len(arg) + 2)
        recursive(R, "later", f, 1 + len(arg))
        norec = rec(f, "", False)
        for al in (True, False):
            found = lambda at, ctx=None: True if at[0] in ("nz", "pos") and callp("findStatistic")(at[1]) else None
            g = CFG(P, f, inline=keep, assume=allof(norec, nameall(f, al), found))
            ev = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and tuple(param_idx(f, a) for a in n.d["args"][:len(arg)]) == arg
            always(R, "later", q + (":all" if al else ":name"), g, ev, "the parameters are lost", bad_ok=None)
            o = evaluate(R, g, table(norec, nameall(f, al), found))
            obs = [v(n.d["obj"]) for n, v in o.events if ev(n)]
            isf = lambda t: any(callp("findStatistic")(x) and param_idx(f, x[3][0]) == 0 for x in subterms(t))
            R.ob("later", q + (":all" if al else ":name") + ":where", bool(obs) and all(has_field(x, C + "allStatConfig") if al else isf(x) for x in obs), "the parameters reach another statistic", f.where())
    f = fn(R, C + "addStatisticParameter", 4)
    g = CFG(P, f, inline=keep, assume=allof(rec(f, "", False), nameall(f, False)))
    miss = lambda at, ctx=None: False if at[0] in ("nz", "pos") and callp("findStatistic")(at[1]) else None
    o = evaluate(R, g, table(rec(f, "", False), nameall(f, False), miss))
    R.ob("later", "addStatisticParameter:unknown", o.fatal and not o.done, "a parameter for an unknown statistic is accepted", f.where())
    f = fn(R, C + "setStatisticLoadLevel", 2)
    recursive(R, "later", f, 1)
    g = CFG(P, f, inline=NONE)
    always(R, "later", "load level", g, asg_to(C + "statLoadLevel", lambda r: param_idx(f, r) == 0), "the load level is not set")
    f = fn(R, C + "reuseStatistic", 2)
    names, stats = fieldp(C + "enabledStatNames"), (lambda t: has_field(t, C + "statistics_"))
    inl = ALL("getParent", "fatal", "DoesComponentInfoStatisticNameExist", "getFactory")
    valid = lambda v: (lambda at, ctx=None: v if at[0] in ("nz", "pos") and callp("DoesComponentInfoStatisticNameExist")(at[1]) else None)
    st = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and names(n.d["lhs"][1])
    for al, ok, known in ((True, True, True), (False, False, True), (False, True, False), (False, True, True)):
        dec = table(nameall(f, al), valid(ok), has_key(stats, known))
        g = CFG(P, f, inline=inl)
        o = evaluate(R, g, dec, rel=set())
        c = "reuse:" + ("all" if al else "invalid" if not ok else "known" if known else "unknown")
        if known and ok and not al:
            evs = [(v(n.d["lhs"][2]), v(n.d["rhs"])) for n, v in o.events if st(n)]
            R.ob("later", c, bool(evs) and all(param_idx(f, a) == 0 and param_idx(f, b) == 1 for a, b in evs) and not o.fatal and all(const(v) == 1 for _, v in o.rets), "a statistic that can be reused is not", f.where())
        else: R.ob("later", c, o.fatal and not any(st(n) for n, _ in o.events), "a statistic is reused that cannot be", f.where())
    g = CFG(P, f, inline=inl)
    fnd = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("find", "count", "contains") and n.d["obj"] is not None and stats(n.d["obj"])]
    R.ob("later", "reuse:root", bool(fnd) and any(n.kind == "call" and last(n.d["q"]) == "getParent" for n in g.nodes()) and all(param_idx(f, n.d["args"][0]) == 1 for n in fnd), "the id is not looked up at the root of the component tree", f.where())


def info(R):
    """The run-time record of a (sub)component takes over the names, statistics, settings for all and load level of its configuration."""
    P = R.prog
    f = [f for f in P.find("SST::ComponentInfo::ComponentInfo", False) if f.params and "ConfigComponent" in str(f.params[0])]
    f = R.need(f, "ComponentInfo(ConfigComponent*)")[0]
    g = CFG(P, f, inline=NONE, assume=truth(lambda t: is_field(t, I + "enabled_all_stats_"), True))
    src = {"enabled_stat_names_": "enabledStatNames", "stat_configs_": "statistics_", "enabled_all_stats_": "enabledAllStats", "all_stat_config_": "allStatConfig", "statLoadLevel": "statLoadLevel"}
    for k, v in src.items():
        st = lambda n: n.kind in ("asg", "init") and is_field(n.d.get("lhs") or n.d.get("var"), I + k)
        good = lambda n: st(n) and n.d["rhs"] is not None and has_field(expand(g.T, n.d["rhs"]), C + v)
        always(R, "info", k, g, good, f"{v} of the configuration is lost")
        never(R, "info", k + ":kept", g, lambda n: st(n) and not good(n), f"{v} of the configuration is overwritten", frm=[n for n in g.nodes() if good(n)])
    f = fn(R, "BaseComponent::BaseComponent", 1)
    LV, EN = I + "statLoadLevel", I + "enabled_all_stats_"
    for al in (True, False):
        for un in (True, False):
            dec = table(lambda at: al if at[0] in ("nz", "pos") and is_field(at[1], EN) else None,
                        lambda at: un if at[0] == "==" and any(is_field(x, LV) for x in at[1:]) and any(const(x) == 255 or "UNINIT" in show(x) for x in at[1:]) else None)
            g = CFG(P, f, inline=ALL("getStatLoadLevel", "getStatEngine", "getComponentInfo"), assume=lambda at, ctx=None: dec(at))
            ev = asg_to(LV)
            c = f"level:{'all' if al else 'some'}{', not set' if un else ''}"
            if al and un:
                always(R, "info", c, g, asg_to(LV, lambda r: has_call(r, "getStatLoadLevel") or has_field(r, "stat_load_level_")), "the engine's load level is not used where none is set")
            elif al: never(R, "info", c, g, ev, "the load level set for the component is overwritten")
            else: never(R, "info", c, g, asg_to(LV, lambda r: const(r) != 0), "a load level is set where nothing is enabled by level")
    flags = {}
    for nm, bit in (("sharesPorts", "SHARE_PORTS"), ("sharesStatistics", "SHARE_STATS"), ("canInsertStatistics", "INSERT_STATS")):
        f = fn(R, I + nm)
        b = None
        for n in root_rets(CFG(P, f)):
            m = [x for x in subterms(n.d["val"]) if x[0] == "bin" and x[1] == "&" and any(is_field(y, I + "share_flags") for y in x[2:])]
            cs = [const(y) for x in m for y in x[2:] if const(y) is not None]
            b = cs[0] if cs else None
            pos = [truthval(n.d["val"], lambda at, v=v: v if at[0] in ("nz", "pos") else None) for v in (True, False)]
            R.ob("info", nm, b is not None and pos == [True, False], "the share flag is not what is tested", n.where())
        flags[nm] = b
    vals = {nm: enumcon(R, bit) for nm, bit in (("sharesPorts", "SHARE_PORTS"), ("sharesStatistics", "SHARE_STATS"), ("canInsertStatistics", "INSERT_STATS"))}
    for nm in flags: R.ob("info", nm + ":bit", flags[nm] is not None and (vals[nm] is None or flags[nm] == vals[nm]), "another flag is tested", fn(R, I + nm).where())
    R.ob("info", "bits", len(set(flags.values())) == 3 and all(v and v & (v - 1) == 0 for v in flags.values()), "share flags are not distinct bits", fn(R, I + "sharesStatistics").where())


def enumcon(R, name):
    for g, v in getattr(R.prog, "globals", {}).items():
        if last(g) == name and isinstance(v, dict) and v.get("val") is not None: return int(v["val"])
    return None


def register(R):
    """registerStatistic_impl(): for each combination of ELI entry, share flags, enabled name, all enabled and level, the one right choice."""
    import itertools
    P = R.prog
    for f in fns(R, "BaseComponent::registerStatistic_impl"):
        g = CFG(P, f, inline=ALL("getStatisticValidityAndLevel", "createStatistic", "createDisabledStatistic", "getParentComponent", "registerStatistic_impl"))
        T = f.q[f.q.index("<"):] if "<" in f.q else ""
        eli = callp("getStatisticValidityAndLevel")
        for given, valid, par, share, ins, named, names, al, hi in itertools.product((True, False), repeat=9):
            if given and (not valid or not share): continue     # the level only matters as known or not
            if valid and not share: continue
            if not names and named: continue
            if not par and (share is False and valid or ins): continue
            def lev(t):
                t = strip(t)
                return "given" if param_idx(f, t) == 3 else "eli" if eli(t) else None

            def dec(at, ctx=None):
                xs = [x for x in at[1:] if is_term(x)]
                if at[0] in ("==", "<"):
                    ls = [lev(x) for x in xs]
                    cs = [const(x) for x in xs]
                    if any(ls) and 255 in cs:
                        l = [x for x in ls if x][0]
                        unk = not given if l == "given" else not valid
                        if at[0] == "==": return unk
                        return (not unk) if cs[1] == 255 else False
                    if at[0] == "<" and any(ls) and any(is_field(strip(x), I + "statLoadLevel") or callp("getStatisticLoadLevel")(x) for x in xs):
                        return hi if ls[1] else None if hi else None     # level > load level; level < load level is not settled by not hi
                    if at[0] == "==" and any(ls) and any(is_field(strip(x), I + "statLoadLevel") for x in xs): return False if hi else None
                if at[0] in ("nz", "pos"):
                    x = strip(xs[0])
                    if is_field(x, I + "parent_info"): return par
                    if is_field(x, I + "enabled_stat_names_"): return names
                    if is_field(x, I + "enabled_all_stats_"): return al
                    if callp("sharesStatistics")(x) or x[0] == "bin" and x[1] == "&" and has_field(x, I + "share_flags") and "SHARE_STATS" in show(x): return share
                    if callp("canInsertStatistics")(x) or x[0] == "bin" and x[1] == "&" and has_field(x, I + "share_flags") and "INSERT_STATS" in show(x): return ins
                if at[0] == "==" and any(is_field(strip(x), I + "parent_info") for x in xs): return not par
                return has_key(lambda t: has_field(t, I + "enabled_stat_names_"), named)(at)
            o = evaluate(R, g, dec)
            c = f"register{T}:" + " ".join(k if v else "no-" + k for k, v in dict(given=given, valid=valid, parent=par, share=share, insert=ins, named=named, names=names, all=al, high=hi).items())
            vs = [strip(v) for _, v in o.rets]
            known = given or valid
            R_ = lambda ok, msg: R.ob("register", c, ok, msg, f.where())
            if not known:
                if par and share: R_(bool(vs) and not o.fatal and all(callp("registerStatistic_impl")(v) and up(v) and [param_idx(f, a) for a in v[3][:3]] == [0, 1, 2] and (len(v[3]) < 4 or const(v[3][3]) == 255) for v in vs), "a shared statistic is not looked for in the parent")
                else: R_(o.fatal and not o.done, "a statistic that is not in the ELI is accepted")
                continue
            if named: R_(bool(vs) and not o.fatal and all(callp("createStatistic")(v) and (callp("getParentComponent")(v[2]) or show(v[2]) == "this") and param_idx(f, v[3][0]) == 0 and keyed(f, v[3][1], lambda t: has_field(t, I + "enabled_stat_names_"), 1) and param_idx(f, v[3][2]) == 1 and param_idx(f, v[3][3]) == 2 for v in vs), "an enabled statistic is not created under its id")
            elif al and hi: R_(bool(vs) and not o.fatal and all(callp("createDisabledStatistic")(v) for v in vs), "a statistic above the load level is enabled")
            elif al: R_(bool(vs) and not o.fatal and all(callp("createStatistic")(v) and (v[2] is None or v[2] == ("this",) or show(v[2]) == "this") and "STATALL" in show(v[3][1]) or callp("createDisabledStatistic")(v) and False for v in vs) , "a statistic is not enabled although all are") if not undecided(o) else None
            elif par and ins: R_(bool(vs) and not o.fatal and all(callp("registerStatistic_impl")(v) and up(v) and [param_idx(f, a) for a in v[3][:3]] == [0, 1, 2] and lev(v[3][3]) == ("given" if given else "eli") for v in vs), "a statistic is not inserted into the parent")
            else: R_(bool(vs) and not o.fatal and all(callp("createDisabledStatistic")(v) for v in vs), "a statistic is enabled that is not asked for")


def undecided(o): return False


def up(v): return v[2] is not None and has_field(v[2], I + "parent_info") and has_field(v[2], I + "component")


def create(R):
    """createStatistic() and below: one statistic per shared id, else per id, name and sub id, or per name and sub id of the component with
    all enabled; new ones get the parameters of the configuration and are remembered; a statistic of another type is an error."""
    P = R.prog
    for f in fns(R, "BaseComponent::createStatistic", 4):
        T = f.q[f.q.index("<"):] if "<" in f.q else ""
        g = CFG(P, f, inline=ALL("createEnabledAllStatistic", "createExplicitlyEnabledStatistic", "getParentComponent"))
        for al in (True, False):
            isall = lambda at, ctx=None: al if at[0] == "==" and any(param_idx(f, strip(x)) == 1 for x in at[1:]) else None
            for cast in (True, False):
                dyn = lambda at, ctx=None: cast if at[0] in ("nz", "pos") and any(callp(z)(x) for x in subterms(at[1]) for z in ("createEnabledAllStatistic", "createExplicitlyEnabledStatistic")) or at[0] in ("nz", "pos") and "dyn" in str(at[1]) else None
                o = evaluate(R, g, table(isall, dyn))
                A, E = o.args("createEnabledAllStatistic"), o.calls("createExplicitlyEnabledStatistic")
                c = f"create{T}:{'all' if al else 'name'}"
                if al: R.ob("create", c, bool(A) and not E and all([param_idx(f, x) for x in a[:3]] == [0, 2, 3] for a in A), "a statistic enabled with all is created wrongly", f.where())
                else: R.ob("create", c, bool(E) and not A and all(n.d["obj"] is not None and callp("getParentComponent")(v(n.d["obj"])) and [param_idx(f, v(x)) for x in n.d["args"][:4]] == [0, 1, 2, 3] for n, v in E), "an explicitly enabled statistic is not created in the component at the root", f.where())
                if cast: R.ob("create", c + ":result", bool(o.rets) and all(has_call(v, "createEnabledAllStatistic" if al else "createExplicitlyEnabledStatistic") for _, v in o.rets) and not o.fatal, "another statistic is returned", f.where())
                else: R.ob("create", c + ":type", o.fatal and not o.done, "a statistic of another type is accepted", f.where())
    # createEnabledAllStatistic
    f = fn(R, "BaseComponent::createEnabledAllStatistic")
    g = CFG(P, f, inline=NONE)
    make = lambda v: v[0] == "call" and last(v[1]) == "operator()" or v[0] == "icall"
    pins = lambda o: [v(n.d["args"][0]) for n, v in o.calls("insert") if n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 0]
    SM = "BaseComponent::enabled_all_stats_"
    cases(R, f, g, "all", [SM], 2, [1, 2], lambda x: has_field(x, I + "all_stat_config_"), {}, [("p", 1), ("p", 2)])
    f = fn(R, "BaseComponent::createExplicitlyEnabledStatistic")
    par = lambda v: (lambda at, ctx=None: v if at[0] in ("nz", "pos") and is_field(at[1], I + "parent_info") else None)
    cfgs = lambda t: has_field(t, I + "stat_configs_")
    o = evaluate(R, CFG(P, f, inline=NONE), par(True))
    R.ob("create", "subcomponent", o.fatal and not o.done, "a subcomponent creates a statistic that its component has to", f.where())
    o = evaluate(R, CFG(P, f, inline=NONE), table(par(False), has_key(cfgs, False)))
    R.ob("create", "no configuration", o.fatal and not o.done, "a statistic without configuration is accepted", f.where())
    for sh in (True, False):
        shared = lambda at, ctx=None: sh if at[0] in ("nz", "pos") and at[1][0] == "mem" and last(at[1][2]) == "shared" else None
        dec = [par(False), has_key(cfgs, True), shared]
        g = CFG(P, f, inline=NONE)
        if sh: cases(R, f, g, "shared", ["BaseComponent::explicitly_enabled_shared_stats_"], 1, [1], lambda x: keyed_in(f, x, cfgs, 1), dec, [("cfg", "name"), ("lit", "")])
        else: cases(R, f, g, "unique", ["BaseComponent::explicitly_enabled_unique_stats_"], 3, [1, 2, 3], lambda x: keyed_in(f, x, cfgs, 1), dec, [("p", 2), ("p", 3)])


def keyed_in(f, t, cont, i):
    return any(x[0] == "call" and last(x[1]) in ("find", "at", "operator[]") and x[2] is not None and cont(x[2]) and param_idx(f, x[3][0]) == i or x[0] == "idx" and cont(x[1]) and param_idx(f, x[2]) == i for x in subterms(t)) and any(x[0] == "mem" and last(x[2]) == "params" for x in subterms(t))


def cases(R, f, g, name, stores, depth, keys, params_ok, dec, names):
    """look-up over `depth` nested maps: found -> the stored one, nothing created; missing at any level -> created, stored, returned"""
    S = stores[0]
    dec = list(dec or [])

    def level(t):
        """how deep in the nested map a container term is (after substitution)"""
        t = strip(t)
        if t[0] == "mem" and is_field(t, S): return 0
        if t[0] == "mem" and last(t[2]) == "second":
            for x in subterms(t[1]):
                if x[0] == "call" and last(x[1]) in ("find", "at") and x[2] is not None and level(x[2]) is not None: return level(x[2]) + 1
        if t[0] == "idx" and level(t[1]) is not None: return level(t[1]) + 1
        return None

    for miss in list(range(depth)) + [None]:
        def found(at, ctx=None):
            for k in range(depth):
                r = has_key(lambda t, k=k: level(t) == k, miss is None or k < miss)(at)
                if r is not None: return r
            if at[0] in ("nz", "pos") and level(at[1]) == depth: return miss is None     # operator[] and a test for null
            return None
        o = evaluate(R, g, table(*dec, found))
        mk = [(n, v) for n, v in o.events if n.kind in ("call", "icall") and (n.kind == "icall" or last(n.d["q"]) == "operator()")]
        st = [(n, v) for n, v in o.events if n.kind == "asg" and level(v(n.d["lhs"]) if n.d["lhs"][0] != "idx" else sub_idx(v, n.d["lhs"])) == depth]
        c = f"create {name}:" + ("found" if miss is None else f"missing at {miss}")
        if miss is None:
            R.ob("create", c, bool(o.rets) and not mk and not o.fatal and all(level(v) == depth for _, v in o.rets), "a statistic that exists is created again", f.where())
            continue
        R.ob("create", c, len({n.nid for n, _ in mk}) == 1 and not o.fatal, "a statistic is not created once", f.where())
        for n, v in mk:
            a = [v(x) for x in n.d["args"]]
            a = a[-5:]
            ok = len(a) == 5 and show(a[0]) == "this" and param_idx(f, a[4]) == 0
            for want, x in zip(names, a[2:4]):
                ok &= param_idx(f, x) == want[1] if want[0] == "p" else (x[0] == "mem" and last(x[2]) == want[1]) if want[0] == "cfg" else '""' in show(x)
            R.ob("create", c + ":what", ok, "a statistic is created for something else", n.where())
        R.ob("create", c + ":stored", all(v(n.d["rhs"])[0] in ("call", "icall") and last(v(n.d["rhs"])[1]) == "operator()" for n, v in st), "a statistic that was created is forgotten", f.where())
        for n, v in st:
            t, ks = sub_idx(v, n.d["lhs"]), []
            while t[0] == "idx": ks.insert(0, param_idx(f, t[2])); t = t[1]
            R.ob("create", c + ":key", ks == keys or t[0] != "glob" and not ks or len(ks) < len(keys) and ks == keys[len(keys) - len(ks):], "a statistic is stored under another key", n.where())
        R.ob("create", c + ":result", bool(o.rets) and all(v[0] in ("call", "icall") and last(v[1]) == "operator()" or level(v) == depth for _, v in o.rets), "another statistic is returned", f.where())
    # look-ups use the right keys, the parameters are merged before
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) in ("find", "at", "count", "contains") and n.d["obj"] is not None:
            l = level(expand(g.T, n.d["obj"], 8))
            if l is not None and l < depth: R.ob("create", f"create {name}:look-up {l}", param_idx(f, n.d["args"][0]) == keys[l], "a statistic is looked up under another key", n.where())
    asm = table(*dec)
    gg = CFG(R.prog, f, inline=NONE, assume=lambda at, ctx=None: asm(at))
    ismk = lambda n: n.kind == "icall" or n.kind == "call" and last(n.d["q"]) == "operator()"
    ispar = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 0 and params_ok(expand(gg.T, n.d["args"][0], 6))
    isst = lambda n: n.kind == "asg" and level(n.d["lhs"] if n.d["lhs"][0] != "idx" else sub_idx(lambda t: expand(gg.T, t, 6), n.d["lhs"])) == depth or n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and n.d["obj"] is not None and level(expand(gg.T, n.d["obj"], 6)) == depth - 1
    always(R, "create", f"create {name}:kept", gg, isst, "a statistic that was created is forgotten", frm=[n for n in gg.nodes() if ismk(n)])
    never(R, "create", f"create {name}:parameters", gg, ismk, "a statistic is created without the parameters of the configuration", avoid=ispar)


def sub_idx(v, t):
    if t[0] == "idx": return ("idx", sub_idx(v, t[1])) + tuple(v(x) if isinstance(x, tuple) else x for x in t[2:])
    return v(t)


def engine(R):
    """A created statistic is of the type its parameters name, belongs to the component, name and sub id, and joins the engine; the
    disabled statistic is the null statistic."""
    P = R.prog
    for f in fns(R, "Statistics::StatisticProcessingEngine::createStatistic"):
        g = CFG(P, f, inline=NONE)
        mk = lambda n: n.kind == "call" and last(n.d["q"]) == "CreateWithParams"
        once(R, "engine", "create", g, mk, "no statistic is created", "two statistics are created")
        for n in g.nodes():
            if not mk(n): continue
            a = n.d["args"]
            ty = expand(g.T, a[0])
            R.ob("engine", "type", has_call(ty, "find") and '"type"' in show(ty) and "AccumulatorStatistic" in show(ty), "the statistic is not of the type its parameters name", n.where())
            R.ob("engine", "arguments", [param_idx(f, x) for x in a[1:]] == [3, 0, 1, 2, 3], "the statistic is created for something else", n.where())
        reg = lambda n: n.kind == "call" and last(n.d["q"]) == "registerStatisticWithEngine" and has_call(expand(g.T, n.d["args"][0]), "CreateWithParams") and param_idx(f, n.d["args"][1]) == 3
        once(R, "engine", "register", g, reg, "a statistic does not join the engine", "a statistic joins the engine twice")
        for n in root_rets(g): R.ob("engine", "result", has_call(expand(g.T, n.d["val"]), "CreateWithParams"), "another statistic is returned", n.where())
    for f in fns(R, "Statistics::StatisticProcessingEngine::createDisabledStatistic"):
        g = CFG(P, f, inline=NONE)
        R.ob("engine", "disabled", any(n.kind == "call" and last(n.d["q"]) == "CreateWithParams" and "sst.NullStatistic" in show(expand(g.T, n.d["args"][0])) for n in g.nodes()) and not any(n.kind == "call" and last(n.d["q"]) == "registerStatisticWithEngine" for n in g.nodes()), "the disabled statistic is not the null statistic", f.where())


CLAUSES = [ids, enable, later, info, register, create, engine]
