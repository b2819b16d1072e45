"""P15: the exit protocol."""
from sa.q import *
from rules.p11 import noctx

PROP = dict(
    title="The simulation ends exactly when no primary component objects to it",
    statement="A primary component's objection to the end counts once, from primaryComponentDoNotEndSim to primaryComponentOKToEndSim, on its own thread, however often it "
              "calls either; calls without having registered as primary change nothing, and registering after construction is an error. The simulation does not end while an "
              "objection stands on any rank or thread; when the last one is gone it does, with the time of the last withdrawal over all of them as its end time. Restored "
              "components object as they did. Where nothing is left to run the simulation stops instead of running on an empty queue.",
    over=["inputs", "schedules", "histories"], text="all sequences of calls of all primary components on any number of ranks and threads",
    why="A count that drifts by one ends a simulation early, with plausible but truncated results, or never. It drifts for repeated calls, changes of mind in the cycle of the last "
        "withdrawal, threads without cross-partition links and restarts, which tests hardly reach.",
    files=["src/sst/core/exit.cc", "src/sst/core/exit.h", "src/sst/core/baseComponent.cc", "src/sst/core/baseComponent.h", "src/sst/core/sync/syncManager.cc", "src/sst/core/simulation.cc", "src/sst/core/stopAction.h"],
    mech=[("Exit::refInc/refDec/check/computeEndTime", "src/sst/core/exit.cc"), ("BaseComponent::primaryComponentDoNotEndSim/primaryComponentOKToEndSim", "src/sst/core/baseComponent.cc"),
          ("SyncManager::execute", "src/sst/core/sync/syncManager.cc"), ("Simulation::prepare_for_run", "src/sst/core/simulation.cc")],
    technique="bit-level transfer functions of the component state, case-by-case path obligations over control-flow graphs, who-may-call analysis")

TUS = ["baseComponent.cc", "exit.cc", "simulation.cc", "sync/syncManager.cc", "main.cc", "component.cc"]
ST = "BaseComponent::component_state_"
NAMES = {"Primary": 0, "DoNotEndSim": 1, "OKToEndSim": 2, "Extension": 3}


def enums(R):
    v = {n: enumval(R.prog, "SST::BaseComponent::ComponentState", n) for n in NAMES}
    for n in v:
        if v[n] is None: raise AnalysisError("state " + n + " not found")
    return v


def masks(R, f):
    """(and-mask, or-mask) of the state after f"""
    leaf = lambda t: ("s", 8) if is_field(t, ST) else None
    g = CFG(R.prog, f, inline=inline_class("BaseComponent"))
    R.cfg_used(g)
    cur, seen, n = ("mem", ("this",), "SST::" + ST), set(), g.entry
    while n is not g.exit:
        if n.nid in seen or len({s.nid for s, _, _ in n.succ}) != 1: raise AnalysisError(f"{f.q}: state set under a condition")
        seen.add(n.nid)
        if n.kind == "asg" and is_field(n.d["lhs"], ST):
            rhs = n.d["rhs"] if n.d["op"] == "=" else ("bin", n.d["op"].rstrip("="), n.d["lhs"], n.d["rhs"])
            sub = lambda t: cur if is_field(t, ST) else tuple(sub(x) if isinstance(x, tuple) else x for x in t)
            cur = sub(rhs)
        n = n.succ[0][0]
    return bits(cur, leaf, 8)


def states(R):
    """The states are different bits; each test reads its bit; each set function sets its bit, and of DoNotEndSim and OKToEndSim
    clears the other; no other bit changes."""
    v = enums(R)
    P = R.prog
    R.ob("states", "bits", all(x and x & (x - 1) == 0 for x in v.values()) and len(set(v.values())) == 4, f"the states share bits: {v}")
    pos = {n: v[n].bit_length() - 1 for n in v}
    for fn, sets, clears in (("setStateAsPrimary", "Primary", None), ("setStateDoNotEndSim", "DoNotEndSim", "OKToEndSim"), ("setStateOKToEndSim", "OKToEndSim", "DoNotEndSim"), ("setAsExtension", "Extension", None)):
        f = R.need(P.find("SST::BaseComponent::" + fn, False), fn)[0]
        b = masks(R, f)
        for i in range(8):
            want = 1 if i == pos[sets] else 0 if clears and i == pos[clears] else ("s", i)
            R.ob("states", f"{fn}:{i}", b[i] == want, f"{fn} leaves bit {i} of the state as {b[i]} instead of {want}", f.where())
    for fn, st in (("isStatePrimary", "Primary"), ("isStateDoNotEndSim", "DoNotEndSim"), ("isStateOKToEndSim", "OKToEndSim"), ("isExtension", "Extension")):
        f = R.need(P.find("SST::BaseComponent::" + fn, False), fn)[0]
        g = CFG(P, f)
        R.cfg_used(g)
        for n in root_rets(g):
            t = n.d["val"]
            at, pol = norm_cond(t, True)
            ok = at[0] in ("nz", "pos") and pol and at[1][0] == "bin" and at[1][1] == "&" and any(is_field(x, ST) for x in at[1][2:]) and any(const(x) == v[st] for x in at[1][2:]) \
                or at[0] == "==" and any(const(x) == v[st] for x in at[1:]) and pol
            R.ob("states", fn, ok, f"{fn} does not test the state {st}", n.where())


def state_case(v, prim, dont, ok):
    """decides conditions on the state of the component"""
    val = (v["Primary"] if prim else 0) | (v["DoNotEndSim"] if dont else 0) | (v["OKToEndSim"] if ok else 0)
    nm = {"isStatePrimary": prim, "isStateDoNotEndSim": dont, "isStateOKToEndSim": ok}

    def f(at, ctx=None):
        if at[0] in ("nz", "pos"):
            t = at[1]
            if t[0] == "call" and last(t[1]) in nm: return nm[last(t[1])]
            if t[0] == "bin" and t[1] == "&" and any(is_field(x, ST) for x in t[2:]):
                c = [const(x) for x in t[2:] if const(x) is not None]
                if c: return (val & c[0]) != 0
        return None
    return f


def requests(R):
    """An objection is counted when the component changes from not objecting to objecting, withdrawn when it changes back, each
    once and on the thread of the component; nothing else changes the counts."""
    P, v = R.prog, enums(R)
    inc = call_to("Exit::refInc"); dec = call_to("Exit::refDec")
    for fn, ev, oth, mine, setter in (("primaryComponentDoNotEndSim", inc, dec, "dont", "setStateDoNotEndSim"), ("primaryComponentOKToEndSim", dec, inc, "ok", "setStateOKToEndSim")):
        f = R.need(P.find("SST::BaseComponent::" + fn, False), fn)[0]
        st = lambda n: n.kind == "call" and last(n.d["q"]) == setter
        ch = lambda n: n.kind == "call" and last(n.d["q"]).startswith("setState") or n.kind == "asg" and is_field(n.d["lhs"], ST)
        for prim, dont, ok in ((True, False, False), (True, True, False), (True, False, True), (False, False, False)):
            g = CFG(P, f, assume=state_case(v, prim, dont, ok))
            R.cfg_used(g)
            who = f"{fn}:{'primary' if prim else 'not primary'}:{'objects' if dont else 'agrees' if ok else 'new'}"
            if prim and not (dont if mine == "dont" else ok):
                always(R, "requests", who + ":counted", g, ev, f"the call is not counted")
                always(R, "requests", who + ":state", g, st, f"the component does not remember its call")
                evs = [n for n in g.nodes() if ev(n)]
                never(R, "requests", who + ":once", g, ev, "the call counts twice", frm=evs)
                for n in evs:
                    a = expand(g.T, n.d["args"][0])
                    R.ob("requests", who + ":thread", fmatchany(a, "thread") and (fmatchany(a, "my_rank") or has_call(a, "getRank")), "the call counts for another thread", n.where())
            else:
                never(R, "requests", who + ":ignored", g, ev, "a call that must not count is counted")
                never(R, "requests", who + ":unchanged", g, ch, "a call that must not count changes the state")
            never(R, "requests", who + ":other", g, oth, "the call changes the count the wrong way")
    for nm, allowed in (("Exit::refInc", ("primaryComponentDoNotEndSim",)), ("Exit::refDec", ("primaryComponentOKToEndSim",))):
        cs = callers(P, lambda q, nm=nm: q == "SST::" + nm)
        R.ob("requests", nm + ":called", bool(cs), "objections are not counted")
        for f, n in cs: R.ob("requests", f"{nm}:{f.sq}", last(f.sq) in allowed or f.sq.startswith("SST::BaseComponent::") and last(f.sq) not in ("registerAsPrimaryComponent",), f"{f.q} changes the number of objections", f.where())
    f = R.need(P.find("SST::BaseComponent::registerAsPrimaryComponent", False), "registerAsPrimaryComponent")[0]
    late = lambda val: lambda at, ctx=None: (val if at[0] in ("nz", "pos") and (has_call(at[1], "isWireUpFinished") or fmatchany(at[1], "wireUpFinished_")) else state_case(v, False, False, False)(at))
    sp = lambda n: n.kind == "call" and last(n.d["q"]) == "setStateAsPrimary"
    g = CFG(P, f, assume=late(True))
    R.ob("requests", "register:late", not any(n is g.exit and n.pred if hasattr(n, "pred") else False for n in ()) and g.search([g.entry], lambda n: n is g.exit, avoid=is_fatal) is None, "registering as primary after construction is not an error", f.where())
    g = CFG(P, f, assume=late(False))
    always(R, "requests", "register", g, sp, "a component that registers does not become primary")


def fmatchany(t, *names): return any(fmatch(x, n) for n in names for x in list(fields_in(t)) + list(globs_in(t)))


def counts(R):
    """Exit counts every objection once in total and once for its thread, starting from zero; withdrawing more than there are is an
    error."""
    P = R.prog
    tot = lambda t: is_field(t, "Exit::ref_count_")
    per = lambda t: t[0] == "idx" and fmatchany(t[1], "thread_counts_")
    for fn, op, bop in (("refInc", "++", "+"), ("refDec", "--", "-")):
        f = R.need(P.find("SST::Exit::" + fn, False), fn)[0]
        g = CFG(P, f, inline=inline_class("Exit"))
        for nm, which in (("total", tot), ("thread", per)):
            st = lambda n: n.kind == "asg" and which(n.d["lhs"])
            good = lambda n: st(n) and (n.d["op"] == op or n.d["op"] == bop + "=" and const(n.d["rhs"]) == 1 or n.d["op"] == "=" and n.d["rhs"][0] == "bin" and n.d["rhs"][1] == bop and n.d["rhs"][2] == n.d["lhs"] and const(n.d["rhs"][3]) == 1)
            always(R, "counts", f"{fn}:{nm}", g, good, f"an objection is not counted in {nm}")
            never(R, "counts", f"{fn}:{nm}:once", g, st, f"an objection counts twice in {nm}", frm=[n for n in g.nodes() if st(n)])
            for n in g.nodes():
                if st(n): R.ob("counts", f"{fn}:{nm}:step", good(n), f"{fn} does not change the {nm} count by one", n.where())
                if st(n) and nm == "thread": R.ob("counts", f"{fn}:{nm}:own", param_idx(f, n.d["lhs"][2]) == 0, "an objection is counted for another thread", n.where())
    f = P.find("SST::Exit::refDec", False)[0]
    z = CFG(P, f, assume=lambda at, ctx=None: True if at[0] == "==" and any(tot(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else False if at[0] in ("nz", "pos") and tot(at[1]) else None)
    chg = lambda n: n.kind == "asg" and (tot(n.d["lhs"]) or per(n.d["lhs"]))
    never(R, "counts", "refDec:underflow", z, chg, "an objection that does not stand is withdrawn without an error", avoid=is_fatal)
    f = R.need([x for x in P.find("SST::Exit::Exit", False) if len(x.params) == 2], "Exit::Exit")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    zero = lambda n: n.kind == "asg" and per(n.d["lhs"]) and const(n.d["rhs"]) == 0 or n.kind == "call" and last(n.d["q"]) in ("fill", "fill_n", "memset")
    alloc = [n for n in g.nodes() if n.kind == "new" and "unsigned int" in n.d["type"]]
    if alloc and not any(n.d.get("init") for n in alloc): R.ob("counts", "start:threads", any(zero(n) for n in g.nodes()), "the counts of the threads do not start from zero", f.where())
    for n in g.nodes():
        if zero(n) and n.kind == "asg":
            hs = [(h, L) for h, b, l, L in loop_heads(g) if n.nid in L]
            ok = any(norm_cond(c, True)[0][0] == "<" and fmatchany(norm_cond(c, True)[0][2], "num_threads_") or norm_cond(c, True)[0][0] == "<" and param_idx(f, norm_cond(c, True)[0][2]) == 0 for h, L in hs for _, c, _ in h.succ if c is not None and is_term(c))
            st = [m for m in g.nodes() if m.kind in ("init",) and n.d["lhs"][2] == m.d["var"]]
            R.ob("counts", "start:all", ok and all(const(m.d["rhs"]) == 0 for m in st), "the counts of some threads do not start from zero", n.where())
    k = P.classes.get("SST::Exit") if hasattr(P, "classes") else None
    for nm, which in (("ref_count_", "total"), ("end_time_", "end time")):
        ini = [n for n in g.nodes() if n.kind in ("asg", "init") and n.d.get("lhs") is not None and is_field(n.d["lhs"], "Exit::" + nm)]
        R.ob("counts", "start:" + nm, all(const(n.d["rhs"]) == 0 for n in ini) and (bool(ini) or default_zero(P, "SST::Exit", nm)), f"the {which} does not start from zero", f.where())


def default_zero(P, cls, fld):
    for c in P.classes.values():
        if c.get("q") == cls or c.get("name") == cls:
            for x in c.get("fields", []):
                if x.get("name") == fld or x.get("n") == fld: return bool(x.get("init", x.get("dinit")))
    return True


def cur(t): return is_field(t, "Simulation::currentSimCycle") or t[0] == "call" and last(t[1]) == "getCurrentSimCycle"


def zero(R):
    """When the last objection of a thread goes, the end time is at least the current time; alone, the exit is scheduled after
    everything of this cycle; a thread that synchronises with no other stops by itself. Otherwise nothing ends."""
    P = R.prog
    f = R.need(P.find("SST::Exit::refDec", False), "refDec")[0]
    tot = lambda t: is_field(t, "Exit::ref_count_")
    per = lambda t: t[0] == "idx" and fmatchany(t[1], "thread_counts_")

    def case(single, one, total0, thr0, later=None, indep=None):
        def d(at, ctx=None):
            xs = [x for x in at[1:] if is_term(x)]
            z = lambda val: val if at[0] == "==" and any(const(x) == 0 for x in xs) else (not val) if at[0] in ("nz", "pos") else None
            if any(tot(x) for x in xs): return z(total0)
            if any(per(x) for x in xs): return z(thr0)
            if at[0] in ("nz", "pos") and fmatchany(xs[0], "single_rank_"): return single
            if any(fmatchany(x, "num_threads_") for x in xs) and any(const(x) == 1 for x in xs): return one if at[0] == "==" else (not one if at[0] == "<" and const(xs[0]) == 1 else None)
            if at[0] == "<" and any(cur(x) for x in xs) and any(is_field(x, "Exit::end_time_") for x in xs) and later is not None: return later if cur(xs[1]) else (not later)
            if at[0] in ("nz", "pos") and (fmatchany(xs[0], "independent") or has_call(xs[0], "isIndependentThread")): return indep
            return None
        # the test for too many withdrawals precedes the decrement: cut it
        dec = [n for n in CFG(P, f, inline=inline_class("Exit")).nodes() if n.kind == "asg" and tot(n.d["lhs"])]
        g = CFG(P, f, inline=inline_class("Exit"))
        R.cfg_used(g)
        st = [s for n in g.nodes() if n.kind == "asg" and tot(n.d["lhs"]) for s, _, _ in n.succ]
        edge = lambda n, s, c, p: not (c is not None and is_term(c) and truthval(c, d) is not None and truthval(c, d) != p)
        return g, [n for n in g.nodes() if n.kind == "asg" and tot(n.d["lhs"])], edge
    ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insertActivity", "insert")
    me = lambda n: ins(n) and any(x == ("this",) for x in n.d["args"])
    stop = lambda n: ins(n) and any("StopAction" in str(x) for x in n.d["args"])
    et = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Exit::end_time_")
    now = lambda n: et(n) and (cur(n.d["rhs"]) or n.d["rhs"][0] == "call" and last(n.d["rhs"][1]) == "max" and any(cur(x) for x in n.d["rhs"][3]) and any(is_field(x, "Exit::end_time_") for x in n.d["rhs"][3]))
    g, s, e = case(True, True, True, True, True, False)
    always(R, "zero", "alone:exit", g, me, "the last objection is gone and no exit is scheduled", frm=s, edge=e)
    always(R, "zero", "alone:time", g, now, "the end time is not that of the last withdrawal", frm=s, edge=e)
    for n in g.nodes():
        if me(n):
            sm = summands(expand(g.T, n.d["args"][0]))
            R.ob("zero", "alone:when", sum(1 for k, x in sm if k == 1 and cur(x)) == 1 and all(k == 1 and (cur(x) or const(x) in (0, 1)) for k, x in sm), "the exit is not scheduled at the end of this cycle", n.where())
        if stop(n):
            sm = summands(expand(g.T, n.d["args"][0]))
            R.ob("zero", "independent:when", len([x for k, x in sm if const(x) != 0]) == 1 and cur(sm[0][1]), "a thread does not stop at the time of its last withdrawal", n.where())
        if et(n): R.ob("zero", "time:value", now(n), "the end time is set to another time than the current one", n.where())
    for single, one in ((True, False), (False, True), (False, False)):
        who = f"{'one rank' if single else 'several ranks'}, {'one thread' if one else 'several threads'}"
        for tot0 in ((False, True) if not one else (True,)):
            g, s, e = case(single, one, tot0, True, True, None)
            always(R, "zero", f"{who}:{tot0}:time", g, now, "the end time does not reach the time of the last withdrawal of a thread", frm=s, edge=e)
            g, s, e = case(single, one, tot0, True, False, None)
            never(R, "zero", f"{who}:{tot0}:max", g, lambda n: et(n) and cur(n.d["rhs"]), "the end time goes back", frm=s, edge=e)
            never(R, "zero", f"{who}:{tot0}:shared", g, me, "a thread or rank ends the simulation without asking the others", frm=s, edge=e)
            g, s, e = case(single, one, tot0, True, None, True)
            always(R, "zero", f"{who}:{tot0}:independent", g, stop, "a thread that is not synchronised does not stop", frm=s, edge=e)
            g, s, e = case(single, one, tot0, True, None, False)
            never(R, "zero", f"{who}:{tot0}:dependent", g, stop, "a thread stops on its own although others synchronise with it", frm=s, edge=e)
    for single, one in ((True, True), (True, False), (False, True), (False, False)):
        for tot0, thr0 in ((False, False),):
            g, s, e = case(single, one, tot0, thr0)
            never(R, "zero", f"standing:{single}:{one}", g, lambda n: ins(n) or et(n) and False, "the simulation ends while an objection stands", frm=s, edge=e)


def collective(R):
    """Exit::check: every rank contributes whether objections stand; the result is 0 iff none stands; only then is the end time
    computed, as the maximum over all ranks, and the end is at that time."""
    P = R.prog
    f = R.need(P.find("SST::Exit::check", False), "Exit::check")[0]
    tot = lambda t: is_field(t, "Exit::ref_count_")
    red = lambda n: n.kind == "call" and last(n.d["q"]) == "MPI_Allreduce"
    multi = lambda at, ctx=None: False if at[0] in ("nz", "pos") and fmatchany(at[1], "single_rank_") else None
    single = lambda at, ctx=None: True if at[0] in ("nz", "pos") and fmatchany(at[1], "single_rank_") else None
    gm = CFG(P, f, assume=multi, terms=Terms(P, keep=True)); gs = CFG(P, f, assume=single, terms=Terms(P, keep=True))
    always(R, "collective", "asked", gm, red, "the other ranks are not asked whether objections stand")
    never(R, "collective", "alone", gs, red, "a single rank waits for others")
    comp = call_to("Exit::computeEndTime")
    gl = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Exit::global_count_")
    def objects(g, t):
        """t is nonzero iff ref_count_ is"""
        t = expand(g.T, t)
        at, pol = norm_cond(t, True)
        return at[0] in ("nz", "pos") and pol and tot(at[1]) or at[0] == "<" and const(at[1]) == 0 and tot(at[2]) and pol or at[0] == "==" and any(tot(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) and not pol or tot(t)
    for g, nm in ((gm, "several"), (gs, "one")):
        always(R, "collective", nm + ":result", g, gl, "the result is not remembered")
        for n in g.nodes():
            if red(n):
                a = n.d["args"]
                R.ob("collective", nm + ":asked:what", a[0][0] == "addr" and objects(g, a[0][1]), "the ranks do not tell whether objections stand", n.where())
                R.ob("collective", nm + ":asked:how", any(x in show(a[4]) for x in ("op_sum", "op_max", "op_lor", "op_bor")), "objections of some ranks are overlooked", n.where())
        out = {noctx(n.d["args"][1][1]) for n in g.nodes() if red(n) and n.d["args"][1][0] == "addr"}
        def res(t):
            x = noctx(t)
            if nm == "several": return x in out or is_field(t, "Exit::global_count_")
            if is_field(t, "Exit::global_count_") or objects(g, t): return True
            w = [m for m in g.nodes() if m.kind in ("asg", "init") and m.d.get("rhs") is not None and noctx(m.d.get("lhs") or m.d.get("var")) == x]
            return bool(w) and all(objects(g, m.d["rhs"]) for m in w)
        for n in g.nodes():
            if gl(n): R.ob("collective", nm + ":result:value", res(n.d["rhs"]), "what is remembered is not whether objections stand", n.where())
        def zerocond(at, pol, node):
            if at[0] in ("nz", "pos"): return not pol and res(at[1])
            if at[0] == "==": return pol and any(const(x) == 0 for x in at[1:]) and any(res(x) for x in at[1:])
            return False
        guarded(R, "collective", nm + ":none left", g, comp, zerocond, "the simulation ends while an objection stands")
        def dec(at, ctx=None):
            if at[0] in ("nz", "pos") and res(at[1]): return False
            if at[0] == "==" and any(const(x) == 0 for x in at[1:]) and any(res(x) for x in at[1:]): return True
            if at[0] in ("nz", "pos") and fmatchany(at[1], "single_rank_"): return nm == "one"
            return None
        edge = lambda n, s, c, p: not (c is not None and is_term(c) and truthval(c, dec) is not None and truthval(c, dec) != p)
        always(R, "collective", nm + ":ends", g, comp, "no objection stands and the simulation does not end", edge=edge)
    f = R.need(P.find("SST::Exit::computeEndTime", False), "computeEndTime")[0]
    gm = CFG(P, f, assume=multi, terms=Terms(P, keep=True)); gs = CFG(P, f, assume=single, terms=Terms(P, keep=True))
    always(R, "collective", "time:asked", gm, red, "the end time of the other ranks is not considered")
    et = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Exit::end_time_")
    for n in gm.nodes():
        if red(n):
            R.ob("collective", "time:max", "op_max" in show(n.d["args"][4]) and n.d["args"][0][0] == "addr" and is_field(n.d["args"][0][1], "Exit::end_time_"), "the end time is not the latest of all ranks", n.where())
            to = n.d["args"][1][1] if n.d["args"][1][0] == "addr" else n.d["args"][1]
            if not is_field(to, "Exit::end_time_"): always(R, "collective", "time:kept", gm, lambda m: et(m) and noctx(m.d["rhs"]) == noctx(to), "the common end time is not used", frm=[n])
    end = lambda n: n.kind == "call" and last(n.d["q"]) == "endSimulation"
    always(R, "collective", "time:end", gs, end, "a single rank does not end the simulation")
    for g in (gm, gs):
        for n in g.nodes():
            if end(n): R.ob("collective", "time:end:value", len(n.d["args"]) == 1 and (is_field(n.d["args"][0], "Exit::end_time_") or has_call(n.d["args"][0], "getEndTime")), "the simulation does not end at the end time", n.where())
        for n in root_rets(g): R.ob("collective", "time:returned", n.d["val"] is not None and is_field(n.d["val"], "Exit::end_time_"), "another time than the end time is returned", n.where())
    f = R.need(P.find("SST::Exit::execute", False), "Exit::execute")[0]
    always(R, "collective", "action", CFG(P, f), call_to("Exit::check"), "the scheduled exit does not check for objections")


def synced(R):
    """SyncManager::execute: at every rank synchronisation the exit is checked by one thread before all threads use the result; they
    end iff no objection stands anywhere. Threads that only synchronise within the rank end iff no objection stands in it."""
    P = R.prog
    f = R.need(P.find("SST::SyncManager::execute", False), "SyncManager::execute")[0]
    g0 = CFG(P, f, inline=inline_class("SyncManager"))
    end = lambda n: n.kind == "call" and last(n.d["q"]) == "endSimulation"
    ends = [n for n in g0.nodes() if end(n)]
    R.need(ends, "end of the simulation in the synchronisation")
    chk = call_to("Exit::check")
    gc = lambda t: has_call(t, "getGlobalCount") or is_field(t, "Exit::global_count_")
    rc = lambda t: has_call(t, "getRefCount") or is_field(t, "Exit::ref_count_")
    for n in ends:
        R.ob("synced", "end:time", len(n.d["args"]) == 1 and (has_call(n.d["args"][0], "getEndTime") or is_field(n.d["args"][0], "Exit::end_time_")), "threads do not end at the common end time", n.where())
    z = lambda at, pol, node: (at[0] == "==" and pol and any(const(x) == 0 for x in at[1:]) or at[0] in ("nz", "pos") and not pol) and any(gc(x) or rc(x) for x in at[1:] if is_term(x))
    guarded(R, "synced", "end:none left", g0, end, z, "threads end while an objection stands")
    for kind in ("RANK", "THREAD"):
        kv = enumval(P, "SST::SyncManager::sync_type_t", kind)
        if kv is None: kv = {"RANK": 0, "THREAD": 1}[kind]
        def base(at, ctx=None, kv=kv):
            xs = [x for x in at[1:] if is_term(x)]
            if any(fmatchany(x, "next_sync_type_") for x in xs):
                c = [const(x) for x in xs if const(x) is not None]
                if at[0] == "==" and c: return c[0] == kv
                if at[0] in ("nz", "pos"): return kv != 0
            if at[0] == "==" and any(fmatchany(x, "exit_") and not gc(x) and not rc(x) for x in xs) and any(const(x) == 0 for x in xs): return False
            if at[0] in ("nz", "pos") and is_field(xs[0], "SyncManager::exit_"): return True
            return None
        for none in (True, False):
            def d(at, ctx=None, none=none):
                r = base(at)
                if r is not None: return r
                xs = [x for x in at[1:] if is_term(x)]
                if any(gc(x) or rc(x) and kind == "THREAD" for x in xs) and (at[0] in ("nz", "pos") or any(const(x) == 0 for x in xs)): return none if at[0] == "==" else not none if at[0] in ("nz", "pos") else None
                if kind == "THREAD" and at[0] == "==" and any(fmatchany(x, "min_part_") for x in xs): return True
                return None
            g = CFG(P, f, inline=inline_class("SyncManager"), assume=d)
            R.cfg_used(g)
            if none: always(R, "synced", f"{kind}:ends", g, lambda n: end(n) or is_fatal(n), "no objection stands and the threads do not end")
            else: never(R, "synced", f"{kind}:goes on", g, end, "threads end while an objection stands")
        if kind == "THREAD":
            def m(at, ctx=None):
                r = base(at)
                if r is not None: return r
                xs = [x for x in at[1:] if is_term(x)]
                if at[0] == "==" and any(fmatchany(x, "min_part_") for x in xs): return False
                if at[0] == "==" and any(fmatchany(x, "num_ranks_") and not fmatchany(x, "thread") for x in xs) and any(const(x) == 1 for x in xs): return False
                if at[0] == "<" and const(at[1]) == 1 and fmatchany(at[2], "num_ranks_"): return True
                return None
            never(R, "synced", "THREAD:other ranks", CFG(P, f, inline=inline_class("SyncManager"), assume=m), end, "threads end although other ranks, which they synchronise with, may object")
        if kind == "RANK":
            t0 = lambda val: lambda at, ctx=None: base(at) if base(at) is not None else (val if at[0] == "==" and any(is_field(x, "RankInfo::thread") for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else (not val) if at[0] in ("nz", "pos") and is_field(at[1], "RankInfo::thread") else None)
            g = CFG(P, f, inline=inline_class("SyncManager"), assume=t0(True))
            always(R, "synced", "RANK:checked", g, chk, "the exit is not checked at a rank synchronisation")
            use = lambda n: n.kind == "br" and n.d and any(gc(x) for x in subterms(n.d[0] if isinstance(n.d, tuple) and n.d and isinstance(n.d[0], tuple) else n.d)) if not isinstance(n.d, dict) else False
            never(R, "synced", "RANK:checked first", g, end, "the result of the last check is used", avoid=chk)


def period(R):
    """every thread knows whether it synchronises with other ranks."""
    f = R.need(R.prog.find("SST::SyncManager::updateMinPart", False), "SyncManager::updateMinPart")[0]
    g = CFG(R.prog, f, inline=lambda *a: False)
    always(R, "period", "updateMinPart", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "SyncManager::min_part_") and (has_call(n.d["rhs"], "getMaxPeriod") or has_field(n.d["rhs"], "max_period")), "a thread does not know whether it synchronises with other ranks")


def restored(R):
    """A component that objected when the checkpoint was taken is counted again when it is restored."""
    P, v = R.prog, enums(R)
    f = R.need(P.find("SST::BaseComponent::serialize_order", False), "BaseComponent::serialize_order")[0]
    from rules.p11 import mode_assume
    st = state_case(v, True, True, False)
    g = CFG(P, f, assume=mode_assume("UNPACK", None, lambda at: st(at)))
    R.cfg_used(g)
    req = call_to("BaseComponent::primaryComponentDoNotEndSim")
    inc = call_to("Exit::refInc")
    always(R, "restored", "counted", g, lambda n: req(n) or inc(n), "a restored objection is not counted")
    ok = lambda n: n.kind == "call" and last(n.d["q"]) == "setStateOKToEndSim" or n.kind == "asg" and is_field(n.d["lhs"], ST)
    never(R, "restored", "as new", g, req, "a restored objection is taken for a repeated one and not counted", avoid=ok)
    sim = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "BaseComponent::sim_")
    never(R, "restored", "simulation", g, lambda n: req(n) or inc(n), "a restored objection is counted before the component knows its simulation", avoid=sim)
    st0 = state_case(v, True, False, True)
    g = CFG(P, f, assume=mode_assume("UNPACK", None, lambda at: st0(at)))
    never(R, "restored", "agreed", g, lambda n: req(n) or inc(n), "a restored component objects although it did not")
    for m in ("SIZER", "PACK"):
        g = CFG(P, f, assume=mode_assume(m, None, lambda at: st(at)))
        never(R, "restored", m, g, lambda n: req(n) or inc(n) or call_to("Exit::refDec")(n), "taking a checkpoint changes the number of objections")


def stops(R):
    """A stop waits at the end of time in every queue; a thread that is not synchronised and has no components stops at once; the
    requested stop time is scheduled; a stop ends the simulation. The end time of unconnected ranks is computed over all of them,
    and clocks and the current time are set to it."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::prepare_for_run", False), "prepare_for_run")[0]
    g = CFG(P, f, terms=Terms(P, keep=True))
    ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "insertActivity")
    def stop_at(n, pred, g):
        if not ins(n): return False
        a = noctx(n.d["args"][-1])
        if len(n.d["args"]) == 2: return pred(n.d["args"][0]) and "StopAction" in str(expand(g.T, n.d["args"][1]))
        ds = [m for m in g.nodes() if m.kind == "call" and last(m.d["q"]) == "setDeliveryTime" and m.d["obj"] is not None and noctx(m.d["obj"]) == a]
        return "StopAction" in str(expand(g.T, n.d["args"][-1])) and any(pred(m.d["args"][0]) for m in ds)
    mx = lambda t: const(t) in (2**64 - 1, -1) or "SIMTIME" in show(t)
    always(R, "stops", "last", g, lambda n: stop_at(n, mx, g), "nothing stops a simulation whose queue is empty")
    ind = lambda at, ctx=None: True if at[0] in ("nz", "pos") and (fmatchany(at[1], "independent") and not has_call(at[1], "empty") or has_call(at[1], "empty") and fmatchany(at[1], "compInfoMap")) else None
    gi = CFG(P, f, assume=ind, terms=Terms(P, keep=True))
    always(R, "stops", "nothing to do", gi, lambda n: stop_at(n, lambda t: fmatchany(t, "currentSimCycle"), gi), "a thread with nothing to do does not stop")
    n0 = [n for n in g.nodes() if stop_at(n, lambda t: fmatchany(t, "currentSimCycle"), g)]
    for w, test in (("independent", lambda at, pol, node: at[0] in ("nz", "pos") and pol and fmatchany(at[1], "independent")), ("empty", lambda at, pol, node: fmatchany(at[1], "compInfoMap") and (at[0] in ("nz", "pos") and has_call(at[1], "empty") and pol or at[0] == "==" and pol))):
        guarded(R, "stops", "nothing to do:" + w, g, lambda n: n in n0, test, "a thread stops although it has something to do")
    f = R.need([x for x in P.funcs.values() if x.sq == "SST::StopAction::execute"], "StopAction::execute")[0]
    always(R, "stops", "action", CFG(P, f), lambda n: n.kind == "call" and last(n.d["q"]) == "endSimulation", "a stop does not end the simulation")
    users = [x for x in P.funcs.values() if x.sq.startswith("SST::Simulation::") and raw_has(x, "stop_at_")]
    done = False
    for x in users:
        g = CFG(P, x, terms=Terms(P, keep=True))
        if not any(n.kind == "asg" and is_field(n.d["lhs"], "Simulation::stop_at_") or n.kind == "call" and last(n.d["q"]) == "setDeliveryTime" and fmatchany(n.d["args"][0], "stop_at_") for n in g.nodes()): continue
        if "serialize" in x.sq or x.sq.endswith("Simulation::Simulation"): continue
        d = lambda at, ctx=None: (False if at[0] == "==" else True) if any(fmatchany(y, "stop_at_") for y in at[1:] if is_term(y)) and (at[0] in ("nz", "pos") or any(const(y) == 0 for y in at[1:] if is_term(y))) else None
        g = CFG(P, x, assume=d, terms=Terms(P, keep=True))
        if not any(stop_at(n, lambda t: fmatchany(t, "stop_at_"), g) for n in g.nodes()) and not any(n.kind == "new" and "StopAction" in n.d["type"] for n in g.nodes()): continue
        done = True
        always(R, "stops", "requested", g, lambda n: stop_at(n, lambda t: fmatchany(t, "stop_at_") or has_call(expand(g.T, t), "getSimCycles"), g), "the requested stop is not scheduled")
    R.ob("stops", "requested:exists", done, "the requested stop is not scheduled")
    f = R.need(P.find("SST::Simulation::run", False), "run")[0]
    d = lambda at, ctx=None: True if at[0] == "==" and any(fmatchany(x, "minPart") for x in at[1:]) else (True if at[0] == "<" and const(at[1]) == 1 and fmatchany(at[2], "num_ranks") else (True if at[0] == "==" and any(is_field(x, "RankInfo::thread") for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else (False if at[0] in ("nz", "pos") and is_field(at[1], "RankInfo::thread") else None)))
    g = CFG(P, f, assume=d)
    always(R, "stops", "unconnected", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::endSimCycle") and has_call(n.d["rhs"], "computeEndTime") or is_fatal(n), "ranks without links between them end at different times")
    f = R.need(P.find("SST::Simulation::adjustTimeAtSimEnd", False), "adjustTimeAtSimEnd")[0]
    g = CFG(P, f)
    always(R, "stops", "time", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::currentSimCycle") and is_field(n.d["rhs"], "Simulation::endSimCycle"), "the current time is not the end time at the end")
    upd = lambda n: n.kind == "call" and last(n.d["q"]) == "updateCurrentCycle"
    for_each(R, "stops", "clocks", g, lambda t: fmatchany(t, "clockMap"), upd, "a clock does not show the end time")
    never(R, "stops", "clocks:after", g, upd, "clocks are set to the time before the end", avoid=lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::currentSimCycle"))


CLAUSES = [states, requests, counts, zero, collective, synced, period, restored, stops]
