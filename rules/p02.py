"""P02: simulated time never runs backwards; time and priority are current when an activity executes."""
from sa.q import *

PROP = dict(
    title="Simulated time never runs backwards and each activity runs at its own time",
    statement="The run loop takes the earliest pending activity, makes its delivery time the current simulated time and its priority the current "
              "priority, and only then executes it, exactly once; an activity from the past ends the run with a fatal error instead of being "
              "passed over. Nothing else moves simulated time, activities the core schedules for itself are never placed before the current "
              "time, and a thread stops once the end of the simulation is set.",
    over=["inputs", "histories"], text="all models, all sequences of scheduled activities",
    why="Tests see only the schedules of their models; an activity executed before time is set, a skipped time check or a re-insertion in the past shows only "
        "for particular delays and periods, and time overflow needs runs no test makes.",
    files=["src/sst/core/simulation.cc", "src/sst/core/exit.cc", "src/sst/core/checkpointAction.cc", "src/sst/core/heartbeat.cc", "src/sst/core/activity.h"],
    mech=[("Simulation::run", "src/sst/core/simulation.cc"), ("Simulation::insertActivity", "src/sst/core/simulation.cc"), ("Activity::setDeliveryTime/getDeliveryTime", "src/sst/core/activity.h")],
    technique="path obligations and typestate of the run loop over control-flow graphs, who-may-write analysis, sign analysis of scheduling arguments")

TUS = ["simulation.cc", "exit.cc", "checkpointAction.cc", "heartbeat.cc", "clock.cc", "sync/syncManager.cc", "interactiveConsole.cc", "impl/oneshotManager.cc", "main.cc", "baseComponent.cc",
       "link.cc", "realtime.cc", "component.cc"]
ASSUMPTIONS = ["the event queue returns the earliest activity (P01)", "additions of non-negative delays that overflow 64 bits are caught by the run loop's time check"]


def is_cur(t): return is_field(t, "Simulation::currentSimCycle") or has_call(t, "getCurrentSimCycle") and t[0] == "call"


def is_ev(t): return t[0] == "mem" and is_field(t, "Activity::delivery_time") or t[0] == "call" and last(t[1]) == "getDeliveryTime"


def run_cfg(R):
    P = R.prog
    fs = R.need(P.find("SST::Simulation::run", False), "Simulation::run")
    f = fs[0]
    pol = lambda fn, e, ctx: fn.sq.startswith("SST::Simulation::") and "v" not in e[7] and not any(fn.sq.endswith("::" + x) for x in ("setup_interactive_mode", "printPerformanceInfo", "printStatus"))
    return f, CFG(P, f, inline=pol, exact=True)


def dispatch(R):
    """Simulation::run: between taking an activity and executing it, the current time becomes the activity's delivery time and the
    current priority its priority; everything taken is executed once; the executed activity is the one taken."""
    f, g = run_cfg(R)
    pop = call_to("TimeVortex::pop")
    ex = lambda n: n.kind == "call" and last(n.d["q"]) == "execute" and ("Activity::" in n.d["q"] or "Action::" in n.d["q"] or "Event::" in n.d["q"])
    pops = [n for n in g.nodes() if pop(n)]
    exs = [n for n in g.nodes() if ex(n)]
    c = "Simulation::run"
    R.ob("dispatch", c + ":takes", bool(pops), "the run loop takes no activity from the event queue", f.where())
    R.ob("dispatch", c + ":executes", bool(exs), "the run loop executes no activity", f.where())
    settime = asg_to("Simulation::currentSimCycle", rhs=is_ev)
    setprio = asg_to("Simulation::currentPriority", rhs=lambda t: has_field(t, "Activity::priority_order") or has_call(t, "getPriority"))
    for nm, ev in (("time", settime), ("priority", setprio)):
        never(R, "dispatch", c + ":" + nm, g, ex, f"an activity can execute before the current {nm} is set to its own", frm=pops, avoid=ev)
    anytime = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::currentSimCycle")
    for n in g.nodes():
        if anytime(n): R.ob("dispatch", c + ":time_value", settime(n), "the run loop sets the current time to something other than the delivery time of the activity it took", n.where())
    never(R, "dispatch", c + ":not_dropped", g, pop, "an activity taken from the queue is replaced by the next one without having executed", frm=pops, avoid=ex)
    never(R, "dispatch", c + ":once", g, ex, "an activity can execute twice", frm=exs, avoid=pop)
    p = g.search([s for n in pops for s in g.after(n)], lambda n: n is g.exit, avoid=lambda n: ex(n) or is_fatal(n))
    R.ob("dispatch", c + ":not_lost", p is None, "the run loop can end with an activity taken but neither executed nor reported", f.where(), path_str(p) if p else None)
    # the executed object is the one taken
    for n in exs:
        o = n.d["obj"]
        ok = o is not None and (has_call(o, "pop") or any(m.kind in ("asg", "init") and (m.d.get("lhs") or m.d.get("var")) == o and has_call(m.d["rhs"], "pop") for m in g.nodes()))
        R.ob("dispatch", c + ":same", ok, f"the run loop executes {show(o)}, which is not the activity it took", n.where())


def fault(R):
    """Simulation::run: before the current time is overwritten it is compared with the activity's delivery time, and when the
    activity is earlier no further activity is taken and the run ends in Output::fatal."""
    f, g = run_cfg(R)
    pops = [n for n in g.nodes() if call_to("TimeVortex::pop")(n)]
    anytime = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::currentSimCycle")

    def back(t):
        """polarity under which term t says `delivery time < current time`, else None"""
        if not is_term(t): return None
        at, pol = norm_cond(t, True)
        if at[0] == "<" and is_ev(at[1]) and is_cur(at[2]): return pol
        return None
    flags = [n for n in g.nodes() if n.kind in ("asg", "init") and back(n.d["rhs"]) is True]
    brs = [(n, s, p) for n in g.nodes() for s, c, p in n.succ if c is not None and is_term(c) and back(c) is not None and (back(c) == p)]
    test = {n.nid for n in flags} | {n.nid for n, _, _ in brs}
    c = "Simulation::run"
    if not test:
        R.ob("fault", c + ":compared", False, "the run loop does not compare an activity's delivery time with the current time", f.where()); return
    never(R, "fault", c + ":compared", g, anytime, "the current time is overwritten before it has been compared with the activity's delivery time", frm=pops, avoid=lambda n: n.nid in test)
    for n in flags:
        v = n.d.get("lhs") or n.d.get("var")

        def edge(m, s, cnd, p, v=v):
            if cnd is None or not is_term(cnd): return True
            at, pol = norm_cond(cnd, p)
            return not (at[0] in ("nz", "pos") and at[1] == v and not pol)
        reset = lambda m: m is not n and m.kind in ("asg",) and m.d["lhs"] == v and m.nid not in {x.nid for x in flags}
        for what, tgt in (("takes another activity", lambda m: call_to("TimeVortex::pop")(m)), ("leaves the run loop", lambda m: m is g.exit)):
            p = g.search(g.after(n), lambda m: tgt(m) or reset(m), avoid=is_fatal, edge=edge)
            R.ob("fault", c + ":" + what.split()[0], p is None, f"after an activity from the past the thread {what} without a fatal error", p[-1].where() if p else "", path_str(p) if p else None)
    for n, s, p in brs:
        p = g.search([s], lambda m: m is g.exit or call_to("TimeVortex::pop")(m), avoid=is_fatal)
        R.ob("fault", c + ":fatal", p is None, "an activity from the past does not lead to a fatal error", n.where(), path_str(p) if p else None)


def ends(R):
    """Simulation::run: endSim is tested between one activity and the next, and no further activity is taken once it is set;
    endSimulation records the end time and sets the flag before it waits for the other threads."""
    P = R.prog
    f, g = run_cfg(R)
    pop = call_to("TimeVortex::pop")
    pops = [n for n in g.nodes() if pop(n)]

    def edge(n, s, cnd, p):
        if cnd is None or not is_term(cnd): return True
        at, pol = norm_cond(cnd, p)
        return not (at[0] in ("nz", "pos") and is_field(at[1], "Simulation::endSim") and not pol)
    ex = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "execute" and "Activity" in n.d["q"]]
    for st, nm in (([g.entry], "start"), (ex, "loop")):
        p = g.search(st if nm == "start" else [s for n in st for s in g.after(n)], pop, edge=edge)
        R.ob("ends", "Simulation::run:" + nm, p is None, "an activity is taken from the queue although the end of the simulation is set", p[-1].where() if p else "", path_str(p) if p else None)
    e = [x for x in P.find("SST::Simulation::endSimulation", False) if x.params]
    R.need(e, "Simulation::endSimulation(SimTime_t)")
    g = CFG(P, e[0], inline=inline_class("Simulation"))
    wait = lambda n: n.kind == "call" and last(n.d["q"]) == "wait" and "Barrier" in n.d["q"]
    for nm, ev in (("flag", asg_to("Simulation::endSim", rhs=lambda t: const(t) == 1)), ("time", asg_to("Simulation::endSimCycle", rhs=lambda t: param_idx(e[0], t) == 0))):
        always(R, "ends", "endSimulation:" + nm, g, ev, f"endSimulation does not record the end {nm} on every path")
        never(R, "ends", "endSimulation:" + nm + "_first", g, wait, f"endSimulation waits for the other threads before it sets the end {nm}", avoid=ev)
    for x in P.find("SST::Simulation::endSimulation", False):
        if x.params: continue
        g = CFG(P, x)
        R.cfg_used(g)
        for n in g.nodes():
            if n.kind == "call" and last(n.d["q"]) in ("setEndTime", "endSimulation"):
                R.ob("ends", "endSimulation():" + last(n.d["q"]), is_cur(n.d["args"][0]), "ending now does not use the current simulated time", n.where())
        present(R, "ends", "endSimulation():exit", g, call_to("Exit::setEndTime"), "ending now does not tell the exit object the end time")
    for x in P.find("SST::Simulation::adjustTimeAtSimEnd", False):
        g = CFG(P, x)
        always(R, "ends", "adjustTimeAtSimEnd", g, asg_to("Simulation::currentSimCycle", rhs=lambda t: is_field(t, "Simulation::endSimCycle")), "the final time is not set to the end time of the simulation")


WRITERS = {"SST::Simulation::currentSimCycle": ("Simulation::Simulation", "Simulation::run", "Simulation::adjustTimeAtSimEnd", "Simulation::serialize_order", "Simulation::checkpoint", "Simulation::restart"),
           "SST::Simulation::currentPriority": ("Simulation::Simulation", "Simulation::run", "Simulation::serialize_order", "Simulation::checkpoint", "Simulation::restart"),
           "SST::Activity::delivery_time": ("Activity::Activity", "Activity::setDeliveryTime", "Activity::operator=", "Activity::serialize_order", "Event::copyAllDeliveryInfo", "Activity::copyAllDeliveryInfo",
                                            "Activity::setDeliveryInfo", "Event::setDeliveryInfo")}


def writers(R):
    """Simulated time, current priority and an activity's delivery time are written only by their owners (or by helpers that only
    these call)."""
    P = R.prog
    cs = {}
    for g in P.funcs.values():
        for i in callee_ids(P, g): cs.setdefault(i, []).append(g)
    for q, ok in WRITERS.items():
        own = name_pred(list(ok))
        k = 0
        for f in sorted(P.funcs.values(), key=lambda f: f.q):
            if not raw_has(f, q) or f.sq.startswith("SST::CoreTest"): continue
            for n in func_nodes(f):
                if n[0] == "asg" and n[3][0] == "mem" and q in str(n[3][:4]) or n[0] == "incdec" and q in str(n[:5]):
                    k += 1

                    def allowed(f, d=3):
                        if own(f.sq): return True
                        ups = cs.get(f.id, [])
                        return d > 0 and bool(ups) and all(allowed(u, d - 1) for u in ups if u.id != f.id)
                    R.used(f)
                    R.ob("writers", f"{last(q)}:{f.sq}", allowed(f), f"{f.q} changes {q}; only {', '.join(ok[:3])} may", f.where())
        R.ob("writers", f"{last(q)}:exists", k > 0, f"nothing sets {q}")


PAST_OK = {}


def future(R):
    """Every time passed to Simulation::insertActivity or StopAction scheduling is the current time plus a non-negative amount, a
    multiple of a period after the current cycle, or a member that the same function has just advanced by such an amount."""
    P = R.prog
    k = 0
    # functions that schedule an activity for one of their parameters
    sched = {"SST::Simulation::insertActivity": 0}
    for f in P.funcs.values():
        if not raw_has(f, "insertActivity") or f.sq == "SST::Simulation::insertActivity": continue
        g = CFG(P, f, inline=lambda *a: False)
        for n in g.nodes():
            if n.kind == "call" and n.d["q"].endswith("Simulation::insertActivity") and n.d["args"][0][0] == "param": sched[f.sq] = param_idx(f, n.d["args"][0])
    names = {last(q) for q in sched} | {"setDeliveryTime"}
    tvins = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and is_field(n.d["obj"], "Simulation::timeVortex")
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not any(raw_has(f, x) for x in names) or f.sq == "SST::Simulation::insertActivity" or f.sq.startswith("SST::CoreTest"): continue
        g = CFG(P, f)
        T = g.T
        direct = any(tvins(n) for n in g.nodes())
        for n in g.nodes():
            if n.kind != "call": continue
            if n.d["q"] in sched and sched[n.d["q"]] < len(n.d["args"]): t = n.d["args"][sched[n.d["q"]]]
            elif direct and last(n.d["q"]) == "setDeliveryTime": t = n.d["args"][0]
            else: continue
            k += 1
            R.cfg_used(g)

            def later(t, at, d=0):
                """t >= current time"""
                if d > 5: return False
                c = const(t)
                if c is not None: return c in (2 ** 64 - 1, 2 ** 63 - 1)
                s = summands(t)
                if len(s) > 1:
                    if any(x < 0 for x, _ in s): return False
                    if any(later(y, at, d + 1) for _, y in s): return True
                    # (now / p) * p + p
                    for _, m in s:
                        if m[0] == "bin" and m[1] == "*":
                            fs = [m[2], m[3]]
                            per = [y for _, y in s if y is not m]
                            for a, b in (fs, fs[::-1]):
                                if any(b == z for z in per) and (a[0] == "bin" and a[1] == "/" and is_cur(a[2]) and a[3] == b or is_field(a, "Clock::current_cycle_")): return True
                    return False
                if is_cur(t): return True
                if t[0] == "call" and last(t[1]) == "max" and any(later(x, at, d + 1) for x in t[2:] if is_term(x)): return True
                # parameters: every caller is checked
                if t[0] == "param": return True
                if t[0] == "var":
                    defs = [m for m in g.nodes() if m.kind in ("asg", "init") and (m.d.get("lhs") or m.d.get("var")) == t]
                    if defs and all(later(m.d["rhs"], m, d + 1) for m in defs): return True
                    return False
                if t[0] == "mem":
                    q = field(t)
                    if any(fmatch(q, o) for o in OWNED): return True
                    defs = [m for m in g.nodes() if m.kind == "asg" and m.d["lhs"] == t]
                    pth = g.search([g.entry], lambda m: m is at, avoid=lambda m: m in defs)
                    return bool(defs) and pth is None and all(m.d["op"] in ("+=",) or later(m.d["rhs"], m, d + 1) for m in defs)
                if t[0] == "call" and any(last(t[1]) == x for x in ("getNextSyncTime", "getNextCheckpointSimTime")): return True
                return False
            R.ob("future", f"{f.sq}:{show(t)[:60]}", later(t, n), f"{f.q} schedules an activity for {show(t)}, which is not shown to be at or after the current time", n.where())
    R.need(k, "a call of Simulation::insertActivity")


# times computed and checked elsewhere: (P05 for sync times)
OWNED = ["CheckpointAction::next_sim_time_", "RankSync::nextSyncTime", "ThreadSync::nextSyncTime", "SyncManager::next_rankSync_", "Simulation::stop_at_"]


def insertion(R):
    """Simulation::insertActivity gives the activity the requested time before it enters the queue; the advancing members used for
    self-scheduling only grow."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::insertActivity", False), "Simulation::insertActivity")[0]
    g = CFG(P, f)
    setd = lambda n: (n.kind == "call" and last(n.d["q"]) == "setDeliveryTime" and param_idx(f, n.d["args"][0]) == 0) or (n.kind == "asg" and is_field(n.d["lhs"], "Activity::delivery_time") and param_idx(f, n.d["rhs"]) == 0)
    ins = lambda n: n.kind == "call" and last(n.d["q"]) == "insert"
    never(R, "insertion", "insertActivity:time_first", g, ins, "insertActivity puts the activity into the queue before it has its time", avoid=setd)
    always(R, "insertion", "insertActivity:inserted", g, ins, "insertActivity does not put the activity into the queue")
    # the checkpoint period only advances
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not raw_has(f, "CheckpointAction::next_sim_time_"): continue
        if last(f.sq) in ("serialize_order",): continue
        g = CFG(P, f)
        for n in g.nodes():
            if n.kind == "asg" and is_field(n.d["lhs"], "CheckpointAction::next_sim_time_") and not n.d.get("init"):
                s = summands(n.d["rhs"])
                ok = n.d["op"] == "+=" or const(n.d["rhs"]) in (2 ** 64 - 1, 2 ** 63 - 1) or len(s) > 1 and all(x > 0 for x, _ in s) or last(f.sq) == "CheckpointAction"
                R.ob("insertion", f.sq + ":next_sim_time_", ok, f"{f.q} can set the next checkpoint time back", n.where())


CLAUSES = [dispatch, fault, ends, writers, future, insertion]
