"""P04: the life of a simulation: phases in order, untimed rounds until no data is sent."""
from sa.q import *

PROP = dict(
    title="Every component goes through the life-cycle phases in order, in agreed rounds",
    statement="A simulation that is not restarted initialises, sets up, runs, completes and finishes every component in that order, each phase once; a "
              "restarted one goes straight to the run phase. The init and complete phases proceed in rounds in which every component is called with "
              "the round's number, untimed data sent in one round becomes available in the next one, in sending order and exactly once, and the phase ends "
              "only after a round in which no data was sent anywhere.",
    over=["inputs", "schedules"], text="all models, any number of rounds, ranks and threads",
    why="Tests use models that need few rounds; a component skipped, a round number off by one, or an early end of the phase appears only with particular "
        "communication patterns.",
    files=["src/sst/core/simulation.cc", "src/sst/core/main.cc", "src/sst/core/link.cc", "src/sst/core/initQueue.cc", "src/sst/core/componentInfo.cc", "src/sst/core/sync/syncManager.cc"],
    mech=[("Simulation::initialize/complete/setup/finish", "src/sst/core/simulation.cc"), ("start_simulation", "src/sst/core/main.cc"), ("Link::sendUntimedData/recvUntimedData", "src/sst/core/link.cc"),
          ("InitQueue", "src/sst/core/initQueue.cc")],
    technique="phase-order typestate and per-round path obligations on control-flow graphs, loop coverage of component tables")

TUS = ["simulation.cc", "main.cc", "link.cc", "initQueue.cc", "componentInfo.cc", "sync/*.cc", "baseComponent.cc"]
ASSUMPTIONS = ["components may do anything in their phase functions except call core functions that are not part of the element interface"]


def fn(R, q):
    return R.need(R.prog.find(q, False), q)[0]


def simcfg(R, name, assume=None):
    f = fn(R, "SST::Simulation::" + name)
    return f, CFG(R.prog, f, inline=lambda g, e, c: g.sq.startswith("SST::Simulation::") and "v" not in e[7] and last(g.sq) not in ("finalizeLinkConfigurations",), exact=True, assume=assume)


def is_count(t): return any(fmatch(x, "Simulation::untimed_msg_count") for x in list(fields_in(t)) + list(globs_in(t)))


def over_components(c): return any(fmatch(x, "Simulation::compInfoMap") or x.startswith("SST::ComponentInfoMap::") for x in fields_in(c))


COMP = lambda m: (lambda n: n.kind == "call" and n.d["q"].endswith("BaseComponent::" + m) or n.kind == "call" and last(n.d["q"]) == m and "Component" in n.d["q"])


def rounds(R):
    """Simulation::initialize and complete: each round calls the phase function of every component with the round number, then
    exchanges the untimed data, then increments the round number once; the phase is left only when the exchanged message count is
    zero; the count is reset before the first component call of a round and not afterwards."""
    P = R.prog
    for ph, cf in (("initialize", "init"), ("complete", "complete")):
        f, g = simcfg(R, ph)
        call = COMP(cf)
        exch = lambda n: n.kind == "call" and last(n.d["q"]) == "exchangeLinkUntimedData"
        inc = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::untimed_phase") and (n.d["op"] == "++" or n.d["op"] == "+=" and const(n.d["rhs"]) == 1 or
              n.d["op"] == "=" and sum_is(n.d["rhs"], lambda t: is_field(t, "Simulation::untimed_phase"), lambda t: const(t) == 1))
        anyphase = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Simulation::untimed_phase")
        calls = [n for n in g.nodes() if call(n)]
        exchs = [n for n in g.nodes() if exch(n)]
        reset = lambda n: n.kind == "call" and n.d["obj"] is not None and is_count(n.d["obj"]) and last(n.d["q"]) in ("operator=", "store") and const(n.d["args"][0]) == 0 or \
            n.kind == "asg" and is_count(n.d["lhs"]) and const(n.d["rhs"]) == 0
        present(R, "rounds", ph + ":calls", g, call, f"{ph} calls no component")
        for_each(R, "rounds", ph + ":every", g, over_components, call, f"{ph} does not call {cf}() of every component in a round")
        for n in calls: R.ob("rounds", ph + ":number", bool(n.d["args"]) and is_field(n.d["args"][0], "Simulation::untimed_phase"), f"{cf}() is not called with the number of the round", n.where())
        test = lambda n: n.kind == "br" and any(c is not None and is_term(c) and is_count(expand(g.T, c)) for _, c, _ in n.succ)
        tests = [n for n in g.nodes() if test(n)]
        # the flow after the component calls
        read = lambda n: n.kind == "call" and n.d["obj"] is not None and is_count(n.d["obj"]) and last(n.d["q"]) in ("load", "operator int")
        if any(read(n) for n in g.nodes()):
            never(R, "rounds", ph + ":fresh", g, test, f"{ph} decides about another round with a message count taken before the exchange", frm=exchs, avoid=read)
        never(R, "rounds", ph + ":exchange", g, lambda n: test(n) or n is g.exit, f"{ph} decides about another round before untimed data is exchanged", frm=calls, avoid=exch)
        never(R, "rounds", ph + ":reset", g, reset, f"the message count is cleared between sending and the end-of-phase decision of {ph}", frm=calls, avoid=test)
        p = g.search([s for n in exchs for s in g.after(n)], lambda n: n is g.exit or exch(n), avoid=inc)
        R.ob("rounds", ph + ":advance", p is None, f"a round of {ph} can end without advancing the round number", p[-1].where() if p else "", path_str(p) if p else None)
        incs = [n for n in g.nodes() if inc(n)]
        never(R, "rounds", ph + ":advance_once", g, inc, f"the round number advances twice in one round of {ph}", frm=incs, avoid=exch)
        for n in g.nodes():
            if anyphase(n) and not inc(n):
                R.ob("rounds", ph + ":other_write", const(n.d["rhs"]) == 0 and ph == "complete", f"{ph} sets the round number to {show(n.d['rhs'])}", n.where())
        if ph == "complete":
            never(R, "rounds", "complete:from_zero", g, call, "the rounds of complete do not start at zero", avoid=lambda n: anyphase(n) and const(n.d["rhs"]) == 0)
            never(R, "rounds", "complete:zero_once", g, lambda n: anyphase(n) and const(n.d["rhs"]) == 0, "the round number of complete is reset between rounds", frm=calls)
        # first reset before the calls
        never(R, "rounds", ph + ":counted_from_zero", g, call, f"a round of {ph} starts without clearing the message count", avoid=lambda n: reset(n) or test(n) or thread_skips(n))
        # the phase ends only with count == 0: paths on which the count is non-zero do not reach the exit without another round
        def nonzero(n, s, c, p):
            if c is None or not is_term(c): return True
            at, pol = norm_cond(c, p)
            if at[0] in ("nz", "pos") and is_count(at[1]): return pol
            if at[0] == "==" and any(is_count(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return not pol
            if at[0] == "<" and const(at[1]) == 0 and is_count(at[2]): return pol
            return True
        p = feasible(g, exchs, lambda n: n is g.exit, call, nonzero, is_count)
        R.ob("rounds", ph + ":until_quiet", p is None, f"{ph} can end after a round in which data was sent", p[-1].where() if p else "", path_str(p) if p else None)


def thread_skips(n):
    """only thread 0 resets the shared count"""
    return n.kind == "br" and any(c is not None and is_term(c) and any(x[0] == "mem" and fmatch(x[2], "RankInfo::thread") for x in subterms(c)) for _, c, _ in n.succ)


def feasible(g, after, target, before, edge, iscount):
    """path search from the entry that tracks the boolean locals (constants or the count test); after an `after` node and until a
    `before` node only edges allowed by `edge` are followed, and a target reached in that stretch is reported"""
    starts = {n.nid for n in after}
    st = [(g.entry, (), False)]
    seen = set()
    while st:
        n, env, x = st.pop()
        if (n.nid, env, x) in seen: continue
        seen.add((n.nid, env, x))
        e = dict(env)
        if x and target(n): return [n]
        if before(n): x = False
        if n.nid in starts: x = True
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if v[0] == "var":
                e.pop(v, None)
                c = const(n.d["rhs"])
                if n.d.get("op", "=") == "=":
                    if c is not None: e[v] = bool(c)
                    elif x:
                        at, pol = norm_cond(n.d["rhs"], True)
                        if at[0] == "==" and any(iscount(y) for y in at[1:]) and any(const(y) == 0 for y in at[1:]): e[v] = not pol
                        elif at[0] in ("nz", "pos") and iscount(at[1]): e[v] = pol
                        elif at[0] == "<" and const(at[1]) == 0 and iscount(at[2]): e[v] = pol
        for s, c, p in n.succ:
            if x and not edge(n, s, c, p): continue
            e2 = dict(e)
            if c is not None and is_term(c):
                at, pol = norm_cond(c, p)
                if at[0] in ("nz", "pos") and at[1][0] == "var":
                    if at[1] in e and e[at[1]] != pol: continue
                    e2[at[1]] = pol
            st.append((s, tuple(sorted(e2.items(), key=repr)), x))
    return None


def boundaries(R):
    """After the last init round every component's links, then the synchronisation objects, are configured for the run phase;
    before the first complete round they are prepared for the complete phase; setup and finish reach every component."""
    P = R.prog
    f, g = simcfg(R, "initialize")
    fin = lambda n: n.kind == "call" and n.d["q"].endswith("ComponentInfo::finalizeLinkConfiguration")
    syncf = lambda n: n.kind == "call" and n.d["q"].endswith("SyncManager::finalizeLinkConfigurations")
    for_each(R, "boundaries", "initialize:links", g, over_components, fin, "after initialisation not every component's links are configured for the run phase")
    always(R, "boundaries", "initialize:sync", g, syncf, "after initialisation the synchronisation objects are not configured for the run phase")
    calls = [n for n in g.nodes() if COMP("init")(n)]
    never(R, "boundaries", "initialize:after", g, COMP("init"), "a component's init() is called after its links were configured for the run phase", frm=[n for n in g.nodes() if fin(n) or syncf(n)])
    never(R, "boundaries", "initialize:order", g, fin, "links are configured after the synchronisation objects", frm=[n for n in g.nodes() if syncf(n)])
    f, g = simcfg(R, "complete")
    pre = lambda n: n.kind == "call" and n.d["q"].endswith("ComponentInfo::prepareForComplete")
    syncp = lambda n: n.kind == "call" and n.d["q"].endswith("SyncManager::prepareForComplete")
    for_each(R, "boundaries", "complete:links", g, over_components, pre, "before the complete phase not every component's links are prepared")
    never(R, "boundaries", "complete:sync", g, COMP("complete"), "a component's complete() can be called before the synchronisation objects are prepared", avoid=syncp)
    never(R, "boundaries", "complete:order", g, pre, "links are prepared for the complete phase after its first round", frm=[n for n in g.nodes() if COMP("complete")(n)])
    for ph, cf in (("setup", "setup"), ("finish", "finish")):
        f, g = simcfg(R, ph)
        for_each(R, "boundaries", ph + ":every", g, over_components, COMP(cf), f"{ph} does not reach every component")
        c = [n for n in g.nodes() if COMP(cf)(n)]
    f, g = simcfg(R, "finish")
    es = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "endOfSimulation"]
    always(R, "boundaries", "finish:statistics", g, lambda n: n in es, "finish does not tell the statistics engine that the simulation ended")
    for nm in ("finalizeLinkConfiguration", "prepareForComplete"):
        f = fn(R, "SST::ComponentInfo::" + nm)
        want = {"finalizeLinkConfiguration": "finalizeConfiguration", "prepareForComplete": "prepareForComplete"}[nm]
        g = CFG(P, f)
        isl = lambda c: any(fmatch(x, "ComponentInfo::link_map") or x.startswith("SST::LinkMap::") for x in fields_in(c)) or has_call(c, "getLinkMap")
        ev = lambda n: n.kind == "call" and n.d["q"].endswith("Link::" + want)
        for_each(R, "boundaries", f"ComponentInfo::{nm}:links", g, isl, ev, f"{nm} does not reach every link of the component")
        sub = lambda n: n.kind == "call" and n.d["q"].endswith("ComponentInfo::" + nm)
        for_each(R, "boundaries", f"ComponentInfo::{nm}:subcomponents", g, lambda c: any(fmatch(x, "ComponentInfo::subComponents") for x in fields_in(c)), sub, f"{nm} does not reach the subcomponents")
    # the sync manager forwards
    f = fn(R, "SST::SyncManager::exchangeLinkUntimedData")
    g = CFG(P, f)
    for who, pat in (("thread", "ThreadSync::processLinkUntimedData"), ("rank", "RankSync::exchangeLinkUntimedData")):
        always(R, "boundaries", "exchange:" + who, g, lambda n, pat=pat: n.kind == "call" and last(n.d["q"]) == last(pat) and pat.split("::")[0] in n.d["q"], f"the {who} synchronisation does not take part in the untimed exchange")


LIFE = [("initialize", "initialize"), ("updateSyncInterval", "sync interval update"), ("setup", "setup"), ("prepare_for_run", "preparation of the run"), ("run", "run"), ("adjustTimeAtSimEnd", "end time adjustment"),
        ("complete", "complete"), ("finish", "finish")]


def lifecycle(R):
    """start_simulation: on a fresh run initialize, setup, prepare_for_run, run, adjustTimeAtSimEnd, complete and finish happen in
    this order, once each and on every path; a restart skips initialize and setup and still prepares, runs, completes and finishes;
    the statistics outputs start before the run and end after finish."""
    P = R.prog
    f = R.need([f for f in P.funcs.values() if f.sq == "start_simulation" or f.sq.endswith("::start_simulation")], "start_simulation")[0]
    pol = lambda g, e, c: g.file == f.file and "v" not in e[7] and not g.sq.startswith(("SST::", "force_rank"))
    both = enumval(P, "SimulationRunMode", "BOTH")
    for nm, restart in (("fresh", False), ("restart", True)):
        mode = term_is(lambda t: has_field(t, "Config::runMode_") or t[0] == "call" and last(t[1]) == "runMode", both)
        ck = truth(lambda t: has_field(t, "Config::load_from_checkpoint_") or t[0] == "call" and last(t[1]) == "load_from_checkpoint", restart)
        g = CFG(P, f, inline=pol, assume=allof(mode, ck))
        ev = {m: (lambda n, m=m: n.kind == "call" and n.d["q"] == "SST::Simulation::" + m) for m, _ in LIFE}
        seq = [x for x in LIFE if not (restart and x[0] in ("initialize", "updateSyncInterval", "setup"))]
        if restart:
            for m in ("initialize", "setup"):
                never(R, "lifecycle", f"restart:no_{m}", g, ev[m], f"a restarted simulation runs {m} again")
            always(R, "lifecycle", "restart:restored", g, lambda n: n.kind == "call" and n.d["q"] == "SST::Simulation::restart", "a restarted simulation does not restore its state")
            never(R, "lifecycle", "restart:restored_first", g, ev["run"], "a restarted simulation can run before its state is restored", avoid=lambda n: n.kind == "call" and n.d["q"] == "SST::Simulation::restart")
        for m, t in seq:
            always(R, "lifecycle", f"{nm}:{m}", g, ev[m], f"{'a restarted' if restart else 'a'} simulation can end without {t}")
            never(R, "lifecycle", f"{nm}:{m}:once", g, ev[m], f"{t} can happen twice", frm=[n for n in g.nodes() if ev[m](n)])
        for (a, ta), (b, tb) in zip(seq, seq[1:]):
            never(R, "lifecycle", f"{nm}:{a}<{b}", g, ev[b], f"{tb} can happen before {ta}", avoid=ev[a])
        st = lambda n: n.kind == "call" and last(n.d["q"]) in ("do_statoutput_start_simulation", "startOfSimulation", "statOutputStartSimulation") 
        en = lambda n: n.kind == "call" and last(n.d["q"]) in ("do_statoutput_end_simulation", "statOutputEndSimulation", "endOfSimulation") 
        if not restart:
            never(R, "lifecycle", f"{nm}:stat_start", g, ev["run"], "the statistics outputs are not started before the run", avoid=lambda n: "StartSimulation" in n.d.get("q", "") or "start_simulation" in n.d.get("q", "") if n.kind == "call" else False)
        never(R, "lifecycle", f"{nm}:stat_end", g, lambda n: n is g.exit, "the statistics outputs are not closed after finish", frm=[n for n in g.nodes() if ev["finish"](n)],
              avoid=lambda n: n.kind == "call" and (last(n.d["q"]) == "do_statoutput_end_simulation" or "EndSimulation" in n.d["q"] or "simulationFinished" in n.d["q"] or "endOfSimulation" in n.d["q"].replace("endOfSimulation", "endOfSimulation") and False))


def untimed(R):
    """Link::sendUntimedData is fatal in the run phase; otherwise the data is counted once, becomes due in the next round, carries
    this link's tag and delivery information and enters the queue once.  recvUntimedData returns only data that is due and removes
    what it returns.  InitQueue is first-in first-out.  Data brought by synchronisation is queued without counting it again."""
    from rules.p03 import poll, mode, own_f, INL, ins
    P = R.prog
    f = fn(R, "SST::Link::sendUntimedData")
    g = CFG(P, f, inline=INL, assume=mode(P, "RUN"))
    never(R, "untimed", "sendUntimedData:RUN", g, lambda n: ins(n) or n is g.exit, "sending untimed data in the run phase is not a fatal error")
    for m in ("INIT", "COMPLETE"):
        g = CFG(P, f, inline=INL, assume=mode(P, m))
        cnt = lambda n: n.kind == "call" and n.d["obj"] is not None and is_count(n.d["obj"]) and (last(n.d["q"]) in ("operator++", "fetch_add", "operator+=")) or n.kind == "asg" and is_count(n.d["lhs"]) and n.d["op"] in ("++", "+=")
        due = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Activity::delivery_time") and sum_is(n.d["rhs"], lambda t: is_field(t, "Simulation::untimed_phase"), lambda t: const(t) == 1)
        always(R, "untimed", f"sendUntimedData:{m}:counted", g, cnt, "untimed data can be sent without being counted")
        never(R, "untimed", f"sendUntimedData:{m}:count_once", g, cnt, "untimed data can be counted twice", frm=[n for n in g.nodes() if cnt(n)])
        never(R, "untimed", f"sendUntimedData:{m}:due", g, ins, "untimed data can be queued without being due in the next round", avoid=due)
        for n in g.nodes():
            if n.kind == "asg" and is_field(n.d["lhs"], "Activity::delivery_time"): R.ob("untimed", f"sendUntimedData:{m}:due_value", due(n), f"untimed data is due in round {show(n.d['rhs'])}", n.where())
        never(R, "untimed", f"sendUntimedData:{m}:info", g, ins, "untimed data can be queued without this link's delivery information", avoid=lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Event::delivery_info") and own_f(n.d["rhs"], "delivery_info"))
        always(R, "untimed", f"sendUntimedData:{m}:queued", g, ins, "untimed data can be lost")
        never(R, "untimed", f"sendUntimedData:{m}:once", g, ins, "untimed data can be queued twice", frm=[n for n in g.nodes() if ins(n)])
    poll(RR(R, "untimed"), fn(R, "SST::Link::recvUntimedData"), "recvUntimedData", lambda t: is_field(t, "Simulation::untimed_phase"))
    f = fn(R, "SST::Link::sendUntimedData_sync")
    g = CFG(P, f, inline=INL)
    always(R, "untimed", "sendUntimedData_sync:queued", g, ins, "untimed data from another partition can be lost")
    never(R, "untimed", "sendUntimedData_sync:not_counted", g, lambda n: n.kind == "call" and n.d["obj"] is not None and is_count(n.d["obj"]), "untimed data from another partition is counted again")
    never(R, "untimed", "sendUntimedData_sync:due", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Activity::delivery_time"), "the round in which untimed data from another partition is due is changed")
    fifo(R)


def fifo(R):
    P = R.prog
    want = {"insert": {"push_back", "emplace_back"}, "pop": {"pop_front"}, "front": {"front"}}
    for m, names in want.items():
        f = fn(R, "SST::InitQueue::" + m)
        g = CFG(P, f, inline=inline_class("InitQueue"))
        R.cfg_used(g)
        ops = [n for n in g.nodes() if n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "InitQueue::data") and last(n.d["q"]) not in ("size", "empty", "begin", "end")]
        bad = [n for n in ops if last(n.d["q"]) not in names | ({"front"} if m == "pop" else set())]
        R.ob("untimed", "InitQueue::" + m, not bad and any(last(n.d["q"]) in names for n in ops), f"InitQueue::{m} does not keep sending order", bad[0].where() if bad else f.where())
        if m == "insert": always(R, "untimed", "InitQueue::insert:always", g, lambda n: n in ops, "InitQueue::insert can drop data")
        if m == "pop": never(R, "untimed", "InitQueue::pop:once", g, lambda n: last(n.d["q"]) == "pop_front" if n.kind == "call" else False, "InitQueue::pop removes two entries", frm=[n for n in ops if last(n.d["q"]) == "pop_front"])


class RR:
    """a report that files obligations of a shared helper under another clause"""
    def __init__(self, R, clause): self.__dict__["R"], self.__dict__["c"] = R, clause
    def __getattr__(self, n): return getattr(self.R, n)
    def ob(self, clause, *a, **k): return self.R.ob(self.c, *a, **k)


CLAUSES = [rounds, boundaries, lifecycle, untimed]
