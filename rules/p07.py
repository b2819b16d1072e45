"""P07: all threads of a rank pass the same thread barriers, and the phases the barriers separate stay separated."""
from sa.q import *
from sa.rdv import *

PROP = dict(
    title="Threads meet at the same barriers and phases stay separated",
    statement="Every thread of a rank passes the same sequence of thread barriers: no barrier is skipped, repeated or swapped because of which "
              "thread runs the code. Data that one thread produces for the others (untimed message counts, cross-thread events, shared sync, "
              "signal and checkpoint state, minimum latencies, checkpoint files) is separated from its use by such a barrier. "
              "The barrier itself releases nobody before all its threads have arrived and is sized to the number of threads.",
    over=["schedules"], text="all interleavings of the threads of a rank",
    why="A skipped or misplaced barrier hangs or corrupts a run only for some thread timings; tests see a handful of schedules.",
    files=["src/sst/core/threadsafe.h", "src/sst/core/simulation.cc", "src/sst/core/sync/syncManager.cc", "src/sst/core/sync/threadSyncSimpleSkip.cc",
           "src/sst/core/sync/threadSyncDirectSkip.cc", "src/sst/core/sync/rankSyncParallelSkip.cc", "src/sst/core/checkpointAction.cc", "src/sst/core/realtime.cc"],
    mech=[("Barrier", "src/sst/core/threadsafe.h"), ("phase barriers", "Simulation::initialize/setup/run/complete/finish"),
          ("SyncManager::execute barriers", "src/sst/core/sync/syncManager.cc"), ("ThreadSync barrier[3]", "src/sst/core/sync/threadSync*.cc")],
    technique="rendezvous-language equality of divergent branches and barrier-separation path queries on interprocedural control-flow graphs")

TUS = ["simulation.cc", "sync/*.cc", "checkpointAction.cc", "realtime.cc", "main.cc", "exit.cc", "action.cc"]
ASSUMPTIONS = ["conditions that do not mention the executing thread's own index evaluate alike on all threads of a rank (the data they read is "
               "exchanged or constant; P10 and the separation clause cover how it is exchanged)",
               "the interactive console and watch points (user-driven, thread-targeted commands) are outside this check",
               "Exit::check run by thread 0 ends the simulation itself only in single-rank runs, which have no rank sync"]
SKIP = ("SST::IMPL::Interactive", "SST::WatchPoint", "SST::Exit", "SST::InteractiveConsole", "SST::InteractiveAction")
SIZE = re.compile(r"num|world|size|count|total", re.I)


def is_wait(q): return q.endswith("ThreadSafe::Barrier::wait")


def skipped(f): return f.sq.startswith(SKIP) or f.sq.endswith(("wait_my_turn_start", "wait_my_turn_end"))


def relv(P):
    if not hasattr(P, "_brel"):
        P._brel = Relevance(P, lambda n, f: n[0] == "call" and is_wait(strip_t(n[2])), depth=6, skip=skipped)
    return P._brel


def own_thread(t):
    """the executing thread's own index"""
    if t[0] == "mem" and fmatch(t[2], "RankInfo::thread"):
        b = t[1]
        nm = field(b) or (b[1] if b[0] in ("param", "glob", "call") else b[3] if b[0] == "var" else "")
        return not SIZE.search(last(nm or ""))
    return t[0] in ("param", "var") and (t[1] if t[0] == "param" else t[3]) in ("thread", "tid", "thread_id", "my_thread", "thr_id")


def mentions_own(t): return any(own_thread(x) for x in subterms(t))


def own_params(P, f):
    """parameters that some caller passes its own thread index"""
    out = set()
    for g in P.funcs.values():
        if not raw_has(g, '"' + f.n + '"') and not raw_has(g, "::" + f.n): continue
        T, c = Terms(P), None
        for n in func_nodes(g):
            if n[0] == "call" and (n[3] == f.id or f.id in P.all_overriders(n[3])):
                c = c or T.root(g)
                for i, a in enumerate(n[5]):
                    if i < len(f.params) and mentions_own(T.term(a, c)): out.add(f.params[i][0])
    return out


def symbol(P):
    rel = relv(P)

    def sym(n):
        if n.kind != "call" or n.d.get("inlined"): return None
        if is_wait(n.d["q"]): return show(n.d["obj"])
        i = n.d.get("id")
        ids = {i} | (P.all_overriders(i) if "v" in n.d["flags"] else set())
        if any(x in P.funcs and rel.reach(P.funcs[x]) for x in ids): return "call " + n.d["q"]
        return None
    return sym


def aligned(R):
    """For every function from which a thread barrier is reachable: at each branch whose outcomes have different sequences of
    barriers (calls to barrier functions count as symbols, helpers of the same class are expanded), the condition does not
    depend on the executing thread's own index."""
    P = R.prog
    rel = relv(P)
    fs = [f for f in P.funcs.values() if not skipped(f) and not is_wait(f.sq) and rel.reach(f)]
    R.need(fs, "a function that waits at a thread barrier")
    for f in sorted(fs, key=lambda f: f.q):
        if f.sq in ("main", "start_simulation") or f.n == "main": continue
        cl = f.sq.rsplit("::", 1)[0] if "::" in f.sq else None

        def pol(fn, e, ctx):
            if is_wait(fn.sq) or skipped(fn) or not rel.reach(fn): return False
            if e[0] == "call" and "v" in e[7]: return False
            return fn.file == f.file and (fn.sq.rsplit("::", 1)[0] == cl or "::" not in fn.sq or fn.sq.startswith("SST::pvt"))
        # helpers extracted in the same class: the caller carries the obligation
        cfg = CFG(P, f, inline=pol, exact=True)
        R.cfg_used(cfg)
        A = Align(cfg, symbol(P))
        ownp = None
        bad = None
        for n, c, w in A.branches():
            if not is_term(c): continue
            if ownp is None: ownp = own_params(P, f)

            def dep(x, d=0):
                for y in subterms(x):
                    if own_thread(y) or (y[0] == "param" and y[2] in ownp): return True
                    if y[0] == "var" and d < 3:
                        df = cfg.T.definition(y)
                        if df is not None and dep(df, d + 1): return True
                return False
            if dep(c): bad = (n, c, w); break
        if bad and private_helper(P, f, rel): continue
        R.ob("aligned", f.sq + sig(f), bad is None,
             f"{f.q}: threads that take different sides of `{show(bad[1])}` pass different barriers (differs after {', '.join(map(str, bad[2]))})" if bad else "",
             bad[0].where() if bad else f.where())


def sig(f): return "/%d" % len(f.params)


def private_helper(P, f, rel):
    """every caller is a function of the same class that expands this one"""
    cl = f.sq.rsplit("::", 1)[0] if "::" in f.sq else None
    cs = [g for g in P.funcs.values() if g.id != f.id and raw_has(g, f.n) and any(n[0] == "call" and n[3] == f.id for n in func_nodes(g))]
    return bool(cs) and not f.d.get("virt") and all(g.file == f.file and g.sq.rsplit("::", 1)[0] == cl for g in cs)


def multi(at, ctx=None):
    """more than one thread"""
    def isx(t):
        return t[0] == "mem" and fmatch(t[2], "RankInfo::thread") and SIZE.search(last(field(t[1]) or (t[1][3] if t[1][0] == "var" else t[1][1] if t[1][0] in ("param", "call", "glob") else "") or ""))
    from sa.q import _decide
    return _decide(at, isx, 2)


def waits(n): return n.kind == "call" and is_wait(n.d["q"]) and not n.d.get("inlined")


def sep(R, name, cfg, a, b, msg, extra=None, edge=None, need=True):
    A = [n for n in cfg.nodes() if a(n)]
    B = [n for n in cfg.nodes() if b(n)]
    if need and (not A or not B): raise AnalysisError(f"{cfg.fn.q}: the two sides of `{name}` were not found ({len(A)}, {len(B)})")
    av = (lambda n: waits(n) or extra(n)) if extra else waits
    path = cfg.search([s for n in A for s in cfg.after(n)], b, avoid=av, consistent=False, edge=edge or (lambda n, s, c, p: True))
    R.cfg_used(cfg)
    R.ob("separated", cfg.fn.sq + ":" + name, path is None, msg, path[-1].where() if path else cfg.fn.where(), path_str(path) if path else None)


def entry_sep(R, name, cfg, b, msg, extra=None):
    R.need([n for n in cfg.nodes() if b(n)], cfg.fn.q + ": " + name)
    path = cfg.search([cfg.entry], b, avoid=(lambda n: waits(n) or extra(n)) if extra else waits, consistent=False)
    R.cfg_used(cfg)
    R.ob("separated", cfg.fn.sq + ":" + name, path is None, msg, path[-1].where() if path else cfg.fn.where(), path_str(path) if path else None)


def exit_sep(R, name, cfg, a, msg, extra=None):
    A = R.need([n for n in cfg.nodes() if a(n)], cfg.fn.q + ": " + name)
    path = cfg.search([s for n in A for s in cfg.after(n)], lambda n: n is cfg.exit, avoid=(lambda n: waits(n) or extra(n)) if extra else waits, consistent=False)
    R.cfg_used(cfg)
    R.ob("separated", cfg.fn.sq + ":" + name, path is None, msg, path[-1].where() if path else cfg.fn.where(), path_str(path) if path else None)


def c(*names, obj=None):
    return call_to(list(names), obj=(lambda o: has_field(o, obj)) if obj else None)


def touches_atomic(fieldname, write):
    """a store to / load from a (possibly atomic) field"""
    def f(n):
        if n.kind == "asg": return write and is_field(n.d["lhs"], fieldname)
        if n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], fieldname):
            m = last(n.d["q"])
            w = m in ("store", "operator=", "exchange", "fetch_add", "fetch_sub", "fetch_or", "operator++", "operator--", "operator+=", "operator|=")
            return w if write else not w
        if n.kind == "rd" and not write: return is_field(n.d["path"], fieldname)
        return False
    return f


def separated(R):
    """For each listed producer/consumer pair no control-flow path leads from the producing to the consuming operation without
    passing a thread barrier (paths of all threads are overlaid, barrier helpers are expanded)."""
    P = R.prog
    rel = relv(P)

    def inl(f):
        cl = f.sq.rsplit("::", 1)[0] if "::" in f.sq else None

        def pol(fn, e, ctx):
            if is_wait(fn.sq) or skipped(fn): return False
            if e[0] == "call" and "v" in e[7]: return False
            if fn.sq.rsplit("::", 1)[0] == cl and fn.file == f.file: return True
            return rel.reach(fn) and fn.sq.startswith("SST::SyncManager")
        return pol

    def G(name, **kw):
        f = P.one(name)
        return CFG(P, f, inline=inl(f), assume=multi, reads=True, exact=True)
    # untimed phases
    for name, meth in (("Simulation::initialize", "init"), ("Simulation::complete", "complete")):
        cfg = G(name)
        reset = touches_atomic("Simulation::untimed_msg_count", True)
        read = lambda n: n.kind == "br" and has_field(n.d if is_term(n.d) else ("none",), "Simulation::untimed_msg_count")
        comp = lambda n, m=meth: n.kind == "call" and last(n.d["q"]) == m and "v" in n.d["flags"]
        xch = c("RankSync::exchangeLinkUntimedData")
        sep(R, "reset before use", cfg, reset, comp, f"{name}: a component may send untimed data before thread 0 has reset the message count")
        sep(R, "use before reset", cfg, comp, reset, f"{name}: thread 0 may reset the message count while components of the same round still send")
        sep(R, "sends before exchange", cfg, comp, c("ThreadSync::processLinkUntimedData"), f"{name}: untimed data may be exchanged between threads while components still send")
        sep(R, "exchange before test", cfg, xch, read, f"{name}: a thread may test the message count before the exchange has counted remote messages")
        sep(R, "test before reset", cfg, read, reset, f"{name}: thread 0 may reset the message count before every thread has tested it")
        sep(R, "exchange before next round", cfg, xch, comp, f"{name}: a component may start the next untimed round before the exchange is finished")
    cfg = G("SyncManager::exchangeLinkUntimedData")
    sep(R, "threads before ranks", cfg, c("ThreadSync::processLinkUntimedData"), c("RankSync::exchangeLinkUntimedData"),
        "the cross-rank exchange of untimed data may run while a thread still processes its own")
    cfg = G("Simulation::setup")
    sep(R, "shared objects final before setup", cfg, c("updateState"), lambda n: n.kind == "call" and last(n.d["q"]) == "setup" and "v" in n.d["flags"],
        "a component's setup() may run before the shared objects are finalised")
    entry_sep(R, "all init done before finalising", cfg, c("updateState"), "shared objects may be finalised while another thread is still in its init phase")
    # run
    cfg = G("Simulation::run")
    sep(R, "run ends together", cfg, lambda n: n.kind == "call" and last(n.d["q"]) == "execute" and "v" in n.d["flags"] and n.d["obj"] is not None and has_field(n.d["obj"], "Simulation::current_activity"),
        c("Exit::computeEndTime"), "thread 0 may compute the end time while other threads still execute activities")
    cfg = G("Simulation::endSimulation")
    # sync manager
    cfg = G("SyncManager::execute")
    ts, rs = "SyncManager::threadSync_", "SyncManager::rankSync_"
    entry_sep(R, "events sent before drain", cfg, c("before", obj=ts), "a thread may drain its incoming queues before every thread has reached the sync")
    sep(R, "drain before rank exchange", cfg, c("before", obj=ts), c("execute", obj=rs), "the rank exchange may start before every thread has drained its queues")
    sep(R, "rank exchange before skip-ahead", cfg, c("execute", obj=rs), c("after", obj=ts), "a thread may compute its next sync time before the rank exchange has delivered its events")
    sep(R, "rank exchange before signals are read", cfg, c("execute", obj=rs), c("getSignals", obj=rs), "a thread may read the signals before the rank exchange has agreed on them")
    sep(R, "exit check before its result", cfg, c("Exit::check"), c("Exit::getGlobalCount", "Exit::getEndTime"), "a thread may read the exit decision before thread 0 has made it") \
        if cfg.calls(["Exit::getGlobalCount"]) else \
        sep(R, "exit check before its result", cfg, c("Exit::check"), lambda n: n.kind == "rd" and is_field(n.d["path"], "Exit::global_count_"), "a thread may read the exit decision before thread 0 has made it")
    tex = c("execute", obj=ts)
    sep(R, "signals shared", cfg, c("setSignals", obj=ts), c("getSignals", obj=ts), "a thread may read the signals before thread 0 has published them", extra=tex)
    sep(R, "flags shared", cfg, c("setFlags", obj=ts), c("getFlags", obj=ts), "a thread may read interactive/shutdown flags before every thread has published its own", extra=tex)
    con = c("InteractiveConsole::execute")
    for o in (ts, rs):
        sep(R, "flags read before cleared (" + last(o) + ")", cfg, c("getFlags", obj=o), c("clearFlags", obj=o), "flags may be cleared before every thread has read them", extra=con)
    cg = "SyncManager::ckpt_generate_"
    ck = c("CheckpointAction::check")
    sep(R, "checkpoint request shared", cfg, lambda n: touches_atomic(cg, True)(n) and not any(const(a) == 0 for a in (n.d["args"] if n.kind == "call" else (n.d["rhs"],))),
        lambda n: n.kind == "br" and is_term(n.d) and has_field(n.d, cg), "a thread may test the shared checkpoint request before every thread has published its own")
    # thread syncs
    for cls in ("ThreadSyncSimpleSkip", "ThreadSyncDirectSkip"):
        cfg = G(cls + "::execute")
        always(R, "separated", cls + "::execute:rendezvous", cfg, waits, f"{cls}::execute can return without waiting for the other threads")
        if [n for n in cfg.nodes() if c("getLocalMinimumNextActivityTime")(n)]:
            entry_sep(R, "all arrive first", cfg, lambda n: (n.kind == "call" and last(n.d["q"]) in ("getVector", "getLocalMinimumNextActivityTime", "send")),
                      f"{cls}::execute may drain queues or look at other threads' event queues before all threads have arrived")
            exit_sep(R, "nobody leaves early", cfg, c("getLocalMinimumNextActivityTime"), f"{cls}::execute lets a thread resume while others still compute the next sync time")
        if cls == "ThreadSyncSimpleSkip":
            entry_sep(R, "all sent before drain", cfg, c("getVector"), f"{cls}::execute may drain a queue before every thread has stopped sending")
            exit_sep(R, "all drained before anyone sends", cfg, c("getVector"), f"{cls}::execute lets a thread send into a queue another thread still drains")
            if [n for n in cfg.nodes() if c("getLocalMinimumNextActivityTime")(n)]: sep(R, "drain before skip-ahead", cfg, c("getVector"), c("getLocalMinimumNextActivityTime"), f"{cls}::execute may compute the next sync time before every thread's events are delivered")
        cfg = G(cls + "::findSyncInterval") if P.find(cls + "::findSyncInterval", False) else None
        if cfg:
            ups = [n for n in cfg.nodes() if c("updateMinimumLatency")(n)]
            if len(ups) >= 2:
                sep(R, "latency contributed before used", cfg, lambda n: c("updateMinimumLatency")(n) and len(n.d["args"]) and n.d["args"][0][0] not in ("lit", "glob", "other", "none", "call") , 
                    lambda n: c("updateMinimumLatency")(n) and not (len(n.d["args"]) and n.d["args"][0][0] not in ("lit", "glob", "other", "none", "call")),
                    f"{cls}::findSyncInterval may use the minimum latency before every thread has contributed")
    # parallel rank sync
    cfg = G("RankSyncParallelSkip::execute")
    sep(R, "work queued before slaves start", cfg, lambda n: n.kind == "call" and last(n.d["q"]) == "try_insert" and has_field(n.d["obj"], "serialize_queue"),
        lambda n: n.kind == "call" and last(n.d["q"]) == "try_remove" and has_field(n.d["obj"], "serialize_queue") , "a slave thread may look for serialisation work before the master has queued it")
    sep(R, "receive count set before slaves start", cfg, lambda n: touches_atomic("RankSyncParallelSkip::remaining_deser", True)(n) and n.kind != "asg" or (n.kind == "asg" and n.d["op"] == "=" and is_field(n.d["lhs"], "remaining_deser")),
        lambda n: n.kind == "rd" and is_field(n.d["path"], "RankSyncParallelSkip::recv_count"), "a slave thread may test the number of outstanding receives before the master has set it")
    exit_sep(R, "nobody leaves early", cfg, lambda n: n.kind == "call" and last(n.d["q"]) == "send" , "a thread may leave the rank exchange while others still deliver events into its queue")
    # checkpoint
    cfg = G("CheckpointAction::createCheckpoint")
    wr = c("Simulation::checkpoint")
    sep(R, "directory before files", cfg, lambda n: n.kind == "call" and last(n.d["q"]) in ("create_directory", "create_directories"), wr, "a thread may write its checkpoint file before the directory exists")
    idr = lambda n: n.kind == "rd" and (is_field(n.d["path"], "checkpoint_id") or (n.d["path"][0] == "glob" and n.d["path"][1].endswith("checkpoint_id")))
    exit_sep(R, "registry turn", cfg, c("Simulation::checkpoint_append_registry"), "the next thread may append to the registry while this one still writes")
    # heartbeat
    cfg = G("HeartbeatRealTimeAction::execute")
    mx = "HeartbeatRealTimeAction::thr_max_tv_depth_"
    glob = lambda n, w: (n.kind == "call" and n.d["obj"] is not None and (has_glob(n.d["obj"], "thr_max_tv_depth_") or has_field(n.d["obj"], mx)) and last(n.d["q"]) in (("store", "operator=") if w else ("load",)))
    fm = lambda n: n.kind == "call" and last(n.d["q"]) == "atomic_fetch_max"
    sep(R, "depth initialised before maximum", cfg, lambda n: glob(n, True), fm, "a thread may add its queue depth before thread 0 has initialised the maximum")
    sep(R, "maximum complete before use", cfg, fm, lambda n: n.kind == "call" and last(n.d["q"]) in ("MPI_Allreduce", "output", "load"), "the heartbeat may report the maximum queue depth before every thread has contributed")
    # wall-clock actions
    cfg = G("AlrmSignalAction::execute")
    sep(R, "elapsed time shared", cfg, lambda n: n.kind == "asg" and (has_glob(n.d["lhs"], "elapsed_") or has_field(n.d["lhs"], "AlrmSignalAction::elapsed_")),
        c("RealTimeIntervalAction::execute"), "a thread may act on the elapsed wall-clock time before thread 0 has published it")


def barrier(R):
    """ThreadSafe::Barrier::wait: a thread leaves without having been the last only over the generation-changed edge; the last
    one (count reached zero) first restores the count and then advances the generation; the generation is sampled before the
    arrival is counted and arrivals are counted by one atomic decrement."""
    P = R.prog
    f = P.one("Barrier::wait")
    cfg = CFG(P, f, reads=True, assume=lambda at, ctx=None: True if at[0] == "nz" and is_field(at[1], "Barrier::enabled") else None)
    R.cfg_used(cfg)
    G, C = "Barrier::generation", "Barrier::count"
    arr = [n for n in cfg.nodes() if (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], C) and last(n.d["q"]) in ("fetch_sub", "operator--", "fetch_add"))
           or (n.kind == "asg" and is_field(n.d["lhs"], C) and n.d["op"] in ("--", "-=", "+="))]
    arr_ok = [n for n in arr if n.kind == "asg" and n.d["op"] == "--" or n.kind == "call" and (last(n.d["q"]) == "operator--" or last(n.d["q"]) == "fetch_sub" and const(n.d["args"][0]) == 1)
              or n.kind == "asg" and n.d["op"] == "-=" and const(n.d["rhs"]) == 1]
    R.ob("barrier", "arrival", len(arr) >= 1 and len(arr) == len(arr_ok), "an arrival at the barrier is not counted by one atomic decrement", f.where())
    always(R, "barrier", "every arrival counted", cfg, lambda n: n in arr_ok, "wait() can return without counting the arrival")
    again = cfg.search([s for a in arr_ok for s in cfg.after(a)], lambda n: n in arr_ok)
    R.ob("barrier", "counted once", again is None, "wait() counts one arrival twice", f.where())
    genrd = [n for n in cfg.nodes() if (n.kind in ("init", "asg")) and has_field(n.d["rhs"], G)]
    path = cfg.search([cfg.entry], lambda n: n in arr_ok, avoid=lambda n: n in genrd)
    R.ob("barrier", "generation sampled before arrival", bool(genrd) and path is None, "the generation is sampled after the arrival is counted: a fast release is missed", f.where())
    rel = [n for n in cfg.nodes() if (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], G) and last(n.d["q"]) in ("fetch_add", "operator++", "store"))
           or (n.kind == "asg" and is_field(n.d["lhs"], G))]
    R.ob("barrier", "release", bool(rel), "the last thread does not advance the generation", f.where())
    rest = lambda n: (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], C) and last(n.d["q"]) in ("store", "operator=") and any(has_field(a, "Barrier::origCount") for a in n.d["args"])) \
        or (n.kind == "asg" and n.d["op"] == "=" and is_field(n.d["lhs"], C) and has_field(n.d["rhs"], "Barrier::origCount"))
    path = cfg.search([cfg.entry], lambda n: n in rel, avoid=rest)
    R.ob("barrier", "count restored before release", path is None, "the barrier releases its threads before it has restored the count", f.where(), path_str(path) if path else None)

    def lastone(at, pol, n):
        # arrival count is zero / previous value was one
        return (at[0] in ("nz", "pos") and not pol and arrival_term(at[1], C, cfg) == 0) or (at[0] == "==" and pol and any(arrival_term(x, C, cfg) == 1 for x in at[1:]) and any(const(x) == 1 for x in at[1:]))
    guarded(R, "barrier", "only the last releases", cfg, lambda n: n in rel, lastone, "a thread that is not the last to arrive can release the barrier")

    def changed(at, pol, n): return at[0] == "==" and not pol and any(has_field(x, G) for x in at[1:]) or (at[0] == "==" and not pol and any(x[0] == "var" for x in at[1:]) and any("generation" in repr(x) for x in at[1:]))
    path = cfg.search([s for a in arr_ok for s in cfg.after(a)], lambda n: n is cfg.exit, avoid=lambda n: n in rel,
                      edge=lambda n, s, c_, p: c_ is None or not cfg.edge_holds(c_, p, changed, n))
    R.ob("barrier", "waits for the release", path is None, "a thread can leave the barrier before the generation has advanced", f.where(), path_str(path) if path else None)
    # sized
    rz = P.one("Barrier::resize")
    cz = CFG(P, rz)
    st = [n for n in cz.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "Barrier::origCount") or (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], C) and last(n.d["q"]) in ("operator=", "store"))
          or (n.kind == "asg" and is_field(n.d["lhs"], C))]
    lh = {("orig" if (n.kind == "asg" and is_field(n.d["lhs"], "Barrier::origCount")) else "count") for n in st}
    R.ob("barrier", "resize sets both counts", lh == {"orig", "count"} or len(lh) == 2 or nested_both(cz), "resize() does not set both the count and the value it is restored to", rz.where())
    en = [n for n in cz.nodes() if (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "Barrier::enabled") and any(const(a) == 1 for a in n.d["args"])) or (n.kind == "asg" and is_field(n.d["lhs"], "Barrier::enabled") and const(n.d["rhs"]) == 1)]
    R.ob("barrier", "resize enables", bool(en), "resize() leaves the barrier disabled: nobody waits", rz.where())


def nested_both(cz):
    return any("origCount" in repr(n.d) and "Barrier::count" in repr(n.d) for n in cz.nodes() if n.kind in ("asg", "call"))


def arrival_term(t, C, cfg):
    """0: value after the decrement, 1: value before it; None otherwise"""
    if t[0] == "var":
        d = cfg.T.definition(t)
        return arrival_term(d, C, cfg) if d is not None else None
    if t[0] == "bin" and t[1] == "-" and const(t[3]) == 1 and arrival_term(t[2], C, cfg) == 1: return 0
    if t[0] == "call" and t[2] is not None and is_field(t[2], C):
        if last(t[1]) == "fetch_sub": return 1
        if last(t[1]) == "operator--": return 1 if len(t[3]) else 0
    if t[0] == "un" and is_field(t[2], C): return 1 if t[1].startswith("p") else 0
    return None


BARRIERS = ["Simulation::initBarrier", "Simulation::completeBarrier", "Simulation::setupBarrier", "Simulation::runBarrier", "Simulation::exitBarrier",
            "Simulation::finishBarrier"]


def sized(R):
    """Every barrier object that is waited at is given its thread count: a constructor or resize call whose argument is the
    number of threads (the thread field of a rank-count, not an own index or a constant)."""
    P = R.prog
    waited, given = {}, {}
    for f in P.funcs.values():
        if skipped(f) or not (raw_has(f, "arrier")): continue
        if f.sq.endswith(("Barrier::wait", "Barrier::resize")) or is_wait(f.sq): continue
        T = Terms(P)
        ctx = T.root(f)
        for i in f.d.get("inits", ()):
            if i[0] == "m" and i[3] is not None and i[3][0] == "ctor" and strip_t(i[3][2]).endswith("ThreadSafe::Barrier") and i[3][4]:
                given.setdefault(fname(i[1]), []).append((f, f.line, T.term(i[3][4][0], ctx)))
        for n in func_nodes(f):
            if n[0] != "call" or n[4] is None: continue
            q = strip_t(n[2])
            if not q.endswith(("Barrier::wait", "Barrier::resize")): continue
            t = T.term(n[4], ctx)
            nm = bname(t)
            if nm is None: continue
            if q.endswith("wait"): waited.setdefault(nm, []).append((f, n[1]))
            else: given.setdefault(nm, []).append((f, n[1], T.term(n[5][0], ctx), T))
    R.need(waited, "a barrier object that is waited at")
    for nm, ws in sorted(waited.items()):
        gs = given.get(nm, [])
        R.used(*[w[0] for w in ws], *[g[0] for g in gs])
        R.ob("sized", nm, bool(gs), f"the barrier {nm} is waited at but never given its number of threads", ws[0][0].where(ws[0][1]))
        for g in gs:
            R.ob("sized", nm + ":count", is_count(P, g[0], g[2], g[3] if len(g) > 3 else None), f"{g[0].q} sizes the barrier {nm} by something other than the number of threads", g[0].where(g[1]))


def bname(t):
    while t[0] in ("idx", "deref", "addr", "elem"): t = t[1]
    if t[0] == "var":
        return None if "arrier" not in t[3] else None
    if t[0] == "glob": return t[1]
    return field(t)


def is_count(P, f, t, T=None, depth=2):
    if own_thread(t): return False
    if any(x[0] == "mem" and fmatch(x[2], "RankInfo::thread") for x in subterms(t)): return t[0] == "mem"
    if t[0] in ("param", "var"):
        if t[0] == "var" and T is not None and T.definition(t) is not None: return is_count(P, f, T.definition(t), T, depth)
        i = param_idx(f, t)
        if i is None: return False
        # follow to the callers
        ok, any_ = True, False
        for g in P.funcs.values():
            if not raw_has(g, f.n): continue
            T2 = Terms(P); c2 = T2.root(g)
            for n in func_nodes(g):
                if (n[0] == "call" and n[3] == f.id and i < len(n[5])) or (n[0] == "ctor" and n[3] == f.id and i < len(n[4])):
                    any_ = True
                    a = T2.term((n[5] if n[0] == "call" else n[4])[i], c2)
                    if depth > 0 and not is_count(P, g, a, T2, depth - 1): ok = False
        return ok if any_ else bool(SIZE.search(t[1] if t[0] == "param" else t[3]) or "thr" in (t[1] if t[0] == "param" else t[3]))
    f_ = field(t)
    return f_ is not None and bool(SIZE.search(last(f_)) and "thread" in last(f_))


CLAUSES = [aligned, separated, barrier, sized]
