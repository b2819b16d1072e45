"""P05: conservative synchronisation: the next synchronisation is never later than the earliest possible cross-partition event."""
from sa.q import *

PROP = dict(
    title="Partitions synchronise before any event could cross between them",
    statement="The lookahead of a rank or thread synchronisation never exceeds the smallest latency of a link that crosses between ranks or threads, over "
              "every such link and both directions. After each synchronisation the next one is scheduled no later than the earliest pending activity of any "
              "partition plus that lookahead, and the next synchronisation inserted is always the earliest of the rank, thread and checkpoint times, of the kind that is due. "
              "Events brought by a synchronisation are in their queues before the earliest pending activity is determined.",
    over=["inputs", "schedules"], text="all graphs, partitions, latencies and event populations",
    why="An interval that is too long by one cycle only delivers an event late for one particular combination of latencies and pending events; the reference "
        "outputs of the tests come from a handful of partitions.",
    files=["src/sst/core/sync/syncManager.cc", "src/sst/core/sync/rankSyncSerialSkip.cc", "src/sst/core/sync/rankSyncParallelSkip.cc", "src/sst/core/sync/threadSyncSimpleSkip.cc",
           "src/sst/core/sync/threadSyncDirectSkip.cc", "src/sst/core/simulation.cc", "src/sst/core/model/configGraph.cc", "src/sst/core/model/configLink.h"],
    mech=[("RankSync::findSyncInterval, ThreadSync::findSyncInterval", "src/sst/core/sync"), ("ThreadSyncSimpleSkip::after, RankSync*Skip::exchange", "src/sst/core/sync"),
          ("SyncManager::computeNextInsert", "src/sst/core/sync/syncManager.cc"), ("Simulation::getLocalMinimumNextActivityTime", "src/sst/core/simulation.cc"),
          ("ConfigGraph::getMinimumPartitionLatency", "src/sst/core/model/configGraph.cc")],
    technique="minimum-fold recognition on loops, abstract evaluation over all orderings of the candidate times, path obligations")

TUS = ["sync/*.cc", "simulation.cc", "main.cc", "model/configGraph.cc"]
ASSUMPTIONS = ["link latencies are only added to after the graph is built (addSendLatency/addRecvLatency), as the element interface allows",
               "pending activities are never earlier than the current time (P02)"]


def fn(R, q):
    return R.need(R.prog.find(q, False), q)[0]


def fin(t, *names): return any(fmatch(x, n) for n in names for x in list(fields_in(t)) + list(globs_in(t)))


def isval(t, name): return t[0] == "call" and last(t[1]) == name or has_call(t, name)


def lookahead(R):
    """The lookahead is a minimum over every link: ConfigLink::getMinLatency returns the smaller latency, the graph's minimum covers
    every link between ranks, the inter-thread minimum every link between threads of this rank, and the refined intervals every
    registered link with the latencies of both ends; the refined interval is what the synchronisation uses."""
    P = R.prog
    f = R.need([x for x in P.funcs.values() if x.sq.endswith("ConfigLink::getMinLatency")], "ConfigLink::getMinLatency")[0]
    lat = lambda i: (lambda t: t[0] == "idx" and is_field(t[1], "ConfigLink::latency_") and const(t[2]) == i)
    for ranks in weak_orders(2):
        which = lambda t: 0 if lat(0)(t) else 1 if lat(1)(t) else None
        orc = order_oracle(which, ranks)
        dec = lambda at, ctx=None, orc=orc: False if at[0] in ("nz", "pos") and is_field(at[1], "ConfigLink::nonlocal_") else orc(at)
        got = []
        g = CFG(P, f)
        walk(g, dec, on=lambda n, e, v: got.append(pick(v(n.d["val"]), dec)) if n.kind == "ret" else None)
        R.cfg_used(g)
        R.ob("lookahead", f"getMinLatency:{ranks}", bool(got) and all(which(x) is not None and ranks[which(x)] == 0 for x in got), f"getMinLatency does not return the smaller latency ({', '.join(map(show, got))})", f.where())
    f = fn(R, "SST::ConfigGraph::getMinimumPartitionLatency")
    minlat = lambda t: t[0] == "call" and last(t[1]) == "getMinLatency"
    cross = lambda n, s, c, p: not (c is not None and is_term(c) and norm_cond(c, p)[0][0] in ("nz", "pos") and fin(norm_cond(c, p)[0][1], "ConfigLink::cross_rank_") and not norm_cond(c, p)[1])
    g = CFG(P, f, inline=inline_class("ConfigGraph"))
    accs = min_fold(R, "lookahead", "partition:min", g, lambda c: fin(c, "ConfigGraph::links_"), minlat, "the minimum latency between ranks does not cover every link that crosses ranks", edge=cross)
    rets = root_rets(g)
    for n in rets: R.ob("lookahead", "partition:result", n.d["val"] in accs or fin(n.d["val"], "ConfigGraph::cpt_minPart"), f"the minimum latency between ranks is reported as {show(n.d['val'])}", n.where())
    never(R, "lookahead", "partition:restart", g, lambda n: n.kind == "ret" and fin(n.d["val"], "ConfigGraph::cpt_minPart"), "a graph with components reports the latency saved in a checkpoint",
          edge=lambda n, s, c, p: not (c is not None and is_term(c) and has_zero_components(norm_cond(c, p))))
    # inter-thread
    f = fn(R, "SST::Simulation::processGraphInfo")

    def assume(at, ctx=None):
        if at[0] in ("nz", "pos"):
            if fin(at[1], "ConfigLink::nonlocal_"): return False
            if at[1][0] == "call" and at[1][1].endswith("RankInfo::operator=="): return False
            if at[1][0] == "call" and at[1][1].endswith("RankInfo::operator!="): return True
        if at[0] == "==":
            if all(x[0] == "mem" and fmatch(x[2], "RankInfo::rank") or fin(x, "RankInfo::rank") and not fin(x, "RankInfo::thread") for x in at[1:]): return True
            if all(not fin(x, "RankInfo::rank", "RankInfo::thread") and is_rankinfo(x) for x in at[1:]): return False
            if all(fin(x, "RankInfo::thread") and not fin(x, "Simulation::my_rank") for x in at[1:]): return False
        if at[0] == "<" and const(at[1]) == 1 and fin(at[2], "RankInfo::thread") and fin(at[2], "Simulation::num_ranks"): return True
        return None
    g = CFG(P, f, assume=assume)
    acc = lambda t: is_field(t, "Simulation::interThreadMinLatency")
    accs = min_fold(R, "lookahead", "threads:min", g, lambda c: True, minlat, "the minimum latency between threads does not cover every link between threads of the rank")
    R.ob("lookahead", "threads:kept", any(acc(a) for a in accs), "the inter-thread minimum is not what the loop over the links computes", f.where())
    for n in g.nodes():
        if n.kind == "asg" and acc(n.d["lhs"]): R.ob("lookahead", "threads:value", minlat(expand(g.T, n.d["rhs"])) or is_max(n.d["rhs"]), f"the inter-thread minimum is set to {show(n.d['rhs'])}", n.where())
    # refined intervals
    f = fn(R, "SST::ThreadSyncSimpleSkip::findSyncInterval")
    g = CFG(P, f, inline=lambda h, e, c: last(h.sq) != "updateMinimumLatency" and inline_class("ThreadSync", "ThreadSyncSimpleSkip")(h, e, c))
    two = lambda t: len(summands(t)) == 2 and all(s == 1 for s, _ in summands(t)) and all(fin(x, "Link::latency") or isval(x, "getLatency") for _, x in summands(t)) and sum(fin(x, "Link::delivery_info") or has_call(x, "getDeliveryInfo") for _, x in summands(t)) == 1
    accs = min_fold(R, "lookahead", "threads:refined", g, lambda c: fin(c, "ThreadSyncSimpleSkip::link_vec"), two, "the refined thread interval is not the minimum over all registered links of both ends' latencies")
    upd = lambda n: n.kind == "call" and last(n.d["q"]) == "updateMinimumLatency"
    wait = lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait")
    giving = [n for n in g.nodes() if upd(n) and n.d["args"] and n.d["args"][0] in accs]
    R.ob("lookahead", "threads:shared", bool(giving), "the thread's minimum is not given to the other threads", f.where())
    always(R, "lookahead", "threads:always_shared", g, lambda n: n in giving, "a thread can leave the interval search without giving its minimum to the others")
    for n in root_rets(g):
            R.ob("lookahead", "threads:global", isval(n.d["val"], "updateMinimumLatency"), f"the refined thread interval is {show(n.d['val'])}, not the minimum over the threads", n.where())
    never(R, "lookahead", "threads:after_all", g, lambda n: upd(n) and n not in giving, "the minimum is read before every thread has given its own", avoid=wait)
    never(R, "lookahead", "threads:give_first", g, wait, "the barrier is passed before the minimum is given", avoid=lambda n: n in giving)
    f = fn(R, "SST::ThreadSync::updateMinimumLatency")
    for ranks in weak_orders(2):
        g = CFG(P, f)
        stat = {n.d["lhs"] for n in g.nodes() if n.kind == "asg"} | {n.d["val"] for n in g.nodes() if n.kind == "ret" and n.d["val"][0] in ("var", "glob")}
        which = lambda t: 0 if param_idx(f, t) == 0 else 1 if t in stat else None
        dec = order_oracle(which, ranks)
        got = []
        walk(g, dec, on=lambda n, e, v: got.append(pick(v(n.d["val"]), dec)) if n.kind == "ret" else None)
        R.cfg_used(g)
        R.ob("lookahead", f"updateMinimumLatency:{ranks}", bool(got) and all(which(x) is not None and ranks[which(x)] == 0 for x in got), f"updateMinimumLatency returns {', '.join(map(show, got))}", f.where())
    f = fn(R, "SST::RankSync::findSyncInterval")
    g = CFG(P, f, inline=inline_class("RankSync"))
    pairlat = lambda t: len(summands(t)) == 2 and all(s == 1 for s, _ in summands(t)) and sum(1 for _, x in summands(t) if fin(x, "Link::latency") and not fin(x, "Link::pair_link")) == 1 and \
        sum(1 for _, x in summands(t) if is_field(x, "pair::first")) == 1
    recvs = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Comms::recv")]
    datas = {n.d["args"][-1] for n in recvs}
    accs = set()
    for d in sorted(datas, key=show):
        accs |= min_fold(R, "lookahead", f"ranks:refined", g, lambda c, d=d: any(x == d for x in subterms(c)), pairlat, "the refined rank interval is not the minimum over the links of each partner of sender and receiver latency")
    R.ob("lookahead", "ranks:partners", len(datas) >= 1 and len(recvs) >= 1, "no latency is received from the partners", f.where())
    # what is sent: the sender's latency and the partner's link
    sent = [n for n in g.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "pair::first") and fin(n.d["lhs"], "RankSync::link_maps")]
    for n in sent: R.ob("lookahead", "ranks:sent_latency", is_field(n.d["rhs"], "Link::latency") and fin(expand(g.T, n.d["rhs"]), "Link::pair_link"), f"the latency sent to the partner is {show(n.d['rhs'])}", n.where())
    for_each(R, "lookahead", "ranks:sent_all", g, lambda c: fin(c, "RankSync::link_maps"), lambda n: n in sent, "not every link's latency is sent to the partner", every=True)
    red = [n for n in g.nodes() if n.kind == "call" and n.d["q"] == "MPI_Allreduce"]
    R.ob("lookahead", "ranks:reduced", bool(red) and all("ompi_mpi_op_min" in repr(n.d["args"]) for n in red), "the refined rank interval is not reduced to the minimum over the ranks", f.where())
    for n in root_rets(g):
            R.ob("lookahead", "ranks:result", any(n.d["val"] in list(subterms(m.d["args"][1])) for m in red), f"the refined rank interval is {show(n.d['val'])}, not the reduced one", n.where())
    for who, q in (("threads", "findThreadSyncInterval"), ("ranks", "findRankSyncInterval")):
        f = fn(R, "SST::SyncManager::" + q)
        g = CFG(P, f, assume=lambda at, ctx=None: False if at[0] == "==" and any(is_max(x) for x in at[1:]) else None)
        setp = lambda n: n.kind == "call" and last(n.d["q"]) == "setMaxPeriod"
        always(R, "lookahead", who + ":used", g, setp, "the refined interval can remain unused")
        got = []
        walk(g, lambda at, ctx=None: None, on=lambda n, e, v: got.append((n, v(n.d["args"][0]))) if setp(n) else None)
        for n, v in got:
            v = expand(g.T, v)
            R.ob("lookahead", who + ":used_value", v[0] == "call" and last(v[1]) in ("findSyncInterval", "getFactor") and (last(v[1]) == "findSyncInterval" or isval(v, "getPeriod")), f"the synchronisation interval is set to {show(v)}", n.where())
        never(R, "lookahead", who + ":replaced", g, lambda n: n.kind == "new", "the synchronisation object is replaced although links cross partitions")
    # every synchronisation object chosen while threads are connected has an interval of its own
    f = fn(R, "SST::SyncManager::setupSyncObjects")
    g = CFG(P, f, inline=inline_class("SyncManager"))
    used = set()
    walk(g, connected, on=lambda n, e, v: used.update(strip_t(x[1]).rstrip("* ") for x in subterms(v(n.d["rhs"])) if x[0] == "new")
         if n.kind == "asg" and is_field(n.d["lhs"], "SyncManager::threadSync_") else None)
    R.cfg_used(g)
    R.ob("lookahead", "threads:object", bool(used) and all(any(c.endswith(k) for k in ("ThreadSyncSimpleSkip", "ThreadSyncDirectSkip")) for c in used),
         f"threads that share links are synchronised by {sorted(used) or 'nothing'}", f.where())
    for c in sorted(used):
        c = last(c)
        own = P.find(f"SST::{c}::findSyncInterval", False)
        if not R.ob("lookahead", f"threads:{c}:own", bool(own), f"{c} reports no interval of its own (the base class reports that no link crosses), so it is replaced by an object that never synchronises", f.where()): continue
        if c == "ThreadSyncSimpleSkip": continue
        h = own[0]
        gh = CFG(P, h, inline=inline_class(c))
        R.cfg_used(gh)
        for n in root_rets(gh):
            R.ob("lookahead", f"threads:{c}:interval", is_lookahead(P, R, c, n.d["val"]), f"the interval reported by {c} is {show(n.d['val'])}", n.where())
    for c in ("RankSync", "ThreadSync"):
        f = fn(R, f"SST::{c}::setMaxPeriod")
        g = CFG(P, f)
        R.ob("lookahead", c + "::setMaxPeriod", any(n.kind == "asg" and is_field(n.d["lhs"], c + "::max_period") and param_idx(f, n.d["rhs"]) == 0 for n in g.nodes()), "setMaxPeriod does not set the interval", f.where())
        R.cfg_used(g)


def connected(at, ctx=None):
    """the rank has several threads and links between them"""
    thr = lambda t: fin(t, "RankInfo::thread") and fin(t, "SyncManager::num_ranks_")
    lat = lambda t: isval(t, "getInterThreadMinLatency") or is_field(t, "Simulation::interThreadMinLatency")
    if at[0] == "<" and const(at[1]) == 1 and thr(at[2]): return True
    if at[0] == "<" and thr(at[1]) and const(at[2]) == 2: return False
    if at[0] == "==" and any(thr(x) for x in at[1:]) and any(const(x) in (0, 1) for x in at[1:]): return False
    if at[0] == "==" and any(lat(x) for x in at[1:]) and any(is_max(x) for x in at[1:]): return False
    if at[0] == "<" and lat(at[1]) and is_max(at[2]): return True
    return None


def is_lookahead(P, R, c, v):
    """the inter-thread minimum latency itself, or a field every function of the class sets to it"""
    src = lambda t: isval(t, "getInterThreadMinLatency") or is_field(t, "Simulation::interThreadMinLatency")
    if src(v): return True
    fd = field(v)
    if fd is None: return False
    sets = []
    for f in P.funcs.values():
        if not raw_has(f, last(fd)): continue
        g = CFG(P, f)
        for n in g.nodes():
            if n.kind in ("asg", "init") and (n.d.get("lhs") or n.d.get("var"))[0] == "mem" and fmatch(field(n.d.get("lhs") or n.d.get("var")), fd): sets.append((g, n))
    return bool(sets) and all(src(expand(g.T, n.d["rhs"])) for g, n in sets)


def is_rankinfo(t): return t[0] == "idx" and const(t[2]) in (0, 1) or t[0] == "mem" and fmatch(t[2], "ConfigComponent::rank")


def has_zero_components(ap):
    at, pol = ap
    comp = lambda t: isval(t, "getNumComponents") or fin(t, "ConfigGraph::comps_")
    if at[0] in ("nz", "pos"): return comp(at[1]) and not pol
    if at[0] == "==": return any(comp(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) and pol
    return False


def summands_extra(t): return len(summands(t)) > 1 or t[0] == "bin"


def is_max(t):
    c = const(t)
    if c is not None: return c in (2**64 - 1, 2**63 - 1, -1)
    return t[0] in ("glob", "enum", "const") and "MAX" in show(t).upper() or "type_max" in show(t) or "MAX_SIMTIME" in show(t)


def horizon(R):
    """The next synchronisation time is set to the earliest pending activity plus the interval (or the current time plus the
    interval), and to the earliest activity itself only where the sum overflows; the earliest activity is the minimum over all
    threads and, for ranks, reduced with minimum; constructors start with one interval from time zero."""
    P = R.prog
    f = fn(R, "SST::Simulation::getLocalMinimumNextActivityTime")
    g = CFG(P, f)
    accs = min_fold(R, "horizon", "local:min", g, lambda c: fin(c, "Simulation::instanceVec_"), lambda t: t[0] == "call" and last(t[1]) in ("getNextActivityTime", "getDeliveryTime"), "the earliest pending activity is not the minimum over all threads")
    for n in g.nodes():
        if n.kind == "ret": R.ob("horizon", "local:result", n.d["val"] in accs, "the minimum over the threads is not what is returned", n.where())
    f = fn(R, "SST::Simulation::getNextActivityTime")
    g = CFG(P, f)
    for n in g.nodes():
        if n.kind == "ret": R.ob("horizon", "next:front", has_call(n.d["val"], "TimeVortex::front") or has_call(expand(g.T, n.d["val"]), "front"), "the next activity time is not that of the queue's front", n.where())
    mins = lambda t: isval(t, "getLocalMinimumNextActivityTime") and not summands_extra(t)
    # thread synchronisation objects
    n_obj = 0
    for cls, per in (("ThreadSyncSimpleSkip", "ThreadSync::max_period"), ("ThreadSyncDirectSkip", "ThreadSyncDirectSkip::my_max_period")):
        f = fn(R, f"SST::{cls}::after")
        for over in (False, True):
            sets = []

            def dec(at, ctx=None, over=over):
                if at[0] == "<":
                    a, b = at[1], at[2]
                    sm = lambda t: sum_is(t, mins, lambda x: is_field(x, per))
                    if sm(a) and mins(b): return over
                    if mins(a) and sm(b): return not over
                    if sm(a) and is_field(b, per): return over
                    if mins(b) and a[0] == "bin" and a[1] == "-": return over      # MAX - period < min
                return None
            g = CFG(P, f, inline=inline_class(cls, "ThreadSync"))
            walk(g, dec, on=lambda n, e, v: sets.append((n, pick(v(n.d["rhs"]), dec))) if n.kind == "asg" and is_field(n.d["lhs"], "ThreadSync::nextSyncTime") else None)
            R.cfg_used(g)
            always(R, "horizon", f"{cls}:always:{over}", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "ThreadSync::nextSyncTime"), "the next synchronisation time can stay unset")
            for n, v in sets:
                plain = sum_is(v, mins, lambda x: is_field(x, per)) or sum_is(v, now, lambda x: is_field(x, per))
                ok = plain if not over else (mins(v) or is_max(v) or sum_is(v, now, lambda x: is_field(x, per)))
                n_obj += 1
                R.ob("horizon", f"{cls}:value:{over}", ok, f"the next thread synchronisation is scheduled at {show(v)}", n.where())
    for cls in ("RankSyncSerialSkip", "RankSyncParallelSkip"):
        fs = [x for x in P.funcs.values() if x.sq.startswith(f"SST::{cls}::") and raw_has(x, "myNextSyncTime")]
        seen = 0
        for f in fs:
            g = CFG(P, f)
            ctor = f.d.get("kind") == "ctor" or last(f.sq) == cls
            for n in g.nodes():
                if n.kind != "asg" or not (is_field(n.d["lhs"], cls + "::myNextSyncTime")): continue
                R.cfg_used(g)
                v = expand(g.T, n.d["rhs"])
                if ctor:
                    R.ob("horizon", cls + ":first", is_field(v, "RankSync::max_period") or isval(v, "getFactor"), f"the first rank synchronisation is scheduled at {show(v)}", n.where())
                    continue
                if last(f.sq) == "setRestartTime":
                    R.ob("horizon", cls + ":restart", param_idx(f, n.d["rhs"]) == 0, "a restart does not use the given synchronisation time", n.where()); continue
                seen += 1
                red = [m for m in g.nodes() if m.kind == "call" and m.d["q"] == "MPI_Allreduce" and "ompi_mpi_op_min" in repr(m.d["args"])]
                outs = [x for m in red for x in subterms(m.d["args"][1]) if x[0] == "var"]
                arg = lambda t: t in outs
                ok = any(sum_is(x, arg, lambda y: is_field(y, "RankSync::max_period")) for x in (n.d["rhs"], v)) or v[0] == "cond" and rank_saturating(v, arg)
                ok = ok or arg(v) and overflow_guarded(g, n, arg) or is_max(v) and overflow_guarded(g, n, arg)
                R.ob("horizon", cls + ":value", ok, f"the next rank synchronisation is scheduled at {show(n.d['rhs'])}, not the global minimum plus the interval", n.where())
                for m in red:
                    ins_ = [x for x in subterms(m.d["args"][0]) if x[0] == "var"]
                    R.ob("horizon", cls + ":input", any(isval(expand(g.T, x), "getLocalMinimumNextActivityTime") for x in ins_), "the rank's contribution to the minimum is not its earliest pending activity", m.where())
                never(R, "horizon", cls + ":reduced_first", g, lambda m, n=n: m is n, "the next synchronisation time is set without the reduction over the ranks", avoid=lambda m: m in red)
        R.ob("horizon", cls + ":set", seen >= 1, f"{cls} never schedules the next synchronisation", fs[0].where() if fs else "")
        ex = fn(R, f"SST::{cls}::" + ("exchange" if cls == "RankSyncSerialSkip" else "exchange_master"))
        g = CFG(P, ex)
        always(R, "horizon", cls + ":every_exchange", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], cls + "::myNextSyncTime"), "an exchange can end without scheduling the next synchronisation")


def now(t): return isval(t, "getCurrentSimCycle") or is_field(t, "Simulation::currentSimCycle")


def rank_saturating(v, arg):
    return any(sum_is(x, arg, lambda y: is_field(y, "RankSync::max_period")) for x in (v[2], v[3])) and any(arg(x) or is_max(x) for x in (v[2], v[3]))


def overflow_guarded(g, n, arg):
    def e(at, pol, node):
        return at[0] == "<" and any(arg(x) for x in subterms(at[1])) or at[0] == "<" and any(arg(x) for x in subterms(at[2]))
    return g.unguarded(lambda m: m is n, e) is None


def order(R):
    """SyncManager::computeNextInsert, for every ordering of the rank, thread and checkpoint times (equalities included): what is
    inserted is this manager at the earliest of them; a rank synchronisation is announced when its time is the earliest, and a
    checkpoint that is earliest uses a rank synchronisation in a multi-rank run.  Every execution ends with exactly one insertion,
    as does the end of the init phase of a parallel run."""
    P = R.prog
    f = fn(R, "SST::SyncManager::computeNextInsert")
    rankv, threadv = enumval_of(P, f)

    def which(t):
        if t[0] == "call" and last(t[1]) == "getNextSyncTime" and t[2] is not None:
            return 0 if fin(t[2], "SyncManager::rankSync_") else 1 if fin(t[2], "SyncManager::threadSync_") else None
        if param_idx(f, t) == 0: return 2
        return None
    isT = lambda t: is_field(t, "SyncManager::next_sync_type_")
    for multi in (False, True):
        for ranks in weak_orders(3):
            orc = order_oracle(which, ranks)

            def dec(at, ctx=None):
                r = orc(at)
                if r is not None: return r
                if fin_any(at, "RankInfo::rank") and fin_any(at, "SyncManager::num_ranks_"):
                    if at[0] == "==" and any(const(x) == 1 for x in at[1:]): return not multi
                    if at[0] == "<" and const(at[1]) == 1: return multi
                    if at[0] == "<" and const(at[2]) == 2: return not multi
                return None
            g = CFG(P, f, inline=inline_class("SyncManager"))
            got = []

            def on(n, e, v):
                if n.kind == "call" and last(n.d["q"]) == "insertActivity":
                    ty = [x for k, x in e.items() if isT(k)]
                    got.append((pick(v(n.d["args"][0]), dec), v(n.d["args"][1]), const(ty[0]) if ty else None, n))
            walk(g, dec, on=on)
            R.cfg_used(g)
            key = f"next:{'multi' if multi else 'single'}:{ranks}"
            R.ob("order", key, bool(got) and all(which(t) is not None and ranks[which(t)] == 0 for t, _, _, _ in got),
                 f"with (rank, thread, checkpoint) times ordered as {ranks} the next synchronisation is inserted at {', '.join(show(x[0]) for x in got) or 'no time'}", got[0][3].where() if got else f.where())
            for t, what, ty, n in got:
                R.ob("order", key + ":self", what == ("this",), "what is inserted is not the synchronisation manager", n.where())
                if multi:
                    want = ({rankv} if ranks[0] == 0 or ranks[2] == 0 else set()) | ({threadv} if ranks[1] == 0 else set())
                else:
                    want = ({rankv} if ranks[0] == 0 else set()) | ({threadv} if ranks[1] == 0 or ranks[2] == 0 else set())
                R.ob("order", key + ":type", ty in want, f"with (rank, thread, checkpoint) times ordered as {ranks} the wrong kind of synchronisation is announced", n.where())
    g = CFG(P, f, inline=inline_class("SyncManager"))
    ins = lambda n: n.kind == "call" and last(n.d["q"]) == "insertActivity"
    always(R, "order", "next:inserted", g, ins, "the next synchronisation can stay out of the queue")
    never(R, "order", "next:once", g, ins, "the next synchronisation can be inserted twice", frm=[n for n in g.nodes() if ins(n)])
    f = fn(R, "SST::SyncManager::execute")
    g = CFG(P, f)
    cni = lambda n: n.kind == "call" and last(n.d["q"]) == "computeNextInsert"
    always(R, "order", "execute:next", g, cni, "a synchronisation can end without scheduling the next one")
    never(R, "order", "execute:once", g, cni, "a synchronisation can schedule two successors", frm=[n for n in g.nodes() if cni(n)])
    sync = lambda n: n.kind == "call" and (last(n.d["q"]) in ("execute", "after") and any(x in n.d["q"] for x in ("RankSync::", "ThreadSync::")))
    never(R, "order", "execute:after_sync", g, sync, "the next synchronisation is scheduled before the exchange has determined its time", frm=[n for n in g.nodes() if cni(n)])
    nts = [n for n in g.nodes() if n.kind == "asg" or n.kind == "init"]
    for n in g.nodes():
        if cni(n):
            a = n.d["args"][0] if n.d["args"] else None
            R.ob("order", "execute:checkpoint", a is not None and a[0] == "var" and any(is_term(m.d.get("rhs")) and isval(m.d["rhs"], "check") for m in nts if (m.d.get("lhs") or m.d.get("var")) == a) or
                 a is not None and isval(expand(g.T, a), "check"), "the next checkpoint time does not take part in choosing the next synchronisation", n.where())
    f = fn(R, "SST::SyncManager::finalizeLinkConfigurations")
    par = lambda at, ctx=None: (False if at[0] == "==" and any(const(x) == 1 for x in at[1:]) and fin_any(at, "RankInfo::rank") and False else None)
    for what in ("rank", "thread"):
        g = CFG(P, f, assume=lambda at, ctx=None, what=what: False if at[0] == "==" and any(const(x) == 1 for x in at[1:]) and fin_any(at, "RankInfo::" + what) and fin_any(at, "SyncManager::num_ranks_") else
                True if at[0] == "<" and const(at[1]) == 1 and fin_any(at, "RankInfo::" + what) and fin_any(at, "SyncManager::num_ranks_") else None)
        always(R, "order", "first:" + what, g, cni, f"a run with several {what}s can start without a first synchronisation")


def fin_any(at, name): return any(fin(x, name) for x in at[1:] if isinstance(x, tuple))


def enumval_of(P, f):
    for q, d in P.enums.items():
        m = {n: int(v) for n, v in d["consts"]}
        if "RANK" in m and "THREAD" in m and "yncManager" in q: return m["RANK"], m["THREAD"]
    # unscoped anonymous
    for q, d in P.enums.items():
        m = {n: int(v) for n, v in d["consts"]}
        if "RANK" in m and "THREAD" in m: return m["RANK"], m["THREAD"]
    raise AnalysisError("enumeration of synchronisation kinds not found")


def delivered(R):
    """Events are in their queues before the earliest pending activity is determined: in a rank exchange every receive and every
    delivery precedes the minimum; in a thread synchronisation the queues are emptied, a barrier passed, and only then the next time
    is computed; a rank synchronisation empties the thread queues first and separates each step by a barrier."""
    P = R.prog
    send = lambda n: n.kind == "call" and n.d["q"].endswith("Link::send")
    mn = lambda n: n.kind == "call" and last(n.d["q"]) == "getLocalMinimumNextActivityTime"
    for cls, m in (("RankSyncSerialSkip", "exchange"), ("RankSyncParallelSkip", "exchange_master")):
        f = fn(R, f"SST::{cls}::{m}")
        g = CFG(P, f, inline=inline_class(cls, "RankSync"))
        ms = [n for n in g.nodes() if mn(n)]
        R.ob("delivered", f"{cls}:min", bool(ms), "an exchange does not determine the earliest pending activity", f.where())
        never(R, "delivered", f"{cls}:sends", g, lambda n: send(n) or n.kind == "call" and n.d["q"] in ("MPI_Recv", "MPI_Irecv"), "events are received or delivered after the earliest pending activity was determined", frm=ms)
        if cls.endswith("ParallelSkip"):
            w = lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait") and n.d["obj"] is not None and is_field(n.d["obj"], cls + "::slaveExchangeDoneBarrier")
            never(R, "delivered", f"{cls}:all_threads", g, mn, "the earliest pending activity is determined before every thread has delivered its events", avoid=w)
            fs = fn(R, f"SST::{cls}::exchange_slave")
            gs = CFG(P, fs, inline=inline_class(cls, "RankSync"))
            never(R, "delivered", f"{cls}:slave", gs, send, "a thread delivers events after telling the others it is done", frm=[n for n in gs.nodes() if w(n)])
            always(R, "delivered", f"{cls}:slave_done", gs, w, "a thread can leave the exchange without telling the others it is done")
    f = fn(R, "SST::ThreadSyncSimpleSkip::execute")
    g = CFG(P, f, inline=lambda h, e, c: False)
    seq(R, "thread", g, [("before", lambda n: n.kind == "call" and last(n.d["q"]) == "before"), ("barrier", lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait")),
                         ("after", lambda n: n.kind == "call" and last(n.d["q"]) == "after")])
    b = lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait")
    never(R, "delivered", "thread:arrive", g, lambda n: n.kind == "call" and last(n.d["q"]) == "before", "thread queues are emptied before every thread has stopped sending", avoid=b)
    never(R, "delivered", "thread:leave", g, lambda n: n is g.exit, "a thread continues before every thread has determined its next synchronisation", frm=[n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "after"], avoid=b)
    f = fn(R, "SST::SyncManager::execute")
    ty = enumval_of(P, f)[0]
    g = CFG(P, f, assume=lambda at, ctx=None: at_type(at, ty))
    c = lambda nm, own: (lambda n: n.kind == "call" and last(n.d["q"]) == nm and own in n.d["q"])
    seq(R, "rank", g, [("arrive", b), ("thread queues", c("before", "ThreadSync")), ("barrier", b), ("rank exchange", c("execute", "RankSync")), ("barrier after", b), ("thread time", c("after", "ThreadSync"))])


def at_type(at, v):
    if at[0] == "==" and any(is_field(x, "SyncManager::next_sync_type_") for x in at[1:]):
        k = [const(x) for x in at[1:] if const(x) is not None]
        if k: return k[0] == v
    return None


def seq(R, who, g, steps):
    """every step happens; the steps other than barriers come in order; and between two of them lies the barrier named between them"""
    for a, pa in steps: always(R, "delivered", f"{who}:{a}", g, pa, f"{who} synchronisation: {a} can be left out")
    work = [s for s in steps if "barrier" not in s[0] and s[0] != "arrive"]
    for (a, pa), (b, pb) in zip(work, work[1:]):
        never(R, "delivered", f"{who}:{a}<{b}", g, pb, f"{who} synchronisation: {b} can come before {a}", avoid=pa)
    for (a, pa), (x, px), (b, pb) in zip(steps, steps[1:], steps[2:]):
        if "barrier" in x: never(R, "delivered", f"{who}:{a}|{b}", g, pb, f"{who} synchronisation: no barrier between {a} and {b}", frm=[n for n in g.nodes() if pa(n)], avoid=px)
    if steps[0][0] == "arrive": never(R, "delivered", f"{who}:arrive", g, steps[1][1], f"{who} synchronisation: {steps[1][0]} can come before all threads have arrived", avoid=steps[0][1])


CLAUSES = [lookahead, horizon, order, delivered]
