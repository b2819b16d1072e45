"""P14: links after a restart."""
from sa.q import *
from rules.p11 import label, helper_inline, noctx, mode_assume, S
import re

PROP = dict(
    title="After a restart every link joins the same ports and has its pending events",
    statement="The two halves of a link find each other again after a restart, whatever the new number of ranks and threads: in one partition they become one pair, across "
              "partitions each half is registered with the synchronisation of its partition and connected to the right partition. Each half has its handler or polling queue, "
              "its latency in each direction, and exactly the events that were under way to it when the checkpoint was taken. A link that finds no other half stops the restart.",
    over=["inputs", "configurations", "histories"], text="all link topologies, checkpoint times, and all partitions before and after the restart",
    why="Tests restart small graphs on few partitions. Links that change between local and cross-partition, polling links, added latencies and long lists of links that are "
        "matched over several steps are where a wrong connection or a lost event hides.",
    files=["src/sst/core/link.cc", "src/sst/core/simulation.cc", "src/sst/core/componentInfo.cc", "src/sst/core/event.h", "src/sst/core/linkMap.h"],
    mech=[("serialize_impl<Link*>", "src/sst/core/link.cc"), ("serialize_events, TimeVortexSort", "src/sst/core/simulation.cc"), ("Simulation::discoverRemoteLinks", "src/sst/core/simulation.cc"),
          ("ComponentInfo::serialize_comp", "src/sst/core/componentInfo.cc"), ("Simulation::restart", "src/sst/core/simulation.cc")],
    technique="path obligations on the pruned control-flow graphs of each kind of link, case-by-case abstract evaluation of the matching of the link lists and of the event order")

TUS = ["link.cc", "simulation.cc", "componentInfo.cc"]
REG, SELF, SYNC = 1, 2, 3


def fin(t, *names): return any(fmatch(x, n) for n in names for x in list(fields_in(t)) + list(globs_in(t)))
def isf(t, *path):
    """t is X.path[0].path[1]... for some X"""
    for p in reversed(path):
        if t[0] != "mem" or last(t[2]) != p: return False
        t = t[1]
        while t[0] == "deref": t = t[1]
    return True


def pair(t, name): return isf(t, "pair_link", name)
def own(t, name): return isf(t, name) and not isf(t, "pair_link", name)


def kind_var(g):
    """the local that holds the kind of the link: the first value that is serialised"""
    st, seen = [g.entry], set()
    while st:
        n = st.pop(0)
        if n.nid in seen: continue
        seen.add(n.nid)
        if n.kind == "call" and (l := label(n)) is not None and l[0] == "o": return n.d["args"][1]
        st.extend(s for s, _, _ in n.succ)
    raise AnalysisError("kind of a link not found")


def linkser(R):
    f = [f for f in R.prog.funcs.values() if f.q == S + "serialize_impl<SST::Link *, void>::operator()"]
    return R.need(f, "serialize_impl<Link*>")[0]


def inl(f, e, ctx): return helper_inline(f, e, ctx) and last(f.q) not in ("serialize_events", "getRankForLinkOnRestart")


def unpack(R, kind, known=None, sync=None, poll=None, mode="UNPACK"):
    f = linkser(R)
    g0 = CFG(R.prog, f, inline=inl, assume=mode_assume(mode))
    kv = noctx(kind_var(g0))

    def more(at):
        xs = [noctx(x) for x in at[1:] if is_term(x)]
        if kv in xs:
            if at[0] in ("nz", "pos"): return kind != 0
            c = [const(x) for x in xs if const(x) is not None]
            if at[0] == "==" and c: return c[0] == kind
            if at[0] == "<" and c: return kind < c[0] if xs[0] == kv else c[0] < kind
        if known is not None and any(x[0] == "call" and last(x[1]) in ("count", "find", "contains", "end", "size") and x[2] is not None and fin(x[2], "link_restart_tracking") for t in xs for x in subterms(t)):
            if at[0] in ("nz", "pos"): return known
            if at[0] == "==": return not known
        if sync is not None:
            if at[0] in ("nz", "pos") and xs and xs[0][0] == "bin": return truthval(xs[0], lambda a, c=None: more(a))
            kept, rd, td = sync if isinstance(sync, tuple) else (True, sync, sync)
            if any(fin(x, "is_restart_same_parallelism") for x in xs): return kept if at[0] in ("nz", "pos") else None
            if at[0] == "==" and all(x[0] == "mem" and last(x[2]) in ("rank", "thread") for x in xs) and len({last(x[2]) for x in xs}) == 1: return not (rd if last(xs[0][2]) == "rank" else td)
            if at[0] == "==" and any(fin(x, "my_rank") or has_call(x, "getRank") for x in xs) and not any(const(x) is not None or "UNASSIGNED" in show(x) for x in xs): return not (rd or td)
            if at[0] in ("==", "!=") and any(fin(x, "my_rank", "pair_restart_rank") or has_call(x, "getRank") for x in xs) and not any(const(x) is not None or "UNASSIGNED" in show(x) for x in xs): return not (rd or td)
        if poll is not None and at[0] == "==" and any(own(x, "type") for x in xs) and any("POLL" in show(x) for x in xs): return poll
        return None
    g = CFG(R.prog, f, inline=inl, assume=mode_assume(mode, None, more))
    R.cfg_used(g)
    return f, g


TR = "link_restart_tracking"


def halves(R):
    """The first half of a link that is restored in a partition creates the pair and leaves its other half to be found under the
    link's id; the second half takes it from there; a link to itself is its own pair."""
    trk = lambda t: fin(t, TR)
    isS = lambda f, t: param_idx(f, t) == 0
    for kind in (REG, SYNC):
        for known in (False, True):
            for sync in (False, True):
                f, g = unpack(R, kind, known, sync)
                who = f"{'local' if kind == REG else 'cross-partition'}:{'second' if known else 'first'}{':stays apart' if sync else ''}"
                mk = lambda n: n.kind in ("ctor",) and last(n.d["q"]) == "LinkPair" or n.kind == "init" and "LinkPair" in n.d.get("type", "") or n.kind == "new" and "LinkPair" in n.d["type"]
                ex = lambda n: n.kind == "exit"
                key = [noctx(n.d["lhs"][2]) for n in g.nodes() if n.kind == "asg" and n.d["lhs"][0] == "idx" and trk(n.d["lhs"])] + \
                      [noctx(n.d["rhs"][2]) for n in g.nodes() if n.kind == "asg" and n.d["rhs"][0] == "idx" and trk(n.d["rhs"])] + \
                      [noctx(n.d["args"][0]) for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("erase", "count", "find", "contains", "at", "emplace", "insert") and n.d["obj"] is not None and trk(n.d["obj"]) and n.d["args"] and is_term(n.d["args"][0])]
                ids = [noctx(n.d["args"][1]) for n in g.nodes() if n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and noctx(n.d["args"][1]) in key]
                R.ob("halves", who + ":id", bool(key) and len({k for k in key if k[0] == "var"}) <= 1 and bool(ids), "links are not matched by the id that was saved", f.where())
                if known and not sync:
                    take = lambda n: n.kind == "asg" and isS(f, n.d["lhs"]) and trk(expand(g.T, n.d["rhs"]))
                    drop = lambda n: n.kind == "call" and last(n.d["q"]) in ("erase", "extract") and n.d["obj"] is not None and trk(n.d["obj"])
                    always(R, "halves", who + ":joined", g, take, "the second half of a link is not the one the first half created")
                    always(R, "halves", who + ":taken", g, drop, "a half that was taken can be found again")
                    never(R, "halves", who + ":order", g, lambda n: take(n), "the half is removed before it is taken", frm=[n for n in g.nodes() if drop(n)])
                    R.ob("halves", who + ":same", not any(mk(n) for n in g.nodes()), "a second pair is created for a link", f.where())
                else:
                    put = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and trk(n.d["lhs"]) and isf(noctx(n.d["rhs"]), "pair_link") or n.kind == "call" and last(n.d["q"]) in ("emplace", "insert", "insert_or_assign", "try_emplace") and n.d["obj"] is not None and trk(n.d["obj"]) and any(isf(noctx(x), "pair_link") for a in n.d["args"] if is_term(a) for x in subterms(a))
                    always(R, "halves", who + ":created", g, mk, "no pair is created for the first half")
                    always(R, "halves", who + ":left", g, put, "the other half of a new pair is not left to be found")
                    zero = lambda w: lambda n: n.kind == "call" and last(n.d["q"]) == "setLatency" and const(n.d["args"][0]) == 0 and (isf(n.d["obj"], "pair_link") if w == "pair" else not isf(n.d["obj"], "pair_link")) or n.kind == "asg" and n.d["op"] == "=" and const(n.d["rhs"]) == 0 and (pair if w == "pair" else own)(n.d["lhs"], "latency")
                    for w in ("own", "pair"): always(R, "halves", f"{who}:latency:{w}", g, zero(w), "the latency of a new pair does not start from zero")
    f, g = unpack(R, SELF)
    always(R, "halves", "self", g, lambda n: n.kind == "asg" and isS(f, n.d["lhs"]) and any("SelfLink" in str(x) for x in subterms(expand(g.T, n.d["rhs"]))), "a link to itself is restored as another kind")
    R.ob("halves", "self:alone", not any(n.kind in ("asg", "call") and trk(n.d.get("lhs") or n.d.get("obj") or ("none",)) for n in g.nodes()), "a link to itself waits for another half", f.where())
    f, g = unpack(R, 0)
    always(R, "halves", "null", g, lambda n: n.kind == "asg" and isS(f, n.d["lhs"]) and const(n.d["rhs"]) == 0, "a null link is not restored as null")


def contents(R):
    """A restored half receives through its own handler or polling queue; its latencies are those saved, added up over both halves;
    its pending events are delivered to where it receives."""
    sev = lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_events"
    ser = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] in ("o", "c")
    for kind in (REG, SELF, SYNC):
        for poll in (False, True):
            f, g = unpack(R, kind, None, None, poll)
            who = f"{ {1: 'local', 2: 'self', 3: 'cross-partition'}[kind] }:{'polling' if poll else 'handler'}"
            q = lambda n: n.kind == "asg" and pair(n.d["lhs"], "send_queue")
            di = lambda n: n.kind == "asg" and pair(n.d["lhs"], "delivery_info")
            never(R, "contents", who + ":queue", g, sev, "events are restored before the queue that they go to", avoid=q)
            if poll:
                good = lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_order" and any(n.d["obj"] is not None and noctx(n.d["obj"]) == noctx(m.d["rhs"]) or expand(g.T, n.d["obj"]) == expand(g.T, m.d["rhs"]) for m in g.nodes() if q(m))
                always(R, "contents", who + ":polled", g, good, "the events of a polling link are not those that were saved")
            else:
                hid = {noctx(n.d["args"][1]) for n in g.nodes() if ser(n) and label(n)[0] == "o" and len(n.d["args"]) > 1}
                trh = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and fin(n.d["lhs"], "event_handler_restart_tracking") and noctx(n.d["lhs"][2]) in hid and (pair(n.d["rhs"], "delivery_info") or any(di(m) and m.d["rhs"] == n.d["rhs"] for m in g.nodes())) \
                    or n.kind == "call" and last(n.d["q"]) in ("emplace", "insert", "insert_or_assign") and n.d["obj"] is not None and fin(n.d["obj"], "event_handler_restart_tracking")
                always(R, "contents", who + ":handler:known", g, trh, "the new handler is not known under its old name")
                never(R, "contents", who + ":handler", g, sev, "events are restored before the handler that they go to", avoid=di)
                hv = {noctx(n.d["args"][1]) for n in g.nodes() if ser(n) and label(n)[0] == "o" and len(n.d["args"]) > 1}
                for n in g.nodes():
                    if di(n): R.ob("contents", who + ":handler:saved", any(noctx(x) in hv for x in subterms(n.d["rhs"])), "the handler is not the one that was saved", n.where())
                    if q(n): R.ob("contents", who + ":vortex", fin(n.d["rhs"], "timeVortex") or has_call(n.d["rhs"], "getTimeVortex"), "a link with a handler does not deliver into the time vortex", n.where())
            for n in g.nodes():
                if sev(n):
                    a = n.d["args"]
                    R.ob("contents", who + ":events", len(a) >= 3 and pair(a[1], "delivery_info") and pair(a[2], "send_queue"), "events are not restored to where the link receives", n.where())
            always(R, "contents", who + ":restored", g, sev, "the events under way to a link are not restored")
            add = lambda w: lambda n: n.kind == "asg" and (pair if w == "pair" else own)(n.d["lhs"], "latency") and (n.d["op"] == "+=" or n.d["op"] == "=" and any(noctx(x) == noctx(n.d["lhs"]) for x in subterms(n.d["rhs"])) and sum_like(n.d["rhs"]))
            always(R, "contents", who + ":latency", g, add("own"), "the latency is not restored")
            anyl = lambda n: n.kind == "asg" and (pair(n.d["lhs"], "latency") or own(n.d["lhs"], "latency"))
            zero = lambda n: const(n.d["rhs"]) == 0
            R.ob("contents", who + ":latency:adds", all(add("own")(n) or add("pair")(n) or zero(n) for n in g.nodes() if anyl(n)), "a latency that the other half restored is lost", f.where())
            if kind == SYNC: always(R, "contents", who + ":latency:pair", g, add("pair"), "the latency of the receiving direction is not restored")
            else: never(R, "contents", who + ":latency:pair", g, add("pair"), "the latency of the other direction is counted twice")
            for n in g.nodes():
                if add("own")(n) or add("pair")(n):
                    # the value was read just before
                    v = [noctx(x) for x in subterms(n.d["rhs"]) if x[0] == "var"]
                    rd = lambda m: ser(m) and label(m)[0] == "o" and noctx(m.d["args"][1]) in v
                    use = lambda m: add("own")(m) or add("pair")(m)
                    p = g.search([g.entry] + [s for m in g.nodes() if use(m) for s, _, _ in m.succ], lambda m: m is n, avoid=rd)
                    R.ob("contents", who + ":latency:read", p is None, "a latency is restored from a value that was not read for it", n.where())
    # what is saved
    for kind in (REG, SELF, SYNC):
        f = linkser(R)
        g = CFG(R.prog, f, inline=inl, assume=mode_assume("PACK"))
        R.cfg_used(g)
        lat = lambda w: lambda n: ser(n) and label(n)[0] == "o" and (pair if w == "pair" else own)(n.d["args"][1], "latency")
        null = lambda n, s, c, p: True
        R.ob("contents", "saved:latency", any(lat("own")(n) for n in g.nodes()) and any(lat("pair")(n) for n in g.nodes()), "a latency is not saved", f.where())
        for n in g.nodes():
            if sev(n): R.ob("contents", "saved:events", pair(n.d["args"][1], "delivery_info"), "the events of another handler are saved", n.where())
        kinds(R, f, g)


def sum_like(t): return t[0] == "bin" and t[1] == "+"


def kinds(R, f, g):
    """the kind that is saved: own pair -> self, pair of type SYNC -> cross-partition, else local"""
    kv = noctx(kind_var(g))
    for case, want in (("self", SELF), ("sync", SYNC), ("reg", REG), ("null", 0)):
        def dec(at, ctx=None, case=case):
            xs = [noctx(x) for x in at[1:] if is_term(x)]
            if at[0] == "==" and any(isf(x, "pair_link") for x in xs): return case == "self"
            if at[0] == "==" and any(param_idx(f, x) == 0 for x in xs): return case == "null"
            if at[0] in ("nz", "pos") and any(param_idx(f, x) == 0 for x in xs): return case != "null"
            if at[0] == "==" and any(isf(x, "pair_link", "type") for x in xs) and "SYNC" in show(("bin", "==", xs[0], xs[1])): return case == "sync"
            return None
        got = set()
        gk = CFG(R.prog, f, inline=inl, assume=lambda at, ctx=None: mode_assume("PACK")(at, ctx) if mode_assume("PACK")(at, ctx) is not None else dec(at))
        last_set = {}
        st, seen = [(gk.entry, None)], set()
        while st:
            n, v = st.pop()
            if (n.nid, v) in seen: continue
            seen.add((n.nid, v))
            if n.kind in ("asg", "init") and noctx(n.d.get("lhs") or n.d.get("var")) == kv and n.d.get("rhs") is not None: v = const(pick(expand(gk.T, n.d["rhs"]), dec))
            if n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and noctx(n.d["args"][1]) == kv:
                got.add(v)
                continue
            st.extend((s, v) for s, _, _ in n.succ)
        R.ob("contents", f"kind:{case}", got == {want}, f"a {case} link is saved as {sorted(map(str, got))}", f.where())


def apart(R):
    """A half whose other half is in another partition is registered with the synchronisation under its own id, sends to the queue
    it is given, and is a synchronisation link; a half that shares its partition is not registered."""
    for known in (False, True):
        f, g = unpack(R, SYNC, known, True)
        reg = lambda n: n.kind == "call" and last(n.d["q"]) == "registerLink"
        always(R, "apart", "registered", g, reg, "a link across partitions is not registered with the synchronisation")
        sq = lambda n: n.kind == "asg" and own(n.d["lhs"], "send_queue") and has_call(expand(g.T, n.d["rhs"]), "registerLink")
        always(R, "apart", "queue", g, sq, "a link across partitions does not send to the synchronisation")
        for n in g.nodes():
            if reg(n):
                R.ob("apart", "half", isf(n.d["args"][2], "pair_link"), "the wrong half is registered with the synchronisation", n.where())
                R.ob("apart", "ranks", "pair" in show(n.d["args"][0]) and "pair" not in show(n.d["args"][1]), "the link is registered for the wrong partitions", n.where())
        for fld in ("type", "id", "mode", "tag"):
            st = lambda n, fld=fld: n.kind == "asg" and pair(n.d["lhs"], fld)
            never(R, "apart", "pair:" + fld, g, reg, f"the {fld} of the registered half is not set", avoid=st) if fld in ("type", "id") else always(R, "apart", "pair:" + fld, g, st, f"the {fld} of the registered half is not set")
            for n in g.nodes():
                if st(n) and fld == "type": R.ob("apart", "pair:type:value", "SYNC" in show(n.d["rhs"]), "the registered half is not a synchronisation link", n.where())
                if st(n) and fld == "id": R.ob("apart", "pair:id:value", has_call(n.d["rhs"], "getId") or own(n.d["rhs"], "id") or noctx(n.d["rhs"])[0] == "var", "the registered half has another id", n.where())
    for kind in (REG, SYNC):
        f, g = unpack(R, kind, None, False)
        reg = lambda n: n.kind == "call" and last(n.d["q"]) == "registerLink"
        never(R, "apart", f"together:{kind}", g, reg, "a link within a partition is registered with the synchronisation")
        for nm, s in (("rank", (True, True, False)), ("thread", (True, False, True))):
            f, g = unpack(R, kind, None, s)
            always(R, "apart", f"decision:{kind}:{nm}", g, reg, f"a link to another {nm} is not registered with the synchronisation")
        f, g = unpack(R, kind, None, (False, True, True))
        never(R, "apart", f"decision:{kind}:remapped", g, reg, "a link is taken for one across partitions by the partitions of the checkpoint although these have changed")
        # the partition of the other half
        def una(at, u):
            xs = [x for x in at[1:] if is_term(x)]
            if at[0] == "==" and any("UNASSIGNED" in show(x) or const(x) in (-1, 4294967295) for x in xs): return u
            return None
        base = unpack(R, kind, None, None)
        f, g = base
        sets = [(noctx(n.d["var"]) if n.kind == "init" else noctx(n.d["lhs"]) if n.kind == "asg" else noctx(n.d["obj"]), n.d["rhs"] if n.kind != "call" else n.d["args"][0], n) for n in g.nodes()
                if n.kind in ("init", "asg") and n.d.get("rhs") is not None or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None]
        rs = [(v, t, n) for v, t, n in sets if has_call(t, "getRankForLinkOnRestart")]
        R.ob("apart", f"partition:{kind}", bool(rs), "the partition of the other half is not determined", f.where())
        if not rs: continue
        pv, _, n0 = rs[0]
        types = {noctx(n.d["var"]): n.d.get("type", "") for n in g.nodes() if n.kind in ("init", "decl") and n.d.get("var")}
        saved = {noctx(n.d["args"][1]) for n in g.nodes() if n.kind == "call" and (l := label(n)) is not None and l[0] == "o"}
        R.ob("apart", f"partition:{kind}:saved", any(noctx(y) in saved and "RankInfo" in types.get(noctx(y), "RankInfo") or kind == REG and any(v2 == noctx(y) and noctx(t2) in saved for v2, t2, _ in sets) for v, t, n in rs for x in subterms(t) if x[0] == "call" and last(x[1]) == "getRankForLinkOnRestart" for y in x[3]), "the partition of the other half is not the one that was saved", n0.where())
        kept = [noctx(t) for v, t, n in sets if v == pv and n.kind != "init" and not has_call(t, "getRankForLinkOnRestart") and not (t[0] == "ctor" and not t[2])]
        arg = [noctx(y) for v, t, n in rs for x in subterms(t) if x[0] == "call" and last(x[1]) == "getRankForLinkOnRestart" for y in x[3]]
        R.ob("apart", f"partition:{kind}:kept", bool(kept) and all(t in arg for t in kept), "where partitions are kept, the partition of the other half is not the one that was saved", n0.where())


def pending(R):
    """The events that are saved with a link are exactly those in the time vortex for its handler; each is restored with the new
    handler into the link's queue."""
    P = R.prog
    f = R.need([h for h in P.funcs.values() if h.q == S + "serialize_impl<SST::Link *, void>::serialize_events"], "serialize_events")[0]
    for m in ("SIZER", "PACK"):
        g = CFG(P, f, assume=mode_assume(m))
        R.cfg_used(g)
        src = lambda t: has_call(expand(g.T, t), "getEventsForHandler")
        call = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "getEventsForHandler"]
        R.ob("pending", f"{m}:of", bool(call) and all(param_idx(f, n.d["args"][0]) == 1 for n in call), "the events of another handler are saved", f.where())
        sv = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and any(x[0] == "deref" for x in subterms(n.d["args"][1])) 
        for_each(R, "pending", f"{m}:each", g, lambda t: src(t) or any(x[0] == "mem" and last(x[2]) == "second" for x in subterms(t)) or any(x == ("more",) for x in subterms(t)) or "more" in show(t) or any(x[0] == "var" for x in subterms(t)), sv, "an event is not saved")
        cnt = [n for n in g.nodes() if n.kind in ("init", "asg") and n.d.get("rhs") is not None and any(x[0] == "call" and last(x[1]) in ("distance", "operator-", "size") or x[0] == "bin" and x[1] == "-" for x in subterms(n.d["rhs"])) and src(n.d["rhs"])]
        R.ob("pending", f"{m}:count", any(noctx(k.d["args"][1]) == noctx(c.d.get("var") or c.d["lhs"]) for c in cnt for k in g.nodes() if k.kind == "call" and (l := label(k)) is not None and l[0] == "o"), "the number of events is not saved", f.where())
        its = [n for n in g.nodes() if n.kind == "init" and any(x[0] == "mem" and last(x[2]) in ("first", "second") for x in subterms(n.d.get("rhs") or ("none",)))]
        for n in its:
            if "iterator" in n.d.get("type", "") and any(sv(k) and n.d["var"] in list(subterms(k.d["args"][1])) for k in g.nodes()): R.ob("pending", f"{m}:from", any(x[0] == "mem" and last(x[2]) == "first" for x in subterms(n.d["rhs"])), "events are not saved from the first one on", n.where())
    g = CFG(P, f, assume=mode_assume("UNPACK"))
    R.cfg_used(g)
    evs = {noctx(n.d["args"][1]) for n in g.nodes() if n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and l[1] == "pointer"}
    R.ob("pending", "restored:read", bool(evs), "events are not restored", f.where())
    upd = lambda n: (n.kind == "call" and last(n.d["q"]) in ("updateEventDeliveryInfo", "updateDeliveryInfo", "setDeliveryInfo") and any(param_idx(f, a) == 1 for a in n.d["args"] if is_term(a))) or n.kind == "asg" and isf(n.d["lhs"], "delivery_info") and param_idx(f, n.d["rhs"]) == 1
    ins = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 2
    rd = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and l[1] == "pointer"
    always(R, "pending", "restored:inserted", g, ins, "an event that was read is not put into the queue", frm=[n for n in g.nodes() if rd(n)])
    never(R, "pending", "restored:handler", g, ins, "an event is restored with its old handler", frm=[n for n in g.nodes() if rd(n)], avoid=upd)
    for n in g.nodes():
        if ins(n): R.ob("pending", "restored:event", noctx(n.d["args"][0]) in evs, "another event is put into the queue", n.where())
    p = g.search([s for n in g.nodes() if ins(n) for s, _, _ in n.succ], ins, avoid=rd)
    R.ob("pending", "restored:once", p is None, "an event is put into the queue twice", f.where())
    h = R.need(P.find("SST::Event::updateDeliveryInfo", False), "Event::updateDeliveryInfo")[0]
    gh = CFG(P, h)
    always(R, "pending", "restored:set", gh, lambda n: n.kind == "asg" and isf(n.d["lhs"], "delivery_info") and param_idx(h, n.d["rhs"]) == 0, "the handler of an event is not replaced")
    h = R.need(P.find("SST::Simulation::getEventsForHandler", False), "Simulation::getEventsForHandler")[0]
    gh = CFG(P, h)
    R.ob("pending", "forwarded", any(n.kind == "call" and last(n.d["q"]) == "getEventsForHandler" and param_idx(h, n.d["args"][0]) == 0 and fin(n.d["obj"], "tv_sort_") for n in gh.nodes()), "the events of another handler are looked up", h.where())
    # the range of a handler
    h = R.need(P.find("SST::pvt::TimeVortexSort::getEventsForHandler", False), "TimeVortexSort::getEventsForHandler")[0]
    gh = CFG(P, h, terms=Terms(P, keep=True))
    R.cfg_used(gh)
    lb = [n for n in gh.nodes() if n.kind == "call" and last(n.d["q"]) in ("lower_bound", "equal_range", "partition_point", "find_if")]
    R.ob("pending", "range:start", bool(lb) and any(has_call(a, "begin") for n in lb for a in n.d["args"] if is_term(a)), "the events of a handler are not searched from the first event on", h.where())
    same = lambda at, pol, node: at[0] == "==" and pol and any(param_idx(h, x) == 0 for x in at[1:]) and any(has_call(x, "getDeliveryInfo") or fin(x, "delivery_info") for x in at[1:])
    inc = lambda n: n.kind == "call" and last(n.d["q"]) == "operator++" or n.kind == "asg" and n.d["op"] == "++"
    lbv = lambda t: any(x[0] == "call" and last(x[1]) == "lower_bound" for x in subterms(expand(gh.T, t)))
    if any(last(n.d["q"]) == "lower_bound" for n in lb) and any(inc(n) for n in gh.nodes()):
        guarded(R, "pending", "range:handler", gh, inc, same, "events of another handler are included")
        for hd, body, leave, L in loop_heads(gh):
            if not any(inc(n) and n.nid in L for n in gh.nodes()): continue
            # the loop stops only at the end or at another handler
            bad = []
            for n in gh.nodes():
                if n.nid not in L: continue
                for s, c, p in n.succ:
                    if s.nid in L or c is None or not is_term(c): continue
                    at, pol = norm_cond(c, p)
                    stop = at[0] == "==" and not pol and any(param_idx(h, x) == 0 for x in at[1:]) or any(fin(x, "action_start") or has_call(x, "end") for x in at[1:] if is_term(x))
                    if not stop: bad.append(n)
            R.ob("pending", "range:all", not bad, "the events of a handler are cut short", h.where())
    for n in lb:
        v = [expand(gh.T, a) for a in n.d["args"] if is_term(a)]
        R.ob("pending", "range:key", any(param_idx(h, x) == 0 for t in v for x in subterms(t)) or any(t[0] in ("new", "var") and "CompEvent" in str(t) for t in v) and any(m.kind in ("ctor", "new") and "DeliveryInfoCompEvent" in str(m.d) and "handler" in str(m.d) for m in gh.nodes()), "the events of another handler are searched", n.where())
        R.ob("pending", "range:order", any("TimeVortexSort::less" in str(t) for t in v), "the events are searched in another order than they are sorted in", n.where())
    h = R.need(P.find("SST::pvt::TimeVortexSort::sortData", False), "sortData")[0]
    gh = CFG(P, h)
    R.cfg_used(gh)
    so = [n for n in gh.nodes() if n.kind == "call" and last(n.d["q"]) in ("sort", "stable_sort")]
    R.ob("pending", "sorted", bool(so) and all(has_call(n.d["args"][0], "begin") and has_call(n.d["args"][1], "end") and any("TimeVortexSort::less" in str(a) for a in n.d["args"]) for n in so), "the events are not sorted as they are searched", h.where())
    st = lambda n: n.kind in ("asg", "call") and fin(n.d.get("lhs") or n.d.get("obj") or ("none",), "action_start") and (n.kind == "asg" or last(n.d["q"]) == "operator=")
    never(R, "pending", "sorted:first", gh, st, "the end of the events is determined before they are sorted", avoid=lambda n: n in so)
    always(R, "pending", "sorted:end", gh, st, "the end of the events is not determined")
    # the order
    h = R.need(P.find("SST::Event::less::operator()", False), "Event::less")[0]
    for r, want in (("<", True), (">", False), ("=", "rest")):
        def dec(at, ctx=None, r=r):
            xs = at[1:]
            if not all(is_term(x) and fin(x, "delivery_info") for x in xs) or len(xs) != 2: return None
            if at[0] == "==": return r == "="
            if at[0] == "<":
                l = param_idx(h, next((y for y in subterms(xs[0]) if y[0] == "param"), ("none",)))
                return r == ("<" if l == 0 else ">")
            return None
        got = set()
        gl = CFG(P, h)
        R.cfg_used(gl)
        walk(gl, dec, on=lambda n, e, v: got.add((lambda t: "rest" if has_call(t, "Activity::less::operator()") or "less" in show(t) else t)(truthval(v(n.d["val"]), dec) if truthval(v(n.d["val"]), dec) is not None else v(n.d["val"]))) if n.kind == "ret" else None)
        R.ob("pending", f"order:handler{r}", got == {want}, f"two events are ordered as {[str(x)[:60] for x in got]} where the handler of the first is {r} that of the second", h.where())
    h = R.need(P.find("SST::pvt::TimeVortexSort::less::operator()", False), "TimeVortexSort::less")[0]
    for a in ("event", "action"):
        for b in ("event", "action"):
            def dec(at, ctx=None, a=a, b=b):
                for x in at[1:]:
                    if x[0] == "call" and last(x[1]) in ("isEvent", "isAction") and at[0] in ("nz", "pos"):
                        w = a if param_idx(h, x[2]) == 0 else b
                        return (last(x[1]) == "isEvent") == (w == "event")
                return None
            got = set()
            gl = CFG(P, h)
            R.cfg_used(gl)
            walk(gl, dec, on=lambda n, e, v: got.add((lambda t: t if isinstance(t, bool) else "Event::less" if has_call(t, "Event::less::operator()") else "Activity::less")(truthval(v(n.d["val"]), dec) if truthval(v(n.d["val"]), dec) is not None else v(n.d["val"]))) if n.kind == "ret" else None)
            want = {("event", "event"): "Event::less", ("action", "action"): "Activity::less", ("event", "action"): True, ("action", "event"): False}[a, b]
            R.ob("pending", f"order:{a}:{b}", got == {want}, f"{a} and {b} are ordered by {got}", h.where())


def remote(R):
    """The lists of unmatched links go round all partitions; where an id is in the own list and in a received one, the link is
    registered with that partition and leaves both lists; every other id stays in its list; links that are left over are an error."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::discoverRemoteLinks", False), "discoverRemoteLinks")[0]
    g = CFG(P, f, inline=lambda h, e, c: h.d.get("cls") == "SST::Simulation" and last(h.q) not in ("discoverRemoteLinksMoveData",) and len(h.params) > 0)
    R.cfg_used(g)
    mv = lambda n: n.kind == "call" and last(n.d["q"]) == "discoverRemoteLinksMoveData"
    heads = loop_heads(g)
    outer = [(h, b, l, L) for h, b, l, L in heads if any(mv(n) and n.nid in L for n in g.nodes())]
    R.need(outer, "loop over the partitions")
    h, body, leave, L = outer[0]
    reg = lambda n: n.kind == "call" and last(n.d["q"]) == "registerLink"
    # number of rounds
    at = [norm_cond(c, True)[0] for _, c, _ in h.succ if c is not None and is_term(c)]
    ok = False
    for a in at:
        if a[0] == "<" and a[1][0] == "var":
            t = expand(g.T, a[2])
            ini = [n.d["rhs"] for n in g.nodes() if n.kind in ("init", "asg") and (n.d.get("var") or n.d.get("lhs")) == a[1] and n.d.get("op", "=") == "="]
            full = "*" in show(t) and fin(t, "rank") and fin(t, "thread")
            minus = any(const(x) == -1 for x, in [(y,) for y in []]) or show(t).replace(" ", "").endswith("-1)")
            ok = full and all(const(x) is not None and (const(x) <= (0 if minus else 1)) for x in ini) and bool(ini)
    R.ob("remote", "rounds", ok, "the lists of links do not reach every partition", h.where())
    p = g.search(body, lambda m: m is h, avoid=mv, edge=lambda a, s, c, q: s.nid in L)
    R.ob("remote", "moved", p is None, "the lists of links are not passed on in each round", h.where())
    # the matching loop
    inner = [(x, b, l, M) for x, b, l, M in heads if x is not h and x.nid in L and any(reg(n) and n.nid in M for n in g.nodes())]
    R.need(inner, "loop that matches the links")
    x, b, l, M = inner[0]
    steps = lambda n: n.kind == "call" and last(n.d["q"]) == "operator++" and n.d["obj"] is not None or n.kind == "asg" and n.d["op"] == "++"
    itv = lambda n: noctx(n.d["obj"] if n.kind == "call" else n.d["lhs"])
    its = {}                       # iterator -> list
    for n in g.nodes():
        if n.kind == "init" and n.d.get("rhs") is not None and n.d["rhs"][0] == "call" and last(n.d["rhs"][1]) == "begin" and n.d["rhs"][2] is not None: its[noctx(n.d["var"])] = noctx(n.d["rhs"][2])
    def classify(side):
        pass
    reads = set()                 # iterators whose ids are compared
    def first(t, T):
        for t in (t, expand(T, t)):
            for y in subterms(t):
                if y[0] == "mem" and last(y[2]) == "first":
                    for z in subterms(y):
                        if noctx(z) in its: return noctx(z)
        return None
    for n in g.nodes():
        if n.nid not in M: continue
        for s, c, q in n.succ:
            if c is None or not is_term(c): continue
            a, _ = norm_cond(c, True)
            if a[0] in ("==", "<") and len(a) == 3:
                i, j = first(a[1], g.T), first(a[2], g.T)
                if i and j and i != j: reads |= {i, j}
    R.ob("remote", "compared", len(reads) == 2 and len({its[i] for i in reads}) == 2, "links are not compared by their ids", x.where())
    if len(reads) != 2: return
    loc = [i for i in reads if any(n.kind == "call" and mv(n) and its[i] in [noctx(a) for a in n.d["args"]] for n in g.nodes())]
    rem = loc[0] if loc else None
    loc = [i for i in reads if i != rem][0]
    R.ob("remote", "received", rem is not None, "the list that is compared is not the one that was received", x.where())
    if rem is None: return
    for case in ("=", "<", ">"):
        def dec(at, ctx=None, case=case):
            if len(at) != 3 or at[0] not in ("==", "<"): return None
            i, j = first(at[1], g.T), first(at[2], g.T)
            if not i or not j or {i, j} != {loc, rem}: return None
            if at[0] == "==": return case == "="
            return case == ("<" if i == loc else ">")
        # paths of one iteration
        for path in iteration(g, x, b, M, dec):
            st = [itv(n) for n in path if steps(n)]
            wr = {}
            for n in path:
                lhs, rhs = (n.d["lhs"], n.d["rhs"]) if n.kind == "asg" else (n.d["obj"], n.d["args"][0]) if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and n.d["args"] else (None, None)
                if lhs is None or lhs[0] != "deref" or not is_term(rhs): continue
                d, s = [noctx(y) for y in subterms(lhs) if noctx(y) in its], [noctx(y) for y in subterms(rhs) if noctx(y) in its]
                if d and s: wr[d[0]] = s[0]
            adv = {i for i in st if i in (loc, rem)}
            want = {"=": {loc, rem}, "<": {loc}, ">": {rem}}[case]
            R.ob("remote", f"case{case}:steps", adv == want and all(st.count(i) == 1 for i in st), f"where the own id is {case} the received one, the lists are advanced wrongly", path[-1].where())
            keep = {"=": set(), "<": {loc}, ">": {rem}}[case]
            R.ob("remote", f"case{case}:kept", set(wr.values()) == keep and all(its.get(d) == its[s] for d, s in wr.items()) and {i for i in st if i not in (loc, rem)} == set(wr), f"where the own id is {case} the received one, {'an unmatched link leaves its list' if keep else 'a matched link stays in a list'}", path[-1].where())
            R.ob("remote", f"case{case}:registered", any(reg(n) for n in path) == (case == "="), "links with different ids are joined" if case != "=" else "a matched link is not registered with the synchronisation", path[-1].where())
            if case == "=":
                er = [n for n in path if n.kind == "call" and last(n.d["q"]) in ("erase", "extract") and n.d["obj"] is not None and fin(n.d["obj"], TR)]
                R.ob("remote", "case=:forgotten", bool(er), "a matched link can be matched again", path[-1].where())
                for n in path:
                    if reg(n):
                        a = n.d["args"]
                        both = lambda t: [noctx(y) for z in (t, expand(g.T, t)) for y in subterms(z)]
                        R.ob("remote", "case=:ranks", rem in both(a[0]) and loc in both(a[1]), "the link is registered for the wrong partitions", n.where())
                        R.ob("remote", "case=:link", (fin(a[2], TR) or fin(expand(g.T, a[2]), TR)) and first(link_key(a[2], g.T), g.T) in (loc, rem), "another link is registered", n.where())
                for fld, val in (("type", lambda t: "SYNC" in show(t)), ("id", lambda t: fin(t, "pair_link"))):
                    R.ob("remote", f"case=:{fld}", any(n.kind == "asg" and own(n.d["lhs"], fld) and val(n.d["rhs"]) for n in path), f"the {fld} of the registered half is not set", path[-1].where())
                R.ob("remote", "case=:queue", any(n.kind == "asg" and pair(n.d["lhs"], "send_queue") and has_call(expand(g.T, n.d["rhs"]), "registerLink") for n in path), "the link does not send to the synchronisation", path[-1].where())
    # what is left of the lists
    for i in (loc, rem):
        w = [k for k in its if its[k] == its[i] and k != i]
        er = lambda n: n.kind == "call" and last(n.d["q"]) in ("erase", "resize") and n.d["obj"] is not None and noctx(n.d["obj"]) == its[i]
        nm = "own" if i == loc else "received"
        for done in (True, False):
            def dec(at, ctx=None, done=done):
                if at[0] == "==" and any(noctx(y) == i for z in at[1:] for y in subterms(z)) and any(has_call(z, "end") for z in at[1:]): return done
                return None
            ga = CFG(P, f, inline=None, assume=None)
            seen, stk, hits = set(), [n for n in [x] ], []
            out = [s for m in g.nodes() if m.nid in M for s, c, q in m.succ if s.nid not in M and not is_fatal(s)]
            seen, stk = set(), list(out)
            while stk:
                n = stk.pop()
                if n.nid in seen or n is h: continue
                seen.add(n.nid)
                if er(n): hits.append(n)
                for s, c, q in n.succ:
                    if c is not None and is_term(c):
                        r = truthval(c, dec)
                        if r is not None and r != q: continue
                    stk.append(s)
            # every way back to the loop head passes the removal
            path = g.search(out, lambda n: n is h, avoid=er, edge=lambda a, s, c, q: not (c is not None and is_term(c) and truthval(c, dec) is not None and truthval(c, dec) != q))
            R.ob("remote", f"rest:{nm}:{'end' if done else 'inside'}", path is None and bool(hits), "matched links are left in a list", x.where())
            for n in hits:
                a = [y for y in n.d["args"] if is_term(y)]
                both = lambda t: [noctx(y) for z in (t, expand(g.T, t)) for y in subterms(z)]
                fr = any(y in w for y in both(a[0])) if a else False
                to = len(a) > 1 and (i in both(a[1]) or done and has_call(a[1], "end"))
                R.ob("remote", f"rest:{nm}:{'end' if done else 'inside'}:range", fr and to, "unmatched links are removed from a list or matched ones are left in it", n.where())
    # the own list
    lv = its[loc]
    fill = lambda n: n.kind == "call" and last(n.d["q"]) in ("emplace_back", "push_back") and n.d["obj"] is not None and noctx(n.d["obj"]) == lv
    for_each(R, "remote", "list", g, lambda t: True, fill, "a link is not offered to the other partitions")
    so = lambda n: n.kind == "call" and last(n.d["q"]) in ("sort", "stable_sort") and any(lv in [noctx(y) for y in subterms(a)] for a in n.d["args"] if is_term(a))
    never(R, "remote", "list:sorted", g, lambda n: n is h, "the lists are compared without having been sorted", avoid=so)
    cp = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "assign", "operator=") and n.d["obj"] is not None and noctx(n.d["obj"]) == its[rem] and any(lv in [noctx(y) for y in subterms(a)] for a in n.d["args"] if is_term(a)) or n.kind in ("init", "asg") and noctx(n.d.get("var") or n.d["lhs"]) == its[rem] and n.d.get("rhs") is not None and lv in [noctx(y) for y in subterms(n.d["rhs"])]
    never(R, "remote", "list:offered", g, lambda n: n is h, "the own links are not offered to the other partitions", avoid=cp)
    never(R, "remote", "list:offered:sorted", g, cp, "the list that is offered is not sorted", avoid=so)
    lam = {x[1] for m in g.nodes() if so(m) for a in m.d["args"] if is_term(a) for x in subterms(a) if x[0] == "lambda"}
    for m in g.nodes():
        if m.kind != "ret" or m.d.get("val") is None: continue
        v = m.d["val"]
        la = [x for x in subterms(v) if x[0] == "lamarg" and x[1] in lam]
        if not la: continue
        a, pol = norm_cond(v, True)
        ids = lambda t: t[0] == "mem" and last(t[2]) == "first" and t[1][0] == "lamarg"
        R.ob("remote", "list:by id", a[0] == "<" and pol and ids(a[1]) and ids(a[2]) and a[1][1][2] < a[2][1][2], "the lists that are compared by id are sorted by something else", m.where())
    left = lambda at, pol, node: any(is_term(y) and y[0] == "call" and last(y[1]) in ("size", "empty") and y[2] is not None and noctx(y[2]) == lv for z in at[1:] if is_term(z) for y in subterms(z))
    ok = lambda at, pol, node: left(at, pol, node) and (at[0] == "==" and pol or at[0] in ("nz", "pos") and (pol == any(has_call(z, "empty") for z in at[1:] if is_term(z))))
    guarded(R, "remote", "leftover", g, lambda n: n.kind == "exit", ok, "a link without its other half is ignored")


def link_key(t, T):
    """X for a link that was looked up as link_restart_tracking[X]; all other terms as they are"""
    for z in (t, T.defs.get(t) if hasattr(T, "defs") else None, expand(T, t)):
        if z is None or not is_term(z): continue
        for y in subterms(z):
            if y[0] == "idx" and fin(y[1], TR): return y[2]
    return t


def iteration(g, head, body, M, dec, limit=400):
    """node lists of the paths of one iteration"""
    out = []
    st = [(b, [b]) for b in body]
    while st:
        n, p = st.pop()
        if len(out) > limit: raise AnalysisError("too many paths")
        for s, c, q in n.succ:
            if c is not None and is_term(c):
                r = truthval(c, dec)
                if r is not None and r != q: continue
            if s is head: out.append(p); continue
            if s.nid not in M or s in p: continue
            st.append((s, p + [s]))
    return out


def ring(R):
    """The lists are passed on to the next and taken from the previous partition, with the size that is announced."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::discoverRemoteLinksMoveData", False), "discoverRemoteLinksMoveData")[0]
    g = CFG(P, f, terms=Terms(P, keep=True))
    R.cfg_used(g)
    one = const
    nr = lambda t: fin(t, "num_ranks") or fin(t, "rank")
    for nm, argi, what in (("MPI_Isend", 3, "next"), ("MPI_Irecv", 3, "prev")):
        ns = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in (nm, nm.replace("I", "", 2).replace("MPI", "MPI_") if False else nm)]
        R.need(ns, nm)
        for n in ns:
            v = noctx(n.d["args"][argi])
            sets = [m for m in g.nodes() if m.kind in ("init", "asg") and noctx(m.d.get("var") or m.d["lhs"]) == v and m.d.get("rhs") is not None]
            txt = " ; ".join(show(expand(g.T, m.d["rhs"])).replace(" ", "") for m in sets)
            step = "+1" if what == "next" else "-1"
            R.ob("ring", f"{what}", bool(sets) and any(step in show(m.d["rhs"]).replace(" ", "") for m in sets), f"data is {'sent to' if what == 'next' else 'received from'} another partition than the {what} one", n.where())
    snd = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "MPI_Isend"]
    rcv = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "MPI_Irecv"]
    tags = lambda ns: sorted(str(const(n.d["args"][4])) for n in ns)
    R.ob("ring", "tags", tags(snd) == tags(rcv), "sizes and data are sent and received under different tags", f.where())
    R.ob("ring", "types", sorted(show(n.d["args"][2]) for n in snd) == sorted(show(n.d["args"][2]) for n in rcv), "data is sent and received as different types", f.where())
    data = [n for n in rcv if any(param_idx(f, y) == 1 for y in subterms(n.d["args"][0]))]
    R.ob("ring", "received", bool(data), "the data is not received into the list", f.where())
    rs = lambda n: n.kind == "call" and last(n.d["q"]) == "resize" and n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 1
    never(R, "ring", "resized", g, lambda n: n in data, "the list is not resized before the data arrives", avoid=rs)
    wait = lambda n: n.kind == "call" and last(n.d["q"]) in ("MPI_Waitall", "MPI_Wait")
    never(R, "ring", "size known", g, rs, "the list is resized before its size has arrived", frm=[n for n in rcv if n not in data], avoid=wait)
    always(R, "ring", "arrived", g, wait, "the data is used before it has arrived", frm=data)
    sz = [n for n in rcv if n not in data]
    for n in g.nodes():
        if rs(n): R.ob("ring", "size", any(noctx(y) == noctx(x) for m in sz for x in subterms(m.d["args"][0]) if x[0] == "var" for y in subterms(n.d["args"][0])), "the list is not resized to the size that was announced", n.where())
    for n in data: R.ob("ring", "all", any(noctx(y) == noctx(x) for m in sz for x in subterms(m.d["args"][0]) if x[0] == "var" for y in subterms(n.d["args"][1])), "less is received than was announced", n.where())
    # threads
    ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("try_insert", "insert") and n.d["obj"] is not None and fin(n.d["obj"], "remote_discover_queue")
    rem = lambda n: n.kind == "call" and last(n.d["q"]) in ("remove", "try_remove") and n.d["obj"] is not None and fin(n.d["obj"], "local_discover_queue")
    thr = lambda at, ctx=None: False if at[0] == "==" and fin(at[1], "thread") and fin(at[1], "num_ranks") and const(at[2]) == 1 else False if at[0] == "==" and fin(at[2], "thread") and fin(at[2], "num_ranks") and const(at[1]) == 1 else None
    gt = CFG(P, f, assume=thr)
    for nm, ev, msg in (("sent", ins, "the list is not passed to the next thread"), ("taken", rem, "the list of the previous thread is not taken")): always(R, "ring", f"threads:{nm}", gt, ev, msg)
    never(R, "ring", "threads:order", gt, rem, "a thread waits for a list before it has passed on its own", avoid=ins)
    h = R.need(P.find("SST::Simulation::discoverRemoteLinks", False), "discoverRemoteLinks")[0]
    gh = CFG(P, h)
    st = [n for n in gh.nodes() if n.kind == "asg" and fin(n.d["lhs"], "remote_discover_queue") and const(n.d["rhs"]) is None]
    R.ob("ring", "threads:next", bool(st) and all(fin(n.d["rhs"], "local_discover_queue") and "1" in show(expand(gh.T, n.d["rhs"])) or any(m.kind in ("init",) and "+1" in show(m.d["rhs"]).replace(" ", "") for m in gh.nodes() if m.d and m.kind == "init" and m.d.get("rhs") is not None) for n in st), "lists are not passed to the next thread", h.where())
    lastt = lambda at, ctx=None: True if at[0] == "==" and any(fin(x, "num_ranks") and fin(x, "thread") for x in at[1:]) and not any(const(x) is not None for x in at[1:]) else None
    gw = CFG(P, h, assume=lastt, terms=Terms(P, keep=True))
    for n in gw.nodes():
        if n.kind == "asg" and fin(n.d["lhs"], "remote_discover_queue") and const(n.d["rhs"]) is None:
            vs = {noctx(x) for x in subterms(n.d["rhs"]) if x[0] == "var"}
            w = [m for m in gw.nodes() if m.kind == "asg" and noctx(m.d["lhs"]) in vs]
            mod = any(x[0] == "bin" and x[1] == "%" for z in (n.d["rhs"], expand(gw.T, n.d["rhs"])) for x in subterms(z))
            R.ob("ring", "threads:last", mod or any(x[0] == "cond" for x in subterms(expand(gw.T, n.d["rhs"]))) or any(m.d["op"] == "=" and const(m.d["rhs"]) == 0 for m in w), "the last thread does not pass its list to the first", n.where())
    ini = lambda n: n.kind == "call" and last(n.d["q"]) == "initialize" and n.d["obj"] is not None and fin(n.d["obj"], "local_discover_queue")
    bar = lambda n: n.kind == "call" and last(n.d["q"]) == "wait" and "arrier" in show(n.d["obj"] or ("none",))
    mvd = lambda n: n.kind == "call" and last(n.d["q"]) == "discoverRemoteLinksMoveData"
    thr2 = lambda at, ctx=None: True if at[0] == "<" and const(at[1]) == 1 and fin(at[2], "num_ranks") and fin(at[2], "thread") else None
    g2 = CFG(P, h, assume=thr2)
    R.cfg_used(g2)
    never(R, "ring", "threads:ready", g2, mvd, "a list is passed to a thread whose queue may not be ready", frm=[n for n in g2.nodes() if ini(n)], avoid=bar)


def order(R):
    """On restart all components are restored before links across partitions are matched, these are matched before the
    synchronisation is finalised, and statistics are prepared around it."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::restart", False), "Simulation::restart")[0]
    par = lambda at, ctx=None: True if at[0] == "<" and const(at[1]) == 1 and fin(at[2], "num_ranks") else None
    g = CFG(P, f, assume=par)
    R.cfg_used(g)
    c = lambda nm: lambda n: n.kind == "call" and last(n.d["q"]) == nm
    rd = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and "ComponentInfo" in str(n.d.get("id") or n.d.get("fn") or "")
    R.need([n for n in g.nodes() if rd(n)], "reading of components")
    always(R, "order", "matched", g, c("discoverRemoteLinks"), "links across partitions are not matched")
    always(R, "order", "finalized", g, c("finalizeLinkConfigurations"), "the synchronisation is not finalised")
    always(R, "order", "time", g, c("setRestartTime"), "the synchronisation does not start at the restart time")
    for n in g.nodes():
        if c("setRestartTime")(n): R.ob("order", "time:value", fin(n.d["args"][0], "currentSimCycle"), "the synchronisation does not start at the restart time", n.where())
    never(R, "order", "components first", g, rd, "components are restored after the links were matched", frm=[n for n in g.nodes() if c("discoverRemoteLinks")(n)])
    never(R, "order", "matched first", g, c("finalizeLinkConfigurations"), "the synchronisation is finalised before the links are matched", avoid=c("discoverRemoteLinks"))
    never(R, "order", "manager first", g, rd, "components are restored before there is a synchronisation", avoid=lambda n: n.kind == "asg" and fin(n.d["lhs"], "syncManager"))
    st = [n for n in g.nodes() if n.kind == "asg" and fin(n.d["lhs"], "is_restart_same_parallelism")]
    never(R, "order", "kept first", g, rd, "whether partitions are kept is decided after links were restored", frm=None, avoid=lambda n: n.kind == "call" and last(n.d["q"]) == "enable_pointer_tracking" or n in st)
    for fld in ("serial_restart_", "cpt_remap_partitions", "cpt_repartition"):
        guarded(R, "order", f"kept:{fld}", g, lambda n: n in st and const(n.d["rhs"]) != 0, lambda at, pol, node, fld=fld: at[0] in ("nz", "pos") and fin(at[1], fld) and not pol, "partitions count as kept although they changed")
    # hierarchy of a component
    f = R.need(P.find("SST::ComponentInfo::serialize_comp", False), "ComponentInfo::serialize_comp")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    so = lambda nm: lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and isf(n.d["args"][1], nm)
    for nm in ("component", "link_map"): always(R, "order", f"hierarchy:{nm}", g, so(nm), f"the {nm} is not saved")
    for_each(R, "order", "hierarchy:sub", g, lambda t: True, lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_comp", "a subcomponent is not saved")
    nn = CFG(P, f, assume=lambda at, ctx=None: (False if at[0] == "==" else True) if any(isf(x, "component") for x in at[1:]) else None)
    always(R, "order", "hierarchy:final", nn, lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_final", "the final part of a component is not saved")
    never(R, "order", "hierarchy:final:last", nn, lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_comp", "the final part of a component is saved before its subcomponents", frm=[n for n in nn.nodes() if n.kind == "call" and last(n.d["q"]) == "serialize_final"])


CLAUSES = [halves, contents, apart, pending, remote, ring, order]
