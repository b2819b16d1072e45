"""P03: an event sent on a link arrives at the other end at send time + delay + latency, once, and never outside the run phase."""
from sa.q import *
import itertools

PROP = dict(
    title="A sent event reaches the other end at now + delay + latency, exactly once",
    statement="An event sent on a link is placed in the receiving end's queue exactly once, with delivery time equal to the current time plus the "
              "sender's delay (converted with the stated time base) plus the link latency, carrying that link's order tag and receiver; only an attached tool "
              "may drop it. The event is handed to the handler registered for that end, or returned once by polling and never before its time, and "
              "sending in a phase where it is not allowed is a fatal error.",
    over=["inputs", "histories", "schedules"], text="all links, latencies, delays, time bases and phases, including null events and links with attached tools",
    why="Tests check a few latencies on a few models; a wrong unit, a latency applied twice or on the wrong side, or an event lost on a rarely used path "
        "changes simulated results silently.",
    files=["src/sst/core/link.cc", "src/sst/core/link.h", "src/sst/core/linkPair.h", "src/sst/core/event.cc", "src/sst/core/event.h", "src/sst/core/timeConverter.h", "src/sst/core/simulation.cc"],
    mech=[("Link::send/send_impl/recv", "src/sst/core/link.cc"), ("Simulation::prepareLinks", "src/sst/core/simulation.cc"), ("Event::execute", "src/sst/core/event.cc"), ("TimeConverter", "src/sst/core/timeConverter.h")],
    technique="path obligations with partial evaluation of the phase and type of a link, symbolic sum matching of delivery times")

TUS = ["link.cc", "event.cc", "simulation.cc", "pollingLinkQueue.cc", "baseComponent.cc", "uninitializedQueue.cc"]
ASSUMPTIONS = ["attached tools and handlers are arbitrary; dropping an event by setting it to null is their documented right", "queues keep what is inserted (P01)"]


def fn(R, q, n=None):
    fs = [f for f in R.prog.find(q, False) if n is None or len(f.params) == n]
    R.need(fs, q)
    return fs


INL = inline_class("Link", "Event", "Activity", "TimeConverter", "LinkPair")
is_now = lambda t: is_field(t, "Link::current_time") or is_field(t, "Simulation::currentSimCycle")
ins = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and "Queue" in n.d["q"] + "Vortex" and n.d["obj"] is not None and is_field(n.d["obj"], "Link::send_queue")


def ev_is(f, i):
    return lambda t: param_idx(f, t) == i


def own_f(t, name):
    xs = [x for x in subterms(t) if x[0] == "mem" and fmatch(x[2], "Link::" + name)]
    return bool(xs) and all(x[1][0] == "this" for x in xs)


def mode(P, name): return field_is("Link::mode", enumval(P, "Link::Mode_t", name))
def ltype(P, name): return field_is("Link::type", enumval(P, "Link::Type_t", name))


def send(R):
    """Link::send_impl: outside the run phase every path is fatal; in the run phase the event gets delivery time current_time +
    delay + latency and this link's tag and delivery information, and then enters send_queue once, on every path that does not
    pass an attached tool that dropped it; a null event is replaced, never inserted."""
    P = R.prog
    for f in fn(R, "SST::Link::send_impl"):
        ei = next(i for i, p in enumerate(f.params) if "Event" in p[2])
        di = 1 - ei
        for m in ("INIT", "COMPLETE"):
            g = CFG(P, f, inline=INL, assume=mode(P, m))
            never(R, "send", f"send_impl:{m}", g, lambda n: ins(n) or n is g.exit, f"sending on a link in phase {m} is not a fatal error")
        g = CFG(P, f, inline=INL, assume=mode(P, "RUN"))
        tm = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Activity::delivery_time")
        want = lambda t: sum_is(t, is_now, lambda x: param_idx(f, x) == di, lambda x: is_field(x, "Link::latency") and x[1][0] == "this")
        present(R, "send", "send_impl:insert", g, ins, "send_impl does not insert the event into the send queue")
        never(R, "send", "send_impl:time", g, ins, "an event can be queued without the delivery time now + delay + latency", avoid=lambda n: tm(n) and want(n.d["rhs"]))
        for n in g.nodes():
            if tm(n): R.ob("send", "send_impl:time_value", want(n.d["rhs"]), f"the delivery time is {show(n.d['rhs'])}, not now + delay + latency", n.where())
        never(R, "send", "send_impl:info", g, ins, "an event can be queued without this link's delivery information",
              avoid=lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Event::delivery_info") and own_f(n.d["rhs"], "delivery_info"))
        never(R, "send", "send_impl:tag", g, ins, "an event can be queued without this link's order tag",
              avoid=lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Activity::priority_order") and own_f(n.d["rhs"], "tag"))
        never(R, "send", "send_impl:once", g, ins, "an event can be queued twice", frm=[n for n in g.nodes() if ins(n)])
        tool = lambda n: n.kind == "call" and last(n.d["q"]) == "eventSent"
        always(R, "send", "send_impl:delivered", g, lambda n: ins(n) or tool(n), "send_impl can return without queueing the event although no tool dropped it")
        for n in g.nodes():
            if ins(n): R.ob("send", "send_impl:queue", n.d["obj"][1][0] == "this", "the event is not put into this link's own send queue", n.where())
        # after a tool: not dropped -> inserted
        tn = [n for n in g.nodes() if tool(n)]

        def kept(n, s, c, p):
            if c is None or not is_term(c): return True
            at, pol = norm_cond(c, p)
            return not (at[0] in ("nz", "pos") and param_idx(f, at[1]) == ei and not pol)
        p = g.search([s for n in tn for s in g.after(n)], lambda n: n is g.exit, avoid=ins, edge=lambda n, s, c, p: kept_null(n, s, c, p, f, ei))
        R.ob("send", "send_impl:tool_kept", p is None, "an event that no tool dropped can be lost", p[-1].where() if p else "", path_str(p) if p else None)
        # a dropped event (null after a tool ran) must not be inserted: the null test lies between any tool call and the insertion
        p = g.search([s for n in tn for s in g.after(n)], lambda n: ins(n) or tool(n), edge=lambda n, s, c, p: not nonnull(c, p, f, ei))
        R.ob("send", "send_impl:tool_drop", p is None or not tn, "an event dropped by a tool can still be queued or handed to another tool", p[-1].where() if p else "", path_str(p) if p else None)
        # null event: replaced before the time is stamped
        mk = lambda n: n.kind == "ctor" and last(n.d["q"]) == "NullEvent"
        deref = lambda n: n.kind == "asg" and (is_field(n.d["lhs"], "Activity::delivery_time")) or ins(n)
        p = g.search([g.entry], deref, avoid=mk, edge=lambda n, s, c, p: not nonnull(c, p, f, ei))
        R.ob("send", "send_impl:null", p is None, "a null event can reach the queue without being replaced by a NullEvent", p[-1].where() if p else "", path_str(p) if p else None)


def nonnull(c, p, f, ei):
    if c is None or not is_term(c): return False
    at, pol = norm_cond(c, p)
    if at[0] in ("nz", "pos"): return param_idx(f, at[1]) == ei and pol
    if at[0] == "==": return any(param_idx(f, x) == ei for x in at[1:]) and any(x[0] in ("null",) or const(x) == 0 or show(x) == "nullptr" for x in at[1:]) and not pol
    return False


def kept_null(n, s, c, p, f, ei):
    """edges on which the event is null are not taken"""
    if c is None or not is_term(c): return True
    return not nonnull(c, not p, f, ei)


def overloads(R):
    """The public send functions pass the sender's delay in core time: converted by the given TimeConverter, multiplied by the
    link's default time base, or zero; conversion to core time is multiplication by the factor."""
    P = R.prog
    for f in P.find("SST::Link::send", False):
        g = CFG(P, f, inline=inline_class("TimeConverter"))
        calls = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Link::send_impl")]
        fwd = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Link::send")]
        k = f"send/{len(f.params)}"
        R.cfg_used(g)
        tys = [p[2] for p in f.params]
        ei = next(i for i, t in enumerate(tys) if "Event" in t)
        if not calls and fwd:
            R.ob("overloads", k, True, ""); continue
        R.ob("overloads", k + ":calls", len(calls) == 1 and g.search([g.entry], lambda n: n is g.exit, avoid=lambda n: n in calls) is None, "send does not send exactly once", f.where())
        for n in calls:
            d, e = n.d["args"][0], n.d["args"][1]
            R.ob("overloads", k + ":event", param_idx(f, e) == ei, "send does not forward the event", n.where())
            if len(tys) == 1: ok = const(d) == 0
            elif len(tys) == 2:
                ok = d[0] == "bin" and d[1] == "*" and {param_idx(f, d[2]), param_idx(f, d[3])} == {0, None} and any(is_field(x, "Link::defaultTimeBase") for x in d[2:])
            else:
                ti = next(i for i, t in enumerate(tys) if "TimeConverter" in t)
                dl = ({0, 1, 2} - {ti, ei}).pop()
                ok = any(param_idx(f, x) == dl for x in subterms(d)) and any(param_idx(f, x) == ti for x in subterms(d)) and (
                    d[0] == "bin" and d[1] == "*" and any(is_field(x, "TimeConverter::factor") for x in d[2:]) or d[0] == "call" and last(d[1]) == "convertToCoreTime")
            R.ob("overloads", k + ":delay", ok, f"send passes the delay {show(d)} where the delay in core time is required", n.where())
    for f in fn(R, "SST::TimeConverter::convertToCoreTime"):
        g = CFG(P, f)
        R.cfg_used(g)
        for r in rets(P, f):
            R.ob("overloads", "convertToCoreTime", r[0] == "bin" and r[1] == "*" and {param_idx(f, x) for x in r[2:]} == {0, None} and any(is_field(x, "TimeConverter::factor") for x in r[2:]),
                 f"convertToCoreTime returns {show(r)}, not time * factor", f.where())
    for f in fn(R, "SST::TimeConverter::convertFromCoreTime"):
        for r in rets(P, f):
            R.ob("overloads", "convertFromCoreTime", r[0] == "bin" and r[1] == "/" and param_idx(f, r[2]) == 0 and is_field(r[3], "TimeConverter::factor"), f"convertFromCoreTime returns {show(r)}, not time / factor", f.where())


def rets(P, f):
    """terms returned by f"""
    T = Terms(P)
    c = T.root(f)
    out = []
    for n in func_nodes(f):
        if n[0] == "ret" and len(n) > 2 and n[2] is not None:
            out.append(T.term(n[2], c))
    return out


def latency(R):
    """Extra latency is added to the side it names: addSendLatency to this link, addRecvLatency to the pair, each as amount * time
    base; setLatency replaces this link's latency."""
    P = R.prog
    for nm, base in (("addSendLatency", "this"), ("addRecvLatency", "pair")):
        for f in fn(R, "SST::Link::" + nm):
            g = CFG(P, f, inline=inline_class("TimeConverter", "Link"))
            k = f"{nm}({f.params[1][2][:20]})"
            side = lambda t: is_field(t, "Link::latency") and (t[1][0] == "this" if base == "this" else is_field(t[1], "Link::pair_link"))
            asg = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::latency")

            def amount(t):
                t = [x for s, x in summands(t) if not side(x) and s > 0]
                if len(t) != 1: return False
                t = expand(g.T, t[0])
                return any(param_idx(f, x) == 0 for x in subterms(t)) and (t[0] == "bin" and t[1] == "*" or t[0] == "call" and last(t[1]) == "convertToCoreTime") and \
                    any(param_idx(f, x) == 1 for x in subterms(t))
            for n in g.nodes():
                if asg(n):
                    R.ob("latency", k + ":side", side(n.d["lhs"]), f"{nm} changes the latency of the other end", n.where())
                    ok = (n.d["op"] == "+=" and (amount(n.d["rhs"]))) or (n.d["op"] == "=" and any(side(x) for _, x in summands(n.d["rhs"])) and amount(n.d["rhs"]))
                    R.ob("latency", k + ":adds", ok, f"{nm} does not add cycles * time base to the latency", n.where())
            always(R, "latency", k + ":always", g, asg, f"{nm} can return without adding the latency")
            never(R, "latency", k + ":once", g, asg, f"{nm} can add the latency twice", frm=[n for n in g.nodes() if asg(n)])
    for f in fn(R, "SST::Link::setLatency"):
        g = CFG(P, f)
        always(R, "latency", "setLatency", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::latency") and n.d["op"] == "=" and param_idx(f, n.d["rhs"]) == 0, "setLatency does not set the latency")


def recv(R):
    """Link::recv: fatal unless the link is a polling link; returns the front of the pair's queue only when its time has come,
    removes exactly what it returns, and returns a ready event when there is one."""
    P = R.prog
    poll(R, fn(R, "SST::Link::recv")[0], "recv", lambda t: is_now(t) or t[0] == "call" and last(t[1]) == "getCurrentSimCycle")
    f = fn(R, "SST::Link::recv")[0]
    for t in ("HANDLER", "SYNC", "UNINITIALIZED"):
        g = CFG(P, f, inline=INL, assume=ltype(P, t))
        never(R, "recv", f"recv:{t}", g, lambda n: n is g.exit, f"polling a link of type {t} is not a fatal error")


def poll(R, f, nm, isnow, assume=None):
    P = R.prog
    g = CFG(P, f, inline=INL, assume=assume)
    q = lambda n: n.d.get("obj") is not None and is_field(n.d["obj"], "Link::send_queue") and is_field(n.d["obj"][1], "Link::pair_link")
    pop = lambda n: n.kind == "call" and last(n.d["q"]) == "pop" and q(n)
    anypop = lambda n: n.kind == "call" and last(n.d["q"]) == "pop"
    present(R, "recv", nm + ":pop", g, anypop, f"{nm} never removes an event from the queue")
    for n in g.nodes():
        if anypop(n): R.ob("recv", nm + ":queue", q(n), f"{nm} takes events from a queue other than the receiving one", n.where())

    def due(at, pol, n):
        # time <= now   ==  !(now < time)
        if at[0] == "<" and not pol: return isnow(at[1]) and is_time(at[2])
        return False
    is_time = lambda t: t[0] == "mem" and is_field(t, "Activity::delivery_time") or t[0] == "call" and last(t[1]) == "getDeliveryTime"
    guarded(R, "recv", nm + ":due", g, anypop, due, f"{nm} can remove an event before its time has come")
    guarded(R, "recv", nm + ":nonempty", g, anypop, lambda at, pol, n: (at[0] in ("nz", "pos") and has_call(at[1], "empty") and not pol) or (at[0] in ("nz", "pos") and has_call(at[1], "size") and pol)
            or (at[0] == "==" and any(has_call(x, "front") for x in at[1:]) and not pol) or (at[0] in ("nz", "pos") and has_call(at[1], "front") and pol),
            f"{nm} can take an event from an empty queue")
    never(R, "recv", nm + ":once", g, anypop, f"{nm} can remove two events and return one", frm=[n for n in g.nodes() if anypop(n)])
    # what is returned non-null was removed, and what is removed is returned
    got = lambda n: n.kind in ("asg", "init") and has_call(expand(g.T, n.d["rhs"]), "front") and (n.d.get("lhs") or n.d.get("var"))[0] == "var" and "Event" in str(n.d.get("type") or vtype(g, n))
    res = {(n.d.get("lhs") or n.d.get("var")) for n in g.nodes() if got(n)}
    direct = [n for n in g.nodes() if n.kind == "ret" and retterm(n) is not None and has_call(retterm(n), "pop")]
    if not direct:
        tk = [n for n in g.nodes() if got(n)]
        always(R, "recv", nm + ":removed", g, anypop, f"{nm} can return an event and leave it in the queue", frm=[]) if False else None
        p = None
        for n in tk:
            before = g.search([g.entry], lambda m: m is n, avoid=anypop)
            after = g.search(g.after(n), lambda m: m is g.exit, avoid=anypop)
            if before and after: p = after
        R.ob("recv", nm + ":removed", p is None, f"{nm} can return an event and leave it in the queue", p[-1].where() if p else "", path_str(p) if p else None)
        p = None
        for n in [n for n in g.nodes() if anypop(n)]:
            before = g.search([g.entry], lambda m: m is n, avoid=lambda m: m in tk)
            after = g.search(g.after(n), lambda m: m is g.exit, avoid=lambda m: m in tk)
            if before and after: p = after
        R.ob("recv", nm + ":returned", p is None, f"{nm} can remove an event from the queue without returning it", p[-1].where() if p else "", path_str(p) if p else None)


def vtype(g, n):
    t = n.d.get("lhs") or n.d.get("var")
    return ir.info(n.fn).types.get(t[2], "")


def retterm(n):
    d = n.d
    if is_term(d): return d
    if isinstance(d, dict): return d.get("val")
    return None


def handlers(R):
    """setFunctor/replaceFunctor install the handler as the pair's delivery information and are fatal on a polling link; executing an
    event calls exactly the handler in its delivery information with that event, a NullEvent with null and then deletes itself."""
    P = R.prog
    for nm in ("setFunctor", "replaceFunctor"):
        f = fn(R, "SST::Link::" + nm)[0]
        g = CFG(P, f, inline=INL, assume=ltype(P, "POLL"))
        never(R, "handlers", nm + ":poll", g, lambda n: n is g.exit, f"{nm} on a polling link is not a fatal error")
        for t in ("HANDLER", "UNINITIALIZED"):
            g = CFG(P, f, inline=INL, assume=ltype(P, t))
            last_set = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::delivery_info") and is_field(n.d["lhs"][1], "Link::pair_link") and any(param_idx(f, x) == 0 for x in subterms(n.d["rhs"]))
            always(R, "handlers", f"{nm}:{t}:installed", g, last_set, f"{nm} can return without installing the handler")
            for n in g.nodes():
                if n.kind == "asg" and is_field(n.d["lhs"], "Link::delivery_info"):
                    R.ob("handlers", f"{nm}:{t}:side", last_set(n), f"{nm} writes the delivery information of the wrong end or not the handler", n.where())
            always(R, "handlers", f"{nm}:{t}:type", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::type") and const(n.d["rhs"]) == enumval(P, "Link::Type_t", "HANDLER"), f"{nm} does not mark the link as having a handler")
    f = fn(R, "SST::Event::execute")[0]
    g = CFG(P, f, inline=inline_class("Event"))
    call = lambda n: n.kind == "call" and last(n.d["q"]) == "operator()"
    always(R, "handlers", "Event::execute:called", g, call, "executing an event can skip its handler")
    never(R, "handlers", "Event::execute:once", g, call, "executing an event can call its handler twice", frm=[n for n in g.nodes() if call(n)])
    for n in g.nodes():
        if call(n):
            R.ob("handlers", "Event::execute:handler", has_field(n.d["obj"], "Event::delivery_info"), "executing an event does not call the handler in its delivery information", n.where())
            R.ob("handlers", "Event::execute:event", bool(n.d["args"]) and n.d["args"][0][0] == "this", "the handler is not called with the event itself", n.where())
    f = fn(R, "SST::NullEvent::execute")[0]
    g = CFG(P, f)
    always(R, "handlers", "NullEvent::execute:called", g, call, "executing a null event can skip its handler")
    for n in g.nodes():
        if call(n): R.ob("handlers", "NullEvent::execute:null", bool(n.d["args"]) and (const(n.d["args"][0]) == 0 or show(n.d["args"][0]) == "nullptr"), "a null event does not reach the handler as null", n.where())
    always(R, "handlers", "NullEvent::execute:deleted", g, lambda n: n.kind == "delete" and n.d["path"][0] == "this", "a null event is not deleted after delivery")
    never(R, "handlers", "NullEvent::execute:order", g, call, "a null event uses its handler after deleting itself", frm=[n for n in g.nodes() if n.kind == "delete"])


def configured(R):
    """The link's time source is the simulation's current time by reference; finalizeConfiguration puts the link into the run phase
    with the queue its type needs; prepareForComplete puts it into the complete phase; a pair refers to each other and a self link to itself."""
    P = R.prog
    cl = P.cls_by_sq.get("SST::Link") or []
    R.need(cl, "class SST::Link")
    for c in cl[:1]:
        for x in c["fields"]:
            if x[0] == "current_time": R.ob("configured", "Link::current_time:reference", "&" in x[1], "a link keeps a copy of the current time instead of referring to it")
        R.need(any(x[0] == "current_time" for x in c["fields"]), "Link::current_time")
    f = fn(R, "SST::Link::finalizeConfiguration")[0]
    setmode = lambda m: (lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::mode") and const(n.d["rhs"]) == enumval(P, "Link::Mode_t", m))
    pq = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::send_queue") and is_field(n.d["lhs"][1], "Link::pair_link")
    for t, good, what in (("HANDLER", lambda x: has_call(x, "getTimeVortex") or has_field(x, "Simulation::timeVortex"), "the event queue"),
                          ("POLL", lambda x: x[0] in ("new", "ctor") and "PollingLinkQueue" in str(x) or "PollingLinkQueue" in str(x), "a polling queue")):
        g = CFG(P, f, inline=inline_class("Link"), assume=ltype(P, t))
        always(R, "configured", f"finalizeConfiguration:{t}:mode", g, setmode("RUN"), "finalizeConfiguration does not put the link into the run phase")
        always(R, "configured", f"finalizeConfiguration:{t}:queue", g, lambda n: pq(n) and good(n.d["rhs"]), f"a {t} link does not deliver through {what} in the run phase")
        lastq = [n for n in g.nodes() if pq(n) and good(n.d["rhs"])]
        never(R, "configured", f"finalizeConfiguration:{t}:last", g, lambda n: pq(n) and not good(n.d["rhs"]), "the run-phase queue of a link is replaced again", frm=lastq)
        sync = lambda n: n.kind == "call" and last(n.d["q"]) == "finalizeConfiguration"
    f2 = fn(R, "SST::Link::prepareForComplete")[0]
    for t in ("HANDLER", "POLL"):
        g = CFG(P, f2, inline=inline_class("Link"), assume=ltype(P, t))
        always(R, "configured", f"prepareForComplete:{t}:mode", g, setmode("COMPLETE"), "prepareForComplete does not put the link into the complete phase")
        always(R, "configured", f"prepareForComplete:{t}:queue", g, lambda n: pq(n), "prepareForComplete leaves the run-phase queue in place")
    for f, nm in ((f, "finalizeConfiguration"), (f2, "prepareForComplete")):
        g = CFG(P, f)
        R.cfg_used(g)
        fw = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == nm and n.d["obj"] is not None and is_field(n.d["obj"], "Link::pair_link")]
        R.ob("configured", nm + ":pair", bool(fw), f"{nm} is not forwarded to the sync side of a link that leaves the partition", f.where())
        syncv = enumval(P, "Link::Type_t", "SYNC")

        def pairsync(n, s, c, p):
            if c is None or not is_term(c): return True
            at, pol = norm_cond(c, p)
            if at[0] == "==":
                for a, b in ((at[1], at[2]), (at[2], at[1])):
                    if is_field(a, "Link::type") and const(b) == syncv: return pol == (not a[1][0] == "this")
            return True
        p = g.search([g.entry], lambda n: n is g.exit, avoid=lambda n: n in fw, edge=pairsync)
        R.ob("configured", nm + ":forwarded", p is None, f"{nm} of a link whose other end is a sync link does not reach that end", f.where(), path_str(p) if p else None)
    for f in P.find("SST::LinkPair::LinkPair", False):
        g = CFG(P, f)
        for a, b in (("left", "right"), ("right", "left")):
            always(R, "configured", f"LinkPair/{len(f.params)}:{a}", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::pair_link") and is_field(n.d["lhs"][1], "LinkPair::" + a) and
                   is_field(n.d["rhs"], "LinkPair::" + b), f"the {a} end of a link pair does not refer to the {b} end")
    for f in P.find("SST::SelfLink::SelfLink", False):
        g = CFG(P, f)
        always(R, "configured", f"SelfLink/{len(f.params)}", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Link::pair_link") and n.d["rhs"][0] == "this", "a self link is not its own pair")


def wiring(R):
    """Simulation::prepareLinks over all placements of the two ends (same thread, other thread, other rank, elsewhere), loop-backs, direct
    links and the thread that comes second: each end gets its own port and latency, and both ends are joined or registered."""
    f = fn(R, "SST::Simulation::prepareLinks")[0]
    g = CFG(R.prog, f, inline=lambda *a: False)
    R.cfg_used(g)
    hs = [h for h in loop_heads(g) if any(n.kind == "call" and last(n.d["q"]) == "registerLink" and n.nid in h[3] for n in g.nodes())]
    R.need(hs, "the loop over the links in prepareLinks")
    h = max(hs, key=lambda h: len(h[3]))
    st = lambda t: st(t[-1]) if t[0] in ("cast", "deref", "addr") or t[0] == "un" and t[1] in ("&", "*") else t
    fld = lambda t, n: t[0] == "mem" and last(t[2]) == n
    ix = lambda t, n: const(t[2]) if t[0] == "idx" and fld(t[1], n) else None
    inside = lambda t, n: {ix(x, n) for x in subterms(t)} - {None}

    def place(t, ends):
        """the rank, thread or both of an end or of this thread"""
        t = st(t)
        if t[0] in ("mem",) and last(t[2]) in ("rank", "thread"):
            b = place(t[1], ends)
            if isinstance(b, tuple): return b[0 if last(t[2]) == "rank" else 1]
            if last(t[2]) == "thread": return None
        if param_idx(f, t) == 1: return (0, 0)
        if t[0] == "idx" and t[1][0] == "var" and const(t[2]) in (0, 1): return ends[const(t[2])]
        if fld(t, "rank") and len(inside(t, "component_")) == 1: return ends[inside(t, "component_").pop()]
        if t[0] == "ctor" and isinstance(t[-1], tuple) and len(t[-1]) == 1: return place(t[-1][0], ends)
        return None
    me = (0, 0)
    cases = [("same thread", (me, me)), ("other thread", (me, (0, 1))), ("other thread", ((0, 1), me)), ("other rank", (me, (1, 0))), ("other rank", ((1, 1), me)), ("elsewhere", ((1, 0), (1, 1))), ("elsewhere", ((0, 1), (0, 2)))]
    for (kind, ends), comp, port, direct, known, nonlocal_ in itertools.product(cases, *[(True, False)] * 5):
        if kind != "same thread" and (comp or port) or port and not comp and kind != "same thread": continue
        if (direct and kind != "other thread") or (known and not direct): continue
        if nonlocal_ and kind != "other rank": continue
        ctl = lambda t: has_field(t, "Simulation::cross_thread_links") or any(x[0] == "glob" and last(x[1]) == "cross_thread_links" for x in subterms(t))
        key = has_key(ctl, known)

        def dec(at, ctx=None):
            if at[0] == "==":
                a, b = st(at[1]), st(at[2])
                if {ix(a, "component_"), ix(b, "component_")} == {0, 1}: return comp
                if {ix(a, "port_"), ix(b, "port_")} == {0, 1}: return port
                x, y = place(a, ends), place(b, ends)
                if x is not None and y is not None and isinstance(x, tuple) == isinstance(y, tuple): return x == y
                for u, v in ((a, b), (b, a)):
                    if u[0] == "call" and last(u[1]) == "getByID" and (const(v) == 0 or show(v) == "nullptr"): return False
            if at[0] in ("nz", "pos"):
                t = st(at[1])
                if "direct_interthread" in show(t): return direct
                if fld(t, "nonlocal_"): return nonlocal_
                if t[0] == "call" and last(t[1]) == "getByID": return True
            return key(at)
        nm = f"{kind} {ends}{' component' if comp else ''}{' port' if port else ''}{' direct' if direct else ''}{' second' if known else ''}{' graph of this rank' if nonlocal_ else ''}"
        rs = runs(g, h[1], lambda n: n is h[0], dec, opaque=lambda r: r[0] == "ctor" and (last(str(r[1])) == "LinkPair" or last(str(r[1])) == "RankInfo" and not r[2]))
        R.ob("wiring", nm + ":wired", bool(rs) and not any(r.fatal() for r in rs), "a link cannot be set up", f.where())
        loc = 0 if ends[0] == me else 1
        for r in rs:
            if r.fatal(): continue
            W = {}
            for n, v in r.events:
                if n.kind != "call" or n.d["obj"] is None: continue
                o, a, q = st(v(n.d["obj"])), [st(v(x)) for x in n.d["args"]], last(n.d["q"])
                if q == "setLatency": W.setdefault(end(o), {})["lat"] = ix(a[0], "latency_") if ix(a[0], "latency_") is not None else ("const", const(a[0]))
                elif q == "insertLink":
                    w = W.setdefault(end(a[1]), {})
                    w["n"] = w.get("n", 0) + 1
                    w["port"] = ix(a[0], "port_")
                    c = inside(expand(g.T, o), "component_") or inside(o, "component_")
                    w["comp"] = c.pop() if len(c) == 1 else None
                elif q == "registerLink": W["reg"] = W.get("reg", ()) + ((place(a[0], ends), place(a[1], ends), end(a[2])),)
                elif q == "setAsSyncLink": W.setdefault(end(o), {})["sync"] = True
            made = [n for n, _ in r.events if n.kind == "ctor" and n.d["q"] in ("SST::Link", "SST::LinkPair")]
            idok = all(any(fld(x, "id_") for x in subterms(a)) for n in made for a in n.d["args"][:1]) and all(n.d["args"] for n in made)
            R.ob("wiring", nm + ":id", idok, "a link gets another id", f.where())
            full = lambda e, i: W.get(e, {}).get("lat") == i and W.get(e, {}).get("port") == i and W.get(e, {}).get("comp") == i and W[e]["n"] == 1
            joins = [(end(st(v(n.d["lhs"][1]))), end(st(v(n.d["rhs"])))) for n, v in r.events if n.kind == "asg" and fld(n.d["lhs"], "pair_link")]
            reg = W.get("reg", ())
            if kind == "elsewhere":
                R.ob("wiring", nm + ":nothing", not W and not made, "a link of another thread is set up here", f.where())
                continue
            R.ob("wiring", nm + ":one", len(made) == 1, "a link is not set up exactly once", f.where())
            if kind == "same thread" and comp and port:
                R.ob("wiring", nm + ":loop", full("link", 0) or full("link", 1), "the end of a link gets another port or latency", f.where())
                R.ob("wiring", nm + ":joined", ("link", "link") in joins, "a loop-back link is not its own pair", f.where())
            elif kind == "same thread":
                R.ob("wiring", nm + ":ends", full("left", 0) and full("right", 1) or full("left", 1) and full("right", 0), "the end of a link gets another port or latency", f.where())
            elif direct:
                R.ob("wiring", nm + ":end", full("link", loc), "the end of a link gets another port or latency", f.where())
                gone = any(n.kind == "call" and last(n.d["q"]) in ("erase", "extract") and ctl(n.d["obj"]) for n, _ in r.events)
                kept = any(n.kind == "asg" and ctl(n.d["lhs"]) and n.d["lhs"][0] == "idx" and end(st(v(n.d["rhs"]))) == "link" for n, v in r.events) or any(n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and ctl(n.d["obj"]) for n, _ in r.events)
                if known: R.ob("wiring", nm + ":joined", len(joins) == 2 and ("link", "other") in joins and ("other", "link") in joins and gone, "the two ends of a link between threads are not joined", f.where())
                else: R.ob("wiring", nm + ":kept", kept and not joins and not gone, "the other end of a link between threads cannot find this one", f.where())
            else:
                far = ends[1 - loc]
                ok = [(a, b) for a, b in (("left", "right"), ("right", "left")) if full(a, loc)]
                R.ob("wiring", nm + ":end", bool(ok), "the end of a link gets another port or latency", f.where())
                for a, b in ok:
                    R.ob("wiring", nm + ":far", W.get(b, {}).get("lat") == ("const", 0) and "port" not in W.get(b, {}) and W.get(b, {}).get("sync", False), "the far side of a link between partitions is not set up as such", f.where())
                    R.ob("wiring", nm + ":registered", reg == ((far, me, b),), "a link between partitions is registered for other partitions", f.where())
                    q = [v for n, v in r.events for _ in [0] if n.kind == "asg" and fld(n.d["lhs"], "send_queue") and end(st(v(n.d["lhs"][1]))) == a and any(x[0] == "call" and last(x[1]) == "registerLink" for x in subterms(expand(g.T, v(n.d["rhs"]))))]
                    R.ob("wiring", nm + ":queue", len(q) == 1, "a link between partitions does not send through its synchronisation", f.where())
            if kind == "other rank":
                src = [(n, v) for n, v in r.events if n.kind in ("asg", "init") or n.kind == "call" and last(n.d["q"]) == "operator="]
                val = lambda n, v: v(n.d["rhs"]) if n.kind != "call" else v(n.d["args"][0])
                own = any(st(val(n, v)) is not None and n.d.get("rhs", True) is not None and ix(st(val(n, v)), "component_") == 1 for n, v in src if n.kind == "call" or n.d["rhs"] is not None)
                thr = any(ix(st(val(n, v)), "latency_") == 1 for n, v in src if n.kind == "call" or n.d["rhs"] is not None)
                com = any(1 in inside(val(n, v), "component_") and "comps_" in show(val(n, v)) for n, v in src if n.kind == "call" or n.d["rhs"] is not None)
                R.ob("wiring", nm + ":place", (own and thr and not com) if nonlocal_ else com, "the far end of a link is looked for in another partition", f.where())


def end(t):
    """which end of a link a term is"""
    while t[0] in ("cast", "deref", "addr") or t[0] == "un" and t[1] in ("&", "*"): t = t[-1]
    if t[0] == "mem" and last(t[2]) in ("left", "right"): return last(t[2])
    if t[0] == "call" and last(t[1]) in ("getLeft", "getRight"): return last(t[1])[3:].lower()
    if "cross_thread_links" in show(t): return "other"
    if t[0] == "new" or t[0] == "ctor" and last(str(t[1])) == "Link" or t[0] == "var": return "link"
    return show(t)


def tools(R):
    """Link::detachTool takes away exactly the tool named, attachTool adds the one given."""
    f = fn(R, "SST::Link::detachTool")[0]
    g = CFG(R.prog, f, inline=lambda *a: False)
    R.cfg_used(g)
    er = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "erase"]
    if er and not any("remove" in show(a) for n in er for a in n.d["args"]):
        guarded(R, "tools", "detachTool", g, lambda n: n in er, lambda at, pol, n: at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) and pol, "detaching a tool takes away another one")
    f = fn(R, "SST::Link::attachTool")[0]
    g = CFG(R.prog, f, inline=lambda *a: False)
    always(R, "tools", "attachTool", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("emplace_back", "push_back", "emplace", "insert") and any(param_idx(f, x) == 0 for a in n.d["args"] for x in subterms(a)), "an attached tool sees no events")


def unset(R):
    """The queue that stands for a phase in which sending is not allowed takes nothing: every use of it ends the run."""
    for m in ("insert", "pop", "front", "empty", "size"):
        for f in fn(R, "SST::UninitializedQueue::" + m):
            g = CFG(R.prog, f, inline=helpers(f))
            p = g.search([g.entry], lambda n: n is g.exit, avoid=is_fatal)
            R.cfg_used(g)
            R.ob("unset", m, p is None, "an event sent where that is not allowed is passed over", f.where(), path_str(p) if p else None)


CLAUSES = [send, overloads, latency, recv, handlers, configured, wiring, tools, unset]
