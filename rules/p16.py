"""P16: clocks."""
from sa.q import *
from rules.p11 import noctx, mode_assume

PROP = dict(
    title="Clocks tick every period, and every tick calls every active handler once",
    statement="A clock ticks at multiples of its period, once each, with a cycle number that grows by one per tick and equals time/period. Every tick calls each handler that "
              "is active at its start, in registration order (groups: in the order of first registration), with that cycle number; a handler that returns true or is "
              "unregistered is not called again until it is registered again, and no other handler is affected, even when handlers (un)register handlers of the same clock. A "
              "clock without active handlers stops and resumes on the right cycle; a clock started in a tick it could still take part in ticks then. Handlers survive a restart.",
    over=["inputs", "histories", "schedules"], text="all sequences of registration, activation and removal of handlers, also from within handlers, at any time and for any period",
    why="Nearly every model is driven by clocks. An off-by-one in the cycle, a handler lost by a removal next to it or a clock that stays asleep shifts results silently; it needs removals and "
        "activations in particular orders, or at particular times within a tick, that tests do not enumerate.",
    files=["src/sst/core/clock.cc", "src/sst/core/clock.h", "src/sst/core/simulation.cc", "src/sst/core/baseComponent.cc", "src/sst/core/component.cc"],
    mech=[("Clock::execute/schedule/registerHandler/unregisterHandler", "src/sst/core/clock.cc"), ("Clock::Group", "src/sst/core/clock.cc"),
          ("Simulation::registerClock & co", "src/sst/core/simulation.cc"), ("BaseComponent::registerClock_impl, serialize_order", "src/sst/core/baseComponent.cc")],
    technique="path obligations over interprocedural control-flow graphs, case-by-case value propagation of the cycle arithmetic, paired-update (index/slot) analysis, re-entrancy analysis of the calling loops")

TUS = ["clock.cc", "simulation.cc", "baseComponent.cc", "component.cc"]
CUR, NEXT, SCH, HND, GRP, GIS = ("Clock::current_cycle_", "Clock::next_", "Clock::scheduled_", "Clock::handlers_", "Clock::groups_", "Clock::groups_inactive_start_")
now = lambda t: is_field(t, "currentSimCycle") or t[0] == "call" and last(t[1]) in ("getCurrentSimCycle", "getCurrentSimTime")
period = lambda t: is_field(t, "TimeConverter::factor") or t[0] == "call" and last(t[1]) == "getFactor"
called = call_to("SSTHandlerBase::operator()")
INS = lambda n: n.kind == "call" and last(n.d["q"]) in ("insertActivity",)


def fn(R, q, n=None):
    fs = R.need(R.prog.find("SST::" + q, False), q)
    return fs[0] if n is None else R.need([f for f in fs if len(f.params) == n], q)[0]


CLK = ("Clock", "Clock::Group", "Clock::HandlerBase", "TimeConverter")


def stop(*names):
    base = inline_class(*CLK)
    return lambda f, e, ctx: last(f.q) not in names and (base(f, e, ctx) or f.file.endswith(("clock.cc", "clock.h")) or last(f.q) in ("getCurrentSimCycle", "getCurrentPriority", "getPriority"))


def incr(n, fld, by=1):
    """n adds `by` to a field"""
    if n.kind != "asg" or not is_field(n.d["lhs"], fld): return False
    op, r = n.d["op"], n.d["rhs"]
    if op in ("++", "--"): return by == (1 if op == "++" else -1)
    if op in ("+=", "-="): return const(r) == (by if op == "+=" else -by)
    if op == "=":
        s = summands(r)
        return len(s) == 2 and any(g == 1 and is_field(x, fld) for g, x in s) and sum(g * const(x) for g, x in s if const(x) is not None) == by
    return False


def empties(h, g):
    """handlers_ empty? groups active?"""
    def f(at, ctx=None):
        if at[0] in ("nz", "pos"):
            t = at[1]
            if t[0] == "call" and last(t[1]) == "empty" and has_field(t, HND): return h
            if t[0] == "call" and last(t[1]) == "size" and has_field(t, HND): return not h
            if is_field(t, GIS): return g
        if at[0] == "==" and any(const(x) == 0 for x in at[1:]):
            for t in at[1:]:
                if is_field(t, GIS): return not g
                if t[0] == "call" and last(t[1]) == "size" and has_field(t, HND): return h
        if at[0] == "<" and is_field(at[2], GIS) and const(at[1]) == 0: return g
        if at[0] == "<" and is_field(at[1], GIS) and const(at[2]) == 1: return not g
        return None
    return f


def head_assume(f):
    """decides conditions only before the cycle changes (afterwards the collections may have changed)"""
    return f


def tick(R):
    """A tick with something to call advances the cycle by one before anything is called and puts the clock back into the queue
    once, one period from now; a tick with nothing to call puts the clock to sleep and changes nothing else."""
    P = R.prog
    f = fn(R, "Clock::execute")
    inc = lambda n: incr(n, CUR)
    cur = lambda n: n.kind == "asg" and is_field(n.d["lhs"], CUR)
    grp = lambda n: n.kind == "call" and n.d["q"].endswith("Clock::Group::execute")
    anyc = lambda n: called(n) or grp(n)
    g0 = CFG(P, f, inline=stop("execute", "schedule"), assume=empties(True, False))
    always(R, "tick", "idle:asleep", g0, asg_to(SCH, lambda r: const(r) == 0), "a clock with nothing to call does not note that it sleeps")
    never(R, "tick", "idle:queued", g0, INS, "a clock with nothing to call is put into the queue although it counts as asleep")
    never(R, "tick", "idle:cycle", g0, cur, "a clock with nothing to call advances its cycle")
    for h, gr in ((False, False), (True, True), (False, True)):
        g = CFG(P, f, inline=stop("execute", "schedule"), assume=lambda at, ctx=None, h=h, gr=gr: empties(h, gr)(at) if (at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "empty") or has_gis(at) else None)
        nm = ("handlers" if not h else "") + ("+groups" if gr else "")
        R.cfg_used(g)
        always(R, "tick", nm + ":cycle", g, inc, "a tick does not advance the cycle")
        incs = [n for n in g.nodes() if inc(n)]
        never(R, "tick", nm + ":cycle once", g, cur, "a tick changes the cycle a second time", frm=incs)
        never(R, "tick", nm + ":cycle first", g, anyc, "something is called before the cycle advances", avoid=inc)
        always(R, "tick", nm + ":queued", g, INS, "the clock is not put back into the queue after a tick")
        never(R, "tick", nm + ":queued once", g, INS, "the clock is put into the queue twice", frm=[n for n in g.nodes() if INS(n)])
        never(R, "tick", nm + ":awake", g, asg_to(SCH, lambda r: const(r) != 1), "a clock in the queue counts as asleep")
        for n in g.nodes():
            if INS(n):
                a = n.d["args"]
                t = expand(g.T, a[0])
                ok = sum_is(t, now, period) or is_field(a[0], NEXT)
                R.ob("tick", nm + ":time", ok, "the next tick is not one period from now", n.where())
                R.ob("tick", nm + ":self", a[1][0] == "this", "something other than the clock is put into the queue", n.where())
                if is_field(a[0], NEXT):
                    nx = [m for m in g.nodes() if m.kind == "asg" and is_field(m.d["lhs"], NEXT)]
                    never(R, "tick", nm + ":next first", g, lambda m, n=n: m is n, "the clock is queued for the time of the previous tick", avoid=lambda m: m in nx)
                    for m in nx: R.ob("tick", nm + ":next", m.d["op"] == "=" and sum_is(expand(g.T, m.d["rhs"]), now, period) or m.d["op"] == "+=" and period(m.d["rhs"]), "the next tick is not one period from now", m.where())


def has_gis(at): return any(is_term(x) and has_field(x, GIS) for x in at[1:])


def isnull(at, pol):
    """edge on which a handler slot is known to be null"""
    if at[0] in ("nz", "pos"): return not pol
    return at[0] == "==" and pol and any(const(x) == 0 or x == ("null",) for x in at[1:])


def inactive_edge(at, pol):
    return at[0] == "<" and is_field(at[1], "HandlerBase::index_") and const(at[2]) == 0 and pol or at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "isActive" and not pol


def slotty(t): return t[0] == "idx" and has_field(t[1], HND) or t[0] == "each" and has_field(t, HND)


def asg_null(n): return n.kind == "asg" and n.d["op"] == "=" and (const(n.d["rhs"]) == 0 or show(n.d["rhs"]) == "nullptr")


def calls(R):
    """Every slot of the handler vector up to its size at the start is called with the current cycle, only empty slots are left out;
    a handler is removed, slot and state, exactly when its call returns true; every active group is executed with the cycle."""
    P = R.prog
    f = fn(R, "Clock::execute")
    g = CFG(P, f, inline=stop("execute", "schedule"))
    R.cfg_used(g)
    def hterm(t): return slotty(t) or slotty(expand(g.T, t)) or t[0] == "deref" and hterm(t[1])
    def skip(n, s, c, p):
        if c is None or not is_term(c): return False
        at, pol = norm_cond(c, p)
        if inactive_edge(at, pol): return True
        return isnull(at, pol) and any(is_term(x) and hterm(x) for x in at[1:])
    over = lambda c: has_field(c, HND) or any(x[0] == "var" and has_field(expand(g.T, x), HND) for x in subterms(c)) if is_term(c) else False
    for_each(R, "calls", "handlers", g, lambda c: over(c) or show(c).startswith("more"), called, "a handler of the clock is not called", skip_ok=skip)
    cs = [n for n in g.nodes() if called(n)]
    for n, body, leave, L in loop_heads(g):
        if not any(m in cs for m in g.nodes() if m.nid in L): continue
        nf = nonfatal(g, [g.exit, n])
        esc = g.search(body, lambda m: m.nid not in L and m.nid in nf, avoid=lambda m: m is n or is_fatal(m))
        R.ob("calls", "all handlers", esc is None, "the calls stop before the last handler", n.where())
    for n in cs:
        R.ob("calls", "cycle", n.d["args"] and is_field(expand(g.T, n.d["args"][0]), CUR), "a handler is called with something other than the current cycle", n.where())
        R.ob("calls", "object", hterm(n.d["obj"]), "what is called is not a handler of the clock", n.where())
    # the loop over the handlers: every index from zero
    for n, body, leave, L in loop_heads(g):
        if not any(m.nid in L and called(m) for m in g.nodes()): continue
        idx = {m.d["lhs"] for m in g.nodes() if m.nid in L and m.kind == "asg" and m.d["lhs"][0] == "var" and m.d["op"] in ("++", "+=", "=", "--", "-=")}
        for v in idx:
            d = g.T.definition(v)
            cs2 = [c for _, c, _ in n.succ if c is not None and is_term(c)]
            if not any(v in subterms(c) for c in cs2): continue
            R.ob("calls", "from the start", d is not None and (const(d) == 0 or has_call(d, "begin")), "the first handler is left out", n.where())
            st = [m for m in g.nodes() if m.nid in L and m.kind == "asg" and m.d["lhs"] == v]
            for m in st:
                R.ob("calls", "next one", m.d["op"] == "++" or m.d["op"] == "+=" and const(m.d["rhs"]) == 1, "handlers are left out", m.where())
                p = g.search([x for x in g.after(m)], lambda x: x in st, avoid=lambda x: x is n, edge=lambda a, s, c, p: s.nid in L)
                R.ob("calls", "one by one", p is None, "handlers are left out", m.where())
            # the bound is the number of handlers
            for c in cs2:
                at, pol = norm_cond(c, True)
                if at[0] in ("<", "=="):
                    o = [x for x in at[1:] if v not in subterms(x)]
                    e = [expand(g.T, x) for x in o]
                    R.ob("calls", "to the end", bool(e) and all(has_field(x, HND) and x[0] == "call" and last(x[1]) in ("size", "end") for x in e) and (at[0] == "==" or (v in subterms(at[1])) == True), "the last handlers are left out", n.where())
    done(R, g, cs, "handler", lambda n: asg_null(n) and slotty(n.d["lhs"]) or n.kind == "call" and last(n.d["q"]) == "erase" and has_field(n.d["obj"], HND))
    # groups
    ge = lambda n: n.kind == "call" and n.d["q"].endswith("Clock::Group::execute")
    gs = [n for n in g.nodes() if ge(n)]
    for_each(R, "calls", "groups", g, lambda c: has_field(c, GIS), ge, "an active group is not executed")
    for n in gs: R.ob("calls", "group cycle", n.d["args"] and is_field(expand(g.T, n.d["args"][0]), CUR), "a group is executed with something other than the current cycle", n.where())
    for n, body, leave, L in loop_heads(g):
        if not any(m.nid in L and m in gs for m in g.nodes()): continue
        tr, fa = result_edges(g, L, ge)
        dec = lambda m: incr(m, GIS, -1)
        vs = {x for _, c, _ in n.succ if is_term(c) for x in subterms(c) if x[0] == "var"}
        adv = lambda m: m.kind == "asg" and m.d["lhs"] in vs
        inl = lambda a, s, c, p: s.nid in L
        back = lambda m: m is n
        for s in tr:
            R.ob("calls", "idle group:removed", g.search([s], back, avoid=dec, edge=inl) is None, "a group without active handlers is not removed", s.where())
            R.ob("calls", "idle group:next", g.search([s], adv, avoid=back, edge=inl) is None, "the group that takes the place of a removed one is left out of this tick", s.where())
        for s in fa:
            R.ob("calls", "group:kept", g.search([s], dec, avoid=back, edge=inl) is None, "a group with active handlers is removed", s.where())
            R.ob("calls", "group:next", g.search([s], back, avoid=adv, edge=inl) is None, "a group is executed twice in a tick", s.where())
        R.ob("calls", "group:result", bool(tr) and bool(fa), "the result of a group's execution is not looked at", n.where())
        for v in vs:
            d = g.T.definition(v)
            R.ob("calls", "groups from the start", d is not None and const(d) == 0, "the first group is left out", n.where())
        for m in g.nodes():
            if m.nid in L and adv(m): R.ob("calls", "groups one by one", m.d["op"] == "++" or m.d["op"] == "+=" and const(m.d["rhs"]) == 1, "groups are left out", m.where())


def result_edges(g, L, ev):
    """successors of the branches on the result of ev within a loop: (true, false)"""
    ids = {n.d["q"] for n in g.nodes() if ev(n)}
    tr, fa = [], []
    for n in g.nodes():
        if n.kind != "br" or n.nid not in L: continue
        for s, c, p in n.succ:
            if c is None or not is_term(c): continue
            at, pol = norm_cond(expand(g.T, c), p)
            if at[0] in ("nz", "pos") and at[1][0] == "call" and strip_t(at[1][1]) in {strip_t(i) for i in ids}: (tr if pol else fa).append(s)
            elif at[0] == "==" and any(x[0] == "call" and strip_t(x[1]) in {strip_t(i) for i in ids} for x in at[1:]):
                v = [const(x) for x in at[1:] if const(x) is not None]
                if v: (tr if pol == bool(v[0]) else fa).append(s)
    return tr, fa


def done(R, g, cs, nm, clear):
    """on a true result slot and state are cleared, unless the handler is inactive already; on false nothing happens"""
    neg = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "HandlerBase::index_") and (n.d["rhs"] == ("bin", "-", ("int", -1), n.d["lhs"]) or n.d["op"] == "=" and any(is_field(x, "HandlerBase::index_") for _, x in summands(n.d["rhs"])))
    for n, body, leave, L in loop_heads(g):
        if not any(m.nid in L and m in cs for m in g.nodes()): continue
        tr, fa = result_edges(g, L, lambda m: m in cs)
        R.ob("calls", nm + ":result", bool(tr) and bool(fa), "the result of a handler is not looked at", n.where())

        def inactive(a, s, c, p):
            if c is None or not is_term(c): return False
            at, pol = norm_cond(c, p)
            return inactive_edge(at, pol)
        inl = lambda a, s, c, p: s.nid in L and not inactive(a, s, c, p)
        back = lambda m: m is n
        for s in tr:
            R.ob("calls", nm + ":slot", g.search([s], back, avoid=clear, edge=inl) is None, "a handler that returns true keeps its place", s.where())
            R.ob("calls", nm + ":state", g.search([s], back, avoid=neg, edge=inl) is None, "a handler that returns true stays active", s.where())
        for s in fa:
            R.ob("calls", nm + ":kept", g.search([s], lambda m: clear(m) or neg(m), avoid=back, edge=lambda a, s, c, p: s.nid in L) is None, "a handler that returns false is removed", s.where())


def slots(R):
    """Wherever a handler is put into slot K its index becomes K, in the same step; emptied slots are closed afterwards, and never
    while handlers are being called; the calling loops do not hold iterators across a call."""
    P = R.prog
    for q, fld in (("Clock::execute", HND), ("Clock::Group::activateHandler", "Group::handlers_"), ("Clock::Group::deactivateHandler", "Group::handlers_"),
                   ("Clock::registerHandler", HND), ("Clock::Group::registerHandler", "Group::handlers_"), ("Clock::registerHandler_restart", HND)):
        f = fn(R, q)
        g = CFG(P, f, inline=stop("execute", "schedule", "activateGroup"))
        R.cfg_used(g)
        paired(R, g, q, fld, "HandlerBase::index_")
    for q in ("Clock::execute", "Clock::activateGroup", "Clock::registerGroup"):
        g = CFG(P, fn(R, q), inline=stop("execute", "schedule"))
        R.cfg_used(g)
        swapped(R, g, q)
    f = fn(R, "Clock::execute")
    g = CFG(P, f, inline=stop("execute", "schedule"))
    cs = [n for n in g.nodes() if called(n)]
    # slots emptied in the loop are marked and closed
    es = "Clock::empty_slots_"
    for n in g.nodes():
        if asg_null(n) and slotty(n.d["lhs"]):
            mark = lambda m: m.kind == "asg" and is_field(m.d["lhs"], es) and const(m.d["rhs"]) == 1
            always(R, "slots", "execute:marked", g, mark, "an emptied slot is not closed", frm=[n])
    lhs = lambda m: m.kind == "call" and last(m.d["q"]) in ("resize", "erase") and has_field(m.d["obj"], HND)
    ga = CFG(P, f, inline=stop("execute", "schedule"), assume=lambda at, ctx=None: True if at[0] in ("nz", "pos") and is_field(at[1], es) else empties(False, True)(at) if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "empty" else None)
    always(R, "slots", "execute:closed", ga, lhs, "emptied slots stay in the vector")
    for n in ga.nodes():
        if lhs(n):
            p = ga.search(ga.after(n), called)
            R.ob("slots", "execute:not while calling", p is None, "the handler vector shrinks while its handlers are being called", n.where())
            if last(n.d["q"]) == "resize":
                v = n.d["args"][0]
                st = [m for m in ga.nodes() if m.kind == "asg" and m.d["lhs"] == v]
                R.ob("slots", "execute:kept", v[0] == "var" and const(ga.T.definition(v) or ("x",)) == 0 and len(st) >= 1 and all(m.d["op"] == "++" for m in st), "handlers are lost when slots are closed", n.where())
    clr = lambda m: m.kind == "asg" and is_field(m.d["lhs"], es) and const(m.d["rhs"]) == 0
    # re-entrancy
    ex = "Clock::executing_"
    on = lambda m: m.kind == "asg" and is_field(m.d["lhs"], ex) and const(m.d["rhs"]) == 1
    off = lambda m: m.kind == "asg" and is_field(m.d["lhs"], ex) and const(m.d["rhs"]) == 0
    never(R, "slots", "reentrant:on", g, called, "handlers are called without noting it, so that one that unregisters a handler moves the others", avoid=on)
    offs = [m for m in g.nodes() if off(m)]
    R.ob("slots", "reentrant:off", bool(offs) and g.search([s for m in g.nodes() if on(m) for s in g.after(m)], lambda m: m is g.exit, avoid=off) is None, "the clock counts as being called for ever", f.where())
    for m in offs: R.ob("slots", "reentrant:until the end", g.search(g.after(m), called, avoid=on) is None, "handlers are called after the clock stopped noting it", m.where())
    for gname, qn in (("Clock", "Clock::execute"), ("Clock::Group", "Clock::Group::execute")):
        fx = fn(R, qn)
        gx = CFG(P, fx, inline=stop("schedule", *(["execute"] if gname == "Clock" else [])))
        for n, body, leave, L in loop_heads(gx):
            if not any(m.nid in L and called(m) for m in gx.nodes()): continue
            cond = [c for _, c, _ in n.succ if c is not None and is_term(c)]
            bad = not cond or any(show(c).startswith(("more", "!more")) or has_call(expand(gx.T, c), "end") for c in cond)
            # tools attached to a handler are iterated inside of the call, not around it
            outer = any(called(m) for m in gx.nodes() if m.nid in L)
            R.ob("slots", f"reentrant:{gname}", not (bad and outer), "the handlers are walked with iterators, which a handler that registers another handler invalidates", n.where())
    f = fn(R, "Clock::unregisterHandler")
    g = CFG(P, f, inline=stop("execute"), assume=truth(lambda t: is_field(t, ex), True))
    never(R, "slots", "reentrant:unregister", g, lambda m: m.kind == "call" and last(m.d["q"]) in ("erase", "resize", "clear", "pop_back") and has_field(m.d["obj"], HND),
          "unregistering a handler while handlers are being called moves the handlers")


def paired(R, g, q, fld, ifld):
    """each store of a handler into a slot is matched by the store of the slot's number into the handler"""
    nodes = g.nodes()
    isslot = lambda t: t[0] == "idx" and has_field(t[1], fld)
    st = [n for n in nodes if n.kind == "asg" and isslot(n.d["lhs"]) and not asg_null(n)]
    pb = [n for n in nodes if n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and n.d["obj"] is not None and is_field(n.d["obj"], fld)]
    ix = [n for n in nodes if n.kind == "asg" and is_field(n.d["lhs"], ifld)]

    for n in st:
        K = n.d["lhs"][2]
        post = None
        if K[0] == "un" and K[1] == "p++": post = K[-1]; K = post
        X = n.d["rhs"]
        same = lambda t: t == X or t == n.d["lhs"] or expand(g.T, t, once=True) == expand(g.T, X, once=True)
        def match(m):
            if m.kind != "asg" or not is_field(m.d["lhs"], ifld): return False
            base = m.d["lhs"][1] if m.d["lhs"][0] == "mem" else None
            while base is not None and base[0] in ("deref",): base = base[1]
            if base is None or not same(base): return False
            r = m.d["rhs"]
            return r == K or r == n.d["lhs"][2] or expand(g.T, r, once=True) == expand(g.T, K, once=True) or r[0] == "bin" and r[1] == "-" and is_field(r[3], ifld)
        cand = [m for m in ix if match(m)]
        chg = lambda m: m.kind == "asg" and m.d["lhs"] == K and K[0] == "var"
        # forward to a matching index store before the variable changes, or backward
        ok = False
        starts = g.after(n)
        fw = g.search(starts, lambda m: chg(m) or m is g.exit, avoid=lambda m: m in cand) is None if cand and post is None else False
        bw = False
        for m in cand:
            # from the index store to the slot store: no change of K, except the post-increment that belongs to it
            p = g.search(g.after(m), lambda x: x is n, avoid=lambda x: chg(x)) is not None if post is None else None
            if post is not None:
                p = g.search(g.after(m), lambda x: x is n) is not None and post_ok(g, m, n, chg)
            if p: bw = bw or g.search([g.entry], lambda x: x is n, avoid=lambda x: x in cand) is None
        # the index store of an inactive handler may come as value plus toggle
        R.ob("slots", f"{q}:{show(n.d['lhs'])}", fw or bw, "a handler moves to another slot without its index following, so that removing it later removes another", n.where())
    for n in pb:
        x = n.d["args"][0]
        ok = False
        for m in ix:
            b = m.d["lhs"][1]
            while b[0] == "deref": b = b[1]
            r = expand(g.T, m.d["rhs"])
            s = summands(r)
            size = any(y[0] == "call" and last(y[1]) == "size" and has_field(y, fld) for _, y in s)
            off = sum(gn * const(y) for gn, y in s if const(y) is not None)
            if b != x or not size: continue
            before = g.search(g.after(m), lambda y: y is n) is not None
            if before and off == 0 or not before and off == -1: ok = True
            # size taken before the append although stored later
            if not before and off == 0 and m.d["rhs"][0] == "var":
                dn = [y for y in nodes if y.kind == "init" and y.d["var"] == m.d["rhs"]]
                ok = ok or bool(dn) and g.search(g.after(dn[0]), lambda y: y is n) is not None
        R.ob("slots", f"{q}:append", ok, "an appended handler does not know its place", n.where())


def post_ok(g, m, n, chg):
    """between m and n the slot variable is only changed by the post-increment in n's subscript"""
    c = [x for x in g.nodes() if chg(x) and g.search(g.after(m), lambda y: y is x, avoid=lambda y: y is n) is not None and g.search(g.after(x), lambda y: y is n, avoid=lambda y: y is m) is not None]
    return len(c) == 1


def swapped(R, g, q):
    nodes = g.nodes()
    sw = [n for n in nodes if n.kind == "call" and last(n.d["q"]) == "swap" and any(is_term(a) and a[0] == "idx" and is_field(a[1], GRP) for a in n.d["args"])]
    for n in sw:
        for a in n.d["args"]:
            if a[0] != "idx": continue
            ok = lambda m, a=a: m.kind == "asg" and is_field(m.d["lhs"], "Group::index_") and expand(g.T, m.d["rhs"], once=True) == expand(g.T, a[2], once=True)
            always(R, "slots", f"{q}:group {show(a[2])}", g, ok, "a group moves without its index following", frm=[n])
    for n in nodes:
        if n.kind == "call" and last(n.d["q"]) == "push_back" and n.d["obj"] is not None and is_field(n.d["obj"], GRP):
            x = n.d["args"][0]
            ok = [m for m in nodes if m.kind == "asg" and is_field(m.d["lhs"], "Group::index_") and m.d["lhs"][1] in (x, ("deref", x)) and has_call(expand(g.T, m.d["rhs"]), "size") and has_field(expand(g.T, m.d["rhs"]), GRP)]
            R.ob("slots", f"{q}:group append", any(g.search(g.after(m), lambda y: y is n) is not None for m in ok), "an appended group does not know its place", n.where())


def removal(R):
    """Unregistering an active handler makes it inactive and removes it from its slot, others keep their order and get their new
    index; an inactive one is left alone.  Registering an inactive handler appends it, activates it and wakes the clock."""
    P = R.prog
    f = fn(R, "Clock::unregisterHandler")
    act = lambda v: lambda at, ctx=None: ((not v) if at[0] == "<" and is_field(at[1], "HandlerBase::index_") and const(at[2]) == 0 else v if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "isActive" else None)
    gone = lambda n: n.kind == "call" and last(n.d["q"]) == "erase" and has_field(n.d["obj"], HND) or asg_null(n) and has_field(expand(g.T, n.d["lhs"]), HND)
    neg = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "HandlerBase::index_") and any(x[0] == "param" for x in subterms(n.d["lhs"]))
    g = CFG(P, f, inline=stop(), assume=lambda at, ctx=None: act(True)(at) if ctx is None or ctx.fn is f or last(ctx.fn.q) == "isActive" else None)
    always(R, "removal", "unregister:slot", g, gone, "an unregistered handler keeps its slot")
    g = CFG(P, f, inline=stop("markAsInactive"), assume=act(True))
    mk = lambda n: neg(n) or n.kind == "call" and last(n.d["q"]) in ("markAsInactive", "toggleActiveState")
    always(R, "removal", "unregister:state", g, mk, "an unregistered handler stays active")
    idxv = [n for n in g.nodes() if n.kind == "init" and is_field(n.d["rhs"] or ("x",), "HandlerBase::index_")]
    for n in idxv: never(R, "removal", "unregister:index", g, lambda m, n=n: m is n, "the slot is looked up after the index changed", frm=[m for m in g.nodes() if mk(m)])
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "erase" and has_field(n.d["obj"], HND):
            t = expand(g.T, n.d["args"][0])
            R.ob("removal", "unregister:which", has_call(t, "begin") and any(is_field(x, "HandlerBase::index_") for x in subterms(t)) and const(t) is None and not any(x[0] == "bin" and any(const(y) not in (None, 0) for y in x[2:]) for x in subterms(t)), "another handler is removed", n.where())
            # those behind get their index
            fe = [m for m in g.nodes() if m.kind == "asg" and is_field(m.d["lhs"], "HandlerBase::index_") and m.nid != n.nid]
            for_each(R, "removal", "unregister:behind", g, lambda c: has_field(c, HND), lambda m: m in fe and not mk_param(m), "the handlers behind a removed one keep their old index")
            for m in fe:
                if mk_param(m): continue
                r = m.d["rhs"]
                v = r[-1] if r[0] == "un" and r[1] == "p++" else r
                L = next((L for _, _, _, L in loop_heads(g) if m.nid in L), set())
                hd = [h for h, _, _, LL in loop_heads(g) if LL is L or LL == L]
                up = lambda x: x.kind == "asg" and x.d["lhs"] == v
                early = [x for x in g.nodes() if x.nid in L and up(x) and g.search(g.after(x), lambda y: y is m, avoid=lambda y: y in hd) is not None]
                ok = v[0] == "var" and len(early) == (1 if v is not r else 0)
                d = g.T.definition(v) if v[0] == "var" else None
                ok = ok and d is not None and is_field(expand(g.T, d), "HandlerBase::index_") and all(x.d["op"] == "++" for x in g.nodes() if up(x))
                if v[0] != "var": ok = any(x[0] == "bin" and x[1] == "-" for x in subterms(r)) or has_call(r, "distance")
                R.ob("removal", "unregister:behind index", ok, "the handlers behind a removed one get the wrong index", m.where())
    g = CFG(P, f, inline=stop("markAsInactive"), assume=act(False))
    never(R, "removal", "unregister:inactive", g, lambda n: gone(n) or mk(n), "unregistering an inactive handler removes another")
    f = fn(R, "Clock::registerHandler")
    fresh = lambda at, ctx=None: (True if at[0] == "==" and any(is_field(x, "HandlerBase::clock_") for x in at[1:]) and any(x == ("this",) for x in at[1:]) else act(False)(at))
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], HND)
    g = CFG(P, f, inline=stop("schedule", "markAsActive", "markAsInactive"), assume=fresh)
    always(R, "removal", "register:append", g, push, "a registered handler is not appended")
    never(R, "removal", "register:once", g, push, "a registered handler is appended twice", frm=[n for n in g.nodes() if push(n)])
    for n in g.nodes():
        if push(n): R.ob("removal", "register:which", param_idx(f, n.d["args"][0]) == 0, "another handler is appended", n.where())
    g = CFG(P, f, inline=stop("schedule", "markAsInactive"), assume=lambda at, ctx=None: True if at[0] == "==" and any(is_field(x, "HandlerBase::clock_") for x in at[1:]) and any(x == ("this",) for x in at[1:]) else act(True)(at) if ctx is None or last(ctx.fn.q) in ("registerHandler", "isActive") else None)
    never(R, "removal", "register:active", g, push, "a handler that is active is appended again and would be called twice per tick")
    for q in ("Clock::registerHandler", "Clock::registerHandler_restart", "Clock::activateGroup"):
        fq = fn(R, q)
        sch = call_to("Clock::schedule")
        asm = allof(truth(lambda t: is_field(t, SCH), False), fresh if q == "Clock::registerHandler" else act(True),
                    lambda at, ctx=None: False if at[0] == "<" and is_field(at[1], "Group::index_") and is_field(at[2], GIS) else None)
        g = CFG(P, fq, inline=stop("schedule"), assume=asm)
        always(R, "removal", q + ":wakes", g, sch, "a sleeping clock is not woken")
        g = CFG(P, fq, inline=stop("schedule"), assume=truth(lambda t: is_field(t, SCH), True))
        never(R, "removal", q + ":awake", g, sch, "a clock that is in the queue is put there again")
    # nobody else
    ok = {"SST::Clock::registerHandler", "SST::Clock::registerHandler_restart", "SST::Clock::activateGroup"}
    for f, n in callers(P, lambda q: q == "SST::Clock::schedule"):
        if f.sq in ok: continue
        g = CFG(P, f)
        t = lambda m: m.kind == "call" and m.d["q"] == "SST::Clock::schedule"
        def okobj(m):
            o = expand(g.T, m.d["obj"]) if m.d["obj"] else None
            return o is not None and o[0] == "new"
        bad = [m for m in g.nodes() if t(m) and not okobj(m)]
        R.ob("removal", "schedule:" + f.sq, not bad, "a clock that may be in the queue is put there", (bad[0].where() if bad else f.where()))
    f = fn(R, "Clock::activateGroup")
    g = CFG(P, f, inline=stop("schedule"), assume=lambda at, ctx=None: True if at[0] == "<" and is_field(at[1], "Group::index_") and is_field(at[2], GIS) else None)
    never(R, "removal", "activateGroup:active", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], GIS), "an active group is activated again")
    g = CFG(P, f, inline=stop("schedule"), assume=lambda at, ctx=None: False if at[0] == "<" and is_field(at[1], "Group::index_") and is_field(at[2], GIS) else None)
    always(R, "removal", "activateGroup", g, lambda n: incr(n, GIS), "an inactive group is not activated")
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "swap": never(R, "removal", "activateGroup:order", g, lambda m, n=n: m is n, "the group is swapped with the wrong one", frm=[m for m in g.nodes() if incr(m, GIS)])


def mk_param(m): return any(x[0] == "param" for x in subterms(m.d["lhs"]))


def groups(R):
    """Group: inactive handlers lie behind the active ones, active ones in the order of their registration; activating and
    deactivating keep both, adjust the position of the call in progress, and a group that becomes active activates itself."""
    P = R.prog
    IS, PO, OR, IX = "Group::inactive_start_", "Group::call_index_", "HandlerBase::order_", "HandlerBase::index_"
    GH = "Group::handlers_"
    # registration
    f = fn(R, "Clock::Group::registerHandler")
    g = CFG(P, f, inline=stop("activateGroup"))
    R.cfg_used(g)
    o = [n for n in g.nodes() if n.kind == "asg" and is_field(n.d["lhs"], OR)]
    inc = lambda n: incr(n, "Group::handler_count_")
    R.ob("groups", "order", bool(o) and all(has_field(expand(g.T, n.d["rhs"]), "Group::handler_count_") or has_call(expand(g.T, n.d["rhs"]), "size") and has_field(expand(g.T, n.d["rhs"]), GH) for n in o), "a handler of a group gets no place in the order", f.where())
    always(R, "groups", "order:counted", g, inc, "two handlers of a group get the same place in the order")
    never(R, "groups", "order:once", g, inc, "places in the order are skipped", frm=[n for n in g.nodes() if inc(n)]) if False else None
    always(R, "groups", "register:group", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "group_") and n.d["rhs"] == ("this",), "a handler does not know its group")
    always(R, "groups", "register:append", g, lambda n: n.kind == "call" and last(n.d["q"]) == "push_back" and is_field(n.d["obj"], GH), "a handler is not put into its group")
    always(R, "groups", "register:active", g, lambda n: incr(n, IS), "a registered handler does not become active")
    for q in ("registerHandler", "activateHandler"):
        f = fn(R, "Clock::Group::" + q)
        ag = call_to("Clock::activateGroup")
        for idle in (True, False):
            # the state of the group before the handler was added decides
            def asm(at, ctx=None, idle=idle):
                if at[0] == "==" and any(is_field(x, IS) for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return idle
                if at[0] in ("nz", "pos") and is_field(at[1], IS): return not idle
                if at[0] == "<" and is_field(at[1], IX) and const(at[2]) == 0: return True
                return None
            g = CFG(P, f, inline=stop("activateGroup"), assume=asm)
            if idle: always(R, "groups", q + ":group", g, ag, "a group that becomes active is not executed")
            # when the emptiness of the group is determined, nothing has been added yet
            for n in g.nodes():
                t = n.d.get("rhs") if n.kind == "init" else None
                c = [c for _, c, _ in n.succ if is_term(c)] if n.kind == "br" else ([t] if t is not None and is_term(t) else [])
                if any(emptytest(x, IS) for x in c if x[0] != "var") and not (n.kind == "br" and any(x[0] == "var" for x in c)):
                    if n.kind == "br" and defined_in_init(g, c, IS): continue
                    R.ob("groups", q + ":before", g.search([g.entry], lambda m: m is n, avoid=lambda m: False) is None or not passes(g, lambda m: incr(m, IS), n), "whether the group was active is looked at after the handler was added", n.where())
    # activation
    f = fn(R, "Clock::Group::activateHandler")
    neg = lambda v: lambda at, ctx=None: v if at[0] == "<" and is_field(at[1], IX) and const(at[2]) == 0 and at[1][1][0] in ("param", "deref") else None
    g = CFG(P, f, inline=stop("activateGroup"), assume=neg(False))
    wr = lambda n: n.kind == "asg" and (is_field(n.d["lhs"], IS) or n.d["lhs"][0] == "idx" or is_field(n.d["lhs"], IX)) or n.kind == "call" and last(n.d["q"]) == "swap"
    never(R, "groups", "activate:active", g, wr, "activating an active handler changes the group")
    g = CFG(P, f, inline=stop("activateGroup", "toggleActiveState"), assume=neg(True))
    always(R, "groups", "activate:count", g, lambda n: incr(n, IS), "an activated handler is not among the active ones")
    never(R, "groups", "activate:count once", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], IS), "the number of active handlers changes twice", frm=[n for n in g.nodes() if incr(n, IS)])
    place = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and has_field(n.d["lhs"][1], GH) and param_idx(f, n.d["rhs"]) == 0
    always(R, "groups", "activate:place", g, place, "an activated handler has no place")
    loops = [(n, body, leave, L) for n, body, leave, L in loop_heads(g) if any(m.nid in L and m.kind == "asg" and m.d["lhs"][0] == "idx" and has_field(m.d["lhs"][1], GH) for m in g.nodes())]
    R.ob("groups", "activate:search", bool(loops), "the place of an activated handler is not searched for", f.where())
    Ls = set().union(*[L for _, _, _, L in loops]) if loops else set()
    for n in g.nodes():
        if n.nid not in Ls or n.kind != "br": continue
        for s, c, p in n.succ:
            if s.nid in Ls or c is None or not is_term(c): continue
            at, pol = norm_cond(c, p)
            fine = at[0] == "<" and (is_field(at[1], OR) and is_field(at[2], OR) and has_field(at[1], GH) and pol or is_field(at[1], OR) and is_field(at[2], OR) and has_field(at[2], GH) and not pol) \
                or at[0] in ("pos", "nz") and not pol and at[1][0] == "var" or at[0] == "==" and pol and any(const(x) == 0 for x in at[1:]) or at[0] == "<" and const(at[1]) == 0 and not pol
            R.ob("groups", "activate:stops", fine, "the search for the place of an activated handler stops at the wrong handler", n.where())
    shift(R, g, Ls, "activate", -1, GH)
    PI = lambda n: n.kind == "asg" and is_field(n.d["lhs"], PO)
    position(R, g, f, "activate", PO, IX, +1)
    # deactivation
    f = fn(R, "Clock::Group::deactivateHandler")
    g = CFG(P, f, inline=stop("activateGroup"), assume=neg(True))
    never(R, "groups", "deactivate:inactive", g, wr, "deactivating an inactive handler changes the group")
    g = CFG(P, f, inline=stop("activateGroup", "toggleActiveState", "markAsInactive"), assume=neg(False))
    always(R, "groups", "deactivate:count", g, lambda n: incr(n, IS, -1), "a deactivated handler counts as active")
    never(R, "groups", "deactivate:count once", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], IS), "the number of active handlers changes twice", frm=[n for n in g.nodes() if incr(n, IS, -1)])
    pl = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and has_field(n.d["lhs"][1], GH) and param_idx(f, n.d["rhs"]) == 0 and is_field(expand(g.T, n.d["lhs"][2]), IS)
    always(R, "groups", "deactivate:place", g, pl, "a deactivated handler is not put behind the active ones")
    tog = lambda n: n.kind == "call" and last(n.d["q"]) in ("toggleActiveState", "markAsInactive") or n.kind == "asg" and is_field(n.d["lhs"], IX) and n.d["rhs"][0] == "bin"
    always(R, "groups", "deactivate:state", g, tog, "a deactivated handler stays active")
    loops = [(n, L) for n, body, leave, L in loop_heads(g) if any(m.nid in L and m.kind == "asg" and m.d["lhs"][0] == "idx" and has_field(m.d["lhs"][1], GH) for m in g.nodes())]
    Ls = set().union(*[L for _, L in loops]) if loops else set()
    shift(R, g, Ls, "deactivate", +1, GH)
    for n, L in loops:
        for c in [c for _, c, _ in n.succ if is_term(c)]:
            at, pol = norm_cond(c, True)
            if at[0] != "<": continue
            v = at[1]
            R.ob("groups", "deactivate:range", is_field(at[2], IS) and v[0] == "var" and is_field(g.T.definition(v) or ("x",), IX), "the handlers behind a deactivated one do not all move up", n.where())
            always(R, "groups", "deactivate:range last", g, lambda m: m is n, "", frm=None) if False else None
            never(R, "groups", "deactivate:range end", g, lambda m: m is n, "the handlers move up before the number of active ones is reduced, past the end", avoid=lambda m: incr(m, IS, -1))
    position(R, g, f, "deactivate", PO, IX, -1)
    # execution
    f = fn(R, "Clock::Group::execute")
    g = CFG(P, f, inline=stop("deactivateHandler", "activateGroup"))
    for_each(R, "groups", "execute", g, lambda c: has_field(c, IS), called, "an active handler of a group is not called")
    de = lambda n: n.kind == "call" and last(n.d["q"]) == "deactivateHandler"
    for n, body, leave, L in loop_heads(g):
        if not any(m.nid in L and called(m) for m in g.nodes()): continue
        tr, fa = result_edges(g, L, called)
        R.ob("groups", "execute:result", bool(tr) and bool(fa), "the result of a handler is not looked at", n.where())
        inl = lambda a, s, c, p: s.nid in L
        adv = lambda m: m.kind == "asg" and is_field(m.d["lhs"], PO)
        for s in tr: R.ob("groups", "execute:done", g.search([s], lambda m: m is n, avoid=de, edge=inl) is None, "a handler that returns true stays active", s.where())
        for s in fa: R.ob("groups", "execute:kept", g.search([s], de, avoid=lambda m: m is n, edge=inl) is None, "a handler that returns false is deactivated", s.where())
        cs = [m for m in g.nodes() if m.nid in L and called(m)]
        R.ob("groups", "execute:advance", g.search([s for m in cs for s in g.after(m)], lambda m: m is n, avoid=lambda m: incr(m, PO), edge=inl) is None, "the position does not advance", n.where())
        for m in g.nodes():
            if m.nid in L and adv(m):
                R.ob("groups", "execute:step", incr(m, PO), "handlers of a group are left out", m.where())
                R.ob("groups", "execute:step once", g.search(g.after(m), adv, avoid=lambda x: x is n, edge=inl) is None, "handlers of a group are left out", m.where())
        for m in cs:
            R.ob("groups", "execute:cycle", param_idx(f, m.d["args"][0]) == 0, "a handler of a group is called with another cycle", m.where())
            t = m.d["obj"]
            e = expand(g.T, t)
            R.ob("groups", "execute:which", any(x[0] == "idx" and has_field(x[1], GH) and is_field(x[2], PO) for x in subterms(e)), "what is called is not the handler at the position", m.where())
    first = lambda n: n.kind == "asg" and is_field(n.d["lhs"], PO) and const(n.d["rhs"]) == 0
    never(R, "groups", "execute:from the start", g, called, "the calls do not start with the first handler", avoid=first)
    fin = lambda n: n.kind == "asg" and is_field(n.d["lhs"], PO) and (const(n.d["rhs"]) or 0) < 0
    always(R, "groups", "execute:over", g, fin, "the group counts as being called for ever")
    for n in g.nodes():
        if fin(n): never(R, "groups", "execute:over late", g, called, "the group stops counting as being called too early", frm=[n])
    # true exactly when nothing is active any more
    for idle in (True, False):
        def asm2(at, ctx=None, idle=idle):
            if at[0] == "==" and any(is_field(x, IS) for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return idle
            if at[0] in ("nz", "pos") and is_field(at[1], IS): return not idle
            return None
        res, gg = bool_outcomes(P, f, asm2, inline=stop("deactivateHandler", "activateGroup"))
        R.ob("groups", "execute:idle" if idle else "execute:busy", res == {idle}, "a group reports wrongly whether it has active handlers", f.where())
    # restart
    f = fn(R, "Clock::Group::activateOnRestart")
    g = CFG(P, f, inline=stop("activateGroup"))
    for_each(R, "groups", "restart:pointers", g, lambda c: has_field(c, GH) or show(c).startswith("more"), lambda n: n.kind == "asg" and is_field(n.d["lhs"], "group_") and n.d["rhs"] == ("this",), "a restored handler does not know its group")
    for idle in (True, False):
        g = CFG(P, f, inline=stop("activateGroup"), assume=lambda at, ctx=None, idle=idle: (idle if at[0] == "==" and any(is_field(x, IS) for x in at[1:]) else (not idle) if at[0] in ("nz", "pos") and is_field(at[1], IS) else None))
        if not idle: always(R, "groups", "restart:active", g, call_to("Clock::activateGroup"), "a restored group with active handlers is not executed")


def emptytest(t, IS): return any(x[0] == "bin" and x[1] in ("==", "!=", "<", ">") and any(is_field(y, IS) for y in x[2:]) and any(const(y) == 0 for y in x[2:]) for x in subterms(t))


def defined_in_init(g, cs, IS): return any(n.kind == "init" and is_term(n.d.get("rhs") or 0) and emptytest(n.d["rhs"], IS) for n in g.nodes())


def passes(g, ev, n): return any(ev(m) and g.search(g.after(m), lambda x: x is n) is not None for m in g.nodes())


def shift(R, g, Ls, nm, d, GH):
    """in the loop handlers_[i] = handlers_[i + d]"""
    st = [m for m in g.nodes() if m.nid in Ls and m.kind == "asg" and m.d["lhs"][0] == "idx" and has_field(m.d["lhs"][1], GH)]
    R.ob("groups", nm + ":shift", bool(st), "the other handlers do not move", g.fn.where())
    for m in st:
        i = m.d["lhs"][2]
        ok = any(r[0] == "idx" and has_field(r[1], GH) and diff(r[2], i) == d for r in (m.d["rhs"], expand(g.T, m.d["rhs"], once=True)))
        R.ob("groups", nm + ":shift by one", ok, "the other handlers move to the wrong place", m.where())
        v = [x for x in subterms(i) if x[0] == "var"]
        stp = [n for n in g.nodes() if n.nid in Ls and n.kind == "asg" and n.d["lhs"] in v]
        R.ob("groups", nm + ":shift direction", bool(stp) and all(n.d["op"] == ("++" if d > 0 else "--") or n.d["op"] in ("+=", "-=") and const(n.d["rhs"]) == 1 for n in stp), "handlers are overwritten when they move", m.where())


def diff(a, b):
    """constant difference a - b, or None"""
    s = summands(a) + [(-x, y) for x, y in summands(b)]
    c, rest = 0, []
    for gn, x in s:
        k = const(x)
        if k is not None: c += gn * k; continue
        for r in rest:
            if r[1] == x and r[0] == -gn: rest.remove(r); break
        else: rest.append((gn, x))
    return c if not rest else None


def position(R, g, f, nm, PO, IX, d):
    """the position of the call in progress moves by d exactly when the handler's slot is at or before it"""
    P = R.prog
    chg = lambda m: m.kind == "asg" and is_field(m.d["lhs"], PO)
    R.ob("groups", nm + ":position", any(incr(m, PO, d) for m in g.nodes()), "the position of the call in progress does not follow when handlers move, so that a handler is left out or called twice", f.where())
    for m in g.nodes():
        if chg(m): R.ob("groups", nm + ":position step", incr(m, PO, d), "the position of the call in progress moves wrongly", m.where())
    for le in (True, False):
        def asm(at, ctx=None, le=le):
            if at[0] == "<" and is_field(at[1], PO) and not const(at[2]) == 0: return not le
            if at[0] == "<" and is_field(at[2], PO): return None     # strict: at the position itself undecided
            if at[0] == "<" and is_field(at[1], IX) and const(at[2]) == 0: return nm == "activate"
            return None
        h = CFG(P, f, inline=stop("activateGroup", "toggleActiveState", "markAsInactive"), assume=asm)
        mv = lambda m: incr(m, PO, d)
        if le: always(R, "groups", nm + ":position moves", h, mv, "the position of the call in progress does not follow a move at or before it")
        else: never(R, "groups", nm + ":position stays", h, chg, "the position of the call in progress follows a move behind it")
    if nm == "deactivate":
        # compared with the index before it changes
        for n in g.nodes():
            if n.kind == "br" and any(is_term(c) and has_field(c, PO) and has_field(c, IX) for _, c, _ in n.succ):
                never(R, "groups", nm + ":position before", g, lambda m, n=n: m is n, "the position is compared with the new index", frm=[m for m in g.nodes() if m.kind == "asg" and is_field(m.d["lhs"], IX) and mk_param(m)])


def cycles(R):
    """Waking: cycle = now/period, next tick at the next multiple; in a time that is a multiple, after time zero and before the end,
    with clocks of this priority still to come, the tick is now and counts as cycle now/period.  The next cycle of a sleeping clock
    is computed from the time."""
    P = R.prog
    f = fn(R, "Clock::schedule")
    mult = lambda t: t[0] == "bin" and t[1] == "%" and now(t[2]) and period(t[3])

    def case(prio, zero, end, onm):
        def a(at, ctx=None):
            k = at[0]
            if k == "<" and has_field(at[1], "currentPriority"): return prio
            if k == "<" and has_field(at[2], "currentPriority"): return None if prio is None else (False if prio else None)
            if k in ("nz", "pos"):
                t = at[1]
                if now(t): return not zero
                if is_field(t, "endSim"): return end
                if mult(t): return not onm
            if k == "==":
                for x, y in ((at[1], at[2]), (at[2], at[1])):
                    if const(y) == 0 and now(x): return zero
                    if const(y) == 0 and mult(x): return onm
            return None
        return a
    div = lambda t: t[0] == "bin" and t[1] == "/" and now(t[2]) and period(t[3])

    def norm(t):
        """-> (multiples of period, quotient coefficient, constant, now coefficient): t = a*(now/p)*p + b*p + c + d*now + e*(now/p)"""
        acc = {"qp": 0, "p": 0, "c": 0, "now": 0, "q": 0, "?": 0}
        def add(t, s):
            c = const(t)
            if c is not None: acc["c"] += s * c; return
            if t[0] == "bin" and t[1] in "+-": add(t[2], s); add(t[3], s if t[1] == "+" else -s); return
            if t[0] == "bin" and t[1] == "*":
                a, b = t[2], t[3]
                if period(a): a, b = b, a
                if period(b):
                    for g2, x in summands(a):
                        k = const(x)
                        if k is not None: acc["p"] += s * g2 * k
                        elif div(x): acc["qp"] += s * g2
                        else: acc["?"] += 1
                    return
            if t[0] == "bin" and t[1] in ("--", "++"): add(t[2], s); acc["c"] += s * (1 if t[1] == "++" else -1); return
            if div(t): acc["q"] += s; return
            if now(t): acc["now"] += s; return
            if period(t): acc["p"] += s; return
            if t[0] == "bin" and t[1] == "%" and now(t[2]) and period(t[3]): acc["now"] += s; acc["qp"] -= s; return
            acc["?"] += 1
        add(t, 1)
        return acc
    for nm, cs, same in (("now", (True, False, False, True), True), ("not a multiple", (True, False, False, False), False), ("too late", (False, False, False, True), False),
                         ("time zero", (True, True, False, True), False), ("after the end", (True, False, True, True), False)):
        g = CFG(P, f, inline=stop("insertActivity"), assume=case(*cs))
        R.cfg_used(g)
        cyc = ("mem", ("this",), "SST::" + CUR)
        got = []

        def on(n, env, val):
            if INS(n): got.append((val(n.d["args"][0]), n))
            if n is g.exit: got.append((env.get(cyc), None))
        decide = lambda at: case(*cs)(at)
        walk(g, decide, on)
        ins = [(t, n) for t, n in got if n is not None]
        ext = [t for t, n in got if n is None]
        R.ob("cycles", f"schedule:{nm}:queued", bool(ins), "a clock that wakes is not put into the queue", f.where())
        for t, n in ins:
            a = norm(subs(t))
            want = dict(qp=0, p=0, c=0, now=1, q=0) if same else dict(qp=1, p=1, c=0, now=0, q=0)
            okv = all(a[k] == v for k, v in want.items()) and not a["?"] or (same and a["qp"] == 1 and a["p"] == 0 and a["c"] == 0 and a["now"] == 0 and not a["?"])
            R.ob("cycles", f"schedule:{nm}:time", okv, f"a clock that wakes ({nm}) ticks at {show(t)}", n.where())
        for t in ext:
            a = norm(subs(t)) if t is not None else {"?": 1}
            R.ob("cycles", f"schedule:{nm}:cycle", not a["?"] and a["q"] == 1 and a["c"] == (-1 if same else 0) and not a["qp"] and not a["p"] and not a["now"], f"a clock that wakes ({nm}) is in cycle {show(t) if t else '?'}", f.where())
        always(R, "cycles", f"schedule:{nm}:flag", g, asg_to(SCH, lambda r: const(r) == 1), "a clock that wakes does not note it")
        never(R, "cycles", f"schedule:{nm}:once", g, INS, "a clock is put into the queue twice", frm=[n for n in g.nodes() if INS(n)])
    f = fn(R, "Clock::updateCurrentCycle")
    g = CFG(P, f, inline=stop())
    always(R, "cycles", "update", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], CUR) and n.d["op"] == "=" and div(expand(g.T, n.d["rhs"])), "the cycle of a sleeping clock is not time/period")
    f = fn(R, "Clock::getNextCycle")
    upd = lambda n: n.kind == "asg" and is_field(n.d["lhs"], CUR)
    g = CFG(P, f, inline=stop(), assume=truth(lambda t: is_field(t, SCH), False))
    always(R, "cycles", "next:asleep", g, upd, "the next cycle of a sleeping clock is computed from an old cycle")
    for sch in (True, False):
        g = CFG(P, f, inline=stop("updateCurrentCycle"), assume=truth(lambda t: is_field(t, SCH), sch))
        if sch: never(R, "cycles", "next:awake", g, lambda n: n.kind == "call" and last(n.d["q"]) == "updateCurrentCycle", "asking for the next cycle of a clock that is awake changes its cycle")
        for n in root_rets(g):
            v = expand(g.T, n.d["val"])
            s = summands(v)
            R.ob("cycles", "next", len(s) == 2 and any(is_field(x, CUR) and gn == 1 for gn, x in s) and sum(gn * const(x) for gn, x in s if const(x) is not None) == 1, "the next cycle is not the one after the current", n.where())


def subs(t): return t


def registry(R):
    """The clock of a (period, priority) pair is found, created and stored under that pair; creating schedules it; a handler always
    reaches that clock; asking for a clock that does not exist is an error, unregistering from one changes nothing."""
    P = R.prog
    fs = [f for f in P.funcs.values() if f.sq.startswith("SST::Simulation::") and raw_has(f, "clockMap") and last(f.q) in
          ("registerClock", "reregisterClock", "getNextClockCycle", "unregisterClock", "registerClockGroup", "reportClock")]
    R.ob("registry", "functions", {last(f.q) for f in fs} >= {"registerClock", "reregisterClock", "getNextClockCycle", "unregisterClock", "registerClockGroup", "reportClock"} or len(fs) >= 4, "registration of clocks not found")
    iscm = lambda t: is_field(t, "clockMap")
    need = {"registerClock": "registerHandler", "reregisterClock": "registerHandler", "unregisterClock": "unregisterHandler", "registerClockGroup": "registerGroup", "getNextClockCycle": "getNextCycle"}
    pos = {"registerClock": (0, 2), "reregisterClock": (0, 2), "getNextClockCycle": (0, 1), "unregisterClock": (0, 2), "registerClockGroup": (0, None), "reportClock": (0, 1)}
    for f in fs:
        nm = last(f.q)
        who = f"{nm}({f.params[0][2]})"
        ip, ipr = pos[nm]

        def found(val):
            def a(at, ctx=None):
                if at[0] == "==" and any(x[0] == "call" and last(x[1]) in ("end", "cend") and has_field(x, "clockMap") for x in at[1:]): return not val
                if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) in ("count", "contains") and has_field(at[1], "clockMap"): return val
                if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) in ("operator==", "operator!=") and has_field(at[1], "clockMap") and has_call(at[1], "end"): return (not val) if last(at[1][1]) == "operator==" else val
                return None
            return a
        inl = lambda fn, e, ctx: last(fn.q) in ("getFactor",) or fn.sq.startswith("SST::Simulation::") and last(fn.q) not in pos and raw_has(fn, "clockMap")
        for present_ in (True, False):
            g = CFG(P, f, inline=inl, assume=found(present_))
            R.cfg_used(g)

            def keyok(t):
                t = expand(g.T, t)
                while t[0] in ("ctor", "init") and len(t) > 2 and len(t[2]) == 1: t = t[2][0]
                a = t[3] if t[0] == "call" else t[2] if t[0] == "ctor" else ()
                a = [x for x in a if is_term(x)]
                if len(a) != 2: return False
                k0 = expand(g.T, a[0]); k1 = expand(g.T, a[1])
                p0 = {x[1] for x in subterms(k0) if x[0] == "param"}
                ok0 = p0 == {f.params[ip][1]}
                ok1 = (const(k1) == 40) if ipr is None else param_idx(f, k1) == ipr
                return ok0 and ok1
            uses = [n for n in g.nodes() if n.kind == "call" and n.d["obj"] is not None and iscm(n.d["obj"]) and last(n.d["q"]) in ("find", "operator[]", "at", "count", "contains", "emplace", "insert", "try_emplace", "insert_or_assign")]
            for n in uses:
                a = n.d["args"]
                if last(n.d["q"]) in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                    if len(a) >= 2: R.ob("registry", who + ":key", keyok(a[0]), "a clock is stored under another period or priority", n.where())
                else: R.ob("registry", who + ":key", keyok(a[0]), "a clock is looked up under another period or priority", n.where())
            mk = lambda n: n.kind == "new" and strip_t(n.d.get("type", "")) == "SST::Clock"
            ev = (lambda n: n.kind == "call" and last(n.d["q"]) == need[nm] and "Clock" in n.d["q"]) if nm in need else None
            if present_:
                never(R, "registry", who + ":second clock", g, mk, "a second clock is created for the same period and priority")
                if ev: always(R, "registry", who + ":reached", g, ev, f"{nm} does not reach the clock")
            elif nm in ("registerClock", "registerClockGroup", "reportClock"):
                always(R, "registry", who + ":created", g, mk, "no clock is created")
                sto = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and iscm(n.d["lhs"][1]) or n.kind == "call" and n.d["obj"] is not None and iscm(n.d["obj"]) and last(n.d["q"]) in ("emplace", "insert", "try_emplace", "insert_or_assign")
                always(R, "registry", who + ":stored", g, sto, "the new clock is not stored")
                if nm != "reportClock":
                    always(R, "registry", who + ":scheduled", g, call_to("Clock::schedule"), "the new clock does not tick")
                if ev: always(R, "registry", who + ":reached", g, ev, f"{nm} does not reach the clock")
                for n in g.nodes():
                    if n.kind == "ctor" and n.d["q"] == "SST::Clock":
                        a = [x for x in n.d["args"] if is_term(x)] if isinstance(n.d["args"], (tuple, list)) else []
                        R.ob("registry", who + ":period", bool(a) and {x[1] for x in subterms(expand(g.T, a[0])) if x[0] == "param"} <= {f.params[ip][1]} and any(x[0] == "param" for x in subterms(expand(g.T, a[0]))), "the new clock has another period", n.where())
                        R.ob("registry", who + ":priority", len(a) > 1 and (const(a[1]) == 40 if ipr is None else param_idx(f, a[1]) == ipr), "the new clock has another priority", n.where())
            elif nm == "unregisterClock":
                never(R, "registry", who + ":none", g, lambda n: n.kind == "call" and (last(n.d["q"]) == "operator[]" and iscm(n.d["obj"]) or ev(n)), "unregistering from a clock that does not exist changes something")
            else:
                p = g.search([g.entry], lambda n: n is g.exit, avoid=is_fatal)
                R.ob("registry", who + ":missing", p is None, "a clock that does not exist is used", f.where())
            if ev:
                for n in g.nodes():
                    if ev(n) and nm != "getNextClockCycle":
                        j = 1
                        R.ob("registry", who + ":handler", param_idx(f, n.d["args"][0]) == j, "another handler is registered", n.where())
            if nm in ("reregisterClock", "getNextClockCycle") and present_:
                for n in root_rets(g): R.ob("registry", who + ":result", has_call(expand(g.T, n.d["val"]), "getNextCycle"), "the result is not the next cycle of the clock", n.where())
    # components
    for nm, to in (("unregisterClock", "Simulation::unregisterClock"), ("reregisterClock", "Simulation::reregisterClock"), ("getNextClockCycle", "Simulation::getNextClockCycle")):
        for f in R.need(P.find("SST::BaseComponent::" + nm, False), nm):
            g = CFG(P, f, inline=inline_class("BaseComponent"))
            ev = call_to(to)
            always(R, "registry", "component:" + nm, g, ev, f"{nm} does nothing")
            for n in g.nodes():
                if ev(n):
                    a = n.d["args"]
                    R.ob("registry", f"component:{nm}:priority", const(a[-1]) == 40, "clocks of components have another priority", n.where())
                    R.ob("registry", f"component:{nm}:arguments", all(param_idx(f, expand(g.T, strip_ctor(x))) == i for i, x in enumerate(a[:-1])), "another clock or handler is meant", n.where())
            if nm != "unregisterClock":
                for n in root_rets(g):
                    t = expand(g.T, n.d["val"])
                    while t[0] == "cast": t = t[-1]
                    R.ob("registry", f"component:{nm}:result", t[0] == "call" and ("SST::" + t[1]).endswith(to), "the component is told another cycle", n.where())
    for nm, to in (("getNextCycle", "getNextCycle"), ("getClockPriority", "getPriority"), ("getClockPeriod", "getPeriod")):
        for f in P.find("SST::Clock::Group::" + nm, False):
            g = CFG(P, f, inline=lambda *a: False)
            R.cfg_used(g)
            for n in root_rets(g):
                t = n.d["val"]
                while t[0] in ("cast", "ctor") and (t[0] == "cast" or len(t[2]) == 1): t = t[-1] if t[0] == "cast" else t[2][0]
                R.ob("registry", f"group:{nm}", t[0] == "call" and last(t[1]) == to and is_field(t[2], "Group::clock_") or len(summands(t)) == 1 and has_field(t, "Group::clock_") and has_field(t, {"getNextCycle": "Clock::current_cycle_", "getClockPriority": "priority_order", "getClockPeriod": "Clock::period_"}[nm]), "a group does not answer for its clock", n.where())
    for f in P.find("SST::Clock::Group::swapActiveWithInactive", False):
        a, b = (0, 1) if "inactive" in f.params[1][1] or "inactive" not in f.params[0][1] else (1, 0)
        g = CFG(P, f, inline=lambda *x: False)
        R.cfg_used(g)
        who = lambda t: param_idx(f, t[1] if t[1][0] != "deref" else t[1][1]) if t[0] == "mem" and last(t[2]) == "index_" else None
        leaf = lambda t: {a: 5, b: -4}.get(who(t))
        for r in runs(g, [g.entry], lambda n: False):
            kept = any(n.kind == "init" for n, _ in r.events)
            vals = {who(n.d["lhs"]): fold(n.d["rhs"] if kept else v(n.d["rhs"]), leaf) for n, v in r.events if n.kind == "asg" and who(n.d["lhs"]) is not None}
            sw = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "swap"] or [n for n, _ in r.events if n.kind == "asg" and param_idx(f, n.d["lhs"]) in (0, 1)]
            late = [i for i, (n, _) in enumerate(r.events) if n in sw]
            upd = [i for i, (n, _) in enumerate(r.events) if n.kind == "asg" and who(n.d["lhs"]) is not None]
            first = not late or not upd or min(late) > max(upd)
            R.ob("registry", "group:swap", bool(sw) and (vals == {a: 3, b: -6} if first else True), f"handlers in slots 5 (active) and 3 (inactive) change places and get the numbers {vals.get(a)} and {vals.get(b)}", f.where())
    f = fn(R, "BaseComponent::registerClock_impl")
    gi = param_named(f, "group", 3)
    for grp in (True, False):
        asm = lambda at, ctx=None: grp if at[0] in ("nz", "pos") and at[1][0] == "param" and at[1][1] == f.params[gi][1] else None
        g = CFG(P, f, assume=asm)
        R.cfg_used(g)
        if grp: always(R, "registry", "component:group", g, call_to("Clock::Group::registerHandler"), "an ordered handler is not registered")
        else:
            ev = call_to("Simulation::registerClock")
            always(R, "registry", "component:register", g, ev, "a clock handler is not registered")
            for n in g.nodes():
                if ev(n): R.ob("registry", "component:register:priority", const(n.d["args"][-1]) == 40, "clocks of components have another priority", n.where())
            rem = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], "clock_handlers_")

            def known(val):
                def a(at, ctx=None):
                    if asm(at) is not None: return asm(at)
                    if at[0] == "==" and any(has_field(x, "clock_handlers_") for x in at[1:]): return val
                    if at[0] in ("nz", "pos") and at[1][0] == "var" and at[1][3] == "found": return None
                    return None
                return a
            g = CFG(P, f, assume=known(False))
            got = []
            R.ob("registry", "component:remembered", remembered(g, rem, asm, known(False)), "a component forgets a handler, which is then neither saved nor deleted", f.where())


def remembered(g, rem, asm, dec):
    """no feasible path from entry to exit without remembering a handler that is not known"""
    hit = []

    def on(n, env, val):
        if rem(n): hit.append(n)
    # a path that reaches exit without rem: walk with a marker
    st, seen = [(g.entry, (), False)], set()
    while st:
        n, te, h = st.pop()
        if (n.nid, te, h) in seen: continue
        seen.add((n.nid, te, h))
        env = dict(te)
        if rem(n): h = True
        if n is g.exit and not h: return False
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if v[0] == "var" and n.d.get("rhs") is not None and const(n.d["rhs"]) is not None: env[v] = n.d["rhs"]
            elif v in env: del env[v]
        for s, c, p in n.succ:
            if c is not None and is_term(c):
                r = truthval(subst(c, env), dec)
                if r is not None and r != p: continue
            st.append((s, tuple(sorted(env.items(), key=repr)), h))
    return True


def strip_ctor(t):
    while t[0] == "ctor" and len(t) > 2 and len(t[2]) == 1: t = t[2][0]
    return t


def param_named(f, name, dflt):
    for i, p in enumerate(f.params):
        if p[1] == name: return i
    return dflt


def restart(R):
    """A restored clock handler keeps its activity: active ones are appended, know their clock and wake it, inactive ones only know
    their clock; components save every handler with its period and register it again with that period; groups are registered and
    activated again."""
    P = R.prog
    f = fn(R, "Clock::registerHandler_restart")
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], HND)
    act = lambda v: lambda at, ctx=None: ((not v) if at[0] == "<" and is_field(at[1], "HandlerBase::index_") and const(at[2]) == 0 else v if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "isActive" else None)
    for a in (True, False):
        g = CFG(P, f, inline=stop("schedule"), assume=act(a))
        (always if a else never)(R, "restart", "handler:" + ("active" if a else "inactive"), g, push, "an active handler is lost" if a else "an inactive handler becomes active")
        always(R, "restart", "handler:clock", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "clock_") and n.d["rhs"] == ("this",), "a restored handler does not know its clock")
    f = fn(R, "Simulation::registerClock_restart")
    g = CFG(P, f)
    always(R, "restart", "clock", g, call_to("Clock::registerHandler_restart"), "a restored handler does not reach a clock")
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "reportClock": R.ob("restart", "clock:which", [param_idx(f, x) for x in n.d["args"]] == [0, 2], "a restored handler is registered with another clock", n.where())
        if n.kind == "call" and last(n.d["q"]) == "registerHandler_restart": R.ob("restart", "clock:handler", param_idx(f, n.d["args"][0]) == 1 and has_call(expand(g.T, n.d["obj"]), "reportClock"), "a restored handler is registered with another clock", n.where())
    f = fn(R, "BaseComponent::serialize_order")
    g = CFG(P, f, assume=mode_assume("UNPACK", None, None))
    R.cfg_used(g)
    reg = call_to("Simulation::registerClock_restart")
    keep = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], "clock_handlers_")
    rl = [(n, L) for n, b, l, L in loop_heads(g) if any(m.nid in L and reg(m) for m in g.nodes())]
    R.ob("restart", "component:registered", bool(rl), "restored clock handlers are not registered", f.where())
    for n, L in rl:
        inl = lambda a, s, c, p: s.nid in L
        for what, ev in (("registered", reg), ("remembered", keep)):
            b = [s for s, _, _ in n.succ if s.nid in L]
            R.ob("restart", "component:" + what + " each", g.search(b, lambda m: m is n, avoid=ev, edge=inl) is None, f"a restored clock handler is not {what}", n.where())
        for m in g.nodes():
            if reg(m) and m.nid in L:
                a = m.d["args"]
                kp = [x for x in g.nodes() if keep(x) and x.nid in L]
                R.ob("restart", "component:handler", all(x.d["args"][0] == a[1] for x in kp) and const(a[2]) == 40 and a[0][0] == "var", "another handler or clock is restored", m.where())
    f = fn(R, "Component::serialize_final")
    g = CFG(P, f, assume=mode_assume("UNPACK", None, None))
    rg = lambda n: n.kind == "call" and last(n.d["q"]) in ("registerClockGroup",)
    ao = lambda n: n.kind == "call" and last(n.d["q"]) == "activateOnRestart"
    for what, ev in (("registered", rg), ("activated", ao)):
        for_each(R, "restart", "groups:" + what, g, lambda c: has_field(c, "clock_groups_") or show(c).startswith("more"), ev, f"a restored group is not {what}")
    never(R, "restart", "groups:order", g, ao, "a restored group is activated before it knows its clock", avoid=rg)


CLAUSES = [tick, calls, slots, removal, groups, cycles, registry, restart]
