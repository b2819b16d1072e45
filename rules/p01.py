"""P01: activities leave a time vortex in one strict order (time, priority, order tag, insertion order)."""
import itertools
from sa.q import *

PROP = dict(
    title="Activities leave the event queue in one strict deterministic order",
    statement="Every event queue implementation releases pending activities in the strict order of delivery time, then priority, then "
              "order tag, then insertion order, so the same insertions always yield the same sequence. The fixed priorities put "
              "synchronisation before stop actions, then clocks, events, one-shots, statistics output and exit at equal times. A polling "
              "link's queue is ordered by time and a queue rebuilt from a checkpoint keeps the saved order.",
    over=["inputs", "histories", "schedules"],
    text="all sets of activities and insertion histories, for every event queue implementation (serial and thread-safe)",
    why="Tests run a few models whose ties rarely exercise every pair of keys; a comparator that is wrong for one relation of the keys "
        "or a container released from the wrong end shows only for particular tie patterns.",
    files=["src/sst/core/impl/timevortex/timeVortexPQ.cc", "src/sst/core/impl/timevortex/timeVortexBinnedMap.cc", "src/sst/core/activity.h", "src/sst/core/pollingLinkQueue.h"],
    mech=[("Activity comparators less/greater/pq_less", "src/sst/core/activity.h"), ("TimeVortexPQBase insert/pop/front", "src/sst/core/impl/timevortex/timeVortexPQ.cc"),
          ("TimeVortexBinnedMapBase insert/pop/front and TimeUnit::sort", "src/sst/core/impl/timevortex/timeVortexBinnedMap.cc"), ("priority constants", "src/sst/core/sst_types.h")],
    technique="abstract evaluation of comparators over all key relations, bit provenance and path obligations on the queue operations")

TUS = ["impl/timevortex/*.cc", "timeVortex.cc", "simulation.cc", "pollingLinkQueue.cc", "link.cc", "baseComponent.cc", "action.cc", "event.cc",        "clock.cc", "exit.cc", "impl/oneshotManager.cc", "sync/syncManager.cc"]
ASSUMPTIONS = ["std::priority_queue, std::sort, std::multiset and std::map behave as the C++ standard specifies for a strict weak order"]

KEYS = ("delivery_time", "priority_order", "queue_order")


def side(name):
    """which operand of a comparator a term comes from"""
    def mk(fn):
        def f(t):
            if field(t) is None or not fmatch(field(t), "Activity::" + name): return None
            ps = params_in(t)
            for i in (0, 1):
                if fn.params[i][1] in ps: return i
            return None
        return f
    return mk


def comparator_table(R, fn):
    """{(rt, rp, rq): set of results} over the 27 relations of the three keys"""
    out = {}
    for rel in itertools.product("<=>", repeat=3):
        ks = [(side(k)(fn), r) for k, r in zip(KEYS, rel)]
        res, cfg = bool_outcomes(R.prog, fn, order_assume(ks))
        out[rel] = res
    R.used(fn)
    return out


def lex(rel, keys, want):
    """expected result of the lexicographic order on the selected keys; want '<' or '>'"""
    for r, k in zip(rel, keys):
        if k and r != "=": return r == want
    return False


def call_op(prog, t):
    c = prog.classes.get(t)
    if not c: return None
    for m in c["methods"]:
        if m[0] == "operator()": return prog.funcs.get(m[1])
    return None


def split_targs(t):
    """top-level template arguments of a type string"""
    if "<" not in t: return []
    s = t[t.index("<") + 1:t.rindex(">")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]


def check_cmp(R, clause, construct, fn, keys, want, where):
    if fn is None:
        R.ob(clause, construct, False, f"the comparator of {construct} is not one the analysis can see", where)
        return
    tab = comparator_table(R, fn)
    for rel, res in sorted(tab.items()):
        exp = lex(rel, keys, want)
        k = ",".join(f"{a}{b}" for a, b in zip(("time", "priority/tag", "insertion"), rel))
        R.ob(clause, f"{construct}[{k}]", res == {exp},
             f"{fn.q} answers {sorted(res)} for operands related ({k}) where the delivery order of {construct} requires {exp}", fn.where())


def tv_classes(R):
    """concrete time vortex bases: classes defining their own pop()"""
    out = []
    for t in sorted({"SST::TimeVortex"} | R.prog.subclasses("SST::TimeVortex")):
        c = R.prog.classes[t]
        m = {x[0]: x[1] for x in c["methods"]}
        if "pop" in m and R.prog.funcs.get(m["pop"]): out.append((t, c, m))
    return R.need(out, "a class implementing SST::TimeVortex::pop")


def order(R):
    """The comparator that decides which activity a time vortex releases next is evaluated over all 27 relations of
    (delivery time, priority+order tag, insertion order); it must be the strict lexicographic order and the release end
    (top/back/front) must be the earliest element."""
    P = R.prog
    for t, c, m in tv_classes(R):
        seen = 0
        for meth in ("pop", "front"):
            f = P.funcs.get(m.get(meth))
            R.need(f, f"{t}::{meth}")
            cfg = CFG(P, f, inline=lambda fn, e, ctx: fn.file.rsplit("/", 1)[-1].startswith("timeVortex"))
            R.cfg_used(cfg)
            for n in cfg.calls(["top", "back", "front", "begin", "rbegin"]):
                q, o = n.d["q"], n.d["obj"]
                if o is None or field(o) is None: continue
                fty = field_type(P, o)
                if fty is None or "SST::Activity *" not in fty: continue
                kind = last(q)
                base = fty.split("<")[0]
                ta = split_targs(fty)
                if base == "std::priority_queue":
                    want, ct = ">", (ta[2] if len(ta) > 2 else "std::less")
                    ok = kind == "top"
                elif base in ("std::multiset", "std::set", "std::map", "std::multimap"):
                    ct = ta[2] if base.endswith("map") and len(ta) > 2 else ta[1]
                    want = "<" if kind in ("begin", "front") else ">"
                    ok = True
                else:
                    if kind == "begin": continue
                    ct, ok = sort_comparator(R, cfg, o), True
                    want = ">" if kind in ("back", "rbegin") else "<"
                fn = call_op(P, ct) if ct else None
                seen += 1
                check_cmp(R, "order", f"{strip_t(t)}::{meth}", fn, (1, 1, 1), want, n.where())
        R.ob("order", f"{strip_t(t)} releases from an ordered container", seen >= 2,
             f"{t}: pop() and front() do not both take their result from an ordered container of activities", P.funcs[m["pop"]].where())


def field_type(P, o):
    f = field(o)
    cq, fname_ = f.rsplit("::", 1)
    for c in P.cls_by_sq.get(cq, []):
        for x in c["fields"]:
            if x[0] == fname_ and not c.get("dep"): return x[1]
    return None


def sort_comparator(R, cfg, container):
    """type of the comparator handed to a std::sort over `container` on every path to its use (None if there is none)"""
    for n in cfg.calls(["std::sort", "std::stable_sort"]):
        a = n.d["args"]
        if len(a) == 3 and field(container) in fields_in(a[0]):
            # the functor type is the last template argument recorded in the mangled id; use the gvar or ctor type
            t = a[2]
            if t[0] == "glob":
                g = R.prog.gvars.get(t[1])
                return g["t"] if g else None
            if t[0] == "ctor":
                for c in R.prog.cls_by_sq.get(t[1], []):
                    if not c.get("dep") and mang(c["t"]) in n.d["id"]: return c["t"]
    return None


def mang(t):
    nm = strip_t(t).rsplit("::", 1)[-1]
    args = split_targs(t)
    if all(a in ("true", "false") for a in args) and args:
        return f"{len(nm)}{nm}I" + "".join("Lb1E" if a == "true" else "Lb0E" for a in args) + "E"
    return f"{len(nm)}{nm}"


def sorted_first(R):
    """A vector-backed time bin is sorted before its last element is released and every insertion marks it unsorted."""
    P = R.prog
    fs = [f for f in P.find("TimeVortexBinnedMapBase::TimeUnit::pop", False) + P.find("TimeVortexBinnedMapBase::TimeUnit::front", False)]
    R.need(fs, "TimeVortexBinnedMapBase::TimeUnit::pop")
    for f in fs:
        cfg = CFG(P, f, inline=lambda fn, e, ctx: fn.sq.startswith("SST::IMPL::TimeVortexBinnedMapBase") )
        take = call_to(["back", "front"], obj=lambda o: fmatch(field(o), "TimeUnit::activities"))
        R.need([n for n in cfg.nodes() if take(n)], f"{f.q} takes from activities")

        def is_sorted(at, pol, n): return at[0] in ("nz", "pos") and is_field(at[1], "TimeUnit::sorted") and pol
        path = cfg.search([cfg.entry], take, avoid=call_to(["std::sort", "std::stable_sort"]),
                          edge=lambda n, s, c, p: c is None or not cfg.edge_holds(c, p, is_sorted, n))
        R.cfg_used(cfg)
        R.ob("sorted_first", f.sq + ("<ts>" if "<true>" in f.q else ""), path is None,
             f"{f.q} can release an activity from a bin that has not been sorted since the last insertion",
             path[-1].where() if path else f.where(), path_str(path) if path else None)
    for f in P.find("TimeVortexBinnedMapBase::TimeUnit::insert"):
        cfg = CFG(P, f)
        always(R, "sorted_first", f.sq + ("<ts>" if "<true>" in f.q else ""), cfg,
               asg_to("TimeUnit::sorted", rhs=lambda t: const(t) == 0), f"{f.q} adds an activity without marking the bin unsorted",
               frm=[n for n in cfg.nodes() if call_to(["push_back", "emplace_back", "insert"])(n)])
    for f in P.find("TimeVortexBinnedMapBase::TimeUnit::sort"):
        for n in CFG(P, f).calls(["std::sort", "std::stable_sort"]):
            a = n.d["args"]
            ok = (a[0][0] == "call" and last(a[0][1]) in ("begin", "cbegin") and a[1][0] == "call" and last(a[1][1]) in ("end", "cend")
                  and a[0][2] == a[1][2])
            R.ob("sorted_first", f.sq + ":range" + ("<ts>" if "<true>" in f.q else ""), ok, f"{f.q} sorts only part of the bin", n.where())


def bins(R):
    """Each bin of a binned vortex is keyed by the delivery time of its activities; the next bin is the first of an ascending
    map, is removed under its own key, and its drained predecessor alone goes back to the pool."""
    P = R.prog
    for f in P.find("TimeVortexBinnedMapBase::insert"):
        cfg = CFG(P, f)
        tag = "<ts>" if "<true>" in f.q else ""
        dt = lambda t: is_field(t, "Activity::delivery_time") and param_root(f, t)
        for n in cfg.nodes():
            if call_to(["find", "emplace_hint", "emplace", "try_emplace", "operator[]", "insert"], obj=lambda o: fmatch(field(o), "TimeVortexBinnedMapBase::map"))(n):
                R.ob("bins", f.sq + ":" + last(n.d["q"]) + tag, any(dt(a) for a in n.d["args"]) or any(contains(a, dt) for a in n.d["args"]),
                     f"{f.q} addresses a bin by something other than the activity's delivery time", n.where())
            if call_to("setSortTime")(n):
                R.ob("bins", f.sq + ":setSortTime" + tag, dt(n.d["args"][0]), f"{f.q} labels a bin with a time that is not the delivery time", n.where())
        # activity into the current bin only when its time equals the bin's time
        guarded(R, "bins", f.sq + ":current" + tag, cfg,
                call_to("TimeUnit::insert", obj=lambda o: fmatch(field(o), "current_time_unit")),
                lambda at, pol, n: at[0] == "==" and pol and any(dt(x) for x in at[1:]) and any(is_field(x, "TimeUnit::sort_time") and has_field(x, "current_time_unit") for x in at[1:]),
                f"{f.q} can put an activity of another time into the bin being drained")
        always(R, "bins", f.sq + ":stored" + tag, cfg, call_to("TimeUnit::insert", arg=lambda a: param_idx(f, a[0]) == 0),
               f"{f.q} can return without storing the activity")
    for t, c, m in tv_classes(R):
        for x in c["fields"]:
            if x[0] == "map":
                ta = split_targs(x[1])
                R.ob("bins", strip_t(t) + ":map order", x[1].startswith("std::map<unsigned long") and ta[2] == "std::less<unsigned long>",
                     f"{t}::map is not an ascending map keyed by time", "")
    for f in P.find("TimeVortexBinnedMapBase::pop"):
        cfg = CFG(P, f)
        tag = "<ts>" if "<true>" in f.q else ""
        sw = [n for n in cfg.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "current_time_unit")]
        R.need(sw, f.q + " advances to the next bin")
        for n in sw:
            ok = any(x[0] == "call" and last(x[1]) in ("begin", "cbegin") and is_field(x[2], "map") for x in subterms(n.d["rhs"]))
            R.ob("bins", f.sq + ":next bin" + tag, ok, f"{f.q} does not advance to the earliest bin", n.where())
            # only when the current bin is exhausted
            guarded(R, "bins", f.sq + ":exhausted" + tag, cfg, lambda x: x is n,
                    lambda at, pol, nn: at[0] in ("nz", "pos") and not pol and (at[1][0] in ("var", "call")) ,
                    f"{f.q} leaves a bin that still holds activities")
            always(R, "bins", f.sq + ":erased" + tag, cfg, call_to("erase", obj=lambda o: is_field(o, "map")),
                   f"{f.q} keeps a bin in the map after making it current", frm=[n])


def contains(t, p): return any(p(x) for x in subterms(t))


def param_root(fn, t):
    return any(x[0] == "param" for x in subterms(t)) or any(x[0] == "var" and param_idx(fn, x) is not None for x in subterms(t))


def queue_order(R):
    """Every insertion into a time vortex stamps the activity with the vortex's own counter, strictly increased by one each
    time, before the activity becomes visible in the container; nothing else writes that counter."""
    P = R.prog
    for t, c, m in tv_classes(R):
        f = R.need(P.funcs.get(m.get("insert")), t + "::insert")
        cfg = CFG(P, f, inline=lambda fn, e, ctx: fn.file.rsplit("/", 1)[-1].startswith("timeVortex"))
        tag = strip_t(t) + ("<ts>" if "<true>" in t else "")
        store = call_to(["push", "push_back", "emplace", "emplace_back", "insert", "TimeUnit::insert"], arg=lambda a: any(param_idx(f, x) == 0 for x in a))

        def stamps(n):
            return n.kind == "call" and last(n.d["q"]) == "setQueueOrder" and contains(n.d["args"][0], lambda x: is_field(x, "insertOrder"))
        st = [n for n in cfg.nodes() if n.kind == "call" and last(n.d["q"]) == "setQueueOrder" and param_idx(f, n.d["obj"]) == 0]
        R.ob("queue_order", tag + ":stamp", bool(st) and all(stamps(n) for n in st),
             f"{f.q} does not stamp the activity with the vortex's insertion counter", (st[0].where() if st else f.where()))
        path = cfg.search([cfg.entry], store, avoid=lambda n: n.kind == "call" and last(n.d["q"]) == "setQueueOrder")
        R.cfg_used(cfg)
        R.ob("queue_order", tag + ":before", path is None, f"{f.q} stores an activity before giving it its insertion order",
             path[-1].where() if path else f.where(), path_str(path) if path else None)
        incs = [n for n in cfg.nodes() if (n.kind == "asg" and is_field(n.d["lhs"], "insertOrder")) or
                (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "insertOrder") and "m" in n.d["flags"])]
        good = [n for n in incs if (n.kind == "asg" and (n.d["op"] in ("++",) or (n.d["op"] == "+=" and const(n.d["rhs"]) == 1))) or
                (n.kind == "call" and last(n.d["q"]) in ("operator++",)) or (n.kind == "call" and last(n.d["q"]) == "fetch_add" and const(n.d["args"][0]) == 1)
                or (n.kind == "asg" and n.d["op"] == "=" and sum_is(n.d["rhs"], lambda x: is_field(x, "insertOrder"), lambda x: const(x) == 1))]
        R.ob("queue_order", tag + ":increment", bool(incs) and len(incs) == len(good), f"{f.q} does not advance the insertion counter by one per activity",
             (incs[0].where() if incs else f.where()))
        always(R, "queue_order", tag + ":advanced", cfg, lambda n: n in good, f"{f.q} can return without advancing the insertion counter")
        if good:
            again = cfg.search([s for g in good for s in cfg.after(g)], lambda n: n in good)
            R.ob("queue_order", tag + ":once", again is None, f"{f.q} advances the insertion counter twice for one activity", f.where())
        # no other writer
        for g in P.funcs.values():
            if g.cls is None if g.raw is None else '"cls"' not in g.raw: continue
            if g.sq.rsplit("::", 1)[0] != strip_t(t) or g.id == f.id: continue
            if g.d.get("clst") != t: continue
            for n in func_nodes(g):
                tgt = n[3] if n[0] in ("asg", "un") and n[2] not in ("!", "*", "&", "-", "~", "+") else (n[4] if n[0] == "call" and "m" in n[7] else None)
                if tgt and tgt[0] == "mem" and strip_t(tgt[3]).endswith("::insertOrder"):
                    R.ob("queue_order", tag + ":writer:" + g.n, False, f"{g.q} also changes the insertion counter", g.where(n[1]))


def priority_bits(R):
    """Bit-provenance of the packed priority/order-tag word: the priority occupies the high half, the order tag the low half,
    and each setter leaves the other half untouched; the getters read the matching half."""
    P = R.prog
    po = lambda t: ("po", 64) if is_field(t, "Activity::priority_order") else None

    def final(fn):
        cfg = CFG(P, fn, inline=lambda a, b, c: True)
        R.cfg_used(cfg)
        w = [n for n in cfg.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "Activity::priority_order")]
        R.need(w, f"{fn.q} writes priority_order")
        return w[-1], cfg
    for name, hi in (("setOrderTag", False), ("setPriority", True)):
        f = P.one("SST::Activity::" + name)
        w, cfg = final(f)
        leaf = lambda t: po(t) or (("arg", 32 if not hi else 64) if t[0] in ("param", "var") and param_idx(f, t) == 0 else None)
        b = bits(w.d["rhs"], leaf)
        ws = [n for n in cfg.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "Activity::priority_order")]
        if len(ws) == 2 and w.d["op"] == "|=":
            b0 = [("po", i) for i in range(64)]
            for n in reversed(ws):
                r = bits(n.d["rhs"], leaf)
                t = ("bin", n.d["op"][0], ("old",), ("new",))
                b0 = bits(t, lambda x: None) if False else comb(n.d["op"], b0, r)
            b = b0
        elif w.d["op"] != "=": b = [None] * 64
        keep = range(32, 64) if not hi else range(0, 32)
        put = range(0, 32) if not hi else range(32, 64)
        R.ob("priority_bits", name + ":keeps", all(b[i] == ("po", i) for i in keep), f"Activity::{name} disturbs the other half of the ordering key", w.where())
        R.ob("priority_bits", name + ":sets", all(b[i] == ("arg", i - (32 if hi else 0)) for i in put), f"Activity::{name} does not store its whole argument in its half of the ordering key", w.where())
    for name, sh in (("getPriority", 32), ("getOrderTag", 0)):
        f = P.one("SST::Activity::" + name)
        cfg = CFG(P, f)
        r = [n for n in cfg.nodes() if n.kind == "ret"]
        b = bits(r[0].d["val"], po)
        R.ob("priority_bits", name, all(b[i] == ("po", i + sh) for i in range(32)), f"Activity::{name} does not read its half of the ordering key", f.where())


def comb(op, a, b):
    out = []
    for x, y in zip(a, b):
        if op == "&=": out.append(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else None)
        elif op == "|=": out.append(1 if 1 in (x, y) else y if x == 0 else x if y == 0 else None)
        else: out.append(None)
    return out


def polling(R):
    """A polling link's queue hands out activities in delivery-time order from its first element, and equal times in
    insertion order (an ordered multiset compared by time alone)."""
    P = R.prog
    cs = P.cls("SST::PollingLinkQueue")
    ty = next((x[1] for x in cs[0]["fields"] if x[0] == "data"), None)
    R.need(ty, "PollingLinkQueue::data")
    ta = split_targs(ty)
    R.ob("polling", "container", ty.startswith("std::multiset<"), "PollingLinkQueue no longer keeps every activity of equal time in an ordered container", "")
    check_cmp(R, "polling", "PollingLinkQueue::data", call_op(P, ta[1]) if len(ta) > 1 else None, (1, 0, 0), "<", "")
    for m in ("pop", "front"):
        f = P.one("SST::PollingLinkQueue::" + m)
        cfg = CFG(P, f)
        for n in cfg.nodes():
            if n.kind == "ret" and n.d["val"] is not None and const(n.d["val"]) != 0:
                v = n.d["val"]
                defs = [v] + [x.d["rhs"] for x in cfg.nodes() if x.kind in ("asg", "init") and (x.d.get("lhs") or x.d.get("var")) == v]
                ok = any(x[0] == "call" and last(x[1]) in ("begin", "cbegin") and has_field(x[2], "data") for d in defs for x in subterms(d))
                R.ob("polling", m, ok, f"PollingLinkQueue::{m} does not return the earliest activity", n.where())
        R.cfg_used(cfg)


def restart_order(R):
    """A vortex rebuilt from a checkpoint re-inserts the saved activities in increasing saved insertion order, so ties are
    broken as they would have been."""
    P = R.prog
    sites = 0
    for f in list(P.funcs.values()):
        if f.raw is not None and "getEventsForHandler" not in f.raw and "std::sort" not in f.raw: continue
        for n in func_nodes(f):
            if n[0] == "call" and n[2] in ("std::sort", "std::stable_sort") and len(n[5]) == 3 and "SST8ActivityE" in n[3] \
               and f.sq.endswith("TimeVortexSort::sortData"): sites += 1
    f = P.one("SST::pvt::TimeVortexSort::less::operator()")
    R.used(f)
    cmpc = P.cls("SST::pvt::DeliveryInfoCompEvent", False)
    R.ob("restart_order", "TimeVortexSort sorts its copy", sites >= 1, "the per-handler lookup used when restarting searches unsorted data", f.where())
    for g in P.find("SST::Activity::copyAllDeliveryInfo"):
        cfg = CFG(P, g)
        for k in KEYS:
            always(R, "restart_order", "copy:" + k, cfg, asg_to("Activity::" + k, rhs=lambda t: is_field(t, "Activity::" + k) and params_in(t)),
                   f"Activity::copyAllDeliveryInfo does not copy {k}")


def released(R):
    """Whatever pop() returns is removed from the same end of the same container exactly once before pop() returns; front()
    removes nothing; depth counters follow insertions and removals."""
    P = R.prog
    rem = {"top": "pop", "back": "pop_back", "front": "pop_front"}
    for t, c, m in tv_classes(R):
        tag = strip_t(t) + ("<ts>" if "<true>" in t else "")
        inl = lambda fn, e, ctx: fn.file.rsplit("/", 1)[-1].startswith("timeVortex")
        f = P.funcs[m["pop"]]
        cfg = CFG(P, f, inline=inl)
        isact = lambda o: o is not None and field(o) is not None and "SST::Activity *" in (field_type(P, o) or "")
        takes = [n for n in cfg.nodes() if n.kind == "call" and last(n.d["q"]) in rem and isact(n.d["obj"])]
        R.need(takes, f.q + " takes an activity")
        for n in takes:
            r = rem[last(n.d["q"])]
            gone = call_to(r, obj=lambda o: o == n.d["obj"])
            always(R, "released", tag + "::pop removes", cfg, gone, f"{f.q} can return an activity and leave it in the queue", frm=[n])
            g = [x for x in cfg.nodes() if gone(x)]
            again = cfg.search([s for x in g for s in cfg.after(x)], lambda x: x.kind == "call" and last(x.d["q"]) in rem.values() and isact(x.d["obj"]),
                               avoid=lambda x: x.kind == "leave")
            R.ob("released", tag + "::pop removes once", again is None, f"{f.q} removes more than the activity it returns",
                 again[-1].where() if again else "", path_str(again) if again else None)
        dec = [n for n in cfg.nodes() if (n.kind == "asg" and is_field(n.d["lhs"], "current_depth") and n.d["op"] in ("--", "-=")) or
               (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "current_depth") and last(n.d["q"]) in ("operator--", "fetch_sub", "operator-="))]
        path = cfg.search([cfg.entry], lambda x: x in takes, avoid=lambda x: x in dec)
        if path is not None:
            always(R, "released", tag + "::depth", cfg, lambda x: x in dec, f"{f.q} releases an activity without lowering the depth", frm=takes)
        else:
            R.ob("released", tag + "::depth", True, "")
        f = P.funcs[m["front"]]
        cfg = CFG(P, f, inline=inl)
        never(R, "released", tag + "::front keeps", cfg, lambda n: n.kind == "call" and last(n.d["q"]) in ("pop", "pop_back", "erase", "clear", "pop_front"),
              f"{f.q} removes an activity it is only asked to look at")
        f = P.funcs[m["insert"]]
        cfg = CFG(P, f, inline=inl)
        put = lambda n: n.kind == "call" and last(n.d["q"]) in ("push", "push_back", "emplace", "emplace_back") and isact(n.d["obj"]) and \
            any(param_idx(f, a) == 0 or True for a in n.d["args"])
        always(R, "released", tag + "::insert stores", cfg, put, f"{f.q} can return without storing the activity")
        g = [x for x in cfg.nodes() if put(x)]
        again = cfg.search([s for x in g for s in cfg.after(x)], lambda x: x in g)
        R.ob("released", tag + "::insert stores once", again is None, f"{f.q} stores an activity twice", again[-1].where() if again else "")
        inc = lambda n: (n.kind == "asg" and is_field(n.d["lhs"], "current_depth") and n.d["op"] in ("++", "+=")) or \
            (n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "current_depth") and last(n.d["q"]) in ("operator++", "fetch_add", "operator+="))
        always(R, "released", tag + "::insert depth", cfg, inc, f"{f.q} stores an activity without raising the depth")


def ctor_priority(P, cls):
    """constant priority the constructors of a class give its objects ({values}; None = not constant)"""
    out = set()
    for f in P.by_sq.get(cls + "::" + last(cls), []):
        if not f.d.get("ctor"): continue
        cfg = CFG(P, f, inline=lambda fn, e, ctx: bool(fn.d.get("ctor")) and fn.sq.startswith("SST::"))
        v = None
        for n in cfg.nodes():
            if n.kind == "call" and last(n.d["q"]) == "setPriority":
                c = const(n.d["args"][0])
                v = c if c is not None else ("arg", param_idx(f, n.d["args"][0]))
                out.add(v)
        if v is None and any(i[0] == "m" for i in f.d.get("inits", ())): out.add(None)
    return out


def priority_class(R):
    """At equal time the fixed priorities order synchronisation < stop < clocks < events < one-shots < statistics output <
    exit: each class's constructor is evaluated for the constant it installs, and each registration for the constant it passes."""
    P = R.prog
    chain = []
    for cls in ("SST::SyncManager", "SST::StopAction", "SST::Event", "SST::Exit"):
        v = ctor_priority(P, cls)
        v.discard(None)
        R.ob("priority_class", cls + ":constant", len(v) == 1 and isinstance(next(iter(v)), int),
             f"the constructors of {cls} install priorities {v}", P.one(cls + "::" + last(cls)).where())
        chain.append((cls, next(iter(v)) if v else None))
    clk = set()
    for f, n in callers_in(P, "registerClock", lambda f: f.sq.startswith("SST::BaseComponent::")):
        if n[2].endswith("Simulation::registerClock") and len(n[5]) == 3:
            T = Terms(P); clk.add(const(T.term(n[5][2], T.root(f))))
            R.used(f)
    R.need(clk, "BaseComponent registers clocks with the simulation")
    R.ob("priority_class", "component clocks", len(clk) == 1 and None not in clk, f"component clocks are registered with priorities {clk}", "")
    d = dict(chain)
    k = next(iter(clk))
    seq = [("synchronisation", d["SST::SyncManager"]), ("stop", d["SST::StopAction"]), ("clocks", k), ("events", d["SST::Event"]), ("exit", d["SST::Exit"])]
    for (a, x), (b, y) in zip(seq, seq[1:]):
        R.ob("priority_class", f"{a} before {b}", x is not None and y is not None and x < y, f"at equal time {b} (priority {y}) would be delivered before {a} (priority {x})", "")
    for cls, idx in (("SST::Clock", 1),):
        v = ctor_priority(P, cls); v.discard(None)
        R.ob("priority_class", cls + ":passes", v == {("arg", idx)}, f"the {cls} constructor does not install the priority it is given", P.one(cls + "::" + last(cls)).where())


def callers_in(P, name, fpred):
    out = []
    for f in P.funcs.values():
        if f.raw is not None and name not in f.raw: continue
        if not fpred(f): continue
        for n in func_nodes(f):
            if n[0] == "call" and last(strip_t(n[2])) == name: out.append((f, n))
    return out


CLAUSES = [released, priority_class, order, sorted_first, bins, queue_order, priority_bits, polling, restart_order]
