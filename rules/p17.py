"""P17: statistics and one-shot events."""
from sa.q import *
from rules.p11 import noctx
from rules.p16 import incr, param_named

PROP = dict(
    title="Statistics record all data while enabled and are output when configured",
    statement="An enabled statistic takes in every value presented to it and counts it once; a disabled one takes in nothing. Accumulators report sum, sum of squares, minimum, maximum "
              "and count of these values, histograms put each into the bin that contains it or counts it as out of bounds, N-fold presentation equals N presentations. Output "
              "happens at each period, each time the count limit is reached, and at the end, for each statistic of each group, and resets only what was asked for. startat and "
              "stopat switch collection at the given times. One-shot handlers run once, at their time.",
    over=["inputs", "histories", "configurations"], text="all values presented, all rates, limits, groups, start and stop times, all orders of registration",
    why="The statistics are the result a user takes from a simulation. A sample counted twice or in the wrong bin, or a statistic left out of an output, yields plausible wrong numbers; the tests "
        "compare a few configurations' outputs with small positive values.",
    files=["src/sst/core/statapi/statbase.h", "src/sst/core/statapi/statbase.cc", "src/sst/core/statapi/stataccumulator.h", "src/sst/core/statapi/stathistogram.h", "src/sst/core/statapi/statuniquecount.h",
           "src/sst/core/statapi/statengine.cc", "src/sst/core/statapi/statgroup.cc", "src/sst/core/impl/oneshotManager.cc"],
    mech=[("Statistic::addData, addDataNTimes", "src/sst/core/statapi/statbase.h"), ("AccumulatorStatistic", "src/sst/core/statapi/stataccumulator.h"), ("HistogramStatistic", "src/sst/core/statapi/stathistogram.h"),
          ("StatisticProcessingEngine", "src/sst/core/statapi/statengine.cc"), ("OneShotManager", "src/sst/core/impl/oneshotManager.cc")],
    technique="path obligations per decided configuration over interprocedural control-flow graphs of every template instantiation, abstract evaluation over value orders, agreement of registered and written output fields")

TUS = ["statapi/statbase.cc", "statapi/statengine.cc", "statapi/statgroup.cc", "impl/oneshotManager.cc", "baseComponent.cc"]
LOAD = dict(extra=[VERIF + "/tool/witness/stats.cc"])
ENA, CUR, OUT, LIM, PERIODIC = ("StatisticBase::stat_enabled_", "StatisticBase::current_collection_count_", "StatisticBase::output_collection_count_", "StatisticBase::collection_count_limit_",
                                "StatisticBase::registered_collection_mode_")
PRIO_STAT = 85


def fns(R, q, n=None):
    fs = R.need(R.prog.find("SST::" + q, False), q)
    return fs if n is None else R.need([f for f in fs if len(f.params) == n], q)


def fn(R, q, n=None): return fns(R, q, n)[0]


ALL = lambda *stop: (lambda f, e, ctx: last(f.sq) not in stop)


def strip_fwd(t):
    while t[0] == "call" and last(t[1]) in ("forward", "move") and t[3]: t = t[3][0]
    return t


def adds(n, fld, pred):
    """n adds a term satisfying pred to a field"""
    if n.kind != "asg" or not is_field(n.d["lhs"], fld): return False
    op, r = n.d["op"], n.d["rhs"]
    if op == "+=": return pred(r)
    if op == "++": return pred(("int", 1))
    if op == "=":
        s = summands(r)
        return len(s) == 2 and all(g == 1 for g, _ in s) and any(is_field(x, fld) for _, x in s) and any(pred(x) and not is_field(x, fld) for _, x in s)
    return False


def factors(t):
    if t[0] == "bin" and t[1] == "*": return factors(t[2]) + factors(t[3])
    if t[0] == "cast": return factors(t[-1])
    return [t]


def prod_is(t, *preds):
    f = factors(t)
    f = [x for x in f if const(x) != 1]
    if len(f) != len(preds): return False
    for p in preds:
        for x in f:
            if p(x): f.remove(x); break
        else: return False
    return True


def once(R, clause, name, g, ev, msg, msg2):
    always(R, clause, name, g, ev, msg)
    never(R, clause, name + " once", g, ev, msg2, frm=[n for n in g.nodes() if ev(n)])


def collect(R):
    """Presenting data to an enabled statistic hands it over and counts it once, to a disabled one does nothing; counting updates both
    counts and outputs event-based statistics when the limit is reached, only then."""
    P = R.prog
    for q, impl in (("Statistic::addData", "addData_impl"), ("Statistic::addDataNTimes", "addData_impl_Ntimes")):
        for f in fns(R, "Statistics::" + q):
            nm = f.q.split("Statistics::", 1)[-1]
            N = "NTimes" in q
            take = lambda n: n.kind == "call" and last(n.d["q"]) == impl
            cnt = lambda n: n.kind == "call" and last(n.d["q"]) == "incrementCollectionCount"
            stop = ALL("addData_impl", "addData_impl_Ntimes", "incrementCollectionCount")
            g = CFG(P, f, inline=stop, assume=truth(lambda t: is_field(t, ENA), True))
            once(R, "collect", nm + ":taken", g, take, "a value presented to an enabled statistic is lost", "a value is taken in twice")
            once(R, "collect", nm + ":counted", g, cnt, "a value presented to an enabled statistic is not counted", "a value is counted twice")
            never(R, "collect", nm + ":order", g, cnt, "a value is counted, which may output the statistic, before it is taken in", avoid=take)
            for n in g.nodes():
                if cnt(n): R.ob("collect", nm + ":count", param_idx(f, n.d["args"][0]) == 0 if N else const(n.d["args"][0]) == 1, "the wrong number of values is counted", n.where())
                if take(n): R.ob("collect", nm + ":value", [param_idx(f, strip_fwd(x)) for x in n.d["args"]] == ([0, 1] if N else [0]), "something other than the value is taken in", n.where())
            g = CFG(P, f, inline=stop, assume=truth(lambda t: is_field(t, ENA), False))
            never(R, "collect", nm + ":disabled", g, lambda n: take(n) or cnt(n), "a disabled statistic collects data")
    for f in fns(R, "Statistics::StatisticCollector::addData_impl_Ntimes"):
        g = CFG(P, f)
        R.cfg_used(g)
        for n, body, leave, L in loop_heads(g):
            ev = lambda m: m.kind == "call" and last(m.d["q"]) == "addData_impl"
            R.ob("collect", "default N-fold:each", g.search(body, lambda m: m is n, avoid=ev) is None, "a value is taken in less than N times", n.where())
            counted(R, "collect", "default N-fold", g, n, L, lambda t: param_idx(f, t) == 0)
    base = ALL("checkEventForOutput", "performStatisticOutput")
    chk = call_to("checkEventForOutput")
    f = fn(R, "Statistics::StatisticBase::incrementCollectionCount")
    g = CFG(P, f, inline=base)
    for fld in (CUR, OUT):
        ev = lambda n: adds(n, fld, lambda t: param_idx(f, t) == 0)
        nm = "increment:" + last(fld)
        once(R, "collect", nm, g, ev, "values are not counted", "values are counted twice")
        never(R, "collect", nm + ":before", g, chk, "the limit is checked before the values are counted", avoid=ev)
        never(R, "collect", nm + ":only", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], fld) and not ev(n), "the count is changed otherwise")
    always(R, "collect", "increment:limit", g, chk, "the limit is not checked when values are counted")
    f = fn(R, "Statistics::StatisticBase::setCollectionCount")
    g = CFG(P, f, inline=base)
    for fld in (CUR, OUT): always(R, "collect", "set:" + last(fld), g, asg_to(fld, lambda r: param_idx(f, r) == 0), "a count is not set")
    f = fn(R, "Statistics::StatisticBase::resetCollectionCount")
    g = CFG(P, f, inline=base)
    always(R, "collect", "reset:output", g, asg_to(OUT, lambda r: const(r) == 0), "the count towards the limit is not reset")
    never(R, "collect", "reset:only", g, asg_to(CUR), "the number of values is lost on output")
    f = fn(R, "Statistics::StatisticBase::setCollectionCountLimit")
    g = CFG(P, f, inline=base)
    always(R, "collect", "limit", g, asg_to(LIM, lambda r: param_idx(f, r) == 0), "the limit is not set")
    f = fn(R, "Statistics::StatisticBase::checkEventForOutput")
    out = call_to("performStatisticOutput")
    for per in (True, False):
        for rel in "<=>":
            for lim in (0, 5):
                def asm(at, ctx=None):
                    if at[0] in ("nz", "pos") and is_field(at[1], PERIODIC): return per
                    if at[0] in ("nz", "pos") and is_field(at[1], LIM): return lim > 0
                    a, b = (at[1], at[2]) if len(at) > 2 else (None, None)
                    if a is None: return None
                    k = lambda t: 0 if is_field(t, OUT) else 1 if is_field(t, LIM) else None
                    if k(a) is not None and k(b) is not None and k(a) != k(b):
                        r = rel if k(a) == 0 else {"<": ">", ">": "<", "=": "="}[rel]
                        return r == "=" if at[0] == "==" else r == "<"
                    for x, y in ((a, b), (b, a)):
                        if is_field(x, LIM) and const(y) is not None:
                            return lim == const(y) if at[0] == "==" else (lim < const(y) if x is a else const(y) < lim)
                    return None
                if rel == "<" and lim == 0: continue
                g = CFG(P, f, inline=ALL("performStatisticOutput"), assume=asm)
                want = not per and rel != "<" and lim
                (always if want else never)(R, "collect", f"output:periodic={per},count{rel}limit={lim}", g, out,
                                            "an event-based statistic is not output when its limit is reached" if want else "a statistic is output although its limit is not reached")
    for n in CFG(P, f, inline=ALL("performStatisticOutput")).nodes():
        if out(n): R.ob("collect", "output:which", n.d["args"] and n.d["args"][0] == ("this",) and (len(n.d["args"]) < 2 or const(n.d["args"][1]) in (0, None)), "another statistic is output", n.where())
    for nm, v in (("enable", 1), ("disable", 0)):
        for f in fns(R, "Statistics::StatisticBase::" + nm): always(R, "collect", nm, CFG(P, f), asg_to(ENA, lambda r: const(r) == v), f"{nm}() does not {nm} a statistic")


def counted(R, clause, name, g, head, L, bound):
    """the loop runs from 0 in steps of 1 up to a bound (exclusive)"""
    cs = [c for _, c, _ in head.succ if c is not None and is_term(c)]
    ok = False
    for c in cs:
        at, pol = norm_cond(c, True)
        if at[0] != "<": continue
        v = at[1]
        if v[0] != "var" or not (bound(at[2]) or bound(expand(g.T, at[2]))): continue
        d = g.T.definition(v)
        st = [m for m in g.nodes() if m.nid in L and m.kind == "asg" and m.d["lhs"] == v]
        if d is not None and const(d) == 0 and len(st) == 1 and (st[0].d["op"] == "++" or st[0].d["op"] == "+=" and const(st[0].d["rhs"]) == 1): ok = True
    R.ob(clause, name + ":range", ok, "the loop does not run exactly once for each of them", head.where())


def setter(fld, pred): return lambda n: n.kind in ("asg",) and n.d["op"] == "=" and is_field(n.d["lhs"], fld) and pred(n.d["rhs"])


def limit(t, which, f):
    if t[0] != "call" or "numeric_limits" not in t[1]: return False
    integral = not any(x in f.q for x in ("<float>", "<double>"))
    return last(t[1]) == which or which == "lowest" and last(t[1]) == "min" and integral


def accumulator(R):
    """Each value is added to the sum, its square to the sum of squares, and minimum and maximum become the smaller/greater of the old
    one and the value; new and cleared accumulators start from the neutral values; each output field carries its datum."""
    P = R.prog
    cls = "Statistics::AccumulatorStatistic::"
    S, Q, MI, MA = (cls + x for x in ("m_sum", "m_sum_sq", "m_min", "m_max"))
    S, Q, MI, MA = ("AccumulatorStatistic::" + x for x in ("m_sum", "m_sum_sq", "m_min", "m_max"))
    for q, nt in (("addData_impl", False), ("addData_impl_Ntimes", True)):
        for f in fns(R, cls + q):
            nm = f.q.split("Statistics::", 1)[-1]
            V = lambda t: param_idx(f, t) == (1 if nt else 0)
            NN = [lambda t: param_idx(f, t) == 0] if nt else []
            g = CFG(P, f)
            ex = lambda p: (lambda t: p(t) or p(expand(g.T, t)))
            once(R, "accumulator", nm + ":sum", g, lambda n: adds(n, S, ex(lambda t: prod_is(t, V, *NN))), "a value is not added to the sum", "a value is added to the sum twice")
            once(R, "accumulator", nm + ":sumsq", g, lambda n: adds(n, Q, ex(lambda t: prod_is(t, V, V, *NN))), "a value's square is not added to the sum of squares", "a square is added twice")
            never(R, "accumulator", nm + ":only", g, lambda n: n.kind == "asg" and (is_field(n.d["lhs"], S) and not adds(n, S, ex(lambda t: prod_is(t, V, *NN))) or is_field(n.d["lhs"], Q) and not adds(n, Q, ex(lambda t: prod_is(t, V, V, *NN)))), "the sums are changed otherwise")
            which = lambda t: 0 if V(t) else 1 if is_field(t, MI) else 2 if is_field(t, MA) else None
            for rk in weak_orders(3):
                if rk[1] > rk[2] and not rk[0] >= 0: continue
                bad = []
                def on(n, env, val):
                    if n is not g.exit: return
                    for fld, pos, f3 in ((MI, 1, min), (MA, 2, max)):
                        fin = [pick(v, order_oracle(which, rk)) for k, v in env.items() if is_field(k, fld)]
                        w = which(fin[0]) if fin else pos
                        if w is None or rk[w] != f3(rk[0], rk[pos]): bad.append(fld)
                walk(g, order_oracle(which, rk), on)
                R.ob("accumulator", f"{nm}:min/max:{rk}", not bad, "minimum or maximum is wrong after a value was taken in", f.where())
    inits = [("clear", f) for f in fns(R, cls + "clearStatisticData")] + [("new", f) for f in fns(R, cls + "AccumulatorStatistic") if len(f.params) >= 3]
    for nm, f in inits:
        g = CFG(P, f, inline=ALL("setCollectionCount"))
        n2 = f.q.split("Statistics::", 1)[-1] + ":" + nm
        for fld, p, what in ((S, lambda t: const(t) == 0, "sum"), (Q, lambda t: const(t) == 0, "sum of squares"), (MI, lambda t: limit(t, "max", f), "minimum"), (MA, lambda t: limit(t, "lowest", f), "maximum")):
            always(R, "accumulator", n2 + ":" + last(fld), g, setter(fld, p), f"a {nm if nm == 'new' else 'cleared'} accumulator does not start with the neutral {what}")
            never(R, "accumulator", n2 + ":" + last(fld) + ":last", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], fld) and not p(n.d["rhs"]), "it starts from another value", )
        if nm == "clear": always(R, "accumulator", n2 + ":count", g, lambda n: n.kind == "call" and last(n.d["q"]) == "setCollectionCount" and const(n.d["args"][0]) == 0, "a cleared accumulator keeps its count")
    fields(R, "accumulator", cls, {"Sum": lambda t: is_field(t, S), "SumSQ": lambda t: is_field(t, Q), "Count": lambda t: is_field(t, CUR), "Min": lambda t: is_field(t, MI), "Max": lambda t: is_field(t, MA)})


def regname(n):
    for x in subterms(n.d["args"][0]):
        if x[0] == "str": return x[1]
    return None


def fields(R, clause, cls, table):
    """handle-per-field statistics: the handle registered under a name is written with the datum of that name, once per output"""
    P = R.prog
    regs = {}
    for f in fns(R, cls + "registerOutputFields"):
        g = CFG(P, f)
        R.cfg_used(g)
        names = {}
        for n in g.nodes():
            if n.kind == "asg" and n.d["rhs"][0] == "call" and last(n.d["rhs"][1]) == "registerField":
                names[n.d["lhs"]] = next((x[1] for x in subterms(n.d["rhs"]) if x[0] == "str"), None)
                h = n.d["lhs"]
                always(R, clause, f"registered:{show(h)}", g, lambda m, n=n: m is n, "a field is not registered")
        R.ob(clause, f.q.split("Statistics::")[-1] + ":fields", sorted(x for x in names.values() if x) == sorted(table), f"fields registered are {sorted(map(str, names.values()))}, expected {sorted(table)}", f.where())
        regs[f.q.rsplit("::", 1)[0]] = names
    for f in fns(R, cls + "outputStatisticFields"):
        names = regs.get(f.q.rsplit("::", 1)[0], {})
        for empty in (True, False):
            asm = lambda at, ctx=None: (empty if at[0] == "==" and any(const(x) == 0 for x in at[1:]) else (not empty) if at[0] in ("nz", "pos") else None) if any(is_term(x) and is_field(x, CUR) for x in at[1:]) else None
            g = CFG(P, f, assume=asm)
            for h, name in names.items():
                ev = lambda n: n.kind == "call" and last(n.d["q"]) == "outputField" and n.d["args"][0] == h
                once(R, clause, f"{f.q.split('Statistics::')[-1]}:{name}:empty={empty}", g, ev, "a field is left out of an output", "a field is written twice")
                for n in g.nodes():
                    if ev(n):
                        t = expand(g.T, n.d["args"][1])
                        ok = table.get(name, lambda t: False)(t) or empty and const(t) == 0
                        R.ob(clause, f"{f.q.split('Statistics::')[-1]}:{name}:value:empty={empty}", ok, f"field {name} carries something else", n.where())


def histogram(R):
    """A value below/above the bounds is counted there and nowhere else; any other goes into sums, number of binned items and the bin
    under which the output looks it up, N times."""
    P = R.prog
    cls = "Statistics::HistogramStatistic::"
    F = lambda x: "HistogramStatistic::" + x
    LO, HI, BINNED, SUM, SQ, BINS, MIN, W, NB = map(F, ("m_OOBMinCount", "m_OOBMaxCount", "m_itemsBinnedCount", "m_totalSummed", "m_totalSummedSqr", "m_binsMap", "m_minValue", "m_binWidth", "m_numBins"))
    for f in fns(R, cls + "addData_impl"):
        g = CFG(P, f, inline=ALL("addData_impl_Ntimes"))
        ev = lambda n: n.kind == "call" and last(n.d["q"]) == "addData_impl_Ntimes"
        once(R, "histogram", f.q.split("Statistics::")[-1], g, ev, "a value is lost", "a value is taken in twice")
        for n in g.nodes():
            if ev(n): R.ob("histogram", "one:args", const(n.d["args"][0]) == 1 and param_idx(f, n.d["args"][1]) == 0, "a value is not taken in once", n.where())
    for f in fns(R, cls + "addData_impl_Ntimes"):
        nm = f.q.split("Statistics::", 1)[-1].split("::")[0]
        N = lambda t: param_idx(f, t) == 0
        V = lambda t: param_idx(f, t) == 1
        upper = lambda t: has_field(t, W) and has_field(t, NB)
        for case, rmin, rmax in (("below", "<", "<"), ("above", ">", ">"), ("within", ">", "<"), ("at the minimum", "=", "<"), ("at the maximum", ">", "=")):
            def asm(at, ctx=None):
                if at[0] not in ("<", "=="): return None
                for x, y, fl in ((at[1], at[2], False), (at[2], at[1], True)):
                    if V(x):
                        r = rmax if upper(y) else rmin if is_field(y, MIN) else None
                        if r is None: continue
                        return r == "=" if at[0] == "==" else r == (">" if fl else "<")
                return None
            g = CFG(P, f, assume=asm)
            addN = lambda fld: (lambda n: adds(n, fld, lambda t: N(t) or N(strip_cast(t))))
            touch = lambda fld: (lambda n: n.kind == "asg" and is_field(n.d["lhs"], fld) or n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], fld) and last(n.d["q"]) in ("insert", "emplace", "operator[]", "insert_or_assign", "try_emplace", "clear", "erase"))
            bump = lambda n: n.kind == "asg" and (n.d["lhs"][0] == "mem" and fmatch(n.d["lhs"][2], "second") and has_field(expand(g.T, n.d["lhs"]), BINS) or n.d["lhs"][0] == "idx" and is_field(n.d["lhs"][1], BINS))
            for fld, want in ((LO, case == "below"), (HI, case == "above"), (BINNED, case not in ("below", "above"))):
                if want:
                    once(R, "histogram", f"{nm}:{case}:{last(fld)}", g, addN(fld), f"values {case} the bounds are not counted N times as such", "values are counted twice")
                    never(R, "histogram", f"{nm}:{case}:{last(fld)} only", g, lambda n: touch(fld)(n) and not addN(fld)(n), "the count is changed otherwise")
                else: never(R, "histogram", f"{nm}:{case}:{last(fld)}", g, touch(fld), f"a value {case} the bounds is counted otherwise")
            if case.startswith("at"): continue
            if case != "within":
                never(R, "histogram", f"{nm}:{case}:bins", g, lambda n: touch(BINS)(n) or bump(n) or touch(SUM)(n) or touch(SQ)(n), "a value out of bounds is binned")
                continue
            ex = lambda p: (lambda t: p(t) or p(expand(g.T, t)))
            once(R, "histogram", f"{nm}:sum", g, lambda n: adds(n, SUM, ex(lambda t: prod_is(t, N, V))), "a binned value is not added to the sum N times", "a value is added twice")
            once(R, "histogram", f"{nm}:sumsq", g, lambda n: adds(n, SQ, ex(lambda t: prod_is(t, N, V, V))), "a binned value's square is not added to the sum of squares N times", "a square is added twice")
            ins = lambda n: n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], BINS) and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign")
            ev = lambda n: bump(n) or ins(n)
            once(R, "histogram", f"{nm}:bin", g, ev, "a value within the bounds goes into no bin", "a value goes into two bins")
            for n in g.nodes():
                if bump(n): R.ob("histogram", f"{nm}:bin:N", n.d["op"] == "+=" and N(strip_cast(n.d["rhs"])) or n.d["op"] == "=" and ins_new(n, N), "a bin is not increased by the number of values", n.where())
                if ins(n): R.ob("histogram", f"{nm}:bin:new", any(N(x) for a in n.d["args"] for x in subterms(a)), "a new bin does not start with the number of values", n.where())
            keys = [(n, n.d["args"][0]) for n in g.nodes() if n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], BINS) and last(n.d["q"]) in ("find", "operator[]", "emplace", "try_emplace", "at", "insert", "insert_or_assign", "count", "contains", "lower_bound")]
            R.ob("histogram", f"{nm}:lookup", bool(keys), "no bin is looked up", f.where())
            for n, k in keys:
                while k[0] == "ctor" and k[2]: k = k[2][0]
                k = expand(g.T, k, 8)
                R.ob("histogram", f"{nm}:bin:which:{last(n.d['q'])}", bin_start(k, V, MIN, W), "a value is put into a bin that the output does not look up (bins start at the minimum, one width apart)", n.where())
    # clearing and initial values
    for nm, fs in (("clear", fns(R, cls + "clearStatisticData")), ("new", [f for f in fns(R, cls + "HistogramStatistic") if len(f.params) >= 3])):
        for f in fs:
            g = CFG(P, f, inline=ALL("setCollectionCount"))
            for fld in (SUM, SQ, LO, HI, BINNED): always(R, "histogram", f"{nm}:{f.q.split('<')[-1][:8]}:{last(fld)}", g, setter(fld, lambda t: const(t) == 0), "a histogram does not start empty")
            if nm == "clear":
                always(R, "histogram", "clear:bins", g, lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and is_field(n.d["obj"], BINS), "a cleared histogram keeps its bins")
                always(R, "histogram", "clear:count", g, lambda n: n.kind == "call" and last(n.d["q"]) == "setCollectionCount" and const(n.d["args"][0]) == 0, "a cleared histogram keeps its count")
    # output: same fields in the same order
    OOB, DUMP = F("m_includeOutOfBounds"), F("m_dumpBinsOnOutput")
    table = [("BinsMinValue", lambda t: is_field(t, MIN)), ("BinsMaxValue", upper), ("BinWidth", lambda t: is_field(t, W)), ("TotalNumBins", lambda t: is_field(t, NB)), ("Sum", lambda t: is_field(t, SUM)),
             ("SumSQ", lambda t: is_field(t, SQ)), ("NumActiveBins", lambda t: has_field(t, BINS) and has_call(t, "size")), ("NumItemsCollected", lambda t: is_field(t, CUR)), ("NumItemsBinned", lambda t: is_field(t, BINNED))]
    oob = [("NumOutOfBounds-MinValue", lambda t: is_field(t, LO)), ("NumOutOfBounds-MaxValue", lambda t: is_field(t, HI))]
    regs, outs = fns(R, cls + "registerOutputFields"), fns(R, cls + "outputStatisticFields")
    for a in (True, False):
        for b in (True, False):
            def asm(at, ctx=None):
                for fld, v in ((OOB, a), (DUMP, b)):
                    if at[0] in ("nz", "pos") and is_field(at[1], fld): return v
                    if at[0] == "==" and any(is_field(x, fld) for x in at[1:]):
                        c = [const(x) for x in at[1:] if const(x) is not None]
                        if c: return v == bool(c[0])
                return None
            want = table + (oob if a else [])
            for f in regs:
                g = CFG(P, f, assume=asm, inline=ALL("registerField"))
                seq = sequence(R, "histogram", g, lambda n: n.kind == "call" and last(n.d["q"]) == "registerField")
                names = [regname(n) for n, lp in seq]
                R.ob("histogram", f"register:{f.q.split('<')[-1][:8]}:oob={a},bins={b}", names[:len(want)] == [w for w, _ in want] and len(names) == len(want) + (1 if b else 0) and all(bool(lp) == (i >= len(want)) for i, (n, lp) in enumerate(seq)),
                     f"the fields registered are {names}", f.where())
                loops(R, "register", g, seq, NB)
            for f in outs:
                g = CFG(P, f, assume=asm, inline=ALL("outputField"))
                seq = sequence(R, "histogram", g, lambda n: n.kind == "call" and last(n.d["q"]) == "outputField")
                nm = f"output:{f.q.split('<')[-1][:8]}:oob={a},bins={b}"
                ok = len(seq) == len(want) + (1 if b else 0) and all(bool(lp) == (i >= len(want)) for i, (n, lp) in enumerate(seq))
                R.ob("histogram", nm + ":number", ok, "the number of fields written is not that registered", f.where())
                for i, (n, lp) in enumerate(seq[:len(want)]):
                    t = expand(g.T, n.d["args"][1])
                    R.ob("histogram", f"{nm}:{want[i][0]}", want[i][1](n.d["args"][1]) or want[i][1](t), f"field {want[i][0]} carries something else", n.where())
                for i, (n, lp) in enumerate(seq):
                    h = n.d["args"][0]
                    idx = h[2] if h[0] == "idx" and has_field(h[1], F("m_Fields")) else None
                    if idx is None: idx = next((x[2] for x in subterms(expand(g.T, h)) if x[0] == "idx" and has_field(x[1], F("m_Fields"))), None)
                    R.ob("histogram", f"{nm}:handle {i}", idx is not None and (idx[0] == "un" and idx[1] == "p++" and const(g.T.definition(idx[-1]) or ("x",)) == 0 or const(idx) == i or idx[0] == "var"), "a field is written under another field's handle", n.where())
                loops(R, "output", g, seq, NB)
                if b:
                    for n in g.nodes():
                        if n.kind == "call" and last(n.d["q"]) == "find" and n.d["obj"] is not None and is_field(n.d["obj"], BINS):
                            k = n.d["args"][0]
                            L = next((L for h, _, _, L in loop_heads(g) if n.nid in L), set())
                            ok = False
                            kv = k if k[0] == "var" else None
                            d0 = kv
                            while d0 is not None and d0[0] == "var" and g.T.definition(d0) is not None and g.T.definition(d0)[0] == "var": d0 = g.T.definition(d0)
                            for v in {kv, d0} - {None}:
                                st = [m for m in g.nodes() if m.kind == "asg" and m.d["lhs"] == v]
                                d = g.T.definition(v)
                                if d is not None and is_field(expand(g.T, d), MIN) and len(st) == 1 and st[0].nid in L and adds_var(st[0], v, W):
                                    ok = g.search(g.after(st[0]), lambda m: m is n, avoid=lambda m: m.kind == "br" and m.nid in L) is None
                                if d is not None and not st: ok = ok or sum_is(expand(g.T, d), lambda t: is_field(t, MIN), lambda t: len(factors(t)) == 2 and any(is_field(x, W) for x in factors(t)))
                            if k[0] != "var": ok = sum_is(expand(g.T, k), lambda t: is_field(t, MIN), lambda t: len(factors(t)) == 2 and any(is_field(x, W) for x in factors(t)))
                            R.ob("histogram", nm + ":bins", ok, "the bins are not looked up from the minimum in steps of the width", n.where())


def adds_var(m, v, W):
    if m.d["op"] == "+=": return is_field(m.d["rhs"], W)
    s = summands(m.d["rhs"])
    return m.d["op"] == "=" and len(s) == 2 and any(x == v for _, x in s) and any(is_field(x, W) for _, x in s) and all(g == 1 for g, _ in s)


def ins_new(n, N): return N(strip_cast(n.d["rhs"])) or any(N(strip_cast(x)) for _, x in summands(n.d["rhs"]))


def strip_cast(t):
    while t[0] == "cast": t = t[-1]
    return t


def bin_start(k, V, MIN, W):
    """min + floor((value - min) / width) * width"""
    k = strip_cast(k)
    s = summands(k)
    rel = lambda t: len(summands(t)) == 2 and any(g == 1 and V(x) for g, x in summands(t)) and any(g == -1 and is_field(x, MIN) for g, x in summands(t))
    fl = lambda t: t[0] == "call" and last(t[1]) == "floor" and div(t[3][0]) or div(t)
    div = lambda t: t[0] == "bin" and t[1] == "/" and rel(strip_cast(t[2])) and is_field(t[3], W)
    if sum_is(k, lambda t: is_field(t, MIN), lambda t: prod_is(t, fl, lambda x: is_field(x, W))): return True
    return len(s) == 2 and any(g == 1 and V(x) for g, x in s) and any(g == -1 and (x[0] == "bin" and x[1] == "%" and rel(x[2]) and is_field(x[3], W) or x[0] == "call" and last(x[1]) == "fmod" and rel(x[3][0]) and is_field(x[3][1], W)) for g, x in s)


def sequence(R, clause, g, ev):
    """the events in the order of the control flow, with whether they are in a loop; each path passes all of them"""
    R.cfg_used(g)
    hs = loop_heads(g)
    evs = [n for n in g.nodes() if ev(n)]
    inloop = {n.nid: any(n.nid in L for _, _, _, L in hs) for n in evs}
    def before(a, b): return g.search(g.after(a), lambda m: m is b) is not None
    import functools
    evs.sort(key=functools.cmp_to_key(lambda a, b: 0 if a is b else (-1 if before(a, b) else 1)))
    for n in evs:
        if not inloop[n.nid]: always(R, clause, f"sequence:{n.where()}", g, lambda m, n=n: m is n, "a field is left out on some path")
    return [(n, inloop[n.nid]) for n in evs]


def loops(R, what, g, seq, NB):
    for n, lp in seq:
        if not lp: continue
        for h, body, leave, L in loop_heads(g):
            if n.nid not in L: continue
            counted(R, "histogram", what + ":bins", g, h, L, lambda t: is_field(t, NB))
            R.ob("histogram", what + ":each bin", g.search(body, lambda m: m is h, avoid=lambda m: m is n, edge=lambda a, s, c, p: s.nid in L) is None, "a bin is left out", n.where())


def unique(R):
    P = R.prog
    cls = "Statistics::UniqueCountStatistic::"
    U = "UniqueCountStatistic::unique_set_"
    for f in fns(R, cls + "addData_impl"):
        g = CFG(P, f)
        always(R, "unique", f.q.split("Statistics::")[-1], g, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace") and is_field(n.d["obj"], U) and param_idx(f, n.d["args"][0]) == 0, "a value is lost")
    for f in fns(R, cls + "clearStatisticData"):
        always(R, "unique", "clear", CFG(P, f), lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and is_field(n.d["obj"], U), "a cleared statistic keeps its values")
    fields(R, "unique", cls, {"UniqueItems": lambda t: has_field(t, U) and has_call(t, "size")})


ENG = "Statistics::StatisticProcessingEngine::"
DEF, GRPS, STARTED = "stat_default_groups_", "stat_groups_", "StatisticProcessingEngine::simulation_started_"


def strs(t): return {x[1] for x in subterms(t) if x[0] == "str"}


def register(R):
    """Registration: the unit of the rate decides between periodic and event-based output, the statistic joins its group and its output,
    start and stop times given are scheduled; a null statistic does nothing."""
    P = R.prog
    f = fn(R, ENG + "registerStatisticWithEngine")
    stop = ALL("addPeriodicBasedStatistic", "addEventBasedStatistic", "setStatisticStartTime", "setStatisticStopTime", "addStatistic", "registerStatistic", "getGroupForStatistic", "hasUnits", "find", "isNullStatistic", "setRegisteredCollectionMode", "isStatModeSupported", "operator!=", "operator==", "isOutputEventBased", "isOutputPeriodic")
    unit = lambda at: next(iter(strs(at[1])), None) if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "hasUnits" else None
    def asm(u, default=True, null=False):
        def a(at, ctx=None):
            un = unit(at)
            if un is not None: return un == u
            if at[0] in ("nz", "pos"):
                t = at[1]
                if t[0] == "call" and last(t[1]) == "isNullStatistic": return null
                if t[0] == "call" and last(t[1]) == "isStatModeSupported": return True
                if is_field(t, "StatisticGroup::is_default"): return default
                if is_field(t, "StatisticBase::component_") or t[0] == "call" and last(t[1]) == "getComponent" or t[0] == "var" and t[3] == "comp": return True
                if t[0] == "call" and last(t[1]) in ("addPeriodicBasedStatistic",): return True
                if t[0] == "call" and last(t[1]) == "isOutputEventBased" or is_field(t, PERIODIC): return (u == "event") if not is_field(t, PERIODIC) else u != "event"
            if at[0] == "==" and any(is_term(x) and is_field(x, "StatisticBase::component_") or has_call(x, "getComponent") for x in at[1:] if is_term(x)): return False
            return None
        return a
    per, evt, reg, add = (call_to(x) for x in ("addPeriodicBasedStatistic", "addEventBasedStatistic", "StatisticOutput::registerStatistic", "StatisticGroup::addStatistic"))
    mode = call_to("setRegisteredCollectionMode")
    g = CFG(P, f, inline=stop, assume=asm(None, null=True))
    never(R, "register", "null", g, lambda n: per(n) or evt(n) or reg(n) or add(n), "a null statistic is registered")
    for u, periodic in (("s", True), ("hz", True), ("event", False), (None, None)):
        g0 = CFG(P, f, inline=stop, assume=asm(u))
        if periodic is None:
            feasible(R, "register", "unit:unknown", g0, asm(u), None, lambda n: per(n) or evt(n) or add(n), "a rate with an unknown unit is accepted", None, None)
            continue
        feasible(R, "register", f"unit {u}", g0, asm(u), per if periodic else evt, (evt if periodic else per), f"a statistic with a rate in {u} is not registered for {'periodic' if periodic else 'event-based'} output", mode, periodic)
        feasible(R, "register", f"unit {u}:output", g0, asm(u), reg, None, "a statistic is not registered with its output", None, None)
        g1 = CFG(P, f, inline=stop, assume=asm(u, default=False))
        if periodic: feasible(R, "register", f"unit {u}:group", g1, asm(u, default=False), add, lambda n: per(n) or evt(n), "a statistic does not join its group", None, None)
        for n in g0.nodes():
            if per(n):
                a = n.d["args"]
                t = expand(g0.T, a[0])
                R.ob("register", "period", is_field(t, "TimeConverter::factor") and "rate" in strs(expand(g0.T, t, 8)) and param_idx(f, a[1]) == 0, "a statistic is output with another period", n.where())
            if evt(n): R.ob("register", "limit", "rate" in strs(expand(g0.T, n.d["args"][0], 8)) and param_idx(f, n.d["args"][1]) == 0, "a statistic is output at another count", n.where())
            if reg(n) or mode(n): R.ob("register", "which", param_idx(f, n.d["args"][0] if reg(n) else n.d["obj"]) == 0, "another statistic is registered", n.where())
    # start and stop times
    g = CFG(P, f, inline=stop, assume=asm("s"))
    for call, key in (("setStatisticStartTime", "startat"), ("setStatisticStopTime", "stopat")):
        ev = call_to(call)
        es = [n for n in g.nodes() if ev(n)]
        R.ob("register", key, bool(es), f"{key} is not honoured", f.where())

        def zero(n, s, c, p):          # edges on which the time is known to be none/zero
            if c is None or not is_term(c): return False
            at, pol = norm_cond(c, p)
            t = [x for x in at[1:] if is_term(x)]
            if at[0] == "==" and pol and key in {y for x in t for y in strs(x)}: return True
            k = at[0] == "==" and pol or at[0] in ("nz", "pos") and (at[1][0] == "call" and last(at[1][1]) == "operator!=" and not pol or at[1][0] == "call" and last(at[1][1]) == "operator==" and pol)
            return bool(k) and (key in {y for x in t for y in strs(x)} or any(has_field(x, "UnitAlgebra::value") or has_call(x, "getValue") for x in t))
        always(R, "register", key + ":always", g, lambda n: ev(n) or n.kind == "ret" and const(n.d["val"] or ("x",)) == 0, f"a given {key} is ignored", edge=lambda n, s, c, p: not zero(n, s, c, p))
        for n in es:
            v = n.d["args"][1]
            R.ob("register", key + ":stat", param_idx(f, n.d["args"][0]) == 0, "another statistic is switched", n.where())
            src = flow_strs(g, v, n)
            R.ob("register", key + ":time", key in src and not ({"startat", "stopat"} - {key}) & src and "rate" not in src, f"the time is not that given as {key}", n.where())
    f = fn(R, ENG + "reregisterStatisticWithEngine")
    g = CFG(P, f, inline=stop, assume=asm("s"))
    for i, nm in ((1, "setStatisticStartTime"), (2, "setStatisticStopTime")):
        ev = lambda n: n.kind == "call" and last(n.d["q"]) == nm and param_idx(f, n.d["args"][1]) == i and param_idx(f, n.d["args"][0]) == 0
        nz = lambda n, s, c, p: not (c is not None and is_term(c) and zero_edge(c, p, lambda t: param_idx(f, t) == i))
        always(R, "register", "restart:" + nm, g, lambda n: ev(n) or n.kind == "ret" and const(n.d["val"] or ("x",)) == 0, "a pending start or stop time is lost on restart", edge=nz)
    for u in ("s", "event"):
        for d in (True, False):
            if u == "event" and not d: continue
            def asm2(at, ctx=None, u=u, d=d):
                if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "isOutputPeriodic": return u == "s"
                return asm(u, default=d)(at, ctx)
            g = CFG(P, f, inline=stop, assume=asm2)
            ev = per if u == "s" and d else add
            feasible(R, "register", f"restart:{u},default={d}", g, asm2, ev, None, "a statistic does not join its group on restart", None, None)
            if d: feasible(R, "register", f"restart:{u}:output", g, asm2, reg, None, "a statistic is not registered with its output on restart", None, None)
            for n in g.nodes():
                if per(n): R.ob("register", "restart:period", param_idx(f, n.d["args"][0]) == 3 and param_idx(f, n.d["args"][1]) == 0, "a statistic is output with another period after a restart", n.where())
    f = fn(R, "Stat::pvt::registerStatWithEngineOnRestart")
    g = CFG(P, f, inline=ALL("reregisterStatisticWithEngine"))
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "reregisterStatisticWithEngine": R.ob("register", "restart:args", [param_idx(f, x) for x in n.d["args"]] == [0, 1, 2, 3], "start, stop and output times are mixed up on restart", n.where())
    # event-based
    f = fn(R, ENG + "addEventBasedStatistic")
    g = CFG(P, f, inline=ALL("setCollectionCountLimit", "setFlagResetCountOnOutput", "addStatistic", "getRoundedValue", "getValue", "operator!=", "operator=="))
    always(R, "register", "event:group", g, lambda n: add(n) and param_idx(f, n.d["args"][0]) == 1 and n.d["obj"][0] == "idx" and is_field(n.d["obj"][1], DEF) and const(n.d["obj"][2]) == 0, "an event-based statistic does not join the default group")
    always(R, "register", "event:reset", g, lambda n: n.kind == "call" and last(n.d["q"]) == "setFlagResetCountOnOutput" and const(n.d["args"][0]) == 1, "the count towards the limit is not reset after an output")
    lim = lambda n: n.kind == "call" and last(n.d["q"]) == "setCollectionCountLimit"
    always(R, "register", "event:limit", g, lim, "the limit is not set")
    ls = [n for n in g.nodes() if lim(n)]
    R.ob("register", "event:limit value", any(has_call(n.d["args"][0], "getRoundedValue") and 0 in {param_idx(f, x) for x in subterms(n.d["args"][0])} for n in ls), "the limit is not that of the rate", f.where())
    for n in ls:
        if const(n.d["args"][0]) == 0:
            iszero = lambda at, pol: (at[0] == "==" and pol or at[0] in ("nz", "pos") and (at[1][0] == "call" and last(at[1][1]) == "operator!=" and not pol or at[1][0] == "call" and last(at[1][1]) == "operator==" and pol or at[1][0] != "call" and not pol))
            guarded(R, "register", "event:no limit", g, lambda m, n=n: m is n, lambda at, pol, nd: iszero(at, pol) and any(is_term(x) and (has_call(x, "getValue") or has_field(x, "value")) for x in at[1:]), "the limit of a statistic is dropped")
        else: R.ob("register", "event:value", has_call(n.d["args"][0], "getRoundedValue"), "the limit is not that of the rate", n.where())
    # periodic
    f = fn(R, ENG + "addPeriodicBasedStatistic")
    absent = lambda v: lambda at, ctx=None: (v if at[0] == "==" and any(is_term(x) and has_field(x, DEF) for x in at[1:]) else ((not v) if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) in ("count", "contains") and has_field(at[1], DEF) else None))
    clk = call_to("Simulation::registerClock")
    fac = lambda t: param_idx(f, t) == 0
    for v in (True, False):
        g = CFG(P, f, inline=ALL("registerClock", "addStatistic"), assume=absent(v))
        (always if v else never)(R, "register", f"periodic:clock:new={v}", g, clk, "there is no clock for a period" if v else "a period gets a second clock, so that its statistics are output twice")
        always(R, "register", f"periodic:join:new={v}", g, lambda n: add(n) and param_idx(f, n.d["args"][0]) == 1 and n.d["obj"][0] == "idx" and is_field(n.d["obj"][1], DEF) and fac(n.d["obj"][2]), "a statistic does not join the group of its period")
        if v:
            ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace") and is_field(n.d["obj"], DEF)
            brk = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and is_field(n.d["lhs"][1], DEF)
            for fld, p in (("StatisticGroup::output_freq", fac), ("StatisticGroup::output", lambda t: is_field(t, "StatisticGroup::output"))):
                always(R, "register", "periodic:" + last(fld), g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], fld) and p(n.d["rhs"]), "the group of a period does not know its period or output")
            for n in g.nodes():
                if ins(n): R.ob("register", "periodic:key", any(fac(x) for x in subterms(n.d["args"][0])), "the group of a period is filed under another", n.where())
                if clk(n): R.ob("register", "periodic:clock args", fac(n.d["args"][0]) and const(n.d["args"][2]) == PRIO_STAT, "the clock of a period runs with another", n.where())
                if n.kind == "ctor" and last(n.d["q"]) == "SSTHandler": R.ob("register", "periodic:handler", any(fac(x) for x in n.d["args"]) and "handleStatisticEngineClockEvent" in n.d["id"], "the clock of a period outputs another's statistics", n.where())
                if ins(n):
                    for m in g.nodes():
                        if m.kind == "asg" and m.d["lhs"][0] == "mem" and m.d["lhs"][1][0] == "var" and (is_field(m.d["lhs"], "StatisticGroup::output_freq") or is_field(m.d["lhs"], "StatisticGroup::output")):
                            never(R, "register", "periodic:complete", g, lambda x, m=m: x is m, "the group is stored before it is complete", frm=[n])
    f = fn(R, "Statistics::StatisticGroup::addStatistic")
    g = CFG(P, f)
    always(R, "register", "group:list", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], "StatisticGroup::stats") and param_idx(f, n.d["args"][0]) == 0, "a statistic is not listed in its group")
    g = CFG(P, f, inline=ALL())
    always(R, "register", "group:known", g, asg_to("StatisticBase::group_", lambda r: r == ("this",)), "a statistic does not know its group")
    f = fn(R, "Statistics::StatisticGroup::claimsStatistic")
    finds = lambda fld: lambda at, v: v if at[0] == "==" and any(is_term(x) and x[0] == "call" and last(x[1]) == "find" and has_field(x, fld) for x in at[1:]) else ((not v) if at[0] in ("nz", "pos") and is_term(at[1]) and at[1][0] == "call" and last(at[1][1]) in ("count", "contains") and has_field(at[1], fld) else None)
    for d in (True, False):
        for a in (True, False):
            for b in (True, False):
                def asm3(at, ctx=None):
                    if at[0] in ("nz", "pos") and is_field(at[1], "StatisticGroup::is_default"): return d
                    r = finds("StatisticGroup::stat_names")(at, not a)
                    return r if r is not None else finds("StatisticGroup::components")(at, not b)
                o, g = bool_outcomes(P, f, asm3)
                R.cfg_used(g)
                R.ob("register", f"claims:default={d},name={a},component={b}", o == {d or a and b}, "a group claims statistics that were not put into it, or not its own", f.where())
    f = fn(R, ENG + "getGroupForStatistic")
    g = CFG(P, f, inline=ALL("claimsStatistic"))
    R.cfg_used(g)
    for n in root_rets(g):
        t = expand(g.T, n.d["val"])
        if has_field(t, GRPS): guarded(R, "register", "group:claimed", g, lambda m, n=n: m is n, lambda at, pol, nd: at[0] in ("nz", "pos") and pol and has_call(at[1], "claimsStatistic"), "a statistic joins a group that does not claim it")
        else:
            R.ob("register", "group:default", has_field(t, DEF), "a statistic joins no group", n.where())
            for h, body, leave, L in loop_heads(g):
                if not any(is_term(c) and has_field(expand(g.T, c), GRPS) and not has_call(expand(g.T, c), "claimsStatistic") for _, c, _ in h.succ if c is not None): continue
                R.ob("register", "group:all asked", g.search(body, lambda m: m is n or m is h, avoid=lambda m: m.kind == "call" and last(m.d["q"]) == "claimsStatistic") is None, "a group is not asked", h.where())
                R.ob("register", "group:joined", g.search([s for b in g.nodes() if b.kind == "br" and b.nid in L for s, c, p in b.succ if c is not None and is_term(c) and norm_cond(c, p)[0][0] in ("nz", "pos") and has_call(norm_cond(c, p)[0][1], "claimsStatistic") and norm_cond(c, p)[1]], lambda m: m is h or m is n) is None, "a group that claims a statistic does not get it", h.where())


def zero_edge(c, p, isx):
    at, pol = norm_cond(c, p)
    if at[0] in ("nz", "pos") and isx(at[1]): return not pol
    if at[0] == "==" and any(const(x) == 0 for x in at[1:]) and any(isx(x) for x in at[1:]): return pol
    if at[0] == "<" and const(at[1]) == 0 and isx(at[2]): return not pol
    return False


def flow_strs(g, v, use):
    """string constants that reach v at a use, following reaching assignments"""
    out, todo, seen = set(), [(v, use)], set()
    while todo:
        t, at = todo.pop()
        if (t, at.nid) in seen: continue
        seen.add((t, at.nid))
        out |= strs(t)
        for x in subterms(t):
            if x[0] != "var": continue
            defs = [m for m in g.nodes() if m.kind in ("asg", "init") and (m.d.get("lhs") or m.d.get("var")) == x or m.kind == "call" and last(m.d["q"]) == "operator=" and m.d["obj"] == x]
            for m in defs:
                others = [d for d in defs if d is not m]
                if g.search(g.after(m), lambda y: y is at, avoid=lambda y: y in others) is not None:
                    r = m.d["args"][0] if m.kind == "call" else m.d["rhs"]
                    if r is not None: todo.append((r, m))
    return out


def feasible(R, clause, name, g, asm, ev, notev, msg, mode, periodic):
    """with flags that are local variables followed through, every feasible path passes ev exactly once and never notev; the flag
    stored by mode is `periodic`"""
    R.cfg_used(g)
    st, seen, bad = [(g.entry, (), 0)], set(), None
    okret = lambda n: False
    while st and bad is None:
        n, te, h = st.pop()
        if (n.nid, te, h) in seen: continue
        seen.add((n.nid, te, h))
        env = dict(te)
        if is_fatal(n): continue
        if ev is not None and ev(n): h += 1
        if h > 1 or notev is not None and notev(n): bad = n; break
        if n is g.exit and ev is not None and h != 1: bad = n; break
        if mode is not None and mode(n) and const(subst(n.d["args"][0], env)) is not None and bool(const(subst(n.d["args"][0], env))) != periodic: bad = n; break
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if v[0] == "var":
                r = n.d.get("rhs")
                r = subst(r, env) if r is not None else None
                tv = truthval(r, lambda at: asm(at)) if r is not None and r[0] in ("bin", "un", "call") and const(r) is None else None
                if tv is not None: r = ("lit", "1" if tv else "0")
                if r is not None and const(r) is not None: env[v] = r
                else: env.pop(v, None)
        for s, c, p in n.succ:
            if c is not None and is_term(c):
                r = truthval(subst(c, env), lambda at: asm(at))
                if r is not None and r != p: continue
            st.append((s, tuple(sorted(env.items(), key=repr)), h))
    R.ob(clause, name, bad is None, msg, bad.where() if bad is not None else g.fn.where())


def startstop(R):
    """A start/stop time in the future is scheduled once per time, for every statistic that has it, and switches all of them on/off
    then; a start time keeps the statistic off until then."""
    P = R.prog
    for nm, mp, fl, un, hnd, start in (("setStatisticStartTime", "start_time_map_", "setStartAtFlag", "unsetStartAtFlag", "handleStatisticEngineStartTimeEvent", True),
                                       ("setStatisticStopTime", "stop_time_map_", "setStopAtFlag", "unsetStopAtFlag", "handleStatisticEngineStopTimeEvent", False)):
        f = fn(R, ENG + nm)
        T = lambda t: param_idx(f, t) == 1
        nowt = lambda t: t[0] == "call" and last(t[1]) in ("getCurrentSimCycle",) or is_field(t, "currentSimCycle")
        def asm(future, new):
            def a(at, ctx=None):
                if at[0] == "<" and T(at[2]) and nowt(at[1]): return future
                if at[0] == "<" and T(at[1]) and nowt(at[2]): return not future
                if at[0] == "==" and any(T(x) for x in at[1:]) and any(nowt(x) for x in at[1:]): return False if future else None
                if at[0] == "==" and any(is_term(x) and has_field(x, mp) for x in at[1:]): return new
                if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) in ("count", "contains"): return not new
                return None
            return a
        ina = ALL("registerAbsoluteHandler", "registerRelativeHandler", "enable", "disable", fl)
        shot = lambda n: n.kind == "call" and last(n.d["q"]) == "registerAbsoluteHandler" and T(n.d["args"][0]) and const(n.d["args"][1]) == PRIO_STAT and n.d["args"][2] == ("this",) and T(n.d["args"][3])
        anyshot = lambda n: n.kind == "call" and last(n.d["q"]) in ("registerAbsoluteHandler", "registerRelativeHandler")
        push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back", "insert") and any(param_idx(f, x) == 0 for x in n.d["args"])
        off = lambda n: n.kind == "call" and last(n.d["q"]) == "disable" and param_idx(f, n.d["obj"]) == 0
        flag = lambda n: n.kind == "call" and last(n.d["q"]) == fl and param_idx(f, n.d["obj"]) == 0
        for new in (True, False):
            g = CFG(P, f, inline=ina, assume=asm(True, new))
            if new: once(R, "startstop", f"{nm}:shot", g, shot, "nothing is scheduled for the time", "the time is scheduled twice")
            else: never(R, "startstop", f"{nm}:one shot", g, anyshot, "a time is scheduled twice")
            once(R, "startstop", f"{nm}:listed:new={new}", g, push, "a statistic is not switched at its time", "a statistic is listed twice")
            always(R, "startstop", f"{nm}:flag:new={new}", g, flag, "a pending time is not saved in a checkpoint")
            if start: always(R, "startstop", f"{nm}:off:new={new}", g, off, "a statistic collects data before its start time")
            else: never(R, "startstop", f"{nm}:on:new={new}", g, off, "a statistic does not collect data before its stop time")
            for n in g.nodes():
                if anyshot(n): R.ob("startstop", f"{nm}:handler", f"ndleStatisticEngine{'Start' if start else 'Stop'}TimeEvent" in (n.d.get("id") or "") or hnd in (n.d.get("full") or hnd), "the wrong handler is scheduled", n.where())
                if push(n):
                    o = expand(g.T, n.d["obj"])
                    R.ob("startstop", f"{nm}:list", has_field(o, mp) or o[0] == "var" or o[0] == "deref" or o[0] == "new", "a statistic is put into another list", n.where())
        g = CFG(P, f, inline=ina, assume=asm(False, True))
        never(R, "startstop", f"{nm}:past", g, lambda n: anyshot(n) or push(n) or off(n), "a time that has passed still switches the statistic")
        f = fn(R, ENG + hnd)
        g = CFG(P, f, inline=ALL("enable", "disable", un))
        sw = lambda n: n.kind == "call" and last(n.d["q"]) == ("enable" if start else "disable")
        for_each(R, "startstop", hnd + ":each", g, lambda c: has_field(c, mp) , sw, "a statistic is not switched at its time")
        for_each(R, "startstop", hnd + ":flag", g, lambda c: has_field(c, mp) , lambda n: n.kind == "call" and last(n.d["q"]) == un, "a statistic that was switched counts as pending")
        never(R, "startstop", hnd + ":right way", g, lambda n: n.kind == "call" and last(n.d["q"]) == ("disable" if start else "enable"), "statistics are switched the wrong way")
        for n in g.nodes():
            if n.kind == "call" and last(n.d["q"]) in ("operator[]", "at", "find", "erase") and n.d["obj"][0] == "mem" and is_field(n.d["obj"], mp):
                R.ob("startstop", hnd + ":time", param_idx(f, n.d["args"][0]) == 0 or n.d["args"][0][0] == "var" and last(n.d["q"]) == "erase", f"{show(n.d['args'][0])}: the statistics of another time are switched", n.where())


def output(R):
    """Output is written only after the simulation started, at the end for every statistic of every group, in between also resets what
    the statistic asks for; clocks output all statistics of their period/group and keep running."""
    P = R.prog
    END = 1
    for nm, what in (("performStatisticOutputImpl", "output"), ("performStatisticGroupOutputImpl", "outputGroup")):
        f = fn(R, ENG + nm)
        def asm(started, end, rst=None, clr=None):
            def a(at, ctx=None):
                if at[0] in ("nz", "pos"):
                    t = at[1]
                    if is_field(t, STARTED): return started
                    if param_idx(f, t) == END: return end
                    if is_field(t, "StatisticBase::reset_count_on_output_"): return rst
                    if is_field(t, "StatisticBase::clear_data_on_output_"): return clr
                if at[0] == "==":
                    for x, y in ((at[1], at[2]), (at[2], at[1])):
                        v = const(y)
                        if v is None: continue
                        for isx, val in ((lambda t: is_field(t, STARTED), started), (lambda t: param_idx(f, t) == END, end), (lambda t: is_field(t, "StatisticBase::reset_count_on_output_"), rst), (lambda t: is_field(t, "StatisticBase::clear_data_on_output_"), clr)):
                            if isx(x) and val is not None: return val == bool(v)
                return None
            return a
        ina = ALL("output", "outputGroup", "resetCollectionCount", "clearStatisticData")
        out = lambda n: n.kind == "call" and last(n.d["q"]) == what and has_arg(f, n)
        rs, cl = call_to("resetCollectionCount"), call_to("clearStatisticData")
        g = CFG(P, f, inline=ina, assume=asm(False, None))
        never(R, "output", nm + ":early", g, lambda n: out(n) or rs(n) or cl(n), "statistics are output before the simulation starts")
        for end in (True, False):
            g = CFG(P, f, inline=ina, assume=asm(True, end))
            once(R, "output", f"{nm}:end={end}", g, out, "a statistic is not output", "a statistic is output twice")
            never(R, "output", f"{nm}:reset after:end={end}", g, lambda n: rs(n) or cl(n), "data are reset before they are output", avoid=out)
            for n in g.nodes():
                if out(n): R.ob("output", nm + ":flag", param_idx(f, n.d["args"][1]) == END or const(n.d["args"][1]) == int(end), "the end of the simulation is not passed on", n.where())
            for r in (True, False):
                for c in (True, False):
                    g = CFG(P, f, inline=ina, assume=asm(True, end, r, c))
                    for ev, want, w in ((rs, r and not end, "count"), (cl, c and not end, "data")):
                        if not want: never(R, "output", f"{nm}:{w}:end={end},{r},{c}", g, ev, f"the {w} are reset although that was not asked for, or at the end")
                        elif what == "output": always(R, "output", f"{nm}:{w}:end={end},{r},{c}", g, ev, f"the {w} are not reset on output")
                        else: for_each(R, "output", f"{nm}:{w}:end={end},{r},{c}", g, lambda t: has_field(t, "StatisticGroup::stats") , ev, f"the {w} of a statistic in a group are not reset on output")
    one, grp = (lambda n: n.kind == "call" and last(n.d["q"]) == "performStatisticOutputImpl"), (lambda n: n.kind == "call" and last(n.d["q"]) == "performStatisticGroupOutputImpl")
    stop = ALL("performStatisticOutputImpl", "performStatisticGroupOutputImpl")
    for nm, flag in (("endOfSimulation", lambda f, t: const(t) == 1), ("performGlobalStatisticOutput", lambda f, t: param_idx(f, t) == 0), ("handleStatisticEngineClockEvent", lambda f, t: const(t) == 0), ("handleGroupClockEvent", lambda f, t: const(t) == 0)):
        f = fn(R, ENG + nm)
        g = CFG(P, f, inline=stop)
        R.cfg_used(g)
        clock = nm.startswith("handle")
        if not nm.startswith("handleGroup"): nested(R, "output", nm + ":statistics", g, one, DEF, "a statistic is left out of an output")
        if nm == "handleGroupClockEvent": always(R, "output", nm, g, lambda n: grp(n) and param_idx(f, n.d["args"][0][1] if n.d["args"][0][0] == "deref" else n.d["args"][0]) == 1, "a group is not output by its clock")
        elif not clock: nested(R, "output", nm + ":groups", g, grp, GRPS, "a group is left out of an output")
        for n in g.nodes():
            if one(n) or grp(n): R.ob("output", nm + ":flag", len(n.d["args"]) > 1 and flag(f, n.d["args"][1]), "output counts as the wrong kind", n.where())
            if nm == "handleStatisticEngineClockEvent" and n.kind == "call" and last(n.d["q"]) in ("operator[]", "at", "find") and is_field(n.d["obj"], DEF): R.ob("output", nm + ":period", param_idx(f, n.d["args"][0]) == 1, "the statistics of another period are output", n.where())
        if clock:
            for n in root_rets(g): R.ob("output", nm + ":goes on", const(n.d["val"]) == 0, "the output clock stops", n.where())
    f = fn(R, ENG + "performStatisticOutput")
    for d in (True, False):
        g = CFG(P, f, inline=stop, assume=truth(lambda t: is_field(t, "StatisticGroup::is_default"), d))
        once(R, "output", f"single:default={d}", g, one if d else grp, "a statistic is not output", "a statistic is output twice")
        never(R, "output", f"single:only:default={d}", g, grp if d else one, "output goes to the wrong place")
    f = fn(R, ENG + "startOfSimulation")
    always(R, "output", "start", CFG(P, f), asg_to(STARTED, lambda r: const(r) == 1), "no statistics are output after the simulation starts")
    f = fn(R, ENG + "finalizeInitialization")
    for fv in (0, 1, 7):
        z = fv == 0
        g = CFG(P, f, inline=ALL("registerGroup", "registerClock"), assume=term_is(lambda t: is_field(t, "StatisticGroup::output_freq"), fv))
        over = lambda c: has_field(c, GRPS)
        for_each(R, "output", f"groups:registered:freq={fv}", g, over, lambda n: n.kind == "call" and last(n.d["q"]) == "registerGroup", "a group is not registered with its output")
        clk = lambda n: n.kind == "call" and last(n.d["q"]) == "registerClock" and is_field(n.d["args"][0], "StatisticGroup::output_freq") and const(n.d["args"][2]) == PRIO_STAT
        if z: never(R, "output", "groups:no clock", g, lambda n: n.kind == "call" and last(n.d["q"]) == "registerClock", "a group without a frequency gets a clock")
        else: for_each(R, "output", "groups:clock", g, over, clk, "a group with a frequency gets no clock of that frequency")
    f = fn(R, "Statistics::StatisticOutput::output") if R.prog.find("SST::Statistics::StatisticOutput::output", False) else None


def has_arg(f, n):
    a = n.d["args"][0]
    while a[0] in ("addr", "deref"): a = a[1]
    return param_idx(f, a) == 0


def nested(R, clause, name, g, ev, fld, msg):
    """every element reached through the container field (possibly nested loops) gets ev: in the innermost loop around ev every way
    round passes it, loops around it are entered on every way, and none is left early"""
    hs = [(n, body, leave, L) for n, body, leave, L in loop_heads(g) if any(ev(m) and m.nid in L for m in g.nodes())]
    hs.sort(key=lambda x: len(x[3]))
    ok = bool(hs)
    where = g.fn.where()
    inner = ev
    for n, body, leave, L in hs:
        if g.search(body, lambda m: m is n, avoid=inner, edge=lambda a, s, c, p: s.nid in L) is not None: ok = False; where = n.where()
        if g.search(body, lambda m: m.nid not in L and not is_fatal(m), avoid=lambda m: m is n or is_fatal(m)) is not None: ok = False; where = n.where()
        inner = (lambda n: lambda m: m is n)(n)
    if ok and g.search([g.entry], lambda m: m is g.exit, avoid=inner) is not None: ok = False
    if hs and not any(is_term(c) and has_field(expand(g.T, c), fld) for n, _, _, _ in hs for _, c, _ in n.succ if c is not None): ok = False
    R.ob(clause, name, ok, msg, where)


def oneshot(R):
    """A one-shot handler registered for a time that has not passed is stored under that time and priority and runs once, then; the next
    time stamp is always in the queue; a handled one is removed first."""
    P = R.prog
    f = fn(R, "Core::OneShotManager::registerHandlerBase")
    HM = "OneShotManager::handler_vector_map_"
    nowc = lambda t: t[0] == "call" and last(t[1]) == "getCurrentSimCycle" or is_field(t, "currentSimCycle")
    pri = lambda t: t[0] == "call" and last(t[1]) == "getCurrentPriority" or is_field(t, "currentPriority")
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and param_idx(f, n.d["args"][0]) == 3
    sched = lambda n: n.kind == "call" and last(n.d["q"]) == "scheduleNextOneShot"
    ina = ALL("scheduleNextOneShot", "getCurrentSimCycle", "getCurrentPriority", "make_pair")
    def ts(t, g):
        """(time, priority) of a time stamp term"""
        t = expand(g.T, t)
        if t[0] in ("call", "ctor"):
            a = [x for x in (t[3] if t[0] == "call" else t[2]) if is_term(x)]
            if len(a) == 1 and a[0][0] in ("call", "ctor"): return ts(a[0], g)
            if len(a) == 2: return a
        return None
    g = CFG(P, f, inline=ina)
    cmpn = [(n, at, pol) for n in g.nodes() if n.kind == "br" for s, c, p in n.succ[:1] if c is not None and is_term(c) for at, pol in [norm_cond(c, p)] if at[0] in ("<", "==") and all(is_term(x) for x in at[1:])]
    found = False
    for rel in (True, False):
        for order in "<=>":
            def side(t):
                a = ts(t, g)
                if a is None: return None
                if nowc(a[0]) and pri(a[1]): return 1
                if any(param_idx(f, x) == 0 for x in subterms(a[0])) and param_idx(f, a[1]) == 1: return 0
                return None
            def asm(at, ctx=None):
                nonlocal found
                if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 2: return rel
                if at[0] in ("<", "=="):
                    a, b = side(at[1]), side(at[2])
                    if a is not None and b is not None and a != b:
                        found = True
                        r = order if a == 0 else {"<": ">", ">": "<", "=": "="}[order]
                        return r == "<" if at[0] == "<" else r == "="
                return None
            g2 = CFG(P, f, inline=ina, assume=asm)
            if order == ">":
                once(R, "oneshot", f"future:stored:relative={rel}", g2, push, "a handler is not stored", "a handler is stored twice")
                always(R, "oneshot", f"future:scheduled:relative={rel}", g2, sched, "a handler for a time before those scheduled is not scheduled")
                never(R, "oneshot", f"future:stored first:relative={rel}", g2, sched, "the next time is scheduled before the handler is stored", avoid=push)
            else: never(R, "oneshot", f"past:{order}:relative={rel}", g2, lambda n: push(n) or sched(n), "a handler is stored for a time that has passed")
    R.ob("oneshot", "past", found, "whether the time has passed (time, then priority) is not checked", f.where())
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) in ("operator[]", "try_emplace", "emplace") and is_field(n.d["obj"], HM):
            a = ts(n.d["args"][0], g)
            ok = a is not None and param_idx(f, a[1]) == 1
            if ok:
                s = summands(a[0])
                other = [x for gg, x in s if gg == 1 and param_idx(f, x) != 0]
                ok = len(s) == 2 and any(param_idx(f, x) == 0 for _, x in s) and len(other) == 1 and (other[0][0] in ("?:", "cond") and param_idx(f, other[0][1]) == 2 and nowc(other[0][2]) and const(other[0][3]) == 0 or other[0][0] == "bin" and other[0][1] == "*" or other[0][0] == "var")
                ok = ok or a[0][0] in ("?:", "cond", "var")
            R.ob("oneshot", "time", ok, "a handler is stored under another time or priority", n.where())
    f = fn(R, "Core::OneShot::execute")
    g = CFG(P, f, inline=ALL("oneshotCallback"))
    hd = lambda n: n.kind == "call" and last(n.d["q"]) == "operator()"
    for_each(R, "oneshot", "run", g, lambda c: has_field(c, "OneShot::handlers") , hd, "a handler does not run")
    cb = call_to("oneshotCallback")
    once(R, "oneshot", "done", g, cb, "a time that was handled is not removed", "it is removed twice")
    never(R, "oneshot", "done last", g, hd, "handlers run after their list was removed", frm=[n for n in g.nodes() if cb(n)])
    for n in g.nodes():
        if cb(n): R.ob("oneshot", "done:which", is_field(n.d["args"][0], "OneShot::time") and n.d["args"][1] == ("this",), "another time is removed", n.where())
    f = fn(R, "Core::OneShotManager::oneshotCallback")
    g = CFG(P, f, inline=ALL("scheduleNextOneShot"))
    er = lambda n: n.kind == "call" and last(n.d["q"]) == "erase" and is_field(n.d["obj"], HM)
    always(R, "oneshot", "removed", g, lambda n: er(n) and param_idx(f, n.d["args"][0]) == 0, "a time that was handled stays")
    always(R, "oneshot", "next", g, sched, "the next time is not scheduled")
    never(R, "oneshot", "removed first", g, sched, "the next time is looked up before the one handled is removed", avoid=er)
    f = fn(R, "Core::OneShotManager::scheduleNextOneShot")
    def asm(some, done):
        def a(at, ctx=None):
            if at[0] == "==" and any(is_term(x) and has_call(x, "end") and has_field(x, HM) for x in at[1:]): return not some
            if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) == "empty": return not some
            if at[0] in ("nz", "pos") and at[1][0] == "mem" and last(at[1][2]) == "second": return done
            return None
        return a
    ins = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and "TimeVortex" in n.d["q"]
    mk = lambda n: n.kind == "asg" and n.d["lhs"][0] == "mem" and last(n.d["lhs"][2]) == "second" and const(n.d["rhs"]) == 1
    g = CFG(P, f, assume=asm(True, False))
    once(R, "oneshot", "schedule", g, ins, "the next time is not put into the queue", "a time is put into the queue twice")
    always(R, "oneshot", "schedule:noted", g, mk, "a time in the queue does not count as scheduled, so that it runs twice")
    for n in g.nodes():
        if n.kind == "ctor" and n.d["q"].endswith("OneShot") and len(n.d["args"]) == 3:
            a = [expand(g.T, x) for x in n.d["args"]]
            R.ob("oneshot", "schedule:what", has_call(a[0], "begin") and a[0][0] == "mem" and last(a[0][2]) == "first" and a[1] == ("this",) and has_call(a[2], "begin") and last(a[2][2]) == "first", "something other than the first time is scheduled", n.where())
    g = CFG(P, f, assume=asm(True, True))
    never(R, "oneshot", "schedule:once", g, ins, "a time is put into the queue twice")
    g = CFG(P, f, assume=asm(False, False))
    never(R, "oneshot", "schedule:none", g, ins, "a one-shot is scheduled although there is none")


CLAUSES = [collect, accumulator, histogram, unique, register, startstop, output, oneshot]
