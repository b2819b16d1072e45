"""P18: shared objects."""
from sa.q import *
from sa.locks import raii_map
from rules.p17 import fns, fn, ALL, once, setter, strip_cast
import itertools

PROP = dict(
    title="Shared objects hold the same verified data on every rank and are then frozen",
    statement="A value written to a SharedArray, SharedMap or SharedSet is stored and sent to every other rank, where it is applied once; two different values for one place end the simulation in each "
              "verifying mode, on whichever ranks they were written, and never otherwise. An array's size is the maximum asked for. An object counts as fully published when every instance on every "
              "rank has published, and from setup() on. Writing after publish() or after init, initialising twice, with another type or other verification ends the simulation. Reads return what was stored.",
    over=["inputs", "histories", "configurations"], text="all element types, values, orders of writes, numbers of ranks and of instances per rank, rounds of the init phase",
    why="Elements build their routing and address tables from shared objects. A change set that is not applied, or a conflict not noticed, leaves ranks with different tables, which no run on one rank shows; "
        "the tests write each place once.",
    files=["src/sst/core/shared/sharedArray.h", "src/sst/core/shared/sharedMap.h", "src/sst/core/shared/sharedSet.h", "src/sst/core/shared/sharedObject.h", "src/sst/core/shared/sharedObject.cc"],
    mech=[("SharedArray, SharedArray<bool>", "src/sst/core/shared/sharedArray.h"), ("SharedMap", "src/sst/core/shared/sharedMap.h"), ("SharedSet", "src/sst/core/shared/sharedSet.h"),
          ("SharedObjectDataManager::updateState", "src/sst/core/shared/sharedObject.cc")],
    technique="evaluation of the write, size and verification functions over all decided cases, path obligations over interprocedural control-flow graphs of every template instantiation")

TUS = ["shared/sharedObject.cc", "simulation.cc"]
LOAD = dict(extra=[VERIF + "/tool/witness/shared.cc"])
KINDS = {"SharedArray": ("array", "write", 2), "SharedMap": ("map", "write", 2), "SharedSet": ("set", "insert", 1)}
S = "Shared::"


def short(f): return f.q.split("Shared::", 1)[-1]


def noguard(t): return t[0] == "ctor" and ("lock_guard" in str(t[1]) or "scoped_lock" in str(t[1]) or "unique_lock" in str(t[1]))


def null(fld, is_null):
    def f(at, ctx=None):
        if at[0] in ("nz", "pos") and is_field(at[1], fld): return not is_null
        if at[0] == "==" and any(is_field(x, fld) for x in at[1:]) and any(const(x) == 0 or x[0] == "null" for x in at[1:]): return is_null
        return None
    return f


def fatal_on_all(R, clause, name, g, msg):
    always(R, clause, name, g, is_fatal, msg)


def strip(t):
    while True:
        if t[0] == "cast": t = t[-1]
        elif t[0] == "call" and last(t[1]) in ("forward", "move", "cref") and t[3]: t = t[3][0]
        else: return t


def P(f, i): return lambda t: param_idx(f, strip(t)) == i


# ---------------------------------------------------------------- the instance's interface
def instance(R):
    """initialize() is fatal on a second call, else takes the data of this name, counts one sharer and sets size or verification; publish()
    counts once; writing is fatal after publish() and else reaches the data once with the same arguments."""
    Pr = R.prog
    for cls, (store, wr, nargs) in KINDS.items():
        for f in fns(R, S + cls + "::initialize"):
            nm = short(f)
            stop = ALL("getSharedObjectData", "incShareCount", "setSize", "setVerify")
            inc = lambda n: n.kind == "call" and last(n.d["q"]) == "incShareCount" and n.d["obj"] is not None
            # incShareCount(data) of SharedObject forwards to data->incShareCount()
            inl = lambda f2, e, c: last(f2.sq) not in ("getSharedObjectData", "setSize", "setVerify") and not (last(f2.sq) == "incShareCount" and "SharedObjectData" in f2.sq)
            g = CFG(Pr, f, inline=inl, assume=null(cls + "::data", False))
            fatal_on_all(R, "instance", nm + ":again", g, "initialising an instance twice is accepted")
            vu = enumval(Pr, "verify_type", "VERIFY_UNINITIALIZED")
            ln = [i for i, p in enumerate(f.params) if "size_t" in str(p) or "unsigned long" in str(p)]
            for zero in ((True, False) if cls == "SharedArray" else (None,)):
                li = 1
                vi = len(f.params) - 1
                asm = allof(null(cls + "::data", True), lambda at, ctx=None: False if at[0] == "==" and any(param_idx(f, x) == vi for x in at[1:]) and any(const(x) == vu or show(x).endswith("VERIFY_UNINITIALIZED") for x in at[1:]) else None,
                            *([term_is(lambda t: param_idx(f, t) == li, 0 if zero else 4)] if zero is not None else []))
                g = CFG(Pr, f, inline=inl, assume=asm)
                c = nm + (f":length{'=' if zero else '>'}0" if zero is not None else "")
                never(R, "instance", c + ":accepted", g, is_fatal, "a valid initialisation ends the simulation")
                get = lambda n: n.kind == "asg" and is_field(n.d["lhs"], cls + "::data") and n.d["rhs"][0] == "call" and last(n.d["rhs"][1]) == "getSharedObjectData" and any(P(f, 0)(x) for x in n.d["rhs"][3])
                once(R, "instance", c + ":data", g, get, "an instance is not connected to the data of its name", "it is connected twice")
                isd = lambda n: n.d["obj"] is not None and (is_field(n.d["obj"], cls + "::data") or n.d["obj"][0] == "call" and last(n.d["obj"][1]) == "getSharedObjectData")
                cnt = lambda n: n.kind == "call" and last(n.d["q"]) == "incShareCount" and isd(n)
                once(R, "instance", c + ":shared", g, cnt, "an instance is not counted as a sharer", "an instance is counted as a sharer twice")
                never(R, "instance", c + ":order", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("incShareCount", "setSize", "setVerify") and n.d["obj"] is not None and is_field(n.d["obj"], cls + "::data"), "the data is used before the instance has it", avoid=get)
                if cls == "SharedArray":
                    ev = lambda n: n.kind == "call" and last(n.d["q"]) == "setSize" and isd(n) and all(P(f, i + 1)(x) for i, x in enumerate(n.d["args"])) and len(n.d["args"]) == 3
                    if not zero: always(R, "instance", c + ":size", g, ev, "the length, initial value and verification asked for are not set")
                    never(R, "instance", c + ":size only", g, lambda n: n.kind == "call" and last(n.d["q"]) == "setSize" and not ev(n), "another length, initial value or verification is set")
                else:
                    ev = lambda n: n.kind == "call" and last(n.d["q"]) == "setVerify" and isd(n) and P(f, 1)(n.d["args"][0])
                    always(R, "instance", c + ":verify", g, ev, "the verification asked for is not set")
                for r in root_rets(g): R.ob("instance", c + ":result", has_call(expand(g.T, r.d["val"]), "incShareCount"), "not the number of instances before this one is returned", r.where())
        pub = cls + "::published"
        for f in fns(R, S + cls + "::publish"):
            inl = lambda f2, e, c: not (last(f2.sq) == "incPublishCount" and "SharedObjectData" in f2.sq)
            cnt = lambda n: n.kind == "call" and last(n.d["q"]) == "incPublishCount" and n.d["obj"] is not None and is_field(n.d["obj"], cls + "::data")
            g = CFG(Pr, f, inline=inl, assume=truth(lambda t: is_field(t, pub), True))
            never(R, "instance", short(f) + ":again", g, cnt, "an instance that has published is counted again")
            # the assumption must not outlive the assignment of the flag
            g = CFG(Pr, f, inline=inl, assume=truth(lambda t: is_field(t, pub), False))
            setp = asg_to(pub, lambda r: const(r) == 1)
            if any(setp(n) for n in g.nodes()):
                always(R, "instance", short(f) + ":flag", g, setp, "publish() leaves the instance writable")
                never(R, "instance", short(f) + ":flag only", g, asg_to(pub, lambda r: const(r) != 1), "publish() leaves the instance writable")
            else: R.ob("instance", short(f) + ":flag", False, "publish() leaves the instance writable", f.where())
            once(R, "instance", short(f) + ":count", g, cnt, "publishing is not counted", "publishing is counted twice")
        for f in fns(R, S + cls + "::" + wr):
            dw = lambda n: n.kind == "call" and last(n.d["q"]) == "write" and "Data" in n.d["q"] and n.d["obj"] is not None and is_field(n.d["obj"], cls + "::data")
            stop = lambda f2, e, c: not (last(f2.sq) == "write" and "::Data" in f2.sq)
            g = CFG(Pr, f, inline=stop, assume=truth(lambda t: is_field(t, pub), True))
            fatal_on_all(R, "instance", short(f) + ":published", g, "writing after publish() is accepted")
            never(R, "instance", short(f) + ":published:stored", g, dw, "a value is stored after publish()")
            g = CFG(Pr, f, inline=stop, assume=truth(lambda t: is_field(t, pub), False))
            never(R, "instance", short(f) + ":accepted", g, is_fatal, "a write before publish() ends the simulation")
            once(R, "instance", short(f) + ":stored", g, dw, "a value is not written", "a value is written twice")
            for n in g.nodes():
                if dw(n): R.ob("instance", short(f) + ":what", [param_idx(f, strip(x)) for x in n.d["args"]] == list(range(nargs)), "something else than what was given is written", n.where())
    for nm, fld in (("incShareCount", "share_count"), ("incPublishCount", "publish_count")):
        f = fn(R, S + "SharedObjectData::" + nm)
        g = CFG(Pr, f)
        fl = "SharedObjectData::" + fld
        ev = lambda n: n.kind == "asg" and is_field(n.d["lhs"], fl) and (n.d["op"] == "++" or n.d["op"] == "+=" and const(n.d["rhs"]) == 1 or n.d["op"] == "=" and sum_is(n.d["rhs"], lambda t: is_field(t, fl), lambda t: const(t) == 1))
        once(R, "instance", nm, g, ev, "it is not counted", "it is counted twice")
    f = fn(R, S + "SharedObjectData::check_lock_for_write")
    for v in (True, False):
        g = CFG(Pr, f, assume=truth(lambda t: is_field(t, "SharedObjectData::locked"), v))
        if v: fatal_on_all(R, "instance", "locked", g, "writing after the init phase is accepted")
        else: never(R, "instance", "unlocked", g, is_fatal, "writing during the init phase ends the simulation")
    always(R, "instance", "lock", CFG(Pr, fn(R, S + "SharedObjectData::lock")), asg_to("SharedObjectData::locked", lambda r: const(r) == 1), "lock() does not lock")
    for nm, fld in (("isFullyPublished", "fully_published"), ("getShareCount", "share_count"), ("getPublishCount", "publish_count")):
        for r in root_rets(CFG(Pr, fn(R, S + "SharedObjectData::" + nm))): R.ob("instance", nm, is_field(r.d["val"], "SharedObjectData::" + fld), f"{nm}() returns something else", r.where())


# ---------------------------------------------------------------- storing a value
def leaf_oracle(table):
    """table: [(pred on atom -> True/False/None)]"""
    def dec(at, ctx=None):
        for t in table:
            r = t(at)
            if r is not None: return r
        return None
    return dec


def eqof(a, b, val):
    def t(at):
        if at[0] == "==" and (a(at[1]) and b(at[2]) or a(at[2]) and b(at[1])): return val
        if at[0] in ("nz", "pos") and at[1][0] == "call" and last(at[1][1]) in ("operator==", "operator!="):
            xs = [x for x in ((at[1][2],) + tuple(at[1][3])) if is_term(x)]
            if len(xs) == 2 and (a(xs[0]) and b(xs[1]) or a(xs[1]) and b(xs[0])): return val == (last(at[1][1]) == "operator==")
        return None
    return t


def isval(pred, val):
    def t(at):
        if at[0] in ("nz", "pos") and pred(at[1]): return val
        if at[0] == "==":
            for x, y in ((at[1], at[2]), (at[2], at[1])):
                if pred(x) and const(y) in (0, 1): return val == bool(const(y))
        return None
    return t


def modes(Pr): return {x: enumval(Pr, "verify_type", x) for x in ("FE_VERIFY", "INIT_VERIFY", "NO_VERIFY", "VERIFY_UNINITIALIZED")}


def modeis(fldpred, val, M):
    def t(at):
        if at[0] == "==":
            for x, y in ((at[1], at[2]), (at[2], at[1])):
                if fldpred(x) and const(y) is not None: return const(y) == val
        if at[0] in ("nz", "pos") and fldpred(at[1]): return val != 0
        return None
    return t


def run(g, dec):
    """nodes visited (with environment) and whether the function ends fatally / normally"""
    seen, fin = [], set()
    def on(n, env, val):
        seen.append((n, env))
        if n is g.exit: fin.add("exit")
        if is_fatal(n): fin.add("fatal")
    def d(at): return dec(at)
    walk(g, d, on)
    return seen, fin


def store(R):
    """Storing a value checks it against what is there exactly as the verification mode asks, and then stores it, over the old one where nothing
    is verified; Data::write does so under the lock, unless the object is locked, and hands the change to the change set."""
    Pr = R.prog
    M = modes(Pr)
    # array
    for f in fns(R, S + "SharedArray::Data::update_write"):
        D = "SharedArray::Data::"
        nm = short(f)
        I, V = P(f, 0), P(f, 1)
        elem = lambda t: (t[0] == "idx" and is_field(t[1], D + "array") and I(t[2])) or (t[0] == "call" and last(t[1]) == "at" and is_field(t[2], D + "array"))
        wrt = lambda t: (t[0] == "idx" and is_field(t[1], D + "written") and I(t[2])) or (t[0] == "call" and last(t[1]) == "at" and is_field(t[2], D + "written"))
        ini = lambda t: is_field(t, D + "init")
        ver = lambda t: is_field(t, D + "verify")
        g = CFG(Pr, f)
        R.cfg_used(g)
        for mode, written, isinit, same in itertools.product(("FE_VERIFY", "INIT_VERIFY", "NO_VERIFY"), (0, 1), (0, 1), (0, 1)):
            if isinit and mode != "INIT_VERIFY" or written and mode != "FE_VERIFY": continue
            dec = leaf_oracle([modeis(ver, M[mode], M), isval(wrt, bool(written)), eqof(elem, ini, bool(isinit)), eqof(elem, V, bool(same)), boolelem(R, elem, ini, V, isinit, same) if "bool" in f.q else (lambda at: None)])
            dec2 = lambda at: False if at[0] == "==" and all(const(x) is not None for x in at[1:]) and const(at[1]) != const(at[2]) else dec(at)
            seen, fin = run(switched(g, ver, M[mode]), dec2)
            want = (mode == "FE_VERIFY" and written or mode == "INIT_VERIFY" and not isinit) and not same
            c = f"{nm}:{mode},written={written},initial={isinit},same={same}"
            R.ob("store", c, fin == ({"fatal"} if want else {"exit"}), "a conflicting write is accepted" if want else "a write that does not conflict ends the simulation", f.where())
            if want: continue
            def stores(n): return n.kind == "asg" and n.d["op"] == "=" and elem(n.d["lhs"]) and V(n.d["rhs"]) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and elem(n.d["obj"]) and V(n.d["args"][0])
            def marks(n): return n.kind == "asg" and n.d["op"] == "=" and wrt(n.d["lhs"]) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and wrt(n.d["obj"])
            def val(n): return n.d["rhs"] if n.kind == "asg" else n.d["args"][0]
            feas = feasible_edges(switched(g, ver, M[mode]), dec2)
            if not same: always(R, "store", c + ":stored", g, stores, "the value is not stored", edge=feas)
            never(R, "store", c + ":only", g, lambda n: touches(n, elem) and not stores(n), "something else is stored", edge=feas)
            if mode == "FE_VERIFY":
                if not written: always(R, "store", c + ":marked", g, lambda n: marks(n) and const(val(n)) == 1, "the entry is not marked as written", edge=feas)
                never(R, "store", c + ":marked only", g, lambda n: marks(n) and const(val(n)) != 1, "the mark is lost", edge=feas)
            else: never(R, "store", c + ":unmarked", g, marks, "an entry's mark, which does not exist in this mode, is written", edge=feas)
    # map and set
    for cls in ("SharedMap", "SharedSet"):
        cont = f"{cls}::Data::{KINDS[cls][0]}"
        for f in fns(R, f"{S}{cls}::Data::update_write"):
            nm = short(f)
            K = P(f, 0)
            V = P(f, 1 if cls == "SharedMap" else 0)
            inC = lambda t: t is not None and is_term(t) and is_field(t, cont)
            g = CFG(Pr, f)
            INS = ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint")
            iscall = lambda t, names: t[0] == "call" and last(t[1]) in names and inC(t[2])
            fresh = lambda t: t[0] == "mem" and fmatch(t[2], "second") and iscall(expand(g.T, t[1]), INS)
            posn = lambda t: (lambda t: iscall(t, ("find", "lower_bound")) or t[0] == "mem" and fmatch(t[2], "first") and iscall(t[1], INS))(expand(g.T, t))
            endp = lambda t: iscall(expand(g.T, t), ("end", "cend"))
            if cls == "SharedMap":
                old = lambda t: (t[0] == "mem" and fmatch(t[2], "second") and not fresh(t) and (has_field(expand(g.T, t[1]), cont))) or (t[0] in ("idx",) and inC(t[1])) or iscall(t, ("at", "operator[]"))
            else:
                old = lambda t: not K(t) and t[0] != "mem" and has_field(expand(g.T, t), cont)
            ver = lambda t: is_field(t, f"{cls}::Data::verify")
            news = lambda n: n.kind == "call" and inC(n.d["obj"]) and last(n.d["q"]) in INS and anyarg(g, n.d["args"], K) and anyarg(g, n.d["args"], V)
            over = lambda n: (n.kind == "asg" and n.d["op"] == "=" and old(n.d["lhs"]) and V(n.d["rhs"])) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and old(n.d["obj"]) and V(n.d["args"][0]) or n.kind == "call" and inC(n.d["obj"]) and last(n.d["q"]) == "insert_or_assign" and anyarg(g, n.d["args"], V)
            anywrite = lambda n: n.kind == "asg" and old(n.d["lhs"]) or n.kind == "call" and n.d["obj"] is not None and (last(n.d["q"]) == "operator=" and old(n.d["obj"]) or inC(n.d["obj"]) and last(n.d["q"]) in INS + ("erase", "clear", "swap", "extract", "merge"))
            for mode, exists, same in itertools.product(("FE_VERIFY", "INIT_VERIFY", "NO_VERIFY"), (0, 1), (0, 1)):
                if not exists and same: continue
                cn = lambda t: iscall(t, ("count", "contains"))
                dec = leaf_oracle([modeis(ver, M[mode], M), isval(fresh, not exists), isval(cn, bool(exists)), eqof(posn, endp, not exists), eqof(old, V, bool(same))])
                dec2 = lambda at: dec((at[0],) + tuple(at[1:]))
                seen, fin = run(g, dec2)
                want = exists and not same and mode != "NO_VERIFY"
                c = f"{nm}:{mode},exists={exists},same={same}"
                R.ob("store", c, fin == ({"fatal"} if want else {"exit"}), "a conflicting write is accepted" if want else "a write that does not conflict ends the simulation", f.where())
                if want: continue
                feas = feasible_edges(g, dec2)
                if not exists: always(R, "store", c + ":stored", g, lambda n: news(n) or over(n), "the value is not stored", edge=feas)
                elif not same and cls == "SharedMap": always(R, "store", c + ":overwritten", g, over, "a later value does not replace the earlier one where nothing is verified, although the other ranks get it", edge=feas)
                never(R, "store", c + ":only", g, lambda n: anywrite(n) and not news(n) and not over(n), "something else is stored", edge=feas)
    # Data::write
    for cls, (storef, wr, nargs) in KINDS.items():
        for f in fns(R, f"{S}{cls}::Data::write"):
            stop = ALL("update_write", "check_lock_for_write", "addChange")
            cs = f"{cls}::Data::change_set"
            for multi in (True, False):
                g = CFG(Pr, f, inline=stop, assume=null(cs, not multi))
                c = f"{short(f)}:{'several ranks' if multi else 'one rank'}"
                chk, upd, add = call_to("check_lock_for_write"), call_to("update_write"), call_to("addChange")
                always(R, "store", c + ":checked", g, chk, "a write after the init phase is not noticed")
                once(R, "store", c + ":stored", g, upd, "the value is not stored", "the value is stored twice")
                never(R, "store", c + ":order", g, lambda n: upd(n) or add(n), "the value is stored before the check whether writing is allowed", avoid=chk)
                if multi: once(R, "store", c + ":sent", g, add, "a value is not sent to the other ranks", "a value is sent twice")
                else: never(R, "store", c + ":sent", g, add, "a change is noted although there is no change set")
                for n in g.nodes():
                    if upd(n) or add(n): R.ob("store", f"{c}:{last(n.d['q'])}:what", [param_idx(f, strip(x)) for x in n.d["args"]] == list(range(nargs)), "something else than what was given is stored or sent", n.where())
                held(R, "store", c + ":locked", g, lambda n: upd(n) or add(n), "SharedObjectData::mtx")


def anyarg(g, args, p): return any(p(x) for a in args for x in subterms(expand(g.T, a)))


def touches(n, pred):
    return n.kind == "asg" and pred(n.d["lhs"]) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and pred(n.d["obj"])


def boolelem(R, elem, ini, V, isinit, same):
    """vector<bool>: elements converted by operator bool"""
    e2 = lambda t: elem(t) or t[0] == "call" and last(t[1]) == "operator bool" and t[2] is not None and elem(t[2])
    a, b = eqof(e2, ini, bool(isinit)), eqof(e2, V, bool(same))
    return lambda at: a(at) if a(at) is not None else b(at)


def switched(g, ver, val): return g


def feasible_edges(g, dec):
    """edge filter: edges some abstract run takes"""
    ok = set()
    def on(n, env, val):
        for s in live(n, val, dec): ok.add((n.nid, s.nid))
    walk(g, dec, on)
    return lambda n, s, c, p: (n.nid, s.nid) in ok


def held(R, clause, name, g, ev, lock):
    """every event happens between the construction of a guard over the lock and the end of its scope"""
    m = raii_map(g)
    guards = {v for v, l in m.items() if is_field(l, lock) or l[0] == "glob" and fmatch(l[1], lock)}
    take = lambda n: n.kind == "init" and n.d["var"] in guards or n.kind == "call" and last(n.d["q"]) == "lock" and n.d["obj"] is not None and (is_field(n.d["obj"], lock) or n.d["obj"][0] == "glob" and fmatch(n.d["obj"][1], lock))
    rel = lambda n: n.kind == "scope" and n.d["var"] in guards or n.kind == "call" and last(n.d["q"]) == "unlock"
    never(R, clause, name, g, ev, "it happens without the lock", avoid=take)
    never(R, clause, name + ":until", g, ev, "it happens after the lock was released", frm=[n for n in g.nodes() if rel(n)], avoid=take)


# ---------------------------------------------------------------- size and verification
def setup_(R):
    """setSize() grows the array (and the marks) to the size asked for, never shrinks it, tells the change set, and is fatal exactly when
    initial value or verification differ from those given before; setVerify() likewise for verification."""
    Pr = R.prog
    M = modes(Pr)
    for f in fns(R, S + "SharedArray::Data::setSize"):
        D = "SharedArray::Data::"
        N, I, V = P(f, 0), P(f, 1), P(f, 2)
        arr, cs = D + "array", D + "change_set"
        sz = lambda t: t[0] == "call" and last(t[1]) == "size" and is_field(t[2], arr)
        g0 = CFG(Pr, f, inline=lambda f2, e, c: "ChangeSet" not in f2.sq)
        R.cfg_used(g0)
        for vt, grow, old, sameinit, samever, multi in itertools.product(("FE_VERIFY", "INIT_VERIFY", "VERIFY_UNINITIALIZED"), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1)):
            oldm = "VERIFY_UNINITIALIZED" if not old else vt if samever else ("INIT_VERIFY" if vt == "FE_VERIFY" else "FE_VERIFY")
            if vt == "VERIFY_UNINITIALIZED" and not (samever and sameinit) or not old and not (samever and sameinit): continue
            def dec(at, ctx=None):
                for t in (modeis(V, M[vt], M), modeis(lambda t: is_field(t, D + "verify"), M[oldm], M), eqof(V, lambda t: is_field(t, D + "verify"), vt == oldm), eqof(I, lambda t: is_field(t, D + "init"), bool(sameinit)), isval(lambda t: is_field(t, cs), bool(multi))):
                    r = t(at)
                    if r is not None: return r
                if at[0] == "<":
                    if N(at[1]) and sz(at[2]): return not grow and None
                    if sz(at[1]) and N(at[2]): return bool(grow)
                return None
            seen, fin = run(g0, dec)
            want = vt != "VERIFY_UNINITIALIZED" and old and not (sameinit and samever)
            c = f"{short(f)}:{vt},before={oldm},same init={sameinit},grow={grow},{'several ranks' if multi else 'one rank'}"
            R.ob("setup", c, fin == ({"fatal"} if want else {"exit"}), "a different initial value or verification is accepted" if want else "a valid size ends the simulation", f.where())
            if want: continue
            feas = feasible_edges(g0, dec)
            rs = lambda n: n.kind == "call" and last(n.d["q"]) == "resize" and is_field(n.d["obj"], arr)
            wr = lambda n: n.kind == "call" and last(n.d["q"]) in ("resize", "assign") and is_field(n.d["obj"], D + "written")
            tell = lambda n: n.kind == "call" and last(n.d["q"]) == "setSize" and n.d["obj"] is not None and is_field(n.d["obj"], cs)
            never(R, "setup", c + ":cleared", g0, lambda n: n.kind == "call" and n.d["obj"] is not None and (is_field(n.d["obj"], arr) or is_field(n.d["obj"], D + "written")) and last(n.d["q"]) in ("clear", "assign", "shrink_to_fit", "pop_back", "erase"), "contents are lost", edge=feas)
            if vt == "VERIFY_UNINITIALIZED":
                never(R, "setup", c + ":nothing", g0, lambda n: rs(n) or wr(n) or tell(n) or n.kind == "asg" and (is_field(n.d["lhs"], D + "verify") or is_field(n.d["lhs"], D + "init")), "a change set without size changes the data", edge=feas)
                continue
            if grow:
                ok = lambda n: rs(n) and N(n.d["args"][0]) and len(n.d["args"]) > 1 and I(n.d["args"][1])
                always(R, "setup", c + ":grown", g0, ok, "the array does not grow to the size asked for, filled with the initial value", edge=feas)
                never(R, "setup", c + ":grown only", g0, lambda n: rs(n) and not ok(n), "the array gets another size or other values", edge=feas)
                if vt == "FE_VERIFY": always(R, "setup", c + ":marks", g0, lambda n: wr(n) and N(n.d["args"][0]) and (len(n.d["args"]) < 2 or const(n.d["args"][1]) == 0), "the marks do not grow with the array", edge=feas)
                if multi: always(R, "setup", c + ":sent", g0, lambda n: tell(n) and N(n.d["args"][0]) and I(n.d["args"][1]) and V(n.d["args"][2]), "the other ranks do not get the size", edge=feas)
            else:
                never(R, "setup", c + ":not shrunk", g0, rs, "the array shrinks", edge=feas)
            for fld, p in (("init", I), ("verify", V)): 
                ev = lambda n: n.kind == "asg" and is_field(n.d["lhs"], D + fld) and p(n.d["rhs"]) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and is_field(n.d["obj"], D + fld)
                if not old: always(R, "setup", c + ":" + fld, g0, ev, "initial value or verification are not kept for later checks", edge=feas)
        held(R, "setup", short(f) + ":locked", g0, lambda n: n.kind == "asg" and n.d["lhs"][0] == "mem" and is_field(n.d["lhs"], D + "verify") or n.kind == "call" and last(n.d["q"]) == "resize", "SharedObjectData::mtx")
    for cls in ("SharedMap", "SharedSet"):
        for f in fns(R, f"{S}{cls}::Data::setVerify"):
            D = f"{cls}::Data::"
            V = P(f, 0)
            cur = lambda t: is_field(t, D + "verify")
            g = CFG(Pr, f, inline=lambda f2, e, c: "ChangeSet" not in f2.sq)
            R.cfg_used(g)
            for new, old, multi in itertools.product(("FE_VERIFY", "NO_VERIFY"), ("FE_VERIFY", "NO_VERIFY", "VERIFY_UNINITIALIZED"), (0, 1)):
                dec = leaf_oracle([modeis(V, M[new], M), modeis(cur, M[old], M), eqof(V, cur, new == old), isval(lambda t: is_field(t, D + "change_set"), bool(multi))])
                seen, fin = run(g, dec)
                want = old != "VERIFY_UNINITIALIZED" and old != new
                c = f"{short(f)}:{new},before={old},{'several ranks' if multi else 'one rank'}"
                R.ob("setup", c, fin == ({"fatal"} if want else {"exit"}), "a different verification is accepted" if want else "the same verification ends the simulation", f.where())
                if want: continue
                feas = feasible_edges(g, dec)
                if old != new: always(R, "setup", c + ":kept", g, asg_to(D + "verify", V), "the verification is not kept", edge=feas)
                if multi: always(R, "setup", c + ":sent", g, lambda n: n.kind == "call" and last(n.d["q"]) == "setVerify" and n.d["obj"] is not None and is_field(n.d["obj"], D + "change_set") and V(n.d["args"][0]), "the other ranks do not get the verification", edge=feas)


# ---------------------------------------------------------------- change sets
def changes(R):
    """A change set keeps every change, is sent with everything in it, and applies size or verification and then each change to the data of
    its name, without sending them on; there is one exactly when there are several ranks; clear() empties it."""
    Pr = R.prog
    for cls, (storef, wr, nargs) in KINDS.items():
        CS = f"{cls}::Data::ChangeSet::"
        base = f"{S}{CS}"
        chg = CS + "changes"
        for f in fns(R, base + "addChange"):
            g = CFG(Pr, f)
            K, V = P(f, 0), P(f, nargs - 1)
            def ev(n):
                if n.kind == "asg" and n.d["op"] == "=" and n.d["lhs"][0] == "idx" and is_field(n.d["lhs"][1], chg): return cls == "SharedMap" and K(n.d["lhs"][2]) and V(n.d["rhs"])
                if n.kind != "call" or n.d["obj"] is None: return False
                if last(n.d["q"]) == "operator=" and n.d["obj"][0] == "idx" and is_field(n.d["obj"][1], chg): return cls == "SharedMap" and K(n.d["obj"][2]) and V(n.d["args"][0])
                if not is_field(n.d["obj"], chg): return False
                ok = {"SharedArray": ("push_back", "emplace_back"), "SharedMap": ("insert_or_assign",), "SharedSet": ("insert", "emplace")}[cls]
                return last(n.d["q"]) in ok and anyarg(g, n.d["args"], K) and anyarg(g, n.d["args"], V)
            always(R, "changes", short(f), g, ev, "a change is not kept for the other ranks (the latest value for each place)")
        for f in fns(R, base + ("setSize" if cls == "SharedArray" else "setVerify")):
            g = CFG(Pr, f)
            for i, fld in enumerate(("size", "init", "verify") if cls == "SharedArray" else ("verify",)):
                always(R, "changes", f"{short(f)}:{fld}", g, lambda n: n.kind == "asg" and is_field(n.d["lhs"], CS + fld) and P(f, i)(n.d["rhs"]) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and is_field(n.d["obj"], CS + fld) and P(f, i)(n.d["args"][0]),
                       "it is not sent to the other ranks")
        for f in fns(R, base + "clear"):
            g = CFG(Pr, f)
            always(R, "changes", short(f), g, lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and is_field(n.d["obj"], chg) or asg_to(chg)(n) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and is_field(n.d["obj"], chg), "changes are sent again in the next round")
        for f in fns(R, base + "serialize_order"):
            g = CFG(Pr, f, inline=lambda f2, e, c: "SharedObject" in f2.sq and last(f2.sq) == "serialize_order")
            R.cfg_used(g)
            for fld in [CS + "changes", CS + "verify", "SharedObjectChangeSet::name"] + ([CS + "size", CS + "init"] if cls == "SharedArray" else []):
                ev = lambda n: n.kind == "call" and any(is_field(a, fld) for a in n.d["args"])
                always(R, "changes", f"{short(f)}:{last(fld)}", g, ev, "part of a change set is not sent")
        for f in fns(R, base + "applyChanges"):
            g = CFG(Pr, f, inline=ALL("getSharedObjectData", "update_write", "setSize", "setVerify", "write"))
            R.cfg_used(g)
            upd = call_to("update_write")
            isdata = lambda t: t is not None and has_call(expand(g.T, t), "getSharedObjectData")
            src = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "getSharedObjectData"]
            R.ob("changes", short(f) + ":data", bool(src) and all(any(has_field(expand(g.T, a), "SharedObjectChangeSet::name") for a in n.d["args"]) and P(f, 0)(n.d["obj"]) for n in src), "changes are applied to other data than that of their name", f.where())
            for_each(R, "changes", short(f) + ":each", g, lambda c: has_field(c, chg), upd, "a change is not applied")
            for n in g.nodes():
                if upd(n):
                    el = [expand(g.T, a) for a in n.d["args"]]
                    ok = all(has_field(a, chg) for a in el) and (nargs == 1 or len(el) == 2 and all(any(x[0] == "mem" and fmatch(x[2], w) or x[0] == "call" and last(x[1]) == w for x in subterms(a)) for a, w in zip(el, ("first", "second")))) and isdata(n.d["obj"])
                    R.ob("changes", short(f) + ":what", ok or nargs == 2 and structured(n.d["args"]), "something else than the change is applied", n.where())
                    never(R, "changes", short(f) + ":once", g, lambda m: upd(m) and (m is n or True) and m.d["args"] == n.d["args"], "a change is applied twice", frm=[n], avoid=lambda m: any(m is h for h, _, _, _ in loop_heads(g)))
            st = lambda n: n.kind == "call" and isdata(n.d["obj"]) and (cls == "SharedArray" and last(n.d["q"]) == "setSize" and [is_field(a, CS + w) for a, w in zip(n.d["args"], ("size", "init", "verify"))] == [True] * 3
                                                                      or cls != "SharedArray" and last(n.d["q"]) == "setVerify" and is_field(n.d["args"][0], CS + "verify"))
            always(R, "changes", short(f) + ":setup", g, st, "size or verification of another rank is not applied")
            never(R, "changes", short(f) + ":order", g, upd, "changes are applied before size and verification are", avoid=st)
            never(R, "changes", short(f) + ":echo", g, lambda n: n.kind == "call" and (last(n.d["q"]) == "write" and "Data" in n.d["q"] or last(n.d["q"]) == "addChange"), "changes of another rank are sent back")
        for f in [f for f in fns(R, f"{S}{cls}::Data::Data") if len(f.params) == 1 and "basic_string" in str(f.params[0])] or R.need([], f"{cls}::Data(name)"):
            for multi in (True, False):
                dec = lambda at, ctx=None: (2 if multi else 1) > 1 if at[0] == "<" and const(at[1]) == 1 and nranks(at[2]) else ((2 if multi else 1) < const(at[2])) if at[0] == "<" and nranks(at[1]) and const(at[2]) is not None else (const(at[1]) == (2 if multi else 1) or const(at[2]) == (2 if multi else 1)) if at[0] == "==" and any(nranks(x) for x in at[1:]) and any(const(x) is not None for x in at[1:]) else None
                g = CFG(Pr, f, inline=ALL("getNumRanks"), assume=dec)
                mk = asg_to(f"{cls}::Data::change_set", lambda r: r[0] == "new" or any(x[0] == "new" for x in subterms(r)))
                (always if multi else never)(R, "changes", f"{short(f)}:{'several ranks' if multi else 'one rank'}", g, mk, "there is no change set although there are other ranks" if multi else "changes are kept although there are no other ranks")
        for f in fns(R, f"{S}{cls}::Data::getChangeSet"):
            for r in root_rets(CFG(Pr, f)): R.ob("changes", short(f), is_field(r.d["val"], f"{cls}::Data::change_set"), "another change set is sent", r.where())


def nranks(t): return has_call(t, "getNumRanks") or has_field(t, "num_ranks")


def structured(args): return all(a[0] == "var" or a[0] == "bind" for a in args)


# ---------------------------------------------------------------- the manager
def manager(R):
    """Each round every rank sends all its change sets, applies all those of the others and only those, and forgets its own; objects are fully
    published when all instances on all ranks have published; finalising locks and publishes all. Looking up a name creates it once, is fatal
    once locked and for another type."""
    Pr = R.prog
    f = fn(R, S + "SharedObjectDataManager::updateState")
    SD, FP = "SharedObjectDataManager::shared_data", "SharedObjectData::fully_published"
    stop = ALL("applyChanges", "getChangeSet", "clear", "resetChangeSet", "all_gather", "getPublishCount", "getShareCount", "lock", "getNumRanks", "getRank", "getSimulation")
    own = lambda t: has_call(t, "getRank") or has_field(t, "my_rank")
    each_obj = lambda c: has_field(c, SD)
    def asm(multi, final, me=None):
        def a(at, ctx=None):
            if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 0: return final
            if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]): return final == bool(next((const(x) for x in at[1:] if const(x) is not None), 1))
            if at[0] == "<" and const(at[1]) is not None and nranks(at[2]): return const(at[1]) < (4 if multi else 1)
            if at[0] == "<" and const(at[2]) is not None and nranks(at[1]): return (4 if multi else 1) < const(at[2])
            if at[0] == "==" and any(nranks(x) for x in at[1:]) and any(const(x) is not None for x in at[1:]): return next(const(x) for x in at[1:] if const(x) is not None) == (4 if multi else 1)
            if me is not None and at[0] == "==" and any(own(x) for x in at[1:]): return me
            return None
        return a
    cleared = lambda n: n.kind == "call" and (last(n.d["q"]) == "clear" and n.d["obj"] is not None and (has_call(n.d["obj"], "getChangeSet")) or last(n.d["q"]) == "resetChangeSet" and "hared" in n.d["q"])
    app = call_to("applyChanges")
    for final in (True, False):
        fs = f"finalize={final}"
        setf = lambda n: n.kind == "asg" and is_field(n.d["lhs"], FP)
        lk = lambda n: n.kind == "call" and last(n.d["q"]) == "lock" and "SharedObjectData" in n.d["q"]
        mlk = asg_to("SharedObjectDataManager::locked", lambda r: const(r) == 1)
        for multi in (True, False):
            g = CFG(Pr, f, inline=stop, assume=asm(multi, final))
            c = f"{fs},{'several ranks' if multi else 'one rank'}"
            if final:
                for_each(R, "manager", c + ":lock", g, each_obj, lk, "an object is not locked after the init phase")
                for_each(R, "manager", c + ":published", g, each_obj, lambda n: setf(n) and const(n.d["rhs"]) == 1, "an object is not published after the init phase")
                always(R, "manager", c + ":locked", g, mlk, "new shared objects can be made after the init phase")
                last_pub = [n for n in g.nodes() if setf(n) and const(n.d["rhs"]) == 1 and any(n.nid in L and any(lk(m) and m.nid in L for m in g.nodes()) for _, _, _, L in loop_heads(g))]
                never(R, "manager", c + ":stays", g, lambda n: setf(n) and const(n.d["rhs"]) != 1, "an object becomes unpublished after the init phase", frm=last_pub or None) if last_pub else None
            else:
                never(R, "manager", c + ":unlocked", g, lambda n: lk(n) or mlk(n), "objects are locked before the init phase ends")
            if not multi:
                never(R, "manager", c + ":no exchange", g, lambda n: app(n) or n.kind == "call" and last(n.d["q"]) == "all_gather", "one rank exchanges data with itself")
                if not final:
                    for eq in (True, False):
                        g2 = CFG(Pr, f, inline=stop, assume=allof(asm(multi, final), lambda at, ctx=None: eq if counts(at) else None))
                        val = lambda t: eq if iscounts(t) else (None if const(t) is None else bool(const(t)))
                        for_each(R, "manager", f"{c}:flag:{eq}", g2, each_obj, lambda n: setf(n) and val(n.d["rhs"]) == eq, "an object counts as published although not all instances have, or not although they have")
                        never(R, "manager", f"{c}:flag only:{eq}", g2, lambda n: setf(n) and val(n.d["rhs"]) != eq, "an object counts as published although not all instances have, or not although they have")
                continue
            # several ranks
            ag = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "all_gather"]
            for n in g.nodes():
                if app(n):
                    R.ob("manager", c + ":apply:this", n.d["args"] and n.d["args"][0] == ("this",), "changes are applied elsewhere", n.where())
            gath = None
            for a in ag:
                src, dst = a.d["args"][0], a.d["args"][1]
                fill = lambda n: n.kind == "call" and n.d["obj"] == src and last(n.d["q"]) in ("push_back", "emplace_back")
                if any(fill(n) and has_call(expand(g.T, n.d["args"][0]), "getChangeSet") for n in g.nodes()):
                    gath = a
                    for_each(R, "manager", c + ":sent", g, each_obj, lambda n: fill(n) and has_call(expand(g.T, n.d["args"][0]), "getChangeSet"), "an object's changes are not sent")
                    never(R, "manager", c + ":cleared early", g, cleared, "changes are forgotten before they are sent", avoid=lambda n: n is a)
                    always(R, "manager", c + ":gathered", g, lambda n: n is a, "change sets are not exchanged")
                    always(R, "manager", c + ":gathered twice", g, lambda n: n is a, "")
                    # application
                    gm = CFG(Pr, f, inline=stop, assume=asm(multi, final, me=True))
                    never(R, "manager", c + ":own", gm, app, "a rank applies its own changes again")
                    go = CFG(Pr, f, inline=stop, assume=asm(multi, final, me=False))
                    dstn = dst[3] if dst[0] == "var" else None
                    named = lambda t: any(x[0] == "var" and x[3] == dstn for x in subterms(t)) or any(x[0] == "var" and x[3] == dstn for x in subterms(expv(g.T, t, (dstn,))))
                    for_each(R, "manager", c + ":applied", go, named, app, "a change set of another rank is not applied")
                    nested_all(R, c, go, named, app)
                    for n in go.nodes():
                        if app(n): R.ob("manager", c + ":apply:which", named(n.d["obj"]), "something else than the received change sets is applied", n.where())
            R.ob("manager", c + ":exchange", gath is not None, "change sets are not exchanged", f.where())
            for_each(R, "manager", c + ":cleared", g, each_obj, cleared, "a rank sends its changes again in the next round")
            # published flags
            pubs = [a for a in ag if a is not gath]
            R.ob("manager", c + ":flags exchanged", len(pubs) >= 1, "the ranks do not tell each other what is published", f.where())
            for a in pubs:
                src, dst = a.d["args"][0], a.d["args"][1]
                fill = lambda n: n.kind == "call" and n.d["obj"] == src and last(n.d["q"]) in ("push_back", "emplace_back")
                for_each(R, "manager", c + ":flags sent", g, each_obj, lambda n: fill(n) and any(iscounts(x) for y in n.d["args"] for x in subterms(expand(g.T, y))) and any(has_field(expand(g.T, y), "SharedObjectData::name") or has_call(expand(g.T, y), "getName") or "first" in show(y) for y in n.d["args"]),
                         "whether all instances of an object on this rank have published is not sent")
                merge(R, c, f, g, stop, asm(multi, final), dst, setf)
        held(R, "manager", fs + ":locked", CFG(Pr, f, inline=stop, assume=asm(True, final)), lambda n: app(n) or setf(n), "SharedObjectDataManager::update_mtx")
    for f in fns(R, S + "SharedObjectDataManager::getSharedObjectData"):
        nm = short(f)
        LK = lambda v: truth(lambda t: is_field(t, "SharedObjectDataManager::locked"), v)
        g = CFG(Pr, f, assume=LK(True), inline=ALL())
        fatal_on_all(R, "manager", nm + ":locked", g, "a shared object is made or looked up after the init phase")
        isfind = lambda t, T: has_call(expand(T, t), "find") and has_field(expand(T, t), SD) or t[0] == "call" and last(t[1]) in ("find", "count", "contains") and is_field(t[2], SD)
        for there in (True, False):
            for right in ((True, False) if there else (None,)):
                g0 = CFG(Pr, f)
                def a(at, ctx=None):
                    r = LK(False)(at)
                    if r is not None: return r
                    if at[0] == "==" and any(isfind(x, g0.T) or has_field(x, SD) for x in at[1:]) and any(x[0] == "call" and last(x[1]) == "end" or has_call(expand(g0.T, x), "end") for x in at[1:]): return not there
                    if at[0] in ("nz", "pos"):
                        if at[1][0] == "call" and last(at[1][1]) in ("count", "contains"): return there
                        if right is not None and any(x[0] == "cast" or x[0] == "dyncast" or x[0] == "dyn" for x in subterms(expand(g0.T, at[1]))): return right
                    if right is not None and at[0] == "==" and any(const(x) == 0 for x in at[1:]): return not right
                    return None
                g = CFG(Pr, f, assume=a, inline=lambda f2, e, c2: last(f2.sq) not in ("Data",))
                c = f"{nm}:{'new name' if not there else 'same type' if right else 'other type'}"
                mk = lambda n: n.kind == "new" and "Data" in str(n.d.get("type", ""))
                st = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and is_field(n.d["lhs"][1], SD) or n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], SD) and last(n.d["q"]) in ("insert", "emplace", "insert_or_assign", "try_emplace")
                if there and not right:
                    fatal_on_all(R, "manager", c, g, "two types under one name are accepted")
                    continue
                never(R, "manager", c + ":accepted", g, is_fatal, "looking up a shared object ends the simulation")
                if not there:
                    once(R, "manager", c + ":kept", g, st, "data made for a new name is not found by the next instance", "it is stored twice")
                    for n in g.nodes():
                        if st(n):
                            args = (n.d["lhs"][2], n.d["rhs"]) if n.kind == "asg" else tuple(n.d["args"])
                            R.ob("manager", c + ":name", any(P(f, 0)(x) for y in args for x in subterms(expand(g.T, y))), "data is stored under another name", n.where())
                else: never(R, "manager", c + ":replaced", g, lambda n: st(n) or mk(n), "data that exists is replaced")
        held(R, "manager", nm + ":mutex", CFG(Pr, f, assume=LK(False)), lambda n: n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], SD), "SharedObjectDataManager::mtx")


def iscounts(t):
    return t[0] == "bin" and t[1] == "==" and {cnt(t[2]), cnt(t[3])} == {"s", "p"}


def cnt(t): return "p" if t[0] == "call" and last(t[1]) == "getPublishCount" or is_field(t, "SharedObjectData::publish_count") else "s" if t[0] == "call" and last(t[1]) == "getShareCount" or is_field(t, "SharedObjectData::share_count") else None


def counts(at): return at[0] == "==" and {cnt(at[1]), cnt(at[2])} == {"s", "p"}


def nested_all(R, c, g, named, app):
    """the loops around the application run over all ranks and all their change sets: from index 0 in steps of 1 up to the size"""
    for n, body, leave, L in loop_heads(g):
        if not any(m.nid in L and app(m) for m in g.nodes()): continue
        for _, cond, pol in n.succ:
            if cond is None or not is_term(cond): continue
            if cond[0] == "more" or has_call(cond, "end"): continue
            at, p = norm_cond(cond, True)
            if at[0] != "<" or at[1][0] != "var": continue
            v = at[1]
            d = g.T.definition(v)
            st = [m for m in g.nodes() if m.nid in L and m.kind == "asg" and m.d["lhs"] == v]
            ok = d is not None and const(d) == 0 and len(st) == 1 and (st[0].d["op"] == "++" or st[0].d["op"] == "+=" and const(st[0].d["rhs"]) == 1) and at[2][0] == "call" and last(at[2][1]) == "size" and named(at[2])
            R.ob("manager", c + ":all:" + n.where(), ok, "not all change sets of all ranks are gone through", n.where())
            break


def merge(R, c, f, g, stop, asm, dst, setf):
    """the flag of each name is the conjunction of those of all ranks, and is what the object gets"""
    Pr = R.prog
    dstn = dst[3] if dst[0] == "var" else None
    named = lambda t, T: any(x[0] == "var" and x[3] == dstn for x in subterms(expv(T, t, (dstn,))))
    H = [g.T]
    # the intermediate map
    maps = {}
    for n in g.nodes():
        if n.kind == "call" and n.d["obj"] is not None and n.d["obj"][0] == "var" and last(n.d["q"]) in ("find", "operator[]", "emplace", "try_emplace", "insert", "count", "contains", "at") and any(named(a, H[-1]) for a in n.d["args"]): maps[n.d["obj"]] = n
    R.ob("manager", c + ":merge", len(maps) >= 1, "the ranks' flags are not merged by name", f.where())
    for mp in maps:
        isv = lambda x: x is not None and x[0] == "var" and x[2:] == mp[2:]
        incoming = lambda t: not entry(t) and (t[0] == "mem" and fmatch(t[2], "second") and named(t[1], H[-1]) or t[0] == "var" and named(t, H[-1]))
        def entry(t):
            if t[0] == "idx" and isv(t[1]): return True
            if t[0] == "call" and last(t[1]) in ("at", "operator[]") and isv(t[2]): return True
            if t[0] == "mem" and fmatch(t[2], "second"):
                e = expv(H[-1], t[1], (mp[3],))
                while e[0] == "mem" and fmatch(e[2], "first"): e = e[1]
                return e[0] == "call" and isv(e[2]) or e[0] == "elem" and isv(e[1])
            return False
        upd = lambda n: n.kind == "asg" and entry(n.d["lhs"])
        ins = lambda n: n.kind == "call" and isv(n.d["obj"]) and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign")
        for there in (True, False):
            for old in (0, 1):
                for new in (0, 1):
                    if not there and old: continue
                    def ev(t):
                        if entry(t): return old
                        if incoming(t): return new
                        k = const(t)
                        if k is not None: return k
                        if t[0] == "bin" and t[1] in ("&", "&&"): 
                            a, b = ev(t[2]), ev(t[3]); return None if a is None or b is None else int(bool(a and b))
                        if t[0] == "bin" and t[1] in ("|", "||"):
                            a, b = ev(t[2]), ev(t[3]); return None if a is None or b is None else int(bool(a or b))
                        if t[0] == "bin" and t[1] == "==":
                            a, b = ev(t[2]), ev(t[3]); return None if a is None or b is None else int(a == b)
                        if t[0] in ("cond", "?:") and len(t) >= 4:
                            a = ev(t[1]); return None if a is None else ev(t[2] if a else t[3])
                        if t[0] == "cast": return ev(t[-1])
                        if t[0] == "un" and t[1] == "!":
                            a = ev(t[2]); return None if a is None else int(not a)
                        return None
                    def dec(at, ctx=None):
                        r = asm(at)
                        if r is not None: return r
                        if at[0] == "==" and any(x[0] == "call" and last(x[1]) == "end" and isv(x[2]) or any(y[0] == "call" and last(y[1]) == "end" and isv(y[2]) for y in subterms(expv(H[-1], x, (mp[3],)))) for x in at[1:]): return not there
                        if at[0] in ("nz", "pos"):
                            if at[1][0] == "call" and last(at[1][1]) in ("count", "contains") and isv(at[1][2]): return there
                            v = ev(at[1])
                            if v is not None: return bool(v)
                            e = expv(H[-1], at[1], (mp[3],))
                            if e[0] == "mem" and fmatch(e[2], "second") and e[1][0] == "call" and last(e[1][1]) in ("insert", "emplace", "try_emplace") and isv(e[1][2]): return not there
                        return None
                    g2 = CFG(Pr, f, inline=stop, assume=dec)
                    want = new if not there else old & new
                    good = lambda n: (upd(n) and ((n.d["op"] == "=" and ev(n.d["rhs"]) == want) or (n.d["op"] == "&=" and ev(n.d["rhs"]) is not None and old & ev(n.d["rhs"]) == want and there))) or (ins(n) and not there and any(incoming(x) for a in n.d["args"] for x in subterms(expand(H[-1], a))))
                    bad = lambda n: (upd(n) and not good(n))
                    cc = f"{c}:merge:{'known' if there else 'new'} name,{old},{new}"
                    never(R, "manager", cc, g2, bad, "the flag of an object is not the conjunction of those of all ranks")
                    heads = [(h, body, L) for h, body, leave, L in loop_heads(g2) if any((upd(m) or ins(m)) and m.nid in L for m in g2.nodes()) and any(is_term(x) and named(x, H[-1]) for _, x, _ in h.succ if x is not None)]
                    heads = [(h, body) for h, body, L in heads if not any(h2 is not h and h2.nid in L for h2, _, _ in heads)]
                    if want != old or not there:
                        ok = any(g2.search(body, lambda m: m is h, avoid=good) is None for h, body in heads) if heads else False
                        R.ob("manager", cc + ":taken", ok, "the flag a rank sent is not taken into account", f.where())
        asgs = [n for n in g.nodes() if setf(n) and const(n.d["rhs"]) is None]
        R.ob("manager", c + ":merged", bool(asgs) and all(any(isv(x) for x in subterms(expv(H[-1], n.d["rhs"], (mp[3],)))) for n in asgs), "objects do not get the merged flag", f.where())
        for_each(R, "manager", c + ":merged:each", g, lambda x: any(isv(y) for y in subterms(x)) or has_field(x, "SharedObjectDataManager::shared_data"), lambda n: setf(n) and const(n.d["rhs"]) is None, "an object does not get the merged flag")


# ---------------------------------------------------------------- reading
def reads(R):
    """Read functions return what the container of the standard library returns for the same arguments."""
    Pr = R.prog
    table = {
        "SharedArray": {"size": "size", "empty": "empty", "begin": "begin", "end": "end", "rbegin": "rbegin", "rend": "rend", "operator[]": "[]", "mutex_read": "[]"},
        "SharedMap": {"size": "size", "empty": "empty", "count": "count", "find": "find", "begin": "begin", "end": "end", "rbegin": "rbegin", "rend": "rend", "lower_bound": "lower_bound", "upper_bound": "upper_bound", "operator[]": "at", "mutex_read": "at"},
        "SharedSet": {"size": "size", "empty": "empty", "count": "count", "find": "find", "mutex_find": "find", "begin": "begin", "end": "end", "rbegin": "rbegin", "rend": "rend"}}
    for cls, (storef, wr, nargs) in KINDS.items():
        cont = f"{cls}::Data::{storef}"
        for m, w in table[cls].items():
            for f in fns(R, f"{S}{cls}::{m}"):
                g = CFG(Pr, f, inline=lambda f2, e, c: "Shared" in f2.sq)
                R.cfg_used(g)
                rets = root_rets(g)
                R.ob("reads", short(f) + ":returns", bool(rets), "nothing is returned", f.where())
                for r in rets:
                    t = flat(g, r.d["val"])
                    if w == "[]": ok = t[0] == "idx" and is_field(t[1], cont) and P(f, 0)(t[2]) or t[0] == "call" and last(t[1]) in ("at", "operator[]") and is_field(t[2], cont) and P(f, 0)(t[3][0])
                    else:
                        ok = t[0] == "call" and last(t[1]) in (w, "c" + w) and is_field(t[2], cont) and (not f.params or P(f, 0)(t[3][0]))
                        if t[0] == "idx" and w == "at": ok = is_field(t[1], cont) and P(f, 0)(t[2]) and not any(n.kind == "call" and last(n.d["q"]) == "operator[]" and n.d["obj"] is not None and is_field(n.d["obj"], cont) for n in g.nodes())
                        if w == "at" and not ok: ok = t[0] == "mem" and fmatch(t[2], "second") and (lambda e: e[0] == "call" and last(e[1]) == "find" and is_field(e[2], cont) and P(f, 0)(e[3][0]))(flat(g, t[1]))
                        if w == "empty" and not ok: ok = t[0] == "bin" and t[1] == "==" and any(has_call(x, "size") for x in t[2:]) and any(const(x) == 0 for x in t[2:])
                    R.ob("reads", short(f), ok, f"{m}() does not return what {w} of the container returns", r.where())
                if m.startswith("mutex_"): held(R, "reads", short(f) + ":locked", g, lambda n: n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], cont), "SharedObjectData::mtx")


def expv(T, t, stop, depth=6):
    """expand, except for the locals of the given names"""
    if not isinstance(t, tuple) or not t or depth <= 0: return t
    if t[0] == "var":
        d = None if t[3] in stop else T.definition(t)
        return t if d is None or d == t else expv(T, d, stop, depth - 1)
    return tuple(expv(T, x, stop, depth) if isinstance(x, tuple) else x for x in t)


def flat(g, t):
    """the value behind calls the graph has inlined, copies and conversions"""
    for _ in range(8):
        e = expand(g.T, t, 6)
        if e[0] == "call":
            rs = [n for n in g.nodes() if n.kind == "ret" and n.ctx is not g.entry.ctx and n.d["val"] is not None and n.ctx.fn.sq == e[1]]
            if rs and len({n.d["val"] for n in rs}) == 1: e = rs[0].d["val"]
        while e[0] == "cast" or e[0] == "ctor" and len(e) > 2 and e[2] and len(e[2]) == 1 or e[0] == "call" and last(e[1]) in ("move", "forward", "operator bool"):
            e = e[-1] if e[0] == "cast" else e[2][0] if e[0] == "ctor" else e[2] if last(e[1]) == "operator bool" else e[3][0]
        if e == t: return e
        t = e
    return t


def phases(R):
    """Every round of the init phase ends with an exchange, after all components' init() of the round; before any setup() the objects are
    finalised, between barriers."""
    Pr = R.prog
    up = lambda v: (lambda n: n.kind == "call" and last(n.d["q"]) == "updateState" and "SharedObjectDataManager" in n.d["q"] and (v is None or const(n.d["args"][0]) == v))
    thr0 = lambda at, ctx=None: True if at[0] == "==" and any(has_field(x, "thread") for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else (False if at[0] in ("nz", "pos") and is_field(at[1], "RankInfo::thread") else None)
    stop = ALL("updateState", "init", "setup", "wait", "exchangeLinkUntimedData")
    bar = call_to("wait")
    for q, v, ph in (("initialize", 0, "init"), ("setup", 1, "setup")):
        f = fn(R, "Simulation::" + q)
        g = CFG(Pr, f, inline=lambda f2, e, c: "Simulation" in f2.sq, assume=thr0)
        cl = lambda n: n.kind == "call" and last(n.d["q"]) == ph and not n.d["q"].startswith("SST::Simulation")
        if v:
            always(R, "phases", q, g, up(1), "shared objects are not finalised before setup")
            never(R, "phases", q + ":before", g, cl, "setup() runs before shared objects are finalised", avoid=up(1))
            never(R, "phases", q + ":barrier", g, cl, "setup() of one thread's components may run while another thread finalises shared objects", frm=[n for n in g.nodes() if up(1)(n)], avoid=bar)
        else:
            never(R, "phases", q + ":not final", g, up(1), "shared objects are frozen during the init phase")
            calls = [n for n in g.nodes() if cl(n)]
            R.ob("phases", q + ":init", bool(calls), "components' init() is not called", f.where())
            ends = lambda n: n is g.exit or n.kind == "asg" and is_field(n.d["lhs"], "untimed_phase")
            never(R, "phases", q + ":exchange", g, lambda n: n is g.exit, "a round of init ends without an exchange of shared data", frm=calls, avoid=up(0))
            never(R, "phases", q + ":barrier", g, up(0), "data is exchanged while components of other threads may still write", frm=calls, avoid=bar)
            first = [n for n in g.nodes() if up(0)(n)]
            never(R, "phases", q + ":after", g, cl, "components may write while data is exchanged", frm=first, avoid=bar)
    nt = lambda at, ctx=None: (not thr0(at)) if thr0(at) is not None else None
    for q in ("initialize", "setup"):
        g = CFG(Pr, fn(R, "Simulation::" + q), inline=lambda f2, e, c: "Simulation" in f2.sq, assume=nt)
        never(R, "phases", q + ":one thread", g, up(None), "several threads of a rank exchange shared data")


CLAUSES = [instance, store, setup_, changes, manager, reads, phases]
