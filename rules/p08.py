"""P08: all ranks enter the same collective operations, once per rank, with matching operator and datatype."""
from sa.q import *
from sa.rdv import *

PROP = dict(
    title="Ranks enter the same collectives, once each, with the right reduction",
    statement="Every rank performs the same sequence of collective operations (barriers, broadcasts, reductions, gathers): which rank runs the "
              "code never decides whether a collective is entered, and inside a rank exactly one thread enters it. Each collective's datatype "
              "matches the variables it transfers, and global decisions use the right reduction: minimum for next-sync time and latencies, "
              "maximum for signals, flags, end time and event ids, a sum for counts.",
    over=["schedules", "inputs"], text="all rank counts, rank numbers, thread counts and models",
    why="A rank that skips a collective hangs only multi-rank runs on particular paths, and a wrong reduction shows only when ranks disagree; the tests "
        "run one or two ranks with nearly symmetric state.",
    files=["src/sst/core/sync/syncManager.cc", "src/sst/core/sync/rankSyncSerialSkip.cc", "src/sst/core/sync/rankSyncParallelSkip.cc", "src/sst/core/exit.cc",
           "src/sst/core/checkpointAction.cc", "src/sst/core/realtime.cc", "src/sst/core/shared/sharedObject.cc", "src/sst/core/main.cc", "src/sst/core/objectComms.h"],
    mech=[("MPI_Allreduce/MPI_Bcast/MPI_Barrier call sites", "files above"), ("Comms::broadcast/all_gather", "src/sst/core/objectComms.h")],
    technique="rendezvous-language equality of rank-dependent branches, guard analysis up the call graph, operator and datatype agreement at every collective call site")

TUS = ["main.cc", "simulation.cc", "sync/*.cc", "checkpointAction.cc", "realtime.cc", "exit.cc", "shared/sharedObject.cc", "util/perfReporter.cc",
       "util/basicPerf.cc", "memuse.cc", "iouse.cc", "heartbeat.cc", "sst_mpi.cc"]
ASSUMPTIONS = ["conditions that do not mention the executing rank's own index evaluate alike on all ranks (configuration, agreed flags and counts)",
               "the interactive console is outside this check", "Output::fatal ends all ranks (MPI_Abort)"]
SKIP = ("SST::IMPL::Interactive", "SST::Output", "SST::WatchPoint", "SST::InteractiveConsole", "SST::InteractiveAction")
COLL = re.compile(r"(^|::)(SST_)?MPI_(Allreduce|Barrier|Bcast|Allgatherv?|Reduce|Gatherv?|Alltoall|Scatter)$")
SIZE = re.compile(r"num|world|size|count|total", re.I)


def isc(q): return bool(COLL.search(q))


def skipped(f): return f.sq.startswith(SKIP)


def relv(P):
    if not hasattr(P, "_crel"): P._crel = Relevance(P, lambda n, f: n[0] == "call" and isc(n[2]), depth=4, skip=skipped)
    return P._crel


def own(which, names):
    def f(t):
        if t[0] == "mem" and fmatch(t[2], "RankInfo::" + which):
            b = t[1]
            nm = field(b) or (b[1] if b[0] in ("param", "glob", "call") else b[3] if b[0] == "var" else "")
            return not SIZE.search(last(nm or ""))
        return t[0] in ("param", "var") and (t[1] if t[0] == "param" else t[3]) in names
    return f


own_rank = own("rank", ("my_rank_num", "this_rank"))
own_thread = own("thread", ("thread", "tid", "thread_id"))


def derived_fields(P, isown):
    """boolean fields computed from the own index"""
    key = "_df_" + ("r" if isown is own_rank else "t")
    if not hasattr(P, key):
        out = {}
        for f in P.funcs.values():
            if not f.raw or "RankInfo" not in f.raw: continue
            T, c = Terms(P), None
            for n in func_nodes(f):
                if n[0] == "asg" and n[3][0] == "mem" and n[2] == "=":
                    c = c or T.root(f)
                    r = T.term(n[4], c)
                    if any(isown(x) for x in subterms(r)):
                        q = field(T.term(n[3], c))
                        # only flags (conditions), not sums or copies
                        if q and r[0] in ("bin", "un") and r[1] in ("&&", "||", "==", "!=", "!"): out.setdefault(q, []).append(r)
        setattr(P, key, out)
    return getattr(P, key)


def mpi_rank_var(cfg):
    """locals written by MPI_Comm_rank"""
    out = set()
    for n in cfg.nodes():
        if n.kind == "call" and last(n.d["q"]) == "MPI_Comm_rank":
            t = n.d["args"][1]
            while t[0] in ("addr", "un"): t = t[1] if t[0] == "addr" else t[2]
            out.add(t)
    return out


LOCAL_CALLS = name_pred(["getLocalMinimumNextActivityTime", "getNextActivityTime", "getTimeVortexMaxDepth", "getTimeVortexCurrentDepth", "getSyncQueueDataSize", "getRefCount",
                         "getTimeVortexActivities", "hash_value", "sst_get_cpu_time"])


def local_values(cfg):
    """objects that hold a rank's contribution to a reduction (before it is agreed)"""
    out = set()
    for n in cfg.nodes():
        if n.kind == "call" and last(n.d["q"]).endswith("MPI_Allreduce"):
            a, b = addr_of(n.d["args"][0]), addr_of(n.d["args"][1])
            if a == b: continue
            out.add(a)
            for src in (cfg.T.definition(a) if a[0] == "var" else None,):
                if src is not None: out |= {x for x in subterms(src) if x[0] == "mem" and x[1][0] in ("this", "mem", "deref", "glob", "call") and
                                            not any(fmatch(x[2], k) for k in ("Simulation::my_rank",))}
    # what a rank also reads back agreed values into
    for n in cfg.nodes():
        if n.kind == "asg": 
            if n.d["lhs"] in out: out.discard(n.d["lhs"])
    return out


def collsym(P):
    rel = relv(P)

    def sym(n):
        if n.kind != "call" or n.d.get("inlined"): return None
        if isc(n.d["q"]):
            dts = [mpi_name(a) for a in n.d["args"] if mpi_name(a) and "op_" not in mpi_name(a) and "comm" not in mpi_name(a)]
            return (last(n.d["q"]) + " " + " ".join(dts)).replace("SST_", "").replace("ompi_mpi_", "").strip()
        i = n.d.get("id")
        ids = {i} | (P.all_overriders(i) if "v" in n.d["flags"] else set())
        if any(x in P.funcs and rel.reach(P.funcs[x]) for x in ids): return "call " + n.d["q"]
        return None
    return sym


def direct_rank(P, f):
    rel = relv(P)
    return any(n[0] == "call" and isc(n[2]) for n in func_nodes(f))


def policy(P, f):
    rel = relv(P)
    cl = f.sq.rsplit("::", 1)[0] if "::" in f.sq else None

    def pol(fn, e, ctx):
        if isc(fn.sq) or skipped(fn) or not rel.reach(fn): return False
        if e[0] == "call" and "v" in e[7]: return False
        return fn.file == f.file and (fn.sq.rsplit("::", 1)[0] == cl or "::" not in fn.sq)
    return pol


def divergent(P, f, assume=None):
    cfg = CFG(P, f, inline=policy(P, f), exact=True, assume=assume)
    A = Align(cfg, collsym(P))
    mv = mpi_rank_var(cfg) | local_values(cfg)
    df = derived_fields(P, own_rank)
    out = []
    for n, c, w in A.branches():
        if not is_term(c): continue

        def dep(x, d=0):
            thr = {z for y in subterms(x) if y[0] == "mem" and fmatch(y[2], "RankInfo::thread") for z in subterms(y)}
            for y in subterms(x):
                if own_rank(y): return True
                if y in thr: continue
                if y in mv: return True
                if y[0] == "call" and LOCAL_CALLS(y[1]): return True
                if y[0] == "mem" and y[2] in df: return True
                if y[0] == "var" and d < 3:
                    g = cfg.T.definition(y)
                    if g is not None and dep(g, d + 1): return True
            return False
        if dep(c): out.append((n, c, w, A))
    return out, cfg


def aligned(R):
    """For every function from which a collective is reachable: at each branch whose outcomes have different sequences of
    collectives, the condition does not depend on the executing rank's own number (directly, through a local, or through a
    flag computed from it), nor on a value only this rank knows (its contribution to a reduction, its queue depth).  Conditions tested just before are held fixed when they settle the question."""
    P = R.prog
    rel = relv(P)
    fs = [f for f in P.funcs.values() if not skipped(f) and not isc(f.sq) and rel.reach(f)]
    R.need(fs, "a function that performs a collective")
    for f in sorted(fs, key=lambda f: f.q):
        bad, cfg = divergent(P, f)
        R.cfg_used(cfg)
        live = []
        for n, c, w, A in bad:
            if is_action_dispatch(w): continue
            # conditions tested on the way to this branch
            pre, todo, seen = set(), [n], set()
            while todo and len(seen) < 12:
                x = todo.pop()
                for p in A.pred.get(x.nid, ()):
                    if p.nid in seen: continue
                    seen.add(p.nid)
                    if p.kind == "br":
                        if is_term(p.d) and p.d[0] not in ("more", "switch", "catch", "try"): pre.add((repr_atom(p.d), p.d))
                    elif p.kind in ("call", "asg", "init"): pass
                    todo.append(p)
            ok = False
            for s, d in sorted(pre, key=lambda x: x[0]):
                if any(own_rank(y) for y in subterms(d)): continue
                res = []
                for v in (True, False):
                    b2, _ = divergent(P, f, lambda at, ctx=None, s=s, v=v: v if repr_at(at) == s else None)
                    res.append(any(x[0].line == n.line and x[0].fn is n.fn for x in b2))
                if not any(res): ok = True; break
            if not ok: live.append((n, c, w))
        R.ob("aligned", f.sq + "/%d" % len(f.params), not live,
             f"{f.q}: ranks that take different sides of `{show(live[0][1])}` enter different collectives (differs after {', '.join(map(str, live[0][2]))})" if live else "",
             live[0][0].where() if live else f.where())


def is_action_dispatch(w):
    """calls that reach a collective only because a virtual call may dispatch to another action kind"""
    return len(w) == 1 and w[0] in ("call SST::RealTimeIntervalAction::begin", "call SST::RealTimeAction::begin")


def repr_at(at): return at[0] + " " + " ".join(show(x) for x in at[1:] if isinstance(x, tuple))
def repr_atom(t): return repr_at(norm_cond(t, True)[0])


def direct_ids(f): return {n[3] for n in func_nodes(f) if n[0] in ("call", "ctor")}


def one_thread(R):
    """A collective in code that all threads of a rank run is entered only by thread 0: every path to the call site crosses a
    test of the own thread index (or of a flag computed from it), in the function itself or at every call site above it, up to
    the single-threaded main program."""
    P = R.prog
    df = derived_fields(P, own_thread)
    cs = {}

    def zero(at, pol, n):
        if at[0] in ("nz", "pos") and not pol and (own_thread(at[1])): return True
        if at[0] == "==" and pol and any(own_thread(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return True
        if at[0] in ("nz", "pos") and pol and field(at[1]) in df: return True
        if at[0] in ("nz", "pos") and at[1][0] == "var":
            return False
        # single-threaded runs
        if at[0] == "==" and pol and any(const(x) == 1 for x in at[1:]) and any(x[0] == "mem" and fmatch(x[2], "RankInfo::thread") for x in at[1:]): return True
        return False

    def callers_of(f):
        if not cs:
            for g in P.funcs.values():
                for i in callee_ids(P, g): cs.setdefault(i, []).append(g)
        return cs.get(f.id, [])
    acts = {i for b in P.overriders if "3SST8Activity7execute" in b for i in P.all_overriders(b)}

    def check(f, pred, depth, stack):
        """None if every node satisfying pred is reached by one thread only, else (function, path)"""
        cfg = CFG(P, f, exact=True)
        if not [n for n in cfg.nodes() if pred(n)]: return None
        R.cfg_used(cfg)
        path = cfg.unguarded(pred, zero)
        if path is None: return None
        if f.n == "main" and "::" not in f.sq: return None
        if f.sq in ROOTS or depth == 0: return (f, path)
        ups = [g for g in callers_of(f) if g.id not in stack and not skipped(g)]
        if f.id in acts:
            # reached through the time vortex: one instance exists per rank when every creation is by thread 0
            cl = f.sq.rsplit("::", 1)[0]
            for g in [g for g in P.funcs.values() if raw_has(g, cl) and any(n[0] == "ctor" and strip_t(n[2]) == cl for n in func_nodes(g)) and not g.sq.startswith(cl + "::")]:
                r = check(g, lambda n: n.kind == "ctor" and n.d["q"] == cl, depth - 1, stack + (f.id,))
                if r is not None: return r
            ups = [g for g in ups if any(i == f.id for i in direct_ids(g))]
            if not ups: return None
        for g in ups:
            r = check(g, lambda n: n.kind == "call" and (n.d["id"] == f.id or ("v" in n.d["flags"] and f.id in P.all_overriders(n.d["id"]))) or n.kind == "ctor" and n.d["id"] == f.id, depth - 1, stack + (f.id,))
            if r is not None: return r
        if not ups and f.d.get("virt"): return (f, path)
        return None
    n0 = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if skipped(f) or isc(f.sq) or "MPI_" not in f.raw: continue
        if not any(n[0] == "call" and isc(n[2]) for n in func_nodes(f)): continue
        if f.sq.startswith("SST::Comms::"): 
            pass
        n0 += 1
        r = check(f, lambda n: n.kind == "call" and isc(n.d["q"]), 6, ())
        R.ob("one_thread", f.sq + targs(f), r is None, f"{f.q}: a collective can be entered by several threads of a rank" + (f" (through {r[0].q})" if r else ""),
             r[1][-1].where() if r else f.where(), path_str(r[1]) if r else None)
    R.need(n0, "a collective call site")


ROOTS = ("start_simulation", "SST::Simulation::run")


def targs(f):
    m = re.search(r"<.*", f.q[len(f.sq) - 1:]) if "<" in f.q else None
    return m.group(0)[:60] if m else ""


WIDTH = {"ompi_mpi_uint64_t": 8, "ompi_mpi_int64_t": 8, "ompi_mpi_uint32_t": 4, "ompi_mpi_int32_t": 4, "ompi_mpi_int": 4, "ompi_mpi_unsigned": 4, "ompi_mpi_double": 8,
         "ompi_mpi_char": 1, "ompi_mpi_byte": 1, "ompi_mpi_double_int": 16, "ompi_mpi_cxx_bool": 1, "ompi_mpi_unsigned_long": 8, "ompi_mpi_long": 8, "ompi_mpi_float": 4}
CW = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8,
      "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}
FLOATS = ("ompi_mpi_double", "ompi_mpi_float")


def width(P, t):
    t = t.replace("const ", "").replace("volatile ", "").strip().rstrip("&").strip()
    m = re.match(r"std::atomic<(.*)>$", t)
    if m: t = m.group(1)
    m = re.match(r"(.*?)\s*\[(\d+)\]$", t)
    n = 1
    if m: t, n = m.group(1), int(m.group(2))
    if t in CW: return CW[t], n, t
    e = P.enums.get(t)
    if e: return CW.get(e.get("t", "int"), 4), n, t
    return None


def obj_type(P, cfg, t):
    """declared type of the object an address argument denotes"""
    while t[0] in ("cast",): t = t[-1]
    if t[0] == "addr": t = t[1]
    elif t[0] == "un" and t[1] == "&": t = t[2]
    if t[0] in ("var", "param"):
        ctx = cfg.ctx
        fi = ir.info(cfg.fn)
        return fi.types.get(t[2])
    if t[0] == "mem":
        cq, n = t[2].rsplit("::", 1)
        for c in P.cls_by_sq.get(cq, []):
            for x in list(c["fields"]) + list(c["statics"]):
                if x[0] == n and not c.get("dep"): return x[1]
    if t[0] == "glob":
        g = P.gvars.get(t[1])
        if g: return g["t"]
        cq, n = t[1].rsplit("::", 1) if "::" in t[1] else ("", t[1])
        for c in P.cls_by_sq.get(cq, []):
            for x in c["statics"]:
                if x[0] == n: return x[1]
    return None


def mpi_name(t):
    for x in subterms(t):
        if x[0] == "glob" and x[1].startswith("ompi_"): return x[1]
    return None


# (function, datatype or None) -> reductions that give the agreed value its meaning
OPS = [("Exit::computeEndTime", None, {"max"}), ("Exit::check", None, {"sum", "max", "lor", "bor"}),
       ("RankSyncSerialSkip::exchange", 8, {"min"}), ("RankSyncSerialSkip::exchange", 4, {"max"}),
       ("RankSyncParallelSkip::exchange_master", 8, {"min"}), ("RankSyncParallelSkip::exchange_master", 4, {"max"}),
       ("RankSyncSerialSkip::exchangeLinkUntimedData", None, {"sum", "max", "lor", "bor"}), ("RankSyncParallelSkip::exchangeLinkUntimedData", None, {"sum", "max", "lor", "bor"}),
       ("EmptyRankSync::exchangeLinkUntimedData", None, {"sum", "max", "lor", "bor"}),
       ("Simulation::checkpoint_write_globals", None, {"max"}),
       ("RankSync::findSyncInterval", None, {"min"})]


def reductions(R):
    """At every MPI_Allreduce: send and receive variables have the width and count the datatype states, and the listed global
    decisions use the reduction that gives them their meaning."""
    P = R.prog
    done = set()
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if skipped(f) or isc(f.sq) or "MPI_Allreduce" not in f.raw: continue
        cfg = CFG(P, f)
        R.cfg_used(cfg)
        k = 0
        for n in cfg.nodes():
            if n.kind != "call" or not n.d["q"].endswith("MPI_Allreduce"): continue
            a = n.d["args"]
            dt, op, cnt = mpi_name(a[3]), mpi_name(a[4]), const(a[2])
            k += 1
            tag = f.sq + ":" + show(a[1])[:40]
            w = WIDTH.get(dt)
            if w is None or op is None: raise AnalysisError(f"{n.where()}: MPI_Allreduce with a datatype or operator the analysis does not know")
            for i, nm in ((0, "send"), (1, "receive")):
                ty = obj_type(P, cfg, a[i])
                wd = width(P, ty) if ty else None
                if wd is None: continue
                R.ob("reductions", tag + ":" + nm, wd[0] == w and (cnt is None or cnt == max(wd[1], 1)) and ((wd[2] in ("float", "double")) == (dt in FLOATS)),
                     f"{f.q}: the {nm} buffer {show(a[i])} of type {ty} does not match {cnt} elements of {dt}", n.where())
            R.ob("reductions", tag + ":distinct", addr_of(a[0]) != addr_of(a[1]), f"{f.q}: MPI_Allreduce with the same send and receive buffer", n.where())
            o = op.replace("ompi_mpi_op_", "")
            for fn, wdt, ops in OPS:
                if f.sq.endswith("::" + fn) and (wdt is None or wdt == w):
                    done.add((fn, wdt))
                    R.ob("reductions", tag + ":operator", o in ops, f"{f.q}: {show(a[1])} is agreed with the {o} of the ranks' values; its meaning requires {'/'.join(sorted(ops))}", n.where())
        if f.n == "main" and "::" not in f.sq:
            for n in cfg.nodes():
                if n.kind == "call" and n.d["q"].endswith("MPI_Allreduce"):
                    s = show(n.d["args"][1]) + show(n.d["args"][0])
                    o = mpi_name(n.d["args"][4]).replace("ompi_mpi_op_", "")
                    if "min_part" in s: R.ob("reductions", "main:min_part", o == "min", "the minimum cross-partition latency is not agreed by a minimum", n.where())
    # a decision that is no longer reduced at all
    for fn, wdt, ops in OPS:
        if fn.startswith(("RankSync::", )): continue
        if (fn, wdt) in done: continue
        g = P.find(fn, False)
        if not g: continue
        # moved into a helper: look through the class
        cls = g[0].sq.rsplit("::", 1)[0]
        reach = any("MPI_Allreduce" in P.funcs[i].raw for i in forward(P, g[:1]) if i in P.funcs and P.funcs[i].sq.startswith(cls))
        R.ob("reductions", fn + ":present", reach, f"{fn} no longer agrees on its {'value' if wdt is None else str(wdt) + '-byte values'} across ranks", g[0].where())


def addr_of(t): return t[1] if t[0] == "addr" else t[2] if t[0] == "un" else t


def comms(R):
    """Comms::broadcast: every rank first transfers the size, then that many bytes; the root sends what it serialised and every
    other rank deserialises what it received.  Comms::all_gather: sizes, displacements and total are consistent."""
    P = R.prog
    fs = P.find("SST::Comms::broadcast", False)
    R.need(fs, "an instantiation of Comms::broadcast")
    for f in fs[:3]:
        cfg = CFG(P, f)
        R.cfg_used(cfg)
        b = [n for n in cfg.nodes() if n.kind == "call" and last(n.d["q"]).endswith("MPI_Bcast")]
        R.ob("comms", f.sq + targs(f) + ":sites", len(b) >= 2, "Comms::broadcast does not transfer size and payload", f.where())
        for n in b:
            R.ob("comms", f.sq + targs(f) + ":root", n.d["args"][3][0] in ("param", "var") and param_idx(f, n.d["args"][3]) == 1, "Comms::broadcast uses a root other than the caller's", n.where())
        always(R, "comms", f.sq + targs(f) + ":size", cfg, lambda n: n in b and const(n.d["args"][1]) == 1, "a rank can leave Comms::broadcast without transferring the size")
        always(R, "comms", f.sq + targs(f) + ":payload", cfg, lambda n: n in b and const(n.d["args"][1]) is None, "a rank can leave Comms::broadcast without transferring the payload")
        des = lambda n: n.kind == "call" and last(n.d["q"]) == "deserialize"
        ser = lambda n: n.kind == "call" and last(n.d["q"]) == "serialize"
        p = cfg.search([cfg.entry], lambda n: n is cfg.exit, avoid=lambda n: des(n) or ser(n))
        R.ob("comms", f.sq + targs(f) + ":received", p is None, "a rank leaves Comms::broadcast without deserialising the data", f.where())
        never(R, "comms", f.sq + targs(f) + ":order", cfg, des, "data is deserialised before it has been received", avoid=lambda n: n in b and const(n.d["args"][1]) is None)




def adopted(R):
    """After a rank exchange every contribution to a reduction is replaced by the agreed value, element by element, on every path."""
    P = R.prog
    fs = [f for c in ("RankSyncSerialSkip", "RankSyncParallelSkip", "EmptyRankSync") for m in ("exchange", "exchange_master", "exchangeLinkUntimedData") for f in P.find(f"SST::{c}::{m}", False)]
    R.need(fs, "the rank exchange functions")
    for f in fs:
        cfg = CFG(P, f, inline=inline_class(f.sq.rsplit("::", 1)[0]))
        k = 0
        for n in cfg.nodes():
            if n.kind != "call" or not last(n.d["q"]).endswith("MPI_Allreduce"): continue
            k += 1
            s, r = addr_of(n.d["args"][0]), addr_of(n.d["args"][1])
            init = cfg.T.definition(s) if s[0] == "var" else s
            if init is None: init = next((m.d["rhs"] for m in cfg.nodes() if m.kind in ("init", "asg") and (m.d.get("var") or m.d.get("lhs")) == s), None)
            elems = list(init[1:]) if init is not None and init[0] == "init" else [init]
            if len(elems) == 1 and isinstance(elems[0], tuple) and elems[0] and isinstance(elems[0][0], tuple): elems = list(elems[0])
            for i, e in enumerate(elems):
                e = strip_cast(e) if e is not None else None
                tgt = e if e is not None and (e[0] in ("mem", "param", "glob") or (e[0] == "var" and e[3] == "msg_count")) else None
                want = ("idx", r) if len(elems) > 1 else r

                def adopt(m):
                    if m.kind in ("asg", "init"): lhs, rhs = m.d.get("lhs") or m.d.get("var"), m.d["rhs"]
                    elif m.kind == "call" and last(m.d["q"]) in ("operator=", "store") and m.d["obj"] is not None: lhs, rhs = m.d["obj"], m.d["args"][0]
                    else: return False
                    if tgt is not None and lhs != tgt: return False
                    return any(x == r if len(elems) == 1 else (x[0] == "idx" and x[1] == r and const(x[2]) == i) for x in subterms(rhs))
                nm = show(tgt) if tgt is not None else show(r)
                always(R, "adopted", f"{f.sq}:{nm}", cfg, adopt, f"{f.q}: the agreed value of {nm} is not taken over after the reduction", frm=[n])
    

def strip_cast(t):
    while t[0] == "cast" or (t[0] == "call" and "operator" in t[1] and len(t) > 2 and is_term(t[2]) and t[2][0] != "none" and last(t[1]).startswith("operator ")): t = t[-1] if t[0] == "cast" else t[2]
    return t


CLAUSES = [aligned, one_thread, reductions, adopted, comms]
