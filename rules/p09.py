"""P09: state that several threads use is only touched under its lock, or is atomic."""
from sa.q import *
from sa.locks import *

PROP = dict(
    title="State shared by threads is only touched under its lock or is atomic",
    statement="Process-wide tables and counters that several simulation threads use (exit reference counts, parameter key tables, "
              "cross-thread and cross-rank link tables, sync queues, shared objects, time and unit caches, memory-pool overflow lists, "
              "thread-safe event queues, performance records, the simulation instance table) are read and written only while the lock that "
              "guards them is held. What threads exchange without a lock has an atomic type, and the spin lock acquires and releases with "
              "the ordering that makes it a lock.",
    over=["schedules"], text="all interleavings of the simulation threads of a rank",
    why="A missing or misplaced lock is a data race that tests hit only under rare interleavings, and no test enumerates them.",
    files=["src/sst/core/exit.cc", "src/sst/core/params.cc", "src/sst/core/sync/syncQueue.cc", "src/sst/core/shared/sharedObject.h", "src/sst/core/timeLord.cc",
           "src/sst/core/unitAlgebra.cc", "src/sst/core/mempool.cc", "src/sst/core/impl/timevortex/timeVortexPQ.cc", "src/sst/core/threadsafe.h", "src/sst/core/simulation.cc"],
    mech=[("scoped_lock/lock_guard around each table", "the functions of the files above"), ("Spinlock", "src/sst/core/threadsafe.h"), ("std::atomic members", "src/sst/core/sync/*.h")],
    technique="guarded-by lock-set analysis over interprocedural control-flow graphs")

TUS = ["exit.cc", "params.cc", "factory.cc", "timeLord.cc", "unitAlgebra.cc", "simulation.cc", "sync/*.cc", "mempool.cc",
       "shared/*.cc", "impl/timevortex/*.cc", "util/perfReporter.cc", "util/filesystem.cc", "event.cc", "realtime.cc", "interfaces/stdMem.cc", "initQueue.cc",
       "statapi/statengine.cc", "statapi/statoutput*.cc", "statapi/statgroup.cc", "link.cc", "main.cc", "baseComponent.cc", "pollingLinkQueue.cc"]
LOAD = {"extra": [VERIF + "/tool/witness/shared.cc"]}
ASSUMPTIONS = ["constructors, destructors and serialize_order of the owning object run while no other thread uses it (checkpoints are taken between thread barriers)",
               "functions listed as exempt run in single-threaded phases (start-up, after the threads are joined, or between the barriers that P07 checks)",
               "a reference or iterator obtained under the lock and used after its release is not tracked"]

# class, fields, lock, functions that may touch them without the lock (because of the phase they run in)
GUARD = [
    ("SST::Core::OverflowFreeList", ["store"], "lock", []),
    ("SST::Core::ThreadSafe::UnboundedQueue", ["last"], "producerLock", []),
    ("SST::Core::ThreadSafe::UnboundedQueue", ["first"], "consumerLock", []),
    ("SST::Exit", ["ref_count_", "thread_counts_", "end_time_"], "slock_", ["check", "getRefCount", "computeEndTime", "getEndTime", "setEndTime"]),
    ("SST::Params", ["keyMap", "nextKeyID"], "keyLock", ["main"]),
    ("SST::Params", ["shared_params"], "sharedLock", ["getSharedParamSet", "getSharedParamSetNames", "main"]),
    ("SST::RankSyncQueue", ["activities", "buffer", "buf_size"], "slock", ["getDataSize"]),
    ("SST::Shared::SharedObjectData", ["share_count", "publish_count"], "mtx", ["getShareCount", "getPublishCount"]),
    ("SST::Shared::SharedObjectDataManager", ["shared_data", "locked"], ("mtx", "update_mtx"), []),
    ("SST::TimeLord", ["parse_cache_"], "slock_", []),
    ("SST::Units", ["valid_base_units", "valid_compound_units", "count"], "unit_lock", []),
    ("SST::Simulation", ["cross_thread_links"], "cross_thread_lock", []),
    ("SST::Simulation", ["instanceMap"], "simulationMutex", ["getSimulation", "shutdown"]),
    ("SST::Simulation", ["instanceVec_"], "simulationMutex",
     ["discoverRemoteLinks", "getLocalMinimumNextActivityTime", "notifySignal", "SyncManager::registerLink"]),
    ("SST::Util::PerfReporter", ["records_"], "mtx", ["output", "recordCount"]),
    ("SST::IMPL::TimeVortexPQBase", ["data", "insertOrder", "current_depth", "max_depth"], "slock",
     ["getContainer", "getCurrentDepth", "getMaxDepth", "getContents", "print"]),
    ("SST::IMPL::TimeVortexBinnedMapBase", ["map", "pool"], "slock", ["front", "print", "getContents"]),
    ("SST::ThreadSyncSimpleSkip", ["link_map"], "lock", ["finalizeLinkConfigurations", "prepareForComplete", "before", "after", "execute"]),
    ("SST::ThreadSyncSimpleSkip", ["queues"], "lock", ["before", "processLinkUntimedData"]),
]
# accesses of these functions are obligations: the registration phase runs on all threads at once
ONLY = [
    ("SST::RankSyncSerialSkip", ["comm_send_map", "comm_recv_map"], "lock", ["registerLink"]),
    ("SST::RankSyncParallelSkip", ["comm_send_map", "comm_recv_map"], "lock", ["registerLink"]),
    ("SST::RankSync", ["link_maps"], "lock", ["registerLink"]),
    ("SST::Factory", ["loaded_libraries"], "factoryMutex", ["findLibrary"]),
    ("SST::Shared::SharedMap::Data", ["map", "change_set", "verify"], "mtx", ["write", "mutex_read", "getSize", "setVerify"]),
    ("SST::Shared::SharedSet::Data", ["set", "change_set", "verify"], "mtx", ["write", "mutex_find", "getSize", "setVerify"]),
    ("SST::Shared::SharedArray::Data", ["array", "written", "change_set"], "mtx", ["write", "mutex_read", "getSize", "setSize"]),
]
ATOMIC = [("SST::Simulation", "untimed_msg_count"), ("SST::Event", "id_counter"), ("SST::Core::ThreadSafe::Barrier", "count"),
          ("SST::Core::ThreadSafe::Barrier", "generation"), ("SST::Core::ThreadSafe::Barrier", "enabled"),
          ("SST::Core::ThreadSafe::UnboundedQueue::Node", "next"), ("SST::Core::ThreadSafe::BoundedQueue", "rPtr"),
          ("SST::Core::ThreadSafe::BoundedQueue", "wPtr"), ("SST::RankSyncParallelSkip", "remaining_deser"),
          ("SST::RankSyncParallelSkip", "enter_interactive_"), ("SST::RankSyncParallelSkip", "enter_shutdown_"),
          ("SST::RankSyncParallelSkip", "shutdown_mode_"), ("SST::RankSyncParallelSkip", "generate_ckpt_"),
          ("SST::ThreadSyncSimpleSkip", "enter_interactive_"), ("SST::ThreadSyncSimpleSkip", "enter_shutdown_"),
          ("SST::ThreadSyncSimpleSkip", "shutdown_mode_"), ("SST::ThreadSyncDirectSkip", "enter_interactive_"),
          ("SST::ThreadSyncDirectSkip", "enter_shutdown_"), ("SST::ThreadSyncDirectSkip", "shutdown_mode_"),
          ("SST::SyncManager", "ckpt_generate_"), ("SST::HeartbeatRealTimeAction", "thr_max_tv_depth_"),
          ("SST::Interfaces::StandardMem::Request", "main_id")]


def names_of(t):
    f = field(t)
    return f if f is not None else (t[1] if t[0] == "glob" else None)


def accesses(cfg, quals):
    """(node, qualified field, base term) of every read or write of one of the fields"""
    for n in cfg.nodes():
        t = n.d["path"] if n.kind == "rd" else n.d["lhs"] if n.kind == "asg" and not n.d.get("init") else None
        while t is not None and t[0] in ("idx", "un"): t = t[1] if t[0] == "idx" else t[2]
        if t is None: continue
        q = names_of(t)
        if q in quals: yield n, q, (t[1] if t[0] == "mem" else None)


def holds(h, n, base, locks, cls):
    for x in h.must(n):
        ln = lock_name(x)
        if not any(ln == l or ln.endswith("::" + l) for l in locks): continue
        if base is not None and x[0] == "mem" and x[1] != base and field(x).rsplit("::", 1)[0] == cls: continue
        return True
    return False


def touching(P, quals):
    """functions whose text names one of the fields or calls a getter of one (getters are expanded)"""
    names = {q.rsplit("::", 1)[1] for q in quals}
    pats = {'::' + re.escape(n) + '"' for n in names} | {'"' + re.escape(n) + '"' for n in names}
    for _ in range(2):
        rx = re.compile("|".join(sorted(pats)))
        hit = [f for f in P.funcs.values() if rx.search(f.raw)]
        new = {'"' + re.escape(f.id) + '"' for f in hit if Terms(P).getter(f) is not None}
        if new <= pats: break
        pats |= new
    return hit


def excused(f, cls, exempt):
    own = f.sq.rsplit("::", 1)
    if own[0] == cls or own[0].startswith(cls + "::"):
        m = own[-1]
        if m == cls.rsplit("::", 1)[-1] or m.startswith("~") or m == "serialize_order": return True
        if m == own[0].rsplit("::", 1)[-1]: return True
        if m in exempt: return True
    return any("::" in e and f.sq.endswith(e) for e in exempt) or ("main" in exempt and f.sq == "main")


def template_false(f): return "<false>" in f.q and "TimeVortex" in f.q


def check_fn(P, f, cls, quals, locks, exempt, depth=3, seen=(), whole=False):
    """None when every access is locked; else (node, field, path)"""
    inl = (lambda g, e, c: g.sq.rsplit("::", 1)[0] == cls) if whole else (lambda g, e, c: any(g.id == s for s in seen))
    cfg = CFG(P, f, reads=True, inline=inl)
    acc = list(accesses(cfg, quals))
    if not acc: return None, cfg, 0
    h = Held(cfg)
    bad = None
    for n, q, base in acc:
        if not holds(h, n, base, locks, cls):
            hs = sorted(h.at.get(n.nid, {}).items(), key=lambda kv: len(kv[0]))
            bad = (n, q, h.path(hs[0][1]) if hs else [])
            break
    if bad is None: return None, cfg, len(acc)
    # a helper that is only called with the lock held is fine: look at its callers
    if depth > 0 and not excused(f, cls, ()):
        cs = callers_of(P, f)
        if cs and all(True for c in cs):
            ok = True
            for c in cs:
                if c.id == f.id: continue
                if excused(c, cls, exempt): continue
                if check_fn(P, c, cls, quals, locks, exempt, depth - 1, seen + (f.id,))[0] is not None:
                    ok = False; break
            if ok: return None, cfg, len(acc)
    return bad, cfg, len(acc)


def callers_of(P, f):
    if not hasattr(P, "_callers"):
        P._callers = {}
    if f.id not in P._callers:
        out = []
        for g in P.funcs.values():
            if g.raw is not None and f.id not in g.raw: continue
            if any(n[0] in ("call", "ctor") and n[3] == f.id for n in func_nodes(g)): out.append(g)
        P._callers[f.id] = out
    return P._callers[f.id]


def run_table(R, table, only):
    P = R.prog
    for row in table:
        cls, fs, lk, names = row
        locks = (lk,) if isinstance(lk, str) else lk
        known = {x[0] for c in P.cls_by_sq.get(cls, []) for x in list(c["fields"]) + list(c["statics"])}
        R.need(P.cls_by_sq.get(cls), f"class {cls}")
        for fn in fs:
            if fn not in known:
                if only: continue
                R.need(False, f"field {cls}::{fn}")
            q = {f"{cls}::{fn}"}
            cnt = 0
            for f in ([g for nm in names for g in P.find(cls + '::' + nm, False)] if only else touching(P, q)):
                if template_false(f) or f.d.get("dep"): continue
                own = f.sq.rsplit("::", 1)
                if only:
                    if own[0] != cls or own[-1] not in names: continue
                elif excused(f, cls, names): continue
                bad, cfg, k = check_fn(P, f, cls, q, locks, () if only else names, depth=0 if only else 3, whole=only)
                if not k: continue
                R.cfg_used(cfg); cnt += k
                R.ob("guarded", f"{cls}::{fn} in {strip_t(f.q)}", bad is None,
                     f"{f.q} uses {cls}::{fn} without holding {'/'.join(locks)}, which guards it", bad[0].where() if bad else f.where(),
                     path_str(bad[2]) if bad else None)
            if not only: R.need(cnt, f"an access to {cls}::{fn}")


def guarded_fields(R):
    """Every access to the listed shared fields (outside construction, destruction, serialization and the named
    single-threaded phase functions) happens with the owning lock held on every path; helpers are judged at their callers."""
    run_table(R, GUARD, False)


def registration(R):
    """Functions that all threads call at once (link registration, library lookup, writes to shared objects) touch the
    shared tables only under their lock."""
    run_table(R, ONLY, True)


def atomics(R):
    """State that threads exchange without a lock has an atomic type."""
    P = R.prog
    for cls, fn in ATOMIC:
        tys = [x[1] for c in P.cls_by_sq.get(cls, []) for x in list(c["fields"]) + list(c["statics"]) if x[0] == fn]
        R.need(tys, f"{cls}::{fn}")
        bad = [t for t in tys if "atomic" not in t]
        R.ob("atomics", f"{cls}::{fn}", not bad, f"{cls}::{fn} is shared by threads without a lock and has the non-atomic type {bad[:1]}")
    # the time vortex used by several threads: the <true> instantiations carry atomic depth/order or change them under the lock
    for cls, fn in (("SST::IMPL::TimeVortexPQBase", "current_depth"), ("SST::IMPL::TimeVortexBinnedMapBase", "insertOrder"),
                    ("SST::IMPL::TimeVortexBinnedMapBase", "current_depth")):
        tys = [x[1] for c in P.cls_by_sq.get(cls, []) if "<true>" in c["t"] for x in c["fields"] if x[0] == fn]
        R.need(tys, f"{cls}<true>::{fn}")
        R.ob("atomics", f"{cls}<true>::{fn}", all("atomic" in t for t in tys),
             f"{cls}<true>::{fn} is updated by several threads and has the non-atomic type {tys}")


def lock_semantics(R):
    """Spinlock::lock returns only after a test-and-set with acquire ordering found the flag clear; unlock clears it with
    release ordering; a TimeUnit shared by threads takes its lock around the insertion."""
    P = R.prog
    for f in P.find("SST::Core::ThreadSafe::Spinlock::lock"):
        cfg = CFG(P, f)
        R.cfg_used(cfg)
        p = cfg.search([cfg.entry], lambda n: n is cfg.exit,
                       edge=lambda n, s, c, p: c is None or not cfg.edge_holds(c, p, lambda at, pol, nn: at[0] == "nz" and has_call(at[1], "test_and_set") and not pol, n))
        R.ob("lock_semantics", "Spinlock::lock waits", p is None, "Spinlock::lock returns although the flag was already set", f.where(), path_str(p) if p else None)
        o = [n for n in cfg.calls("test_and_set")]
        R.ob("lock_semantics", "Spinlock::lock ordering", o and all(order_of(n.d["args"]) in (2, 4, 5) for n in o),
             "Spinlock::lock acquires without acquire ordering", f.where())
    for f in P.find("SST::Core::ThreadSafe::Spinlock::unlock"):
        cfg = CFG(P, f)
        R.cfg_used(cfg)
        always(R, "lock_semantics", "Spinlock::unlock clears", cfg, lambda n: n.kind == "call" and last(n.d["q"]) == "clear", "Spinlock::unlock does not clear the flag")
        o = [n for n in cfg.calls("clear")]
        R.ob("lock_semantics", "Spinlock::unlock ordering", o and all(order_of(n.d["args"]) in (3, 4, 5) for n in o),
             "Spinlock::unlock releases without release ordering", f.where())


def order_of(args):
    """numeric std::memory_order of an atomic call (seq_cst when defaulted)"""
    if not args: return 5
    t = args[-1]
    for x in subterms(t):
        if x[0] in ("enum", "glob"):
            m = re.search(r"memory_order(?:::|_)?(\w+)$", x[1])
            if m:
                k = m.group(1).replace("memory_order_", "")
                return {"relaxed": 0, "consume": 1, "acquire": 2, "release": 3, "acq_rel": 4, "seq_cst": 5}.get(k, 0)
        c = const(x)
        if c is not None: return c
    return 5


CLAUSES = [guarded_fields, registration, atomics, lock_semantics]
