"""P10: every lock that is taken is given back, never taken twice, in one global order, never across a rendezvous."""
from sa.q import *
from sa.locks import *

PROP = dict(
    title="Locks are always released, never self-deadlock and nest in one order",
    statement="Whatever path a function takes (early returns, exceptions and fatal errors included), each lock it acquired is released exactly "
              "once and never while not held, and no path acquires a non-recursive lock the thread already holds, including on the way "
              "through a fatal error's emergency shutdown. Nested locks are always taken in one global order, and no thread waits at a "
              "thread barrier while holding a lock.",
    over=["schedules", "inputs"], text="all paths through every function that takes a lock, all interleavings",
    why="Deadlocks and leaked locks show only on the rare path or interleaving; the tests exercise the common ones.",
    files=["src/sst/core/threadsafe.h", "src/sst/core/impl/timevortex/timeVortexPQ.cc", "src/sst/core/simulation.cc", "src/sst/core/factory.cc", "src/sst/core/statapi/statoutput.h", "src/sst/core/sync"],
    mech=[("RAII guards", "exit.cc, params.cc, factory.cc, timeLord.cc, unitAlgebra.cc, sync/*.cc, shared/*.h"), ("manual lock/unlock pairs", "impl/timevortex/*.cc, statapi/*")],
    technique="path-sensitive lock typestate and lock-order analysis over interprocedural control-flow graphs")

TUS = ["exit.cc", "params.cc", "factory.cc", "timeLord.cc", "unitAlgebra.cc", "link.cc", "simulation.cc", "sync/*.cc", "sst_types.cc", "statapi/stat*put*.cc", "statapi/statengine.cc", "shared/*.cc", "impl/timevortex/*.cc", "output.cc", "impl/*.cc",
       "profile/*.cc", "realtime.cc", "heartbeat.cc", "mempool.cc", "iouse.cc", "util/*.cc", "elemLoader.cc", "initQueue.cc", "pollingLinkQueue.cc", "main.cc", "clock.cc", "checkpointAction.cc", "portModule.cc", "baseComponent.cc"]
ASSUMPTIONS = ["a lock named by the same access path denotes the same lock object; locks of different classes never alias",
               "Output::fatal, exit and abort do not return (their paths carry no release obligation, but what fatal itself locks on the way down, simulationMutex in emergencyShutdown, counts as an acquisition)"]

RENDEZVOUS = name_pred(["ThreadSafe::Barrier::wait"])


def is_rdv(q): return RENDEZVOUS(q)


def direct(n, f):
    return bool(node_lock_op(n)) or (n[0] == "call" and is_rdv(strip_t(n[2])))


def fset(R):
    P = R.prog
    fs = lock_functions(P)
    R.need(len(fs) >= 20, f"functions that take locks (found {len(fs)})")
    return fs


def explored(R):
    P = R.prog
    if hasattr(P, "_held"): return P._held
    rel = Relevance(P, direct, depth=4)

    def pol(fn, e, ctx):
        if e[0] == "call" and "v" in e[7]: return False
        if LOCKCLS.match(fn.sq.rsplit("::", 1)[0]) or RENDEZVOUS(fn.sq): return False
        return rel(fn, e, ctx)
    roots = {f.id: f for f in fset(R)}
    # callers of the wrappers
    wr = {i for i, f in roots.items() if is_wrapper(f)}
    if wr:
        for f in P.funcs.values():
            if f.id in roots: continue
            if any(n[0] == "call" and (n[3] in wr or ("v" in n[7] and P.all_overriders(n[3]) & wr)) for n in func_nodes(f)):
                roots[f.id] = f
    out = []
    for i, f in sorted(roots.items(), key=lambda x: x[1].q):
        if i in wr: continue
        # the lock classes of the C++ library and of the interprocess region are the lock implementation, not users
        cfg = CFG(P, f, inline=pol, maxdepth=4)
        R.cfg_used(cfg)
        out.append((f, cfg, Held(cfg)))
    P._held = out
    return out


def con(f): return strip_t(f.q)


def released(R):
    """In every function that takes a lock by hand or by guard, every path (early returns and throws included) from the
    acquisition to the end of the function releases it; a lock is never released on a path that does not hold it.
    One-line lock()/unlock() wrappers are expanded into their callers, which carry the obligation."""
    for f, cfg, h in explored(R):
        bad = None
        for end in (cfg.exit, cfg.exc):
            for hs, key in h.at.get(end.nid, {}).items():
                if hs: bad = (hs, key, end)
        names = ", ".join(sorted(set(show(x) for x in bad[0]))) if bad else ""
        R.ob("released", con(f), bad is None,
             f"{f.q}: a path leaves the function while {names} is still held", f.where(), path_str(h.path(bad[1])) if bad else None)
        br = [e for e in h.events if e[0] == "badrel"]
        R.ob("released", con(f) + " unlock", not br,
             f"{f.q}: a path releases {show(br[0][2]) if br else ''} without holding it", br[0][1].where() if br else f.where(),
             path_str(h.path(br[0][3])) if br else None)


def reacquired(R):
    """No path acquires a non-recursive lock it already holds, including through calls to other functions of the repository."""
    for f, cfg, h in explored(R):
        br = [e for e in h.events if e[0] == "reacq" and not is_recursive_type(R.prog, e[2])]
        R.ob("reacquired", con(f), not br,
             f"{f.q}: a path acquires {show(br[0][2]) if br else ''} while already holding it (self-deadlock)",
             br[0][1].where() if br else f.where(), path_str(h.path(br[0][3])) if br else None)


def lock_order(R):
    """The order in which two locks are nested is the same everywhere: the acquisition graph over all functions is acyclic."""
    g = {}
    for f, cfg, h in explored(R):
        for held_, l, n in h.acqs:
            for x in held_:
                a, b = lock_name(x), lock_name(l)
                if a != b: g.setdefault(a, {})[b] = (f, n)
    allk = sorted(set(g) | {b for v in g.values() for b in v})
    seen_cyc = set()
    for a in allk:
        # shortest cycle through a
        from collections import deque
        prev, dq, cyc = {}, deque([a]), None
        while dq and cyc is None:
            x = dq.popleft()
            for y in g.get(x, {}):
                if y == a:
                    cyc = [x]; break
                if y not in prev: prev[y] = x; dq.append(y)
        if cyc:
            while cyc[-1] != a: cyc.append(prev[cyc[-1]])
            cyc = cyc[::-1] + [a]
        ok = cyc is None
        if not ok:
            k = frozenset(cyc)
            if k in seen_cyc: continue
            seen_cyc.add(k)
        w = g[cyc[0]][cyc[1]] if cyc else None
        R.ob("lock_order", a, ok, f"locks are nested in a cycle: {' -> '.join(cyc or [])}" + (f" (here in {w[0].q})" if w else ""),
             w[1].where() if w else "")
    R.ob("lock_order", "acquisition graph", True, "")
    R.assumptions.append(f"nested acquisitions found: {sorted((a, b) for a, v in g.items() for b in v)}")


def rendezvous(R):
    """No thread waits at a thread barrier while it holds a lock (another thread of the same rendezvous may need the lock to
    arrive)."""
    for f, cfg, h in explored(R):
        for n in cfg.nodes():
            if n.kind == "call" and is_rdv(n.d["q"]):
                bad = [(k, v) for k, v in h.at.get(n.nid, {}).items() if k]
                R.ob("rendezvous", f"{con(f)}->{last(n.d['q'])}", not bad,
                     f"{f.q} waits in {n.d['q']} while holding {show(bad[0][0][0]) if bad else ''}", n.where(),
                     path_str(h.path(bad[0][1])) if bad else None)
    R.ob("rendezvous", "locks and rendezvous", True, "")


CLAUSES = [released, reacquired, lock_order, rendezvous]
