"""Lock operations and lock-set analysis."""
from .q import *
from . import ir

LOCKCLS = re.compile(r"^(SST::Core::ThreadSafe::Spinlock|std::mutex|std::recursive_mutex|std::shared_mutex|std::timed_mutex|"
                     r"SST::Core::Interprocess::SSTMutex|std::__mutex_base)$")
RAIIV = re.compile(r"^std::(lock_guard|scoped_lock|unique_lock|shared_lock)<")
ACQ, REL, TRY = ("lock", "lock_shared"), ("unlock", "unlock_shared"), ("try_lock",)


def split_cm(q):
    i = q.rfind("::")
    return q[:i], q[i + 2:]


def node_lock_op(n):
    """AST node is a lock operation or an RAII lock declaration"""
    if n[0] == "call":
        c, m = split_cm(strip_t(n[2]))
        return m in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared") and (LOCKCLS.match(c) or c.startswith("std::unique_lock"))
    if n[0] == "var" and isinstance(n[4], str): return bool(RAIIV.match(n[4]))
    return False


def is_recursive_type(prog, t):
    ty = lock_type(prog, t)
    return ty is not None and "recursive" in ty


def lock_type(prog, t):
    if t[0] == "glob":
        g = prog.gvars.get(t[1])
        if g: return g["t"]
        # class static
        cq, n = split_cm(t[1])
        for c in prog.cls_by_sq.get(cq, []):
            for s in c["statics"]:
                if s[0] == n: return s[1]
        return None
    f = field(t)
    if f is None: return None
    cq, n = split_cm(f)
    for c in prog.cls_by_sq.get(cq, []):
        for x in c["fields"]:
            if x[0] == n and not c.get("dep"): return x[1]
    return None


def raii_map(cfg):
    """RAII variable term -> lock term"""
    m = {}
    for n in cfg.nodes():
        if n.kind == "init" and RAIIV.match(n.d["type"]):
            r = n.d["rhs"]
            if r[0] == "ctor" and r[2]: m[n.d["var"]] = r[2][0]
            elif r[0] in ("mem", "glob", "var"): m[n.d["var"]] = r
    return m


def ops(cfg):
    """(acquire(n), release(n), tryacq(n)) functions giving the lock terms a node acquires or releases"""
    rm = raii_map(cfg)

    def res(t): return rm.get(t, t)

    def acquire(n):
        if n.kind == "call" and n.d["obj"] is not None:
            c, m = split_cm(n.d["q"])
            if m in ACQ and (LOCKCLS.match(c) or c.startswith("std::unique_lock")): return (res(n.d["obj"]),)
        if n.kind == "init" and n.d["var"] in rm:
            r = n.d["rhs"]
            if r[0] == "ctor" and len(r[2]) > 1 and "defer_lock" in repr(r[2][1]): return ()
            return (rm[n.d["var"]],)
        return ()

    def release(n):
        if n.kind == "call" and n.d["obj"] is not None:
            c, m = split_cm(n.d["q"])
            if m in REL and (LOCKCLS.match(c) or c.startswith("std::unique_lock")): return (res(n.d["obj"]),)
        if n.kind == "scope" and n.d_var in rm if hasattr(n, "d_var") else n.kind == "scope" and n.d["var"] in rm:
            return (rm[n.d["var"]],)
        return ()
    return acquire, release


def lock_name(t):
    """object-insensitive identity of a lock"""
    f = field(t)
    if f: return f
    for x in subterms(t):
        if x[0] == "glob": return x[1]
    return show(t)


def lock_functions(prog):
    """functions that contain lock operations directly"""
    out = []
    for f in prog.funcs.values():
        if f.raw is not None and "lock" not in f.raw: continue
        if LOCKCLS.match(f.sq.rsplit("::", 1)[0]): continue
        if any(node_lock_op(n) for n in func_nodes(f)): out.append(f)
    return out


def held(cfg, may=False):
    a, r = ops(cfg)
    return ir.lockset(cfg, a, r, may=may)


# ---------------------------------------------------------------- path-consistent exploration of held locks
def try_edge(c, p):
    """lock term acquired by taking this branch edge (a successful try_lock), or None"""
    if c is None or c[0] in ("default", "target", "catch", "try", "more"): return None
    at, pol = norm_cond(c, p)
    if at[0] == "nz" and at[1][0] == "call" and pol:
        cq, m = split_cm(at[1][1])
        if m == "try_lock" and LOCKCLS.match(cq): return at[1][2]
    return None


class Held:
    """all (node, held locks) states of a CFG.  Held is a sorted tuple of (lock term, count)."""

    def __init__(self, cfg, limit=400000):
        self.cfg = cfg
        acq, rel = ops(cfg)
        tr = set(cfg.tracked())
        self.at = {}          # nid -> set of frozenset lock terms held before the node
        self.events = []      # ("reacq"|"badrel", node, lock, state key)
        self.acqs = []        # (held before, lock, node)
        self.prev = {}
        s0 = (cfg.entry.nid, (), frozenset())
        self.prev[s0] = (None, cfg.entry)
        dq = [(cfg.entry, (), frozenset())]
        while dq:
            n, h, kn = dq.pop()
            key = (n.nid, h, kn)
            self.at.setdefault(n.nid, {}).setdefault(h, key)
            hh = list(h)
            for l in rel(n):
                if l in hh: hh.remove(l)
                else: self.events.append(("badrel", n, l, key))
            for l in acq(n):
                self.acqs.append((tuple(hh), l, n))
                if l in hh: self.events.append(("reacq", n, l, key))
                hh.append(l)
            h2 = tuple(sorted(hh, key=repr))
            k2 = kn
            if tr and n.nid in cfg._kill:
                ks = cfg._kill[n.nid]
                k2 = frozenset(z for z in kn if z[0] not in ks)
            for s, c, p in n.succ:
                k3, h3 = k2, h2
                if c is not None and c[0] not in ("default", "target", "catch", "try", "more"):
                    at, pol = norm_cond(c, p)
                    if at in tr:
                        if (at, not pol) in k2: continue
                        k3 = k2 | {(at, pol)}
                    t = try_edge(c, p)
                    if t is not None:
                        self.acqs.append((h2, t, n))
                        h3 = tuple(sorted(list(h2) + [t], key=repr))
                st = (s.nid, h3, k3)
                if st in self.prev: continue
                self.prev[st] = (key, s)
                dq.append((s, h3, k3))
            if len(self.prev) > limit: raise AnalysisError(f"lock exploration of {cfg.fn.q} exceeds its limit")

    def path(self, key):
        p = []
        while key is not None:
            pk, n = self.prev[key]
            p.append(n); key = pk
        return p[::-1]

    def must(self, n):
        """locks held on every path reaching n"""
        hs = [set(h) for h in self.at.get(n.nid, {})]
        return set.intersection(*hs) if hs else set()


def is_wrapper(f):
    """a function whose only effect is one lock or unlock call: its callers carry the obligation"""
    b = f.body
    ns = [n for n in func_nodes(f) if n[0] == "call"]
    return len(ns) == 1 and node_lock_op(ns[0]) and re.search("lock", f.sq.rsplit("::", 1)[-1], re.I) is not None
