"""Rendezvous alignment: every thread (or rank) passes the same sequence of rendezvous events whatever way a branch goes."""
from .q import *
from . import ir


def expand_policy(prog, direct, depth=8, skip=None):
    rel = Relevance(prog, direct, depth=depth, skip=skip)
    return lambda fn, e, ctx: rel(fn, e, ctx)


class Align:
    def __init__(self, cfg, sym, limit=4000):
        """sym(node) -> symbol or None"""
        self.cfg, self.sym, self.limit = cfg, sym, limit
        self.cl = {}
        self.term = {}
        # nodes from which a normal end or a rendezvous is reachable
        self.pred = {}
        nodes = cfg.nodes()
        self.nodes = nodes
        for n in nodes:
            for s, _, _ in n.succ: self.pred.setdefault(s.nid, []).append(n)
        live, st = set(), [n for n in nodes if n is cfg.exit or n is cfg.exc or self.sym(n) is not None]
        st = [n for n in nodes if n is cfg.exit]
        while st:
            n = st.pop()
            if n.nid in live: continue
            live.add(n.nid)
            st.extend(self.pred.get(n.nid, ()))
        self.live = live

    def closure(self, n):
        """(rendezvous nodes first met from n, can the function end without one)"""
        r = self.cl.get(n.nid)
        if r is not None: return r
        seen, st, out, end = set(), [n], {}, False
        while st:
            x = st.pop()
            if x.nid in seen or x.nid not in self.live: continue
            seen.add(x.nid)
            if x is self.cfg.exit: end = True; continue
            if self.sym(x) is not None: out[x.nid] = x; continue
            for s, _, _ in x.succ: st.append(s)
        r = self.cl[n.nid] = (out, end)
        return r

    def state(self, ns):
        out, end = {}, False
        for n in ns:
            o, e = self.closure(n)
            out.update(o); end = end or e
        by = {}
        for n in out.values(): by.setdefault(self.sym(n), {})[n.nid] = n
        return by, end

    def equal(self, a, b):
        """None when the rendezvous languages from nodes a and b agree, else a distinguishing word"""
        start = (frozenset([a.nid]), frozenset([b.nid]))
        objs = {a.nid: a, b.nid: b}
        seen, dq = {start}, [(start, ())]
        while dq:
            (x, y), w = dq.pop(0)
            bx, ex = self.state([objs[i] for i in x])
            by, ey = self.state([objs[i] for i in y])
            if ex != ey: return w + (("<end>" if ex else "<more>"),)
            for s in sorted(set(bx) | set(by), key=str):
                if s not in bx or s not in by: return w + (s,)
                na, nb = {}, {}
                for src, dst in ((bx[s], na), (by[s], nb)):
                    for n in src.values():
                        for t, _, _ in n.succ:
                            if t.nid in self.live: dst[t.nid] = t
                objs.update(na); objs.update(nb)
                st = (frozenset(na), frozenset(nb))
                if st in seen or st[0] == st[1]: continue
                if len(seen) > self.limit: raise AnalysisError("rendezvous automaton too large in " + self.cfg.fn.q)
                seen.add(st); dq.append((st, w + (s,)))
        return None

    def branches(self):
        """(node, atom or raw condition, distinguishing word) of the branches whose outcomes have different rendezvous sequences"""
        for n in self.nodes:
            if n.nid not in self.live: continue
            ss = [(s, c, p) for s, c, p in n.succ if s.nid in self.live]
            if len(ss) < 2: continue
            base = ss[0]
            for o in ss[1:]:
                if o[0] is base[0]: continue
                if self.closure(o[0])[0].keys() == self.closure(base[0])[0].keys() and self.closure(o[0])[1] == self.closure(base[0])[1]: continue
                w = self.equal(base[0], o[0])
                if w is not None:
                    c = base[1] if base[1] is not None else o[1]
                    yield n, c, w
                    break


class Uniform:
    """is a term the same for all participants?  fields: names accepted as uniform; deny: predicate on subterms"""

    def __init__(self, cfg, fields=(), params=(), calls=(), deny=lambda t: False):
        self.cfg, self.deny = cfg, deny
        self.fields, self.params = name_pred(list(fields)), set(params)
        self.calls = name_pred(list(calls))
        self.asg = {}
        for n in cfg.nodes():
            if n.kind in ("asg", "init"):
                t = n.d["lhs"] if n.kind == "asg" else n.d["var"]
                self.asg.setdefault(t, []).append(n)
            elif n.kind == "call":
                # by-reference results
                for a in n.d["args"]:
                    if a[0] == "un" and a[1] == "&": a = a[2]
                    if a[0] == "var": self.asg.setdefault(a, []).append(n)
        self.busy = set()

    def why(self, t):
        """None when uniform, else the offending subterm"""
        if self.deny(t): return t
        k = t[0]
        if k in ("lit", "str", "enum", "fn", "glob", "sizeof", "none", "typeid"): return None
        if k == "this": return None
        if k == "mem":
            f = field(t)
            if self.fields(f): return None
            b = t
            while b[0] in ("mem", "un", "idx"): 
                if self.deny(b): return b
                b = b[1] if b[0] in ("mem", "idx") else b[2]
            if b[0] == "glob": return None
            if b[0] == "var": return self.why(b)
            return t
        if k == "param": return None if t[1] in self.params else t
        if k == "var":
            if t in self.busy: return None
            self.busy.add(t)
            try:
                ds = self.asg.get(t)
                if not ds: return t
                for n in ds:
                    if n.kind == "call":
                        # written through a reference by this call: uniform when the callee is listed
                        if not self.calls(n.d["q"]): return t
                        continue
                    r = self.why(n.d["rhs"])
                    if r is not None: return r
                return None
            finally:
                self.busy.discard(t)
        if k in ("call",):
            if self.calls(t[1]): return None
            for x in t[2:]:
                if is_term(x) and x and isinstance(x[0], str) and x[0] != "":
                    r = self.why(x) if x[0] not in ("none",) else None
                    if r is not None: return r
                elif isinstance(x, tuple):
                    for y in x:
                        if is_term(y):
                            r = self.why(y)
                            if r is not None: return r
            return None
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    r = self.why(x)
                    if r is not None: return r
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            r = self.why(y)
                            if r is not None: return r
        return None
