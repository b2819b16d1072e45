"""Query helpers shared by the rules."""
import re
from .ir import *
from . import ir
from .model import strip_t, AnalysisError, VERIF, REPO


# ---------------------------------------------------------------- terms
def last(q): return q.rsplit("::", 1)[-1]


def is_field(t, name):
    """t is a path ending in a field whose qualified name is or ends with `name`"""
    f = field(t)
    if f is None:
        while t and t[0] in ("deref", "addr", "idx", "dyncast"): t = t[2] if t[0] == "dyncast" else t[1]
        f = t[1] if t and t[0] == "glob" else None
    return f is not None and (f == name or f.endswith("::" + name))


def fmatch(f, name): return f is not None and (f == name or f.endswith("::" + name))


def has_field(t, name): return any(fmatch(f, name) for f in fields_in(t)) or any(fmatch(g, name) for g in globs_in(t))


def has_call(t, name): return any(c == name or c.endswith("::" + name) for c in calls_in(t))


def has_glob(t, name): return any(g == name or g.endswith("::" + name) for g in globs_in(t))


def params_in(t): return {x[1] for x in subterms(t) if x[0] == "param"}


def param_idx(fn, t):
    """index of the parameter of fn that t denotes (also when the parameter is modified in fn)"""
    lid = t[2] if t[0] in ("param", "var") else None
    for i, p in enumerate(fn.params):
        if p[0] == lid and (t[0] == "param" or t[3] == p[1]): return i
    return None


def summands(t, sign=1):
    """[(sign, term)] of a sum"""
    if t[0] == "bin" and t[1] == "+": return summands(t[2], sign) + summands(t[3], sign)
    if t[0] == "bin" and t[1] == "-": return summands(t[2], sign) + summands(t[3], -sign)
    return [(sign, t)]


def sum_is(t, *preds, zero_ok=True):
    """t is exactly the sum of one positive term per predicate"""
    s = [(g, x) for g, x in summands(t) if not (zero_ok and const(x) == 0)]
    if len(s) != len(preds) or any(g != 1 for g, _ in s): return False
    todo = [x for _, x in s]
    for p in preds:
        for x in todo:
            if p(x):
                todo.remove(x); break
        else: return False
    return True


def expand(T, t, depth=4, once=False):
    """t with locals replaced by their initialisers (once: only locals that are never assigned again)"""
    if not isinstance(t, tuple) or not t or depth <= 0: return t
    if t[0] == "var":
        d = T.definition(t)
        if once and d is not None and t[2] in ir.info(T.ctxs[t[1]].fn).assigned: return t
        if d is not None and d != t: return expand(T, d, depth - 1, once)
        return t
    return tuple(expand(T, x, depth, once) if isinstance(x, tuple) else x for x in t)


def conj(t):
    if t[0] == "bin" and t[1] == "&&": return conj(t[2]) + conj(t[3])
    return [t]


# ---------------------------------------------------------------- assumptions for partial evaluation
def field_is(name, value):
    """the field (suffix-qualified name) holds the integer value: decides every comparison with a constant"""
    def f(at, ctx=None):
        return _decide(at, lambda t: is_field(t, name), value)
    return f


def term_is(pred, value):
    def f(at, ctx=None):
        return _decide(at, pred, value)
    return f


def truth(pred, val=True):
    """atoms `x` tested for non-zero whose term satisfies pred"""
    def f(at, ctx=None):
        if at[0] in ("nz", "pos") and pred(at[1]): return val
        return None
    return f


def _decide(at, isx, v):
    k = at[0]
    if k in ("nz", "pos"):
        if isx(at[1]): return v != 0
        return None
    if k == "==":
        for a, b in ((at[1], at[2]), (at[2], at[1])):
            if isx(a):
                c = const(b)
                if c is not None: return c == v
    if k == "<":
        if isx(at[1]):
            c = const(at[2])
            if c is not None: return v < c
        if isx(at[2]):
            c = const(at[1])
            if c is not None: return c < v
    return None


def allof(*fs):
    def f(at, ctx=None):
        for g in fs:
            r = g(at, ctx)
            if r is not None: return r
        return None
    return f


def enumval(prog, enum, const_name):
    for q, d in prog.enums.items():
        if q == enum or q.endswith("::" + enum):
            for n, v in d["consts"]:
                if n == const_name: return int(v)
    raise AnalysisError(f"enumerator {enum}::{const_name} not found")


# ---------------------------------------------------------------- inlining policies
def inline_named(*names):
    """expand callees whose stripped qualified name equals/ends with one of names"""
    p = name_pred(list(names))
    return lambda f, e, ctx: p(f.sq)


def inline_class(*classes, also=()):
    """expand non-virtual helpers that are members of the given classes (suffix match) and free helpers named"""
    pa = name_pred(list(also)) if also else (lambda q: False)

    def f(fn, e, ctx):
        c = fn.sq.rsplit("::", 1)[0] if "::" in fn.sq else ""
        if pa(fn.sq): return True
        return any(c == k or c.endswith("::" + k) for k in classes) and "v" not in e[7]
    return f


def helpers(fn_root, stop=()):
    """expand functions defined in the same file as the root (helpers extracted next to it), except those in stop"""
    ps = name_pred(list(stop)) if stop else (lambda q: False)

    def f(fn, e, ctx):
        if ps(fn.sq): return False
        if e[0] == "call" and "v" in e[7]: return False
        return fn.file == fn_root.file
    return f


def small_helpers(prog, stop=()):
    """expand any repository function that is not virtual and not in stop: sees through extracted helpers"""
    ps = name_pred(list(stop)) if stop else (lambda q: False)

    def f(fn, e, ctx):
        if ps(fn.sq): return False
        if e[0] == "call" and "v" in e[7]: return False
        return True
    return f


# ---------------------------------------------------------------- event predicates
def call_to(name, obj=None, arg=None):
    p = name_pred(name)

    def f(n):
        return (n.kind == "call" and p(n.d["q"]) and (obj is None or (n.d["obj"] is not None and obj(n.d["obj"])))
                and (arg is None or arg(n.d["args"])))
    return f


def asg_to(fieldname, rhs=None, op=None):
    def f(n):
        return (n.kind == "asg" and is_field(n.d["lhs"], fieldname) and (rhs is None or rhs(n.d["rhs"]))
                and (op is None or n.d["op"] == op))
    return f


def anyof(*ps): return lambda n: any(p(n) for p in ps)


FATAL = name_pred(["Output::fatal", "exit", "abort", "_exit", "std::terminate", "SST_Exit", "SimulationImpl::emergencyShutdown"])


def is_fatal(n): return n.kind == "throw" or (n.kind == "call" and ("n" in n.d["flags"] or FATAL(n.d["q"])))


# ---------------------------------------------------------------- obligations
def always(R, clause, construct, cfg, ev, msg, frm=None, to=None, edge=None, bad_ok=None):
    """every path from the start to the (normal) exit passes an event"""
    starts = [cfg.entry] if frm is None else [s for f in frm for s in cfg.after(f)]
    to = to or (lambda n: n is cfg.exit)
    e = (lambda n, s, c, p: edge(n, s, c, p)) if edge else (lambda n, s, c, p: True)
    path = cfg.search(starts, lambda n: to(n) and not ev(n), avoid=ev, edge=e)
    R.cfg_used(cfg)
    return R.ob(clause, construct, path is None, msg, where=(path[-1].where() if path else cfg.fn.where()),
                path=path_str(path) if path else None)


def never(R, clause, construct, cfg, bad, msg, frm=None, avoid=None, edge=None):
    """no path reaches a bad event (without passing `avoid`)"""
    starts = [cfg.entry] if frm is None else [s for f in frm for s in cfg.after(f)]
    e = edge or (lambda n, s, c, p: True)
    path = cfg.search(starts, bad, avoid=avoid or (lambda n: False), edge=e)
    R.cfg_used(cfg)
    return R.ob(clause, construct, path is None, msg, where=(path[-1].where() if path else cfg.fn.where()),
                path=path_str(path) if path else None)


def guarded(R, clause, construct, cfg, target, edgepred, msg):
    """every path from entry to a target crosses an edge on which edgepred(atom, polarity, node) holds"""
    path = cfg.unguarded(target, edgepred)
    R.cfg_used(cfg)
    return R.ob(clause, construct, path is None, msg, where=(path[-1].where() if path else cfg.fn.where()),
                path=path_str(path) if path else None)


def present(R, clause, construct, cfg, ev, msg):
    ok = any(ev(n) for n in cfg.nodes())
    R.cfg_used(cfg)
    return R.ob(clause, construct, ok, msg, where=cfg.fn.where())


def reachable(cfg): return {n.nid for n in cfg.nodes()}


def bool_outcomes(prog, fn, assume, inline=None):
    """set of results (True/False) a bool function can return under the assumptions"""
    cfg = CFG(prog, fn, assume=assume, inline=inline or (lambda f, e, c: True), boolret=True)
    r = reachable(cfg)
    return {v for v, n in ((True, cfg.tnode), (False, cfg.fnode)) if n.nid in r}, cfg


def order_assume(keys):
    """assumption function for a comparator: keys = [(pred(term)->side 0/1/None, '<'|'='|'>')]"""
    def f(at, ctx=None):
        if at[0] not in ("==", "<"): return None
        for side, rel in keys:
            sa, sb = side(at[1]), side(at[2])
            if sa is None or sb is None or sa == sb: continue
            r = rel if sa == 0 else {"<": ">", ">": "<", "=": "="}[rel]
            if at[0] == "==": return r == "="
            return r == "<"
        return None
    return f


# ---------------------------------------------------------------- bit provenance
def bits(t, leaf, width=64):
    """abstract bit vector of an integer term: each bit is 0, 1, or a (leaf, i) provenance; None = unknown"""
    W = width
    c = const(t)
    if c is not None: return [(c >> i) & 1 for i in range(W)]
    l = leaf(t)
    if l is not None:
        name, w = l
        return [(name, i) if i < w else 0 for i in range(W)]
    if t[0] == "bin":
        op = t[1]
        a = bits(t[2], leaf, W)
        if op in ("<<", ">>"):
            s = const(t[3])
            if s is None: return [None] * W
            return ([0] * s + a)[:W] if op == "<<" else (a[s:] + [0] * s)[:W]
        b = bits(t[3], leaf, W)
        out = []
        for x, y in zip(a, b):
            if op == "&": out.append(0 if x == 0 or y == 0 else (y if x == 1 else x if y == 1 else (x if x == y else None)))
            elif op == "|": out.append(1 if x == 1 or y == 1 else (y if x == 0 else x if y == 0 else (x if x == y else None)))
            elif op == "+":
                out.append(y if x == 0 else x if y == 0 else None)
            else: out.append(None)
        return out
    return [None] * W


# ---------------------------------------------------------------- misc
def callers(prog, pred):
    """[(Func, call node)] of every call whose callee satisfies pred(qname)"""
    p = name_pred(pred)
    out = []
    for f in prog.funcs.values():
        for n in func_nodes(f):
            if n[0] == "call" and p(strip_t(n[2])): out.append((f, n))
    return out


def raw_has(f, text):
    """cheap prefilter on the undecoded function record"""
    return text in f.raw


def natural_loops(cfg):
    """[set of node ids] of the natural loops (back edges to dominators), one per header, merged"""
    if hasattr(cfg, "_loops"): return cfg._loops
    order, seen = [], set()
    st = [(cfg.entry, iter([s for s, _, _ in cfg.entry.succ]))]
    seen.add(cfg.entry.nid)
    while st:
        n, it = st[-1]
        for s in it:
            if s.nid not in seen:
                seen.add(s.nid)
                st.append((s, iter([x for x, _, _ in s.succ])))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    num = {n.nid: i for i, n in enumerate(order)}
    preds = {}
    for n in order:
        for s, _, _ in n.succ: preds.setdefault(s.nid, []).append(n)
    idom = {cfg.entry.nid: cfg.entry.nid}

    def meet(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            ps = [p.nid for p in preds.get(n.nid, []) if p.nid in idom]
            d = ps[0]
            for p in ps[1:]: d = meet(d, p)
            if idom.get(n.nid) != d: idom[n.nid] = d; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if idom[b] == b: return False
            b = idom[b]
    loops = {}
    for n in order:
        for s, _, _ in n.succ:
            if num[s.nid] <= num[n.nid] and dom(s.nid, n.nid):
                L = loops.setdefault(s.nid, {s.nid})
                w = [n]
                while w:
                    x = w.pop()
                    if x.nid in L: continue
                    L.add(x.nid)
                    w.extend(preds.get(x.nid, []))
    cfg._loops = list(loops.values())
    return cfg._loops


def loop_heads(cfg):
    """branch nodes that can leave a loop: [(node, body successors, leave successors, ids of the loop's nodes)]"""
    out = []
    loops = sorted(natural_loops(cfg), key=len)
    for n in cfg.nodes():
        if n.kind != "br": continue
        for L in loops:
            if n.nid not in L: continue
            body = [s for s, c, p in n.succ if s.nid in L]
            leave = [s for s, c, p in n.succ if s.nid not in L]
            if body and leave: out.append((n, body, leave, L))
            if leave: break
    return out


def nonfatal(cfg, targets):
    """ids of the nodes from which a target is reachable without a fatal event"""
    preds = {}
    for n in cfg.nodes():
        for s, _, _ in n.succ: preds.setdefault(s.nid, []).append(n)
    out, w = set(), list(targets)
    while w:
        x = w.pop()
        if x.nid in out or is_fatal(x): continue
        out.add(x.nid)
        w.extend(preds.get(x.nid, []))
    return out


def for_each(R, clause, construct, cfg, over, ev, msg, skip_ok=None, every=False):
    """ev happens for every element: there is a loop whose condition mentions `over`, from whose body every way back to the
    condition passes ev, and which is left only through its condition (or fatally).  Recognises range-for, iterator and
    index loops.  skip_ok(node, succ, cond, polarity): edges on which leaving an element out is intended.  every: all such loops
    that contain ev, not just one."""
    R.cfg_used(cfg)
    why, good = None, False
    edge = (lambda n, s, c, p: not skip_ok(n, s, c, p)) if skip_ok else (lambda n, s, c, p: True)
    for n, body, leave, L in loop_heads(cfg):
        cs = [c for _, c, _ in n.succ if c is not None and is_term(c)]
        if not any(over(c) or over(expand(cfg.T, c)) for c in cs): continue
        if not any(m.nid in L and ev(m) for m in cfg.nodes()): continue
        inl = lambda a, s, c, p: edge(a, s, c, p) and s.nid in L
        skip = cfg.search(body, lambda m: m is n, avoid=ev, edge=inl)
        nf = nonfatal(cfg, [cfg.exit, n])
        esc = cfg.search(body, lambda m: m.nid not in L and m.nid in nf, avoid=lambda m: m is n or is_fatal(m), edge=edge)
        if skip is None and esc is None:
            good = True
            if not every: break
        else: why = skip or esc
    if good and (not every or why is None): return R.ob(clause, construct, True, msg)
    return R.ob(clause, construct, False, msg, where=(why[-1].where() if why else cfg.fn.where()), path=path_str(why) if why else None)


# ---------------------------------------------------------------- abstract evaluation over a finite order domain
def subst(t, env):
    """t with the paths bound in env replaced by their values"""
    if not isinstance(t, tuple) or not t: return t
    if t in env: return env[t]
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)


def slice_of(cfg, terms, pred=None):
    """paths (locals, fields) that can flow into the given terms or satisfy pred: closure over the assignments of the function"""
    paths = lambda t: {x for x in subterms(t) if x[0] in ("var", "mem", "param", "glob")} if is_term(t) else set()
    rel = set()
    for t in terms: rel |= paths(t)
    asg = [(n.d.get("lhs") or n.d.get("var"), n.d.get("rhs")) for n in cfg.nodes() if n.kind in ("asg", "init")]
    if pred: rel |= {l for l, _ in asg if pred(l)}
    ch = True
    while ch:
        ch = False
        for l, r in asg:
            if l in rel and not paths(r) <= rel: rel |= paths(r); ch = True
    return rel


def walk(cfg, decide, on=None, env0=(), limit=200000, rel=None):
    """Abstract run of a CFG: locals and fields hold terms, conditions whose atoms `decide` settles (after substitution) are
    followed only where they hold.  on(node, env, value) is called at every visited (node, state).  rel: the paths worth tracking."""
    st = [(cfg.entry, tuple(env0))]
    seen = set()
    while st:
        n, te = st.pop()
        if (n.nid, te) in seen: continue
        seen.add((n.nid, te))
        if len(seen) > limit: raise AnalysisError(f"abstract evaluation of {cfg.fn.q} does not converge")
        env = dict(te)
        val = lambda t: subst(t, env)
        if on: on(n, env, val)
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            op = n.d.get("op", "=")
            if v[0] in ("var", "mem", "glob", "param") and not n.d.get("static") and (rel is None or v in rel):
                r = val(n.d["rhs"]) if n.d.get("rhs") is not None else None
                if op == "=" and r is not None:
                    env[v] = pick(r, decide)
                    if sum(1 for x in subterms(env[v]) if x[0] in ("new", "idx", "bin", "call", "mem")) > 40: env[v] = ("opaque", n.nid)
                else: env[v] = ("opaque", n.nid) if v in env and any(x[0] == "bin" and x[1] == op for x in subterms(env[v])) or env.get(v, v)[0] == "opaque" else ("bin", op, env.get(v, v), r)
                for k in [k for k in env if k != v and k[0] != "var" and v in list(subterms(k))]: del env[k]
        elif n.kind == "call" and n.d["obj"] is not None and n.d["obj"][0] == "var" and last(n.d["q"]) in ("operator++", "operator--", "operator+=", "operator="):
            for k in [k for k in env if k != n.d["obj"] and n.d["obj"] in list(subterms(k))]: del env[k]
        nt = tuple(sorted(env.items(), key=repr))
        for s in live(n, val, decide): st.append((s, nt))


def live(n, val, decide):
    """the successors an abstract run can take"""
    out = []
    for s, c, p in n.succ:
        if c is not None and is_term(c):
            r = truthval(val(c), decide)
            if r is not None and r != p: continue
        out.append(s)
    return out


def truthval(t, decide):
    if t[0] == "default":
        rs = [truthval(("bin", "==", t[1], c), decide) for c in t[2]]
        return False if any(r is True for r in rs) else True if all(r is False for r in rs) else None
    if t[0] == "bin" and t[1] in ("&&", "||"):
        a, b = truthval(t[2], decide), truthval(t[3], decide)
        if t[1] == "&&": return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if t[0] == "un" and t[1] == "!":
        a = truthval(t[2], decide)
        return None if a is None else not a
    if t[0] in ("cond", "?:") and len(t) >= 4:
        c = truthval(t[1], decide)
        if c is not None: return truthval(t[2] if c else t[3], decide)
        a, b = truthval(t[2], decide), truthval(t[3], decide)
        return a if a is not None and a == b else None
    if t[0] == "cast": return truthval(t[-1], decide)
    at, pol = norm_cond(t, True)
    if at[0] in ("nz", "pos"):
        c = const(at[1])
        if c is not None: return (c != 0) == pol
    if at[0] in ("==", "<") and at[1] == at[2]: return (at[0] == "==") == pol
    r = decide(at)
    return None if r is None else r == pol


def pick(t, decide):
    """resolves ?: and std::min/std::max whose outcome `decide` settles"""
    if t[0] in ("cond", "?:") and len(t) >= 4:
        r = truthval(t[1], decide)
        if r is True: return pick(t[2], decide)
        if r is False: return pick(t[3], decide)
    if t[0] == "call" and t[1] in ("std::min", "std::max"):
        a = [x for x in t[3] if is_term(x)]
        if len(a) >= 2:
            x, y = pick(a[0], decide), pick(a[1], decide)
            r = True if x == y else decide(("<", x, y))
            if r is None:
                r2 = decide(("<", y, x))
                if r2 is True: r = False
                elif r2 is False: r = True
            if r is not None: return (x if r else y) if t[1] == "std::min" else (y if r else x)
    return t


def weak_orders(n):
    """all rank vectors of n items (ties allowed)"""
    import itertools
    out = set()
    for v in itertools.product(range(n), repeat=n):
        m = {x: i for i, x in enumerate(sorted(set(v)))}
        out.add(tuple(m[x] for x in v))
    return sorted(out)


def order_oracle(which, ranks):
    """decide(atom) for comparisons between items: which(term) -> index or None"""
    def f(at, ctx=None):
        if at[0] not in ("==", "<"): return None
        a, b = which(at[1]), which(at[2])
        if a is None or b is None: return None
        return ranks[a] == ranks[b] if at[0] == "==" else ranks[a] < ranks[b]
    return f


def min_fold(R, clause, construct, cfg, over, cand, msg, assume=None, edge=None):
    """a minimum over a collection: in the loop whose condition mentions `over`, every element passes a comparison or std::min of
    the candidate value with the accumulator after which the accumulator is no larger than the candidate; nothing else is assigned
    to the accumulator in the loop; returns the accumulators found"""
    R.cfg_used(cfg)
    ok, where = False, cfg.fn.where()
    C = lambda t: cand(t) or cand(expand(cfg.T, t))
    accs = set()
    for n, body, leave, L in loop_heads(cfg):
        cs = [c for _, c, _ in n.succ if c is not None and is_term(c)]
        if not any(over(c) or over(expand(cfg.T, c)) for c in cs): continue
        nodes = [m for m in cfg.nodes() if m.nid in L]

        def ismin(m):
            if m.kind != "asg" or m.d["op"] != "=": return None
            r = m.d["rhs"]
            if r[0] == "call" and last(r[1]) == "min" and any(C(x) for x in subterms(r)) and m.d["lhs"] in list(subterms(r)): return m.d["lhs"]
            if r[0] in ("cond", "?:") and m.d["lhs"] in (r[2], r[3]) and any(C(x) for x in (r[2], r[3])): return m.d["lhs"]
            if C(r) and not m.d["lhs"] in list(subterms(r)): return m.d["lhs"]
            return None

        for acc in {ismin(m) for m in nodes} - {None}:
            def notless(a, s, c, p):          # edge on which acc <= cand is known
                if c is None or not is_term(c): return False
                at, pol = norm_cond(c, p)
                if at[0] == "<":
                    if C(at[1]) and at[2] == acc and not pol: return True
                    if at[1] == acc and C(at[2]) and pol: return True
                return False

            def isless(a, s, c, p):           # edge on which cand < acc (or <=) is known
                if c is None or not is_term(c): return False
                at, pol = norm_cond(c, p)
                if at[0] == "<":
                    if C(at[1]) and at[2] == acc and pol: return True
                    if at[1] == acc and C(at[2]) and not pol: return True
                return False
            upd = lambda m: ismin(m) == acc
            skip = cfg.search(body, lambda m: m is n, avoid=upd, edge=lambda a, s, c, p: s.nid in L and not notless(a, s, c, p) and (edge is None or edge(a, s, c, p)))
            wrong = None
            for m in nodes:
                if m.kind == "asg" and m.d["lhs"] == acc and not upd(m): wrong = wrong or m
                if upd(m) and C(m.d["rhs"]):
                    g = cfg.search(body, lambda x, m=m: x is m, edge=lambda a, s, c, p: s.nid in L and not isless(a, s, c, p))
                    if g is not None: wrong = wrong or m
                if upd(m) and m.d["rhs"][0] in ("cond", "?:"):
                    at, pol = norm_cond(m.d["rhs"][1], True)
                    x = m.d["rhs"][2] if pol else m.d["rhs"][3]
                    good = at[0] == "<" and (C(at[1]) and at[2] == acc and C(x) or at[1] == acc and C(at[2]) and x == acc)
                    if not good: wrong = wrong or m
            nf = nonfatal(cfg, [cfg.exit, n])
            esc = cfg.search(body, lambda m: m.nid not in L and m.nid in nf, avoid=lambda m: m is n or is_fatal(m), edge=lambda a, s, c, p: edge is None or edge(a, s, c, p))
            if skip is None and wrong is None and esc is None: ok = True; accs.add(acc)
            else:
                where = (wrong or (skip or esc)[-1]).where()
    R.ob(clause, construct, ok, msg, where=where)
    return accs


def root_rets(g): return [n for n in g.nodes() if n.kind == "ret" and n.ctx is g.entry.ctx]


# ---------------------------------------------------------------- evaluation of a function for a decided configuration
class Outcome:
    """what the abstract runs of a function can do: the values returned by its own returns, whether it can end normally or fatally,
    and its events (node, substitution)"""
    def __init__(self): self.rets, self.events, self.fatal, self.done = [], [], False, False

    def calls(self, name): return [(n, v) for n, v in self.events if n.kind == "call" and last(n.d["q"]) == name]

    def args(self, name): return [tuple(v(a) for a in n.d["args"]) for n, v in self.calls(name)]


def evaluate(R, g, decide, rel=None):
    o = Outcome()
    R.cfg_used(g)

    def on(n, env, val):
        if is_fatal(n): o.fatal = True
        if n is g.exit: o.done = True
        if n.kind == "ret" and n.ctx is g.entry.ctx and n.d["val"] is not None: o.rets.append((n, pick(val(n.d["val"]), decide)))
        if n.kind in ("call", "asg", "init", "ctor", "new", "delete", "icall"):
            e = dict(env)
            o.events.append((n, lambda t, e=e: subst(t, e)))
    walk(g, decide, on, rel=rel)
    return o


def has_key(cont, val, key=None):
    """decides the look-ups in a container (predicate on its term): find/count/contains/end comparisons"""
    def atoms(at, ctx=None):
        xs = [x for x in at[1:] if is_term(x)]
        mine = lambda x, names: x[0] == "call" and last(x[1]) in names and x[2] is not None and cont(x[2]) and (key is None or last(x[1]) in ("end", "cend") or any(key(a) for a in x[3]))
        if at[0] == "==":
            if any(mine(x, ("end", "cend")) for x in xs): return not val
            for x, y in ((xs[0], xs[-1]), (xs[-1], xs[0])):
                if mine(x, ("count",)) and const(y) in (0, 1): return val == bool(const(y))
        if at[0] in ("nz", "pos"):
            x = xs[0]
            if mine(x, ("count", "contains")): return val
            if x[0] == "call" and last(x[1]) in ("operator==", "operator!="):
                ys = [y for y in ((x[2],) + tuple(x[3])) if is_term(y)]
                if any(mine(y, ("end", "cend")) for y in ys): return val == (last(x[1]) == "operator!=")
        if at[0] == "<" and const(xs[0]) == 0 and mine(xs[1], ("count",)): return val
        return None
    return atoms


def table(*preds):
    """an oracle that asks each predicate in turn"""
    def dec(at, ctx=None):
        for p in preds:
            r = p(at)
            if r is not None: return r
        return None
    return dec


def fold(t, leaf):
    """integer value of a term whose leaves are valued by leaf(t) -> int or None"""
    v = leaf(t)
    if v is not None: return int(v)
    c = const(t)
    if c is not None: return c
    k = t[0]
    if k == "cast": return fold(t[-1], leaf)
    if k == "un":
        a = fold(t[2], leaf) if is_term(t[2]) else None
        if a is None: return None
        return {"!": int(not a), "-": -a, "~": ~a, "+": a}.get(t[1])
    if k in ("cond", "?:") and len(t) >= 4:
        c = fold(t[1], leaf)
        return None if c is None else fold(t[2] if c else t[3], leaf)
    if k == "bin":
        op = t[1]
        a, b = fold(t[2], leaf), fold(t[3], leaf)
        if op == "&&": return 0 if a == 0 or b == 0 else (1 if a is not None and b is not None else None)
        if op == "||": return 1 if a not in (None, 0) or b not in (None, 0) else (0 if a == 0 and b == 0 else None)
        if op in ("&", "*", "&=", "*=") and (a == 0 or b == 0): return 0
        if a is None or b is None: return None
        if op not in ("==", "!=", "<=", ">=") and op.endswith("="): op = op[:-1]
        try:
            return {"|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b,
                    "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}[op]()
        except (KeyError, ZeroDivisionError, ValueError): return None
    return None


def valued(leaf):
    """an oracle that decides every comparison whose sides have values"""
    def dec(at, ctx=None):
        xs = [fold(x, leaf) for x in at[1:] if is_term(x)]
        if not xs or None in xs: return None
        if at[0] in ("nz", "pos"): return xs[0] != 0 if at[0] == "nz" else xs[0] > 0
        if at[0] == "==": return xs[0] == xs[1]
        if at[0] == "<": return xs[0] < xs[1]
        return None
    return dec


class Run:
    """one abstract path: where it stopped, the values of variables there, the events on it"""
    def __init__(self, node, env, events): self.node, self.env, self.events = node, env, events
    def value(self, v): return self.env.get(v)
    def calls(self, *names): return [(n, v) for n, v in self.events if n.kind == "call" and last(n.d["q"]) in names]
    def fatal(self): return any(is_fatal(n) for n, _ in self.events)
    def ret(self):
        for n, v in self.events:
            if n.kind == "ret" and n.d["val"] is not None: return v(n.d["val"])
        return None


def runs(g, starts, stop, decide=None, env=(), limit=60000, opaque=None, track=()):
    """abstract paths from the start nodes up to (not into) a node where stop(n) holds or an exit; loops on the way run at most twice.
    track: further kinds of terms (deref) whose assigned values are followed"""
    decide = decide or (lambda at, ctx=None: None)
    out, st, steps = [], [(s, dict(env), (), {}) for s in starts], 0
    while st:
        n, en, evs, seen = st.pop()
        steps += 1
        if steps > limit: raise AnalysisError(f"too many abstract paths in {g.fn.q}")
        if stop(n) or n is g.exit:
            out.append(Run(n, en, evs))
            continue
        val = lambda t, e=en: subst(t, e)
        if n.kind in ("call", "asg", "init", "ctor", "new", "delete", "icall", "throw", "ret", "br"): evs = evs + ((n, val),)
        new = en
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if (v[0] in ("var", "mem", "glob", "param") or v[0] in track) and n.d.get("rhs") is not None:
                op, r = n.d.get("op", "="), val(n.d["rhs"])
                new = dict(en)
                for k in [k for k in new if k != v and v in list(subterms(k))]: del new[k]
                if opaque is not None and opaque(r): r = v
                new[v] = pick(r, decide) if op == "=" else ("bin", {"++": "+", "--": "-"}.get(op, op[:-1] if op.endswith("=") else op), en.get(v, v), r)
        elif n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and n.d["obj"][0] == "var" and len(n.d["args"]) == 1:
            new = dict(en)
            for k in [k for k in new if k != n.d["obj"] and n.d["obj"] in list(subterms(k))]: del new[k]
            new[n.d["obj"]] = pick(val(n.d["args"][0]), decide)
        if is_fatal(n):
            out.append(Run(n, new, evs))
            continue
        if seen.get(n.nid, 0) >= 2: continue
        seen = dict(seen)
        seen[n.nid] = seen.get(n.nid, 0) + 1
        for s in live(n, val, decide): st.append((s, new, evs, seen))
    return out
