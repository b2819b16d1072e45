"""Terms, interprocedural control-flow graphs and path queries over the extracted program."""
import itertools, re
from collections import deque
from .model import strip_t, AnalysisError

FORWARDING = re.compile(r"std::.*(emplace\w*|make_pair|make_tuple|make_unique|make_shared|forward|min|max|forward_as_tuple|get)$")


# ------------------------------------------------------------------------------------------------ AST walking
def kids(n):
    """child nodes of an AST node"""
    for x in n[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) > 1 and (isinstance(x[1], int)):
                yield x
            else:
                yield from kids2(x)


def kids2(l):
    for x in l:
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int):
                yield x
            else:
                yield from kids2(x)


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        st.extend(reversed(list(kids(x))))


def func_nodes(fn):
    """all AST nodes of a function: constructor initialisers, then body"""
    d = fn.d
    for i in d.get("inits", ()):
        if i[3] is not None: yield from walk(i[3])
    if d["body"] is not None: yield from walk(d["body"])


class FInfo:
    """per-function facts: which locals are reassigned, initialisers, callees"""
    __slots__ = ("assigned", "inits", "callees", "names", "types", "decomp", "rfor")

    def __init__(self, fn):
        self.assigned, self.inits, self.callees, self.names, self.types = set(), {}, set(), {}, {}
        self.decomp, self.rfor = {}, {}
        for p in fn.params:
            self.names[p[0]] = p[1]; self.types[p[0]] = p[2]
        skip = set()
        for n in func_nodes(fn):
            k = n[0]
            if k == "call" and FORWARDING.match(n[2]):
                # perfect forwarding of an lvalue to a constructor: not an assignment
                for a in n[5]:
                    if a[0] == "byref": skip.add(id(a))
            if k == "var":
                self.names[n[2]] = n[3]; self.types[n[2]] = n[4]
                if n[6] == "decomp":
                    for i, b in enumerate(n[7]):
                        self.names[b[0]] = b[1]; self.types[b[0]] = b[2]
                        self.decomp[b[0]] = (n[5], i, _pair(n[4]))
                        if n[5] is None: self.rfor.setdefault(b[0], n[2])
                elif n[5] is not None:
                    self.inits[n[2]] = n[5]
            elif k == "asg":
                self._mark(n[3])
            elif k == "un" and n[2] in ("++", "--", "p++", "p--", "&"):
                if n[2] == "&":
                    self._mark(n[3])
                else:
                    self._mark(n[3])
            elif k == "byref":
                if id(n) not in skip: self._mark(n[2])
            elif k == "call":
                self.callees.add(n[3])
                if "m" in n[7] and n[4] is not None and n[4][0] == "ref":
                    # mutating member call on a local object
                    t = n[4]
                    if t[2] in ("var", "param"): self.assigned.add(("m", t[4]))
                    if n[2].endswith(("operator=", "operator++", "operator--", "operator+=")): self._mark(t)
            elif k == "ctor":
                self.callees.add(n[3])
            elif k == "lambda":
                for c in n[3]:
                    if c[0] == "ref" and c[1] and c[1][0] == "ref": pass
            elif k == "rfor":
                if n[2] is not None:
                    self.rfor[n[2][2]] = n[3]
                    if n[2][6] == "decomp":
                        for i, b in enumerate(n[2][7]): self.decomp[b[0]] = (["elem", n[1], n[3]], i, _pair(n[2][4]))

    def _mark(self, t):
        while t and t[0] in ("byref",): t = t[2]
        if t and t[0] == "cond":
            self._mark(t[3]); self._mark(t[4]); return
        if t and t[0] == "ref" and t[2] in ("var", "param"):
            self.assigned.add(t[4])


def _pair(t):
    while t.startswith("const "): t = t[6:]
    return t.startswith("std::pair<")


def info(fn):
    if fn._info is None: fn._info = FInfo(fn)
    return fn._info


# ------------------------------------------------------------------------------------------------ terms
class Ctx:
    _n = itertools.count()

    def __init__(self, fn, this, env, parent=None, site=None, lam=None):
        self.fn, self.this, self.env, self.parent, self.site, self.lam = fn, this, env, parent, site, lam
        self.cid = next(Ctx._n)
        self.chain = (parent.chain if parent else ()) + ((fn.id if lam is None else lam),)
        self.memo = {}
        self.busy = set()
        self.outer = None   # defining context of a lambda

    def depth(self): return len(self.chain)


def is_term(x): return isinstance(x, tuple)


OPS_SMART = ("operator->", "operator*", "operator bool")


class Terms:
    def __init__(self, prog, opaque=(), keep=False):
        self.prog = prog
        self.keep = keep           # locals stay variables (for flow-sensitive evaluation)
        self.getter_memo = {}
        self.lambdas = {}          # key -> (node, ctx)
        self.nogetter = set(opaque)  # sq names never expanded

    def local(self, ctx, lid, name):
        c = ctx
        if lid in c.env: return c.env[lid]
        fi = info(c.fn)
        if lid in ctx.memo: return ctx.memo[lid]
        v = ("var", ctx.cid, lid, name)
        if lid in ctx.busy: return v
        ctx.busy.add(lid)
        try:
            r = v
            ty = fi.types.get(lid, "")
            if lid in fi.decomp:
                base, i, pr = fi.decomp[lid]
                r = v if base is None else ("mem", self.term(base, ctx), "std::pair::" + ("first", "second")[i]) if pr and i < 2 else ("proj", self.term(base, ctx), i)
            elif lid in fi.rfor:
                b = fi.rfor[lid]
                r = ("elem", self.term(b, ctx) if isinstance(b, list) else v, ctx.cid, lid)
                if lid in fi.assigned: r = v
            elif lid in fi.inits and (lid not in fi.assigned or ty.endswith("&")):
                t = self.term(fi.inits[lid], ctx)
                if ty.endswith("&") or not self.keep and self.pure(t):
                    r = t
                    if t[0] in ("ctor", "init", "new"): r = v
            ctx.memo[lid] = r
            return r
        finally:
            ctx.busy.discard(lid)

    def definition(self, t):
        """term of the initialiser of an opaque local, if any"""
        if t[0] == "var":
            ctx = self.ctxs.get(t[1])
            if ctx:
                fi = info(ctx.fn)
                if t[2] in fi.inits: return self.term(fi.inits[t[2]], ctx)
        return None

    ctxs = {}

    def pure(self, t):
        """term whose value is a path or an expression over paths and const getters"""
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple): continue
            if x and x[0] == "call":
                if "m" in x[-1] if isinstance(x[-1], str) else False: return False
                if x[1] in ("nlohmann::basic_json::object", "nlohmann::basic_json::array"): return False
                if x[1].rsplit("::", 1)[-1] in ("pop", "receive", "front", "make_unique", "make_shared", "malloc", "calloc"): return False
            if x and x[0] in ("icall", "new", "throw"): return False
            st.extend(y for y in x if isinstance(y, tuple))
        return True

    def getter(self, fn):
        """expression node if the function is `return <expr>;` with a side-effect-free expression"""
        if fn.id in self.getter_memo: return self.getter_memo[fn.id]
        self.getter_memo[fn.id] = None
        b = fn.d["body"]
        r = None
        if b and b[0] == "seq" and len(b[2]) == 1 and b[2][0][0] == "ret" and b[2][0][2] is not None and not fn.d.get("virt"):
            e = b[2][0][2]
            ok = True
            for n in walk(e):
                if n[0] in ("asg", "new", "delete", "throw", "lambda", "icall", "stmtexpr"): ok = False; break
                if n[0] == "un" and n[2] in ("++", "--", "p++", "p--"): ok = False; break
                if n[0] == "call" and ("v" in n[7] or "n" in n[7]): ok = False; break
                if n[0] == "call" and "m" in n[7] and n[3] not in self.prog.funcs: pass
            if ok: r = e
        self.getter_memo[fn.id] = r
        return r

    def term(self, e, ctx):
        if e is None: return ("none",)
        k = e[0]
        if k == "ref":
            rk = e[2]
            if rk in ("var", "param"): return self.local(ctx, e[4], e[3])
            if rk == "enum": return ("enum", e[3], e[4])
            if rk == "global":
                return ("glob", e[3], e[4])
            if rk == "fn": return ("fn", e[3], e[4])
            return ("other", e[3])
        if k == "mem":
            nm = fname(e[3])
            b = self.term(e[2], ctx)
            return b if nm is None else mem(b, nm)
        if k == "this": return ctx.this
        if k == "byref": return self.term(e[2], ctx)
        if k == "lit":
            return ("lit", {"true": "1", "false": "0"}.get(e[2], e[2]) if e[3] == "bool" else e[2])
        if k == "str": return ("str", e[2])
        if k == "cast":
            if e[2] == "dynamic": return ("dyncast", e[3], self.term(e[4], ctx))
            return self.term(e[4], ctx)
        if k == "un":
            t = self.term(e[3], ctx)
            if e[2] == "*": return deref(t)
            if e[2] == "&": return addr(t)
            if e[2] == "+": return t
            return ("un", e[2], t)
        if k == "bin":
            return ("bin", e[2], self.term(e[3], ctx), self.term(e[4], ctx))
        if k == "asg": return ("asg", e[2], self.term(e[3], ctx), self.term(e[4], ctx))
        if k == "cond": return ("cond", self.term(e[2], ctx), self.term(e[3], ctx), self.term(e[4], ctx))
        if k == "idx": return ("idx", self.term(e[2], ctx), self.term(e[3], ctx))
        if k == "call": return self.call_term(e, ctx)
        if k == "icall": return ("icall", self.term(e[2], ctx), tuple(self.term(a, ctx) for a in e[3]))
        if k == "ctor":
            args = tuple(self.term(a, ctx) for a in e[4])
            if e[6] == "c" and len(args) == 1: return args[0]
            return ("ctor", strip_t(e[2]), args)
        if k == "new": return ("new", strip_t(e[2]), self.term(e[3], ctx) if e[3] else ("none",), e[1]) + ((self.term(e[4], ctx),) if len(e) > 4 and e[4] else ())
        if k == "init": return ("init", tuple(self.term(a, ctx) for a in e[3]))
        if k == "sizeof": return ("sizeof", e[2])
        if k == "lambda":
            key = (e[2], ctx.cid)
            self.lambdas[key] = (e, ctx)
            return ("lambda", e[2], ctx.cid)
        if k == "typeid": return ("typeid", e[2])
        if k == "elem": return ("elem", self.term(e[2], ctx), ctx.cid, -1)
        if k == "other": return ("other", e[2], tuple(self.term(a, ctx) for a in e[3] if a is not None))
        if k in ("throw", "delete"): return (k,)
        if k == "stmtexpr": return ("stmtexpr",)
        return (k,)

    def call_term(self, e, ctx):
        q = strip_t(e[2])
        obj = self.term(e[4], ctx) if e[4] is not None else None
        args = tuple(self.term(a, ctx) for a in e[5])
        last = q.rsplit("::", 1)[-1]
        if last == "operator->" and obj is not None and not args: return obj
        if last == "operator*" and obj is not None and not args: return deref(obj)
        if last == "operator bool" and obj is not None: return obj
        if last == "get" and obj is not None and not args and q.startswith("std::"): return obj
        if q == "__builtin_expect" and args: return args[0]
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::addressof") and len(args) == 1:
            return args[0]
        if last in ("operator[]", "at") and obj is not None and len(args) == 1: return ("idx", obj, args[0])
        if q in ("std::get",) : return ("call", q, None, args, e[6])
        if last.startswith("operator") and last in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=",
                                                    "operator+", "operator-", "operator/", "operator&", "operator|"):
            if obj is not None and len(args) == 1: return ("bin", last[8:], obj, args[0])
            if obj is None and len(args) == 2: return ("bin", last[8:], args[0], args[1])
        fn = self.prog.funcs.get(e[3])
        if fn is not None and "v" not in e[7] and q not in self.nogetter and ctx.depth() < 12 and fn.id not in ctx.chain:
            g = self.getter(fn)
            if g is not None:
                sub = self.bind(fn, ctx, obj, e[5], e)
                return self.term(g, sub)
        # conversion operator of atomics etc.
        if last.startswith("operator ") and obj is not None and not args: return obj
        if q.startswith("std::") and last in ("load",) and obj is not None: return obj
        return ("call", q, obj, args, e[7])

    def bind(self, fn, ctx, obj, argnodes, site, lam=None):
        env = {}
        fi = info(fn)
        ps = fn.params
        for i, p in enumerate(ps):
            if i < len(argnodes):
                # a by-value parameter that the callee modifies stays opaque
                ty = p[2]
                if p[0] in fi.assigned and not ty.endswith("&"): continue
                env[p[0]] = self.term(argnodes[i], ctx)
        c = Ctx(fn, obj if obj is not None else ("nothis",), env, ctx, site)
        Terms.ctxs[c.cid] = c
        return c

    def root(self, fn):
        env = {}
        c = Ctx(fn, ("this",), env)
        for p in fn.params: env[p[0]] = ("param", p[1], p[0])
        for p in fn.params:
            if p[0] in info(fn).assigned and not p[2].endswith("&"): env.pop(p[0])
        Terms.ctxs[c.cid] = c
        return c


def fname(q):
    """field name without template arguments and anonymous records; None for the anonymous record member itself"""
    if "(anonymous" in q:
        if re.search(r"\(anonymous [a-z]+ at [^)]*\)$", q): return None
        q = re.sub(r"\(anonymous [a-z]+( at [^)]*)?\)::", "", q)
    return strip_t(q)


def mem(b, f):
    if b[0] == "addr": b = b[1]
    if b[0] == "deref": b = b[1]
    return ("mem", b, f)


def deref(t):
    if t[0] == "addr": return t[1]
    return ("deref", t)


def addr(t):
    if t[0] == "deref": return t[1]
    return ("addr", t)


def field(t):
    """last field name of a path term"""
    while t and t[0] in ("deref", "addr", "idx", "dyncast"):
        t = t[2] if t[0] == "dyncast" else t[1]
    return t[2] if t and t[0] == "mem" else None


def fields_in(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] == "mem": out.add(x[2])
            st.extend(x)
    return out


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): yield x
            st.extend(x)


def calls_in(t):
    return {x[1] for x in subterms(t) if x[0] == "call"}


def globs_in(t):
    return {x[1] for x in subterms(t) if x[0] == "glob"}


def show(t):
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if k == "this": return "this"
    if k == "var": return t[3]
    if k == "param": return t[1]
    if k == "mem": return (show(t[1]) + "." if t[1] != ("this",) else "") + t[2].rsplit("::", 1)[-1]
    if k in ("glob", "enum", "fn"): return t[1].rsplit("::", 1)[-1]
    if k == "lit": return str(t[1])
    if k == "str": return '"' + t[1][:30] + '"'
    if k == "bin": return f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "un": return t[1] + show(t[2])
    if k == "deref": return "*" + show(t[1])
    if k == "addr": return "&" + show(t[1])
    if k == "idx": return f"{show(t[1])}[{show(t[2])}]"
    if k == "call":
        return (show(t[2]) + "." if t[2] else "") + t[1].rsplit("::", 1)[-1] + "(" + ", ".join(show(a) for a in t[3]) + ")"
    if k == "cond": return f"({show(t[1])} ? {show(t[2])} : {show(t[3])})"
    if k == "elem": return f"each({show(t[1])})"
    if k == "proj": return f"{show(t[1])}.{t[2]}"
    if k == "dyncast": return f"dynamic_cast<{t[1]}>({show(t[2])})"
    if k == "new": return f"new {t[1]}" + (f"[{show(t[4])}]" if len(t) > 4 else "")
    if k == "asg": return f"{show(t[2])} {t[1]} {show(t[3])}"
    if k == "ctor": return t[1].rsplit("::", 1)[-1] + "(" + ", ".join(show(a) for a in t[2]) + ")"
    return k


# normalised atoms -------------------------------------------------------------------------------
_NEG = {"!=": "==", ">=": "<", "<=": ">"}
ZERO = (("lit", "0"), ("lit", "nullptr"))


def norm_cond(t, pol):
    """(atom, polarity): strips negations, maps !=, >=, <=, > and null comparisons to canonical atoms.
       atoms: ('==',a,b) with a<=b textually, ('<',a,b), ('nz',a)"""
    while True:
        if t[0] == "un" and t[1] == "!":
            t, pol = t[2], not pol
            continue
        if t[0] == "bin" and t[1] in ("==", "!=", "<", ">", "<=", ">="):
            op, a, b = t[1], t[2], t[3]
            if op in ("!=",): op, pol = "==", not pol
            elif op == ">=": op, pol = "<", not pol
            elif op == "<=": op, pol = ">", not pol
            if op == ">": op, a, b = "<", b, a
            if op == "==":
                for x, y in ((a, b), (b, a)):
                    if y in ZERO: 
                        t, pol = x, not pol
                        break
                    if y == ("lit", "1") and x[0] == "bin" and x[1] in ("==", "!=", "<", ">"):
                        t = x
                        break
                else:
                    if repr(b) < repr(a): a, b = b, a
                    return ("==", a, b), pol
                continue
            if op == "<" and a in ZERO: 
                # 0 < x for unsigned values is x != 0
                return ("pos", b), pol
            return ("<", a, b), pol
        if t[0] in ("==", "<", "nz", "pos"): return t, pol
        return ("nz", t), pol


# ------------------------------------------------------------------------------------------------ CFG
class Node:
    __slots__ = ("kind", "d", "succ", "line", "ctx", "nid")
    _n = itertools.count()

    def __init__(self, kind, d, succ, line, ctx):
        self.kind, self.d, self.succ, self.line, self.ctx = kind, d, succ, line, ctx
        self.nid = next(Node._n)

    @property
    def fn(self): return self.ctx.fn
    def where(self): return f"{self.ctx.fn.rel}:{self.line}"
    def __repr__(self): return f"<{self.kind} {self.d if self.kind!='br' else ''} @{self.line}>"


RAII = re.compile(r"std::(lock_guard|scoped_lock|unique_lock|shared_lock)<")


class CFG:
    """interprocedural CFG of `fn`.  Callees chosen by policy(fnlist, callnode, ctx) are expanded in place."""

    def __init__(self, prog, fn, inline=None, assume=None, reads=False, maxdepth=8, raii=RAII, terms=None, limit=400000,
                 call_lambdas=True, this=None, boolret=False, exact=False):
        self.prog, self.fn = prog, fn
        self.T = terms or Terms(prog)
        self.inline = inline or (lambda f, e, c: False)
        self.assume = assume or (lambda atom, ctx: None)
        self.reads, self.maxdepth, self.raii, self.limit = reads, maxdepth, raii, limit
        self.call_lambdas = call_lambdas
        # exact: virtual calls on `this` resolve as for an object of exactly the class of fn
        self.exact, self.ctx0_class = exact, fn.d.get("clst") or fn.d.get("cls")
        self.count = 0
        self._tracked = self._kill = None
        self.functions = set()
        self.ctx = self.T.root(fn)
        if this is not None: self.ctx.this = this
        self.exit = self.N("exit", None, [], fn.d["el"], self.ctx)
        self.exc = self.N("exc", None, [], fn.d["el"], self.ctx)
        b = fn.d["body"]
        self.functions.add(fn.id)
        j0 = J(ret=self.exit, handler=self.exc)
        if boolret:
            # the two results of a bool function become two distinct sinks
            self.tnode = self.N("rtrue", None, [], fn.d["el"], self.ctx)
            self.fnode = self.N("rfalse", None, [], fn.d["el"], self.ctx)
            j0.rsplit = (self.tnode, self.fnode)
        entry = self.S(b, self.exit, j0, self.ctx)
        for i in reversed(fn.d.get("inits", ())):
            entry = self.ctor_init(i, entry, self.ctx, J(ret=self.exit, handler=self.exc))
        self.entry = entry

    def N(self, kind, d, succ, line, ctx):
        self.count += 1
        if self.count > self.limit: raise AnalysisError(f"control-flow graph of {self.fn.q} exceeds {self.limit} nodes")
        return Node(kind, d, succ, line, ctx)

    def ev(self, kind, d, k, line, ctx):
        return self.N(kind, d, [(k, None, True)], line, ctx)

    def ctor_init(self, i, k, ctx, j):
        kind, name, written, e = i
        if kind == "m":
            n = self.ev("asg", {"lhs": mem(ctx.this, fname(name) or "?"), "op": "=", "rhs": self.T.term(e, ctx) if e else ("none",), "init": True},
                        k, ctx.fn.line, ctx)
            return self.E(e, n, j, ctx) if e else n
        return self.E(e, k, j, ctx) if e else k

    # statements: returns the entry node given continuation k
    def S(self, s, k, j, ctx):
        if s is None: return k
        t = s[0]
        m = getattr(self, "s_" + t, None)
        if m: return m(s, k, j, ctx)
        return self.E(s, k, j, ctx)

    def s_null(self, s, k, j, ctx): return k

    def s_seq(self, s, k, j, ctx): return self.seq(s[2], k, j, ctx)

    def seq(self, l, k, j, ctx):
        # split at RAII declarations so that their scope exits are explicit
        for i, st in enumerate(l):
            if st and st[0] == "decl":
                for v in st[2]:
                    if v[0] == "var" and self.raii.search(v[4]) and not v[4].endswith(("&", "*")):
                        vt = ("var", ctx.cid, v[2], v[3])
                        def w(x, st=st, vt=vt): return self.ev("scope", {"var": vt}, x, st[1], ctx) if x is not None else None
                        j2 = J(brk=w(j.brk), cont=w(j.cont), ret=w(j.ret), handler=w(j.handler))
                        if j.rsplit: j2.rsplit = (w(j.rsplit[0]), w(j.rsplit[1]))
                        rest = self.seq(l[i + 1:], w(k), j2, ctx)
                        head = self.S(st, rest, j, ctx)
                        for p in reversed(l[:i]): head = self.S(p, head, j, ctx)
                        return head
        for st in reversed(l): k = self.S(st, k, j, ctx)
        return k

    def s_decl(self, s, k, j, ctx):
        for v in reversed(s[2]): k = self.var(v, k, j, ctx)
        return k

    def var(self, v, k, j, ctx):
        vt = ("var", ctx.cid, v[2], v[3])
        if v[6] == "static":
            pass
        if v[5] is None:
            return self.ev("decl", {"var": vt, "type": v[4]}, k, v[1], ctx)
        n = self.ev("init", {"var": vt, "rhs": self.T.term(v[5], ctx), "type": v[4], "static": v[6] == "static"}, k, v[1], ctx)
        return self.E(v[5], n, j, ctx)

    def s_var(self, v, k, j, ctx): return self.var(v, k, j, ctx)

    def s_if(self, s, k, j, ctx):
        a = self.S(s[5], k, j, ctx)
        b = self.S(s[6], k, j, ctx) if s[6] is not None else k
        n = self.C(s[4], a, b, j, ctx)
        if s[3] is not None: n = self.var(s[3], n, j, ctx)
        if s[2] is not None: n = self.S(s[2], n, j, ctx)
        return n

    def s_while(self, s, k, j, ctx):
        head = self.N("loop", None, [], s[1], ctx)
        body = self.S(s[4], head, j.loop(k, head), ctx)
        n = self.C(s[3], body, k, j, ctx)
        if s[2] is not None: n = self.var(s[2], n, j, ctx)
        head.succ = [(n, None, True)]
        return head

    def s_do(self, s, k, j, ctx):
        head = self.N("loop", None, [], s[1], ctx)
        c = self.C(s[3], head, k, j, ctx)
        head.succ = [(self.S(s[2], c, j.loop(k, c), ctx), None, True)]
        return head

    def s_for(self, s, k, j, ctx):
        head = self.N("loop", None, [], s[1], ctx)
        inc = self.E(s[4], head, j, ctx) if s[4] is not None else head
        if inc is head: inc = self.ev("nop", None, head, s[1], ctx)
        body = self.S(s[5], inc, j.loop(k, inc), ctx)
        n = self.C(s[3], body, k, j, ctx) if s[3] is not None else body
        head.succ = [(n, None, True)]
        return self.S(s[2], head, j, ctx) if s[2] is not None else head

    def s_rfor(self, s, k, j, ctx):
        head = self.N("br", ("more", self.T.term(s[3], ctx)), [], s[1], ctx)
        body = self.S(s[4], head, j.loop(k, head), ctx)
        t = ("more", self.T.term(s[3], ctx), ctx.cid, s[1])
        head.succ = [(body, t, True), (k, t, False)]
        return self.E(s[3], head, j, ctx)

    def s_switch(self, s, k, j, ctx):
        c = self.T.term(s[4], ctx)
        items = []   # (labels, stmt)
        body = s[5][2] if s[5] and s[5][0] == "seq" else [s[5]]
        for st in body:
            labels = []
            while st is not None and st[0] in ("case", "default"):
                if st[0] == "case":
                    labels.append(self.T.term(st[2], ctx)); st = st[3]
                else:
                    labels.append("default"); st = st[2]
            items.append((labels, st))
        jj = J(brk=k, cont=j.cont, ret=j.ret, handler=j.handler); jj.rsplit = j.rsplit
        nxt = k
        targets = []
        for labels, st in reversed(items):
            nxt = self.S(st, nxt, jj, ctx)
            for l in labels: targets.append((l, nxt))
        targets.reverse()
        n = self.N("br", ("switch", c), [], s[1], ctx)
        vals = [l for l, _ in targets if l != "default"]
        decided = None
        for l, tgt in targets:
            if l == "default": continue
            a = self.asm(norm_cond(("bin", "==", c, l), True)[0], ctx)
            if a is None:
                cv = const(("bin", "==", c, l))
                a = None if cv is None else bool(cv)
            else:
                at, pol = norm_cond(("bin", "==", c, l), True)
                a = a if pol else not a
            if a is True: decided = tgt; break
            if a is False: continue
            n.succ.append((tgt, ("bin", "==", c, l), True))
        if decided is not None:
            n.succ = [(decided, None, True)]
        else:
            d = [t for l, t in targets if l == "default"]
            n.succ.append((d[0] if d else k, ("default", c, tuple(vals)), True))
        r = n
        if s[3] is not None: r = self.var(s[3], r, j, ctx)
        r = self.E(s[4], r, j, ctx)
        if s[2] is not None: r = self.S(s[2], r, j, ctx)
        return r

    def s_case(self, s, k, j, ctx): return self.S(s[3], k, j, ctx)
    def s_default(self, s, k, j, ctx): return self.S(s[2], k, j, ctx)
    def s_break(self, s, k, j, ctx): return j.brk if j.brk is not None else k
    def s_continue(self, s, k, j, ctx): return j.cont if j.cont is not None else k

    def s_ret(self, s, k, j, ctx):
        if j.rsplit and s[2] is not None:
            return self.C(s[2], j.rsplit[0], j.rsplit[1], j, ctx)
        tgt = j.ret
        n = self.ev("ret", {"val": self.T.term(s[2], ctx) if s[2] is not None else None}, tgt, s[1], ctx)
        return self.E(s[2], n, j, ctx) if s[2] is not None else n

    def s_try(self, s, k, j, ctx):
        hs = [self.S(h[1], k, j, ctx) for h in s[3]]
        if not hs: return self.S(s[2], k, j, ctx)
        hn = self.N("br", ("catch",), [(h, ("catch", i), True) for i, h in enumerate(hs)], s[1], ctx)
        j2 = J(brk=j.brk, cont=j.cont, ret=j.ret, handler=hn); j2.rsplit = j.rsplit
        b = self.S(s[2], k, j2, ctx)
        return self.N("br", ("try",), [(b, ("try",), True), (hn, ("try",), False)], s[1], ctx)

    def s_label(self, s, k, j, ctx): return self.S(s[3], k, j, ctx)
    def s_goto(self, s, k, j, ctx): return k

    # conditions
    def asm(self, at, ctx):
        """what the assumptions say about an atom; a local that is assigned once stands for its initialiser"""
        a = self.assume(at, ctx)
        if a is None and at[0] == "nz" and at[1][0] == "var":
            v = at[1]
            d = self.T.definition(v)
            if d is not None and d != v and v[2] not in info(self.T.ctxs[v[1]].fn).assigned: a = self.tval(d, ctx, 0)
        return a

    def tval(self, t, ctx, depth):
        if depth > 6: return None
        if t[0] == "un" and t[1] == "!":
            a = self.tval(t[2], ctx, depth + 1)
            return None if a is None else not a
        if t[0] == "bin" and t[1] in ("&&", "||"):
            a, b = self.tval(t[2], ctx, depth + 1), self.tval(t[3], ctx, depth + 1)
            if t[1] == "&&": return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        c = const(t)
        if c is not None: return bool(c)
        at, pol = norm_cond(t, True)
        a = self.asm(at, ctx)
        return None if a is None else a == pol

    def C(self, e, kt, kf, j, ctx):
        while e[0] == "byref": e = e[2]
        if e[0] == "un" and e[2] == "!": return self.C(e[3], kf, kt, j, ctx)
        if e[0] == "bin" and e[2] == "&&": return self.C(e[3], self.C(e[4], kt, kf, j, ctx), kf, j, ctx)
        if e[0] == "bin" and e[2] == "||": return self.C(e[3], kt, self.C(e[4], kt, kf, j, ctx), j, ctx)
        if e[0] == "bin" and e[2] == ",": return self.E(e[3], self.C(e[4], kt, kf, j, ctx), j, ctx)
        if e[0] == "cond":
            return self.C(e[2], self.C(e[3], kt, kf, j, ctx), self.C(e[4], kt, kf, j, ctx), j, ctx)
        if e[0] == "cast" and e[2] != "dynamic": return self.C(e[4], kt, kf, j, ctx)
        if e[0] == "call" and e[2] == "__builtin_expect": return self.C(e[5][0], kt, kf, j, ctx)
        if e[0] == "ref" and e[2] == "var":
            # a bool local with a single definition stands for its defining condition
            pass
        t = self.T.term(e, ctx)
        c = const(t)
        if c is not None:
            return self.E(e, kt if c else kf, j, ctx)
        at, pol = norm_cond(t, True)
        a = self.asm(at, ctx)
        if a is not None:
            return self.E(e, kt if (a == pol) else kf, j, ctx)
        if e[0] == "call":
            tg = self.targets(e, ctx)
            if len(tg) == 1 and tg[0][0].d["ret"] == "bool":
                return self.expand(e, tg, None, j, ctx, split=(kt, kf))
        # composite terms produced by getter expansion or single-definition bools: split them
        return self.E(e, self.TC(t, kt, kf, e[1], ctx), j, ctx)

    def TC(self, t, kt, kf, line, ctx):
        if t[0] == "un" and t[1] == "!": return self.TC(t[2], kf, kt, line, ctx)
        if t[0] == "bin" and t[1] == "&&": return self.TC(t[2], self.TC(t[3], kt, kf, line, ctx), kf, line, ctx)
        if t[0] == "bin" and t[1] == "||": return self.TC(t[2], kt, self.TC(t[3], kt, kf, line, ctx), line, ctx)
        c = const(t)
        if c is not None: return kt if c else kf
        at, pol = norm_cond(t, True)
        a = self.asm(at, ctx)
        if a is not None: return kt if (a == pol) else kf
        return self.N("br", t, [(kt, t, True), (kf, t, False)], line, ctx)

    # expressions: emits the events of evaluating e, then k
    def E(self, e, k, j, ctx):
        if e is None: return k
        t = e[0]
        if t == "ref" and self.reads and e[2] == "global":
            return self.ev("rd", {"path": self.T.term(e, ctx)}, k, e[1], ctx)
        if t in ("ref", "this", "lit", "str", "sizeof", "typeid"):
            return k
        if t == "byref": return self.E(e[2], k, j, ctx)
        if t == "mem":
            if self.reads: k = self.ev("rd", {"path": self.T.term(e, ctx)}, k, e[1], ctx)
            return self.E(e[2], k, j, ctx)
        if t == "cast": return self.E(e[4], k, j, ctx)
        if t == "un":
            if e[2] in ("++", "--", "p++", "p--"):
                k = self.ev("asg", {"lhs": self.T.term(e[3], ctx), "op": e[2][-2:], "rhs": ("lit", "1")}, k, e[1], ctx)
            return self.E(e[3], k, j, ctx)
        if t == "bin":
            if e[2] in ("&&", "||"):
                r = self.E(e[4], k, j, ctx)
                return self.C(e[3], r, k, j, ctx) if e[2] == "&&" else self.C(e[3], k, r, j, ctx)
            return self.E(e[3], self.E(e[4], k, j, ctx), j, ctx)
        if t == "asg":
            k = self.ev("asg", {"lhs": self.T.term(e[3], ctx), "op": e[2], "rhs": self.T.term(e[4], ctx)}, k, e[1], ctx)
            return self.E(e[4], self.Elhs(e[3], k, j, ctx), j, ctx)
        if t == "cond":
            return self.C(e[2], self.E(e[3], k, j, ctx), self.E(e[4], k, j, ctx), j, ctx)
        if t == "idx": return self.E(e[2], self.E(e[3], k, j, ctx), j, ctx)
        if t == "call":
            tg = self.targets(e, ctx)
            return self.expand(e, tg, k, j, ctx)
        if t == "icall":
            n = self.ev("icall", {"f": self.T.term(e[2], ctx), "args": tuple(self.T.term(a, ctx) for a in e[3])}, k, e[1], ctx)
            for a in reversed(e[3]): n = self.E(a, n, j, ctx)
            return self.E(e[2], n, j, ctx)
        if t == "ctor":
            q = strip_t(e[2])
            n = self.ev("ctor", {"q": q, "id": e[3], "args": tuple(self.T.term(a, ctx) for a in e[4])}, k, e[1], ctx)
            if not e[2].startswith("std::"):
                fn = self.prog.funcs.get(e[3])
                if fn is not None and self.may_inline(fn, e, ctx):
                    sub = self.T.bind(fn, ctx, ("obj", e[3], e[1]), e[4], e)
                    self.functions.add(fn.id)
                    jj = J(ret=k, handler=j.handler)
                    b = self.S(fn.d["body"], k, jj, sub)
                    for i in reversed(fn.d.get("inits", ())): b = self.ctor_init(i, b, sub, jj)
                    n = self.ev("ctor", n.d, b, e[1], ctx)
            for a in reversed(e[4]): n = self.E(a, n, j, ctx)
            return n
        if t == "new":
            n = self.ev("new", {"type": strip_t(e[2]), "full": e[2], "init": self.T.term(e[3], ctx) if e[3] else None}, k, e[1], ctx)
            if e[4] is not None: n = self.E(e[4], n, j, ctx)
            for p in reversed(e[5]): n = self.E(p, n, j, ctx)
            return self.E(e[3], n, j, ctx) if e[3] is not None else n
        if t == "delete":
            n = self.ev("delete", {"path": self.T.term(e[2], ctx), "type": e[4]}, k, e[1], ctx)
            return self.E(e[2], n, j, ctx)
        if t == "init":
            for a in reversed(e[3]): k = self.E(a, k, j, ctx)
            return k
        if t == "throw":
            n = self.ev("throw", {}, j.handler, e[1], ctx)
            return self.E(e[2], n, j, ctx) if e[2] is not None else n
        if t == "lambda":
            return k
        if t == "stmtexpr": return self.S(e[2], k, j, ctx)
        if t == "other":
            for a in reversed(e[3]):
                if a is not None: k = self.S(a, k, j, ctx)
            return k
        if t == "elem": return k
        if t in ("seq", "if", "for", "while", "do", "rfor", "switch", "decl", "ret", "break", "continue", "null", "try"):
            return self.S(e, k, j, ctx)
        return k

    def Elhs(self, e, k, j, ctx):
        # evaluation of an assignment target: the outermost field is written, not read
        if e[0] == "mem": return self.E(e[2], k, j, ctx)
        return self.E(e, k, j, ctx)

    def may_inline(self, fn, e, ctx):
        if fn.d.get("body") is None: return False
        if fn.id in ctx.chain or ctx.depth() >= self.maxdepth: return False
        return bool(self.inline(fn, e, ctx))

    def targets(self, e, ctx):
        """[(Func, lambda-ctx)] to expand at this call"""
        obj = self.T.term(e[4], ctx) if e[4] is not None else None
        if obj is not None and obj[0] == "lambda" and e[2].endswith("operator()"):
            ln = self.T.lambdas.get((obj[1], obj[2]))
            if ln and obj[1] not in ctx.chain and ctx.depth() < self.maxdepth: return [(LamFn(ln[0], ln[1]), ln[1])]
        out = []
        cands = []
        fn = self.prog.funcs.get(e[3])
        if "v" in e[7] and self.exact and obj == ("this",) and self.ctx0_class:
            g = self.resolve_exact(e[3])
            if g is not None:
                e = e[:7] + [e[7].replace("v", "")] + e[8:]
                fn = g
        if "v" in e[7]:
            ids = {e[3]} | self.prog.all_overriders(e[3])
            cands = [self.prog.funcs[i] for i in sorted(ids) if i in self.prog.funcs]
        elif fn is not None:
            cands = [fn]
        for f in cands:
            if self.may_inline(f, e, ctx): out.append((f, None))
        if "v" in e[7] and len(out) != len(cands): 
            # some overriders stay opaque: keep an opaque alternative
            if out: out.append((None, None))
        return out

    def resolve_exact(self, mid):
        """the override of method mid that an object of exactly the analysed class has"""
        ids = {mid} | self.prog.all_overriders(mid)
        t = self.ctx0_class
        for c in [t] + self.prog.bases(t):
            d = self.prog.classes.get(c)
            for m in (d["methods"] if d else ()):
                if m[1] in ids: return self.prog.funcs.get(m[1])
        return None

    def expand(self, e, tg, k, j, ctx, split=None):
        q = strip_t(e[2])
        obj = self.T.term(e[4], ctx) if e[4] is not None else None
        args = tuple(self.T.term(a, ctx) for a in e[5])
        d = {"q": q, "id": e[3], "obj": obj, "args": args, "flags": e[7], "full": e[2], "type": e[6]}
        if split:
            k = None
        noret = "n" in e[7]
        if tg:
            alts = []
            for f, lc in tg:
                if f is None:
                    alts.append(k if k is not None else split[0])
                    continue
                if isinstance(f, LamFn):
                    sub = Ctx(lc.fn, lc.this, dict(lc.env), ctx, e, lam=f.node[2])
                    Terms.ctxs[sub.cid] = sub
                    for i, p in enumerate(f.node[5]):
                        if i < len(e[5]): sub.env[p[0]] = args[i]
                    # captured locals of the defining context resolve there
                    sub.memo = lc.memo
                    sub.cid_outer = lc.cid
                    body = f.node[4]
                    sub.cid = lc.cid
                else:
                    sub = self.T.bind(f, ctx, obj, e[5], e)
                    body = f.d["body"]
                    self.functions.add(f.id)
                if split:
                    jj = J(ret=split[0], handler=j.handler); jj.rsplit = split
                    alts.append(self.S(body, split[0], jj, sub))
                else:
                    leave = self.N("leave", {"q": q}, [(k, None, True)], e[1], ctx)
                    jj = J(ret=leave, handler=j.handler)
                    alts.append(self.S(body, leave, jj, sub))
            if len(alts) == 1 and not noret:
                n = self.ev("call", d, alts[0], e[1], ctx)
            else:
                n = self.N("call", d, [(a, ("target", i), True) for i, a in enumerate(alts)], e[1], ctx)
            d["inlined"] = True
        elif split:
            n = None
        else:
            n = self.N("call", d, [] if noret else [(k, None, True)], e[1], ctx)
            # lambdas handed to an external algorithm may run here
            if self.call_lambdas and not noret and not q.endswith("thread::thread"):
                for a, at in zip(e[5], args):
                    if at[0] == "lambda":
                        ln = self.T.lambdas.get((at[1], at[2]))
                        if ln and at[1] not in ctx.chain:
                            hd = self.N("br", ("more", at), [], e[1], ctx)
                            lc = ln[1]
                            sub = Ctx(lc.fn, lc.this, dict(lc.env), ctx, e, lam=at[1])
                            sub.memo = lc.memo; sub.cid = lc.cid
                            for p in ln[0][5]: sub.env[p[0]] = ("lamarg", at[1], p[0])
                            bd = self.S(ln[0][4], hd, J(ret=hd, handler=j.handler), sub)
                            tm = ("more", at, ctx.cid, e[1])
                            hd.succ = [(bd, tm, True), (k, tm, False)]
                            n.succ = [(hd, None, True)]
        r = n
        for a in reversed(e[5]): r = self.E(a, r, j, ctx)
        if e[4] is not None:
            r = self.E(e[4], r, j, ctx)
        return r

    # ---- traversal helpers
    def nodes(self):
        seen, st = set(), [self.entry]
        out = []
        while st:
            n = st.pop()
            if n.nid in seen: continue
            seen.add(n.nid); out.append(n)
            for s, _, _ in n.succ: st.append(s)
        return out

    def events(self, *kinds):
        return [n for n in self.nodes() if n.kind in kinds]

    def calls(self, pred):
        """call nodes whose callee's stripped qualified name satisfies pred (string: suffix match)"""
        p = name_pred(pred)
        return [n for n in self.nodes() if n.kind == "call" and p(n.d["q"])]

    def tracked(self, limit=10):
        """atoms tested at two or more branches: path searches keep them consistent until something they mention
        is assigned"""
        if self._tracked is None:
            cnt, nodes = {}, {}
            for n in self.nodes():
                for s, c, p in n.succ:
                    if c is None or c[0] in ("default", "target", "catch", "try", "more"): continue
                    a = norm_cond(c, p)[0]
                    if any(x[0] in ("icall", "elem") or (x[0] == "call" and isinstance(x[-1], str) and "m" in x[-1])
                           for x in subterms(a)): continue
                    nodes.setdefault(a, set()).add(n.nid)
            at = [a for a, v in nodes.items() if len(v) > 1]
            at.sort(key=lambda a: -len(nodes[a]))
            self._tracked = at[:limit]
            self._kill = {}
            parts = {a: set(subterms(a)) for a in self._tracked}
            for n in self.nodes():
                tgt = []
                if n.kind == "asg": tgt = [n.d["lhs"]]
                elif n.kind in ("init", "decl"): tgt = [n.d["var"]]
                elif n.kind == "call":
                    if n.d["obj"] is not None and "m" in n.d["flags"] and not n.d.get("inlined"): tgt = [n.d["obj"]]
                if tgt:
                    ks = tuple(a for a in self._tracked if any(t in parts[a] for t in tgt if t not in (("this",),)))
                    if ks: self._kill[n.nid] = ks
        return self._tracked

    def search(self, starts, target, avoid=lambda n: False, edge=lambda n, s, c, p: True, consistent=True):
        """shortest path from one of `starts` (nodes, inclusive) to a node satisfying target, not passing `avoid`
        nodes and only over allowed edges; None when there is none.  Paths that take contradictory outcomes of the same
        unchanged condition are not considered."""
        tr = set(self.tracked()) if consistent else set()
        prev = {}
        dq = deque()
        for s in starts:
            st = (s.nid, frozenset())
            if st not in prev:
                prev[st] = (None, s); dq.append((s, frozenset()))
        while dq:
            n, kn = dq.popleft()
            if target(n):
                path = []
                x = (n.nid, kn)
                while x is not None:
                    path.append(prev[x][1]); x = prev[x][0]
                return path[::-1]
            if avoid(n): continue
            if tr and n.nid in self._kill:
                ks = self._kill[n.nid]
                k2 = frozenset(z for z in kn if z[0] not in ks)
            else: k2 = kn
            for s, c, p in n.succ:
                k3 = k2
                if c is not None and tr and c[0] not in ("default", "target", "catch", "try", "more"):
                    at, pol = norm_cond(c, p)
                    if at in tr:
                        if (at, not pol) in k2: continue
                        k3 = k2 | {(at, pol)}
                st = (s.nid, k3)
                if st in prev or not edge(n, s, c, p): continue
                prev[st] = ((n.nid, kn), s); dq.append((s, k3))
            if len(prev) > 3000000: raise AnalysisError(f"path search in {self.fn.q} exceeds its limit")
        return None

    def after(self, n):
        return [s for s, _, _ in n.succ]

    def must_precede(self, target, guard):
        """path entry -> target node that passes no guard node (None = holds)"""
        return self.search([self.entry], target, avoid=lambda n: guard(n) and not target(n))

    def must_follow(self, start, guard, end=None):
        """path from after `start` to normal exit avoiding guard nodes (None = holds)"""
        end = end or (lambda n: n is self.exit)
        return self.search(self.after(start), lambda n: end(n) and not guard(n), avoid=guard)

    def unguarded(self, target, edgepred):
        """path entry -> target crossing no edge for which edgepred(atom, polarity, node) holds"""
        def ok(n, s, c, p):
            if c is None: return True
            return not self.edge_holds(c, p, edgepred, n)
        return self.search([self.entry], target, edge=ok)

    @staticmethod
    def edge_holds(c, p, edgepred, n):
        if c[0] == "default":
            # default: none of the listed values
            return any(edgepred(*norm_cond(("bin", "==", c[1], v), False), n) for v in c[2]) or edgepred(c, True, n)
        if c[0] in ("target", "catch", "try", "more"):
            return edgepred(c, p, n)
        at, pol = norm_cond(c, p)
        return edgepred(at, pol, n)


class J:
    """jump targets"""
    __slots__ = ("brk", "cont", "ret", "handler", "rsplit")

    def __init__(self, brk=None, cont=None, ret=None, handler=None):
        self.brk, self.cont, self.ret, self.handler, self.rsplit = brk, cont, ret, handler, None

    def loop(self, brk, cont):
        j = J(brk, cont, self.ret, self.handler)
        j.rsplit = self.rsplit
        return j


class LamFn:
    def __init__(self, node, ctx):
        self.node, self.ctx, self.d = node, ctx, {"ret": "", "body": node[4]}
        self.id = node[2]


def name_pred(p):
    if callable(p): return p
    if isinstance(p, (set, frozenset, list, tuple)):
        ps = [name_pred(x) for x in p]
        return lambda q: any(x(q) for x in ps)
    return lambda q: q == p or q.endswith("::" + p)


def const(t):
    """integer value of a constant term, else None"""
    k = t[0]
    if k == "lit":
        v = t[1]
        if v == "nullptr": return 0
        try: return int(v)
        except ValueError: return None
    if k == "enum":
        try: return int(t[2])
        except ValueError: return None
    if k == "glob" and t[2] not in ("", None):
        try: return int(t[2])
        except ValueError: return None
    if k == "addr": return None
    if k == "new": return 1
    if k == "un":
        v = const(t[2])
        if v is None: return None
        return {"!": lambda: int(not v), "-": lambda: -v, "~": lambda: ~v}.get(t[1], lambda: None)()
    if k == "bin":
        a = const(t[2])
        op = t[1]
        if op == "&&":
            if a == 0: return 0
            b = const(t[3])
            if b == 0: return 0
            return 1 if (a and b) else None
        if op == "||":
            if a: return 1
            b = const(t[3])
            if b: return 1
            return 0 if (a == 0 and b == 0) else None
        b = const(t[3])
        if a is None or b is None: return None
        try:
            return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "+": lambda: a + b, "-": lambda: a - b,
                    "*": lambda: a * b, "|": lambda: a | b, "&": lambda: a & b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "^": lambda: a ^ b, "/": lambda: a // b if b else None, "%": lambda: a % b if b else None}.get(op, lambda: None)()
        except Exception:
            return None
    if k == "cond":
        c = const(t[1])
        if c is None: return None
        return const(t[2] if c else t[3])
    return None


def path_str(path, maxn=14):
    """file:line trace of a path"""
    out, last = [], None
    for n in path:
        w = n.where()
        if w == last: continue
        last = w
        lab = ""
        if n.kind == "call": lab = " " + n.d["q"].rsplit("::", 1)[-1] + "()"
        elif n.kind in ("br",): lab = " branch"
        elif n.kind == "asg": lab = " " + show(n.d["lhs"]) + " " + n.d["op"]
        elif n.kind in ("loop", "leave", "decl", "nop"): continue
        out.append(w + lab)
    if len(out) > maxn: out = out[:maxn // 2] + ["..."] + out[-maxn // 2:]
    return out


# ------------------------------------------------------------------------------------------------ reachability
def direct_calls(fn): return info(fn).callees


def reach_closure(prog, seeds_pred, roots=None):
    """ids of functions from which a function satisfying seeds_pred(Func-or-id) is reachable through resolved calls
    (virtual calls included through their overriders).  Decodes every function: prefer forward_closure."""
    raise NotImplementedError


def forward(prog, roots, stop=lambda f: False):
    """functions reachable from roots through direct, virtual and lambda-contained calls; returns {id: (parent id, line)}"""
    seen = {}
    dq = deque()
    for r in roots:
        seen[r.id] = (None, r.line); dq.append(r)
    while dq:
        f = dq.popleft()
        if stop(f): continue
        for n in func_nodes(f):
            if n[0] in ("call", "ctor"):
                ids = {n[3]}
                if n[0] == "call" and "v" in n[7]: ids |= prog.all_overriders(n[3])
                for i in ids:
                    if i in seen: continue
                    g = prog.funcs.get(i)
                    if g is None: continue
                    seen[i] = (f.id, n[1]); dq.append(g)
    return seen


def callee_ids(prog, f):
    """ids of the functions f calls or constructs, virtual calls with all overriders"""
    memo = prog.__dict__.setdefault("_callees", {})
    r = memo.get(f.id)
    if r is None:
        out = set()
        for n in func_nodes(f):
            if n[0] in ("call", "ctor"):
                out.add(n[3])
                if n[0] == "call" and "v" in n[7]: out |= prog.all_overriders(n[3])
        r = memo[f.id] = [i for i in out if i in prog.funcs]
    return r


class Relevance:
    """decides whether a call should be expanded: its callee can reach an event of interest within `depth` calls"""

    def __init__(self, prog, direct, depth=6, skip=None):
        self.prog, self.direct, self.depth = prog, direct, depth
        self.memo, self.dmemo = {}, {}
        self.skip = skip or (lambda f: False)

    def is_direct(self, f):
        r = self.dmemo.get(f.id)
        if r is None:
            r = self.dmemo[f.id] = any(self.direct(n, f) for n in func_nodes(f))
        return r

    def reach(self, f, depth=None):
        """f reaches a direct function within depth calls (breadth first)"""
        depth = self.depth if depth is None else depth
        key = (f.id, depth)
        r = self.memo.get(key)
        if r is not None: return r
        seen, level = {f.id}, [f]
        r = False
        for d in range(depth + 1):
            nxt = []
            for g in level:
                if self.skip(g): continue
                if self.is_direct(g): r = True; break
                if d == depth: continue
                for i in callee_ids(self.prog, g):
                    if i in seen: continue
                    seen.add(i)
                    h = self.prog.funcs.get(i)
                    if h is not None: nxt.append(h)
            if r or not nxt: break
            level = nxt
        self.memo[key] = r
        return r

    def __call__(self, fn, e, ctx): return self.reach(fn)


def lockset(cfg, acquire, release, entry=frozenset(), may=False):
    """forward lock analysis.  acquire(n)/release(n) -> iterable of lock terms.  Returns {nid: frozenset of held locks}
    (must-hold by default) before each node."""
    state = {cfg.entry.nid: entry}
    nodes = {}
    dq = deque([cfg.entry])
    while dq:
        n = dq.popleft()
        nodes[n.nid] = n
        s = set(state[n.nid])
        for l in release(n): s.discard(l)
        for l in acquire(n): s.add(l)
        s = frozenset(s)
        for m, _, _ in n.succ:
            if m.nid not in state:
                state[m.nid] = s; dq.append(m)
            else:
                x = (state[m.nid] | s) if may else (state[m.nid] & s)
                if x != state[m.nid]:
                    state[m.nid] = x; dq.append(m)
    return state
