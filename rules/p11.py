"""P11: serialisation symmetry."""
from sa.q import *
import re

PROP = dict(
    title="An object that is serialised is restored from exactly the bytes written",
    statement="For every serialisable class and every supported kind of data, the sizing, packing and unpacking passes visit the same values in the same order with the "
              "same widths, so that the buffer is exactly as large as what is written and unpacking reads back each value from where it was written. Null pointers, shared "
              "pointers and cycles keep their identity, containers get back all their elements, and a buffer is never read or written beyond its end.",
    over=["inputs", "histories"], text="all object graphs, container sizes, pointer sharing patterns and class hierarchies that can be serialised",
    why="A test serialises a few hand-made values of each type. A pass that skips or reorders a value only for a null, shared, empty or polymorphic case corrupts "
        "everything behind it in the buffer, and shows only with such data.",
    files=["src/sst/core/serialization/serialize.h", "src/sst/core/serialization/serializer.h", "src/sst/core/serialization/serializer.cc", "src/sst/core/serialization/serializable.cc",
           "src/sst/core/serialization/impl/*.h", "src/sst/core/*.h", "src/sst/core/*.cc"],
    mech=[("sst_ser_object, serialize<T*>", "src/sst/core/serialization/serialize.h"), ("serializer::primitive, raw, string, binary", "src/sst/core/serialization/serializer.h"),
          ("serialize_impl specialisations", "src/sst/core/serialization/impl/serialize_insertable.h"), ("ser_buffer_accessor::buf_next", "src/sst/core/serialization/impl/ser_buffer_accessor.h"),
          ("pack_serializable, unpack_serializable", "src/sst/core/serialization/serializable.cc")],
    technique="regular-language equivalence of the per-mode event languages of every serialisation function, dominance and size agreement of the primitive operations")

TUS = "all"
LOAD = dict(extra=[VERIF + "/tool/witness/ser.cc", VERIF + "/tool/witness/handlers.cc", VERIF + "/tool/witness/data.cc", VERIF + "/tool/witness/shared.cc"])
MODES = {"SIZER": 1, "PACK": 2, "UNPACK": 3, "MAP": 4}
S = "SST::Core::Serialization::"


def targ(id, names):
    m = re.search(r"(?:%s)I(.*)EEvR?K?T_" % "|".join(f"{len(n)}{n}" for n in names), id)
    return m.group(1) if m else None


def tparam(id, name):
    """first template argument of the template name in a mangled id, without references and const"""
    i = id.find(f"{len(name)}{name}I")
    if i < 0: return None
    a = id[i + len(str(len(name))) + len(name) + 1:]
    return re.sub(r"^[RKO]+", "", a)


def ser_param(f): return any("serializer" in (p[1] if isinstance(p, (list, tuple)) else str(p)) and "&" in (p[1] if isinstance(p, (list, tuple)) else str(p)) for p in f.params)


WIRE = {"size": "p", "pack": "p", "unpack": "p", "primitive": "p", "size_buffer": "b", "pack_buffer": "b", "unpack_buffer": "b", "binary": "b",
        "size_string": "s", "pack_string": "s", "unpack_string": "s", "string": "s", "raw": "r", "add": "r", "buf_next": "r"}
OWNERS = ("serializer", "ser_sizer", "ser_packer", "ser_unpacker")


def is_mode_atom(at):
    """(mode number) when the atom compares the serialiser's mode with an enumerator"""
    if at[0] != "==": return None
    for x, y in ((at[1], at[2]), (at[2], at[1])):
        if x[0] == "enum" and "::" in x[1] and last(x[1]) in MODES and "serializer" in x[1]: return MODES[last(x[1])]
    return None


def mode_assume(m, track=None, more=None):
    def f(at, ctx=None):
        k = is_mode_atom(at)
        if k is not None: return k == MODES[m]
        if at[0] == "<":
            e = [MODES.get(last(x[1])) if x[0] == "enum" and "serializer" in x[1] else None for x in at[1:]]
            if e[0] is not None: return e[0] < MODES[m]
            if e[1] is not None: return MODES[m] < e[1]
        if track is not None and any(has_call(x, "is_pointer_tracking_enabled") or fin(x, "enable_ptr_tracking_") for x in at[1:] if is_term(x)): return track
        return more(at) if more else None
    return f


def fin(t, *names): return any(fmatch(x, n) for n in names for x in list(fields_in(t)) + list(globs_in(t)))


def member(t, f):
    """name of the member of *this that t denotes"""
    if t[0] == "addr" or t[0] == "cast": return member(t[-1] if t[0] == "cast" else t[1], f)
    return last(t[2]) if t[0] == "mem" and t[1][0] == "this" else None


def label(n):
    """wire event of a CFG node: (kind, type, member or None)"""
    if n.kind != "call": return None
    q, fid = n.d["q"], n.d.get("id") or n.d.get("fn") or ""
    nm = last(q)
    own = last(re.sub(r"<.*>", "", q.rsplit("::", 1)[0])) if "::" in q else ""
    if nm in WIRE and own in OWNERS:
        k = WIRE[nm]
        if k == "p":
            if not n.d["args"]: return None                     # serializer::size()
            return ("p", tparam(fid, nm).split("EEv")[0] if tparam(fid, nm) else "?", None)
        if k == "r": return ("r", "", None)
        return (k, "", None)
    if nm == "sst_ser_object":
        ty = tparam(fid, "sst_ser_object").split("EEv")[0]
        return ("o", "pointer" if re.match(r"PK?(N|S|[1-9])", ty) else ty, n.d["args"][1])
    if nm == "serialize_order" and "v" in (n.d.get("flags") or ""): return ("c", "virtual", None)
    if nm == "serialize_order": return ("c", own, None) if n.d["obj"] is not None and n.d["obj"][0] == "this" else ("c", own, n.d["obj"])
    if nm == "operator()" and own in ("serialize_impl", "serialize"): return ("i", re.sub(r"^.*?serialize(_impl)?I", "", fid).split("EclE")[0], None)
    if nm == "serialize_and_track_pointer": return ("t", "", None)
    return None


def wire_funcs(R):
    P = R.prog
    out = []
    for f in P.funcs.values():
        if not any("serializer &" in str(p[2]) for p in f.params) and not (f.params and "unknown" == f.params): continue
        if f.n == "ObjectMapContext" or "ObjectMapContext" in f.q: continue
        if last(f.q) == "sst_ser_object": continue
        out.append(f)
    return out


def helper_inline(f, e, ctx):
    """helpers that pass the serialiser on"""
    nm = last(f.q)
    if nm in ("sst_ser_object", "serialize_order", "serialize_and_track_pointer", "report_object_map") or nm == "operator()" and "serialize" in f.q: return False
    return any("serializer &" in str(p[2]) for p in f.params)


def nfa(P, f, m, track=None):
    g = CFG(P, f, inline=helper_inline, assume=mode_assume(m, track), exact=True)
    return g


def erase(lab, keep):
    if lab[0] != "o" and lab[0] != "c": return lab[:2]
    k = lab[2]
    return (lab[0], lab[1], k if k in keep else None)


def language(g, f):
    """labels per node; members by name"""
    lab = {}
    mem = set()
    for n in g.nodes():
        l = label(n)
        if l is None: continue
        if l[0] in ("o", "c") and l[2] is not None:
            k = member(l[2], f)
            l = (l[0], l[1], k)
            if k: mem.add(k)
        lab[n.nid] = l
    return lab, mem


def closure(st):
    seen, out = set(), set()
    stack = list(st)
    while stack:
        n = stack.pop()
        if n.nid in seen: continue
        seen.add(n.nid)
        out.add(n)
        stack.extend(n.succs() if hasattr(n, "succs") else [s for s, _, _ in n.succ])
    return out


def distinguish(ga, la, gb, lb, da=(), db=(), limit=20000, stop_a=(), stop_b=()):
    """shortest word in exactly one of the two languages (or None).  A node with a label consumes it on leaving."""
    def step(nodes, lab, dead, stop):
        """eps closure up to labelled nodes or exit: ({label: set of successor nodes}, accepting)"""
        seen, st, moves, acc = set(), list(nodes), {}, False
        while st:
            n = st.pop()
            if n.nid in seen: continue
            seen.add(n.nid)
            if n.kind == "exit" and not stop or n.nid in stop: acc = True; continue
            if is_fatal(n) or n.nid in dead: continue
            l = lab.get(n.nid)
            if l is None: st.extend(s for s, _, _ in n.succ)
            else: moves.setdefault(l, set()).update(s for s, _, _ in n.succ)
        return moves, acc

    def live(nodes, dead, stop):
        """some accepting word from here"""
        seen, st = set(), list(nodes)
        while st:
            n = st.pop()
            if n.nid in seen: continue
            seen.add(n.nid)
            if n.kind == "exit" and not stop or n.nid in stop: return True
            if is_fatal(n) or n.nid in dead: continue
            st.extend(s for s, _, _ in n.succ)
        return False
    start = (frozenset([ga.entry]), frozenset([gb.entry]))
    todo, seen = [(start, ())], {(frozenset([ga.entry.nid]), frozenset([gb.entry.nid]))}
    while todo:
        (A, B), w = todo.pop(0)
        ma, aa = step(A, la, da, stop_a)
        mb, ab = step(B, lb, db, stop_b)
        if aa != ab: return w, "end of data" , "first" if aa else "second"
        for l in set(ma) | set(mb):
            x, y = frozenset(ma.get(l, ())), frozenset(mb.get(l, ()))
            lx, ly = live(x, da, stop_a), live(y, db, stop_b)
            if not lx and not ly: continue
            if lx != ly: return w + (l,), l, "first" if lx else "second"
            k = (frozenset(n.nid for n in x), frozenset(n.nid for n in y))
            if k in seen: continue
            seen.add(k)
            if len(seen) > limit: return None
            todo.append(((x, y), w + (l,)))
    return None


def showl(l):
    if isinstance(l, str): return l
    n = {"p": "a value", "b": "a buffer", "s": "a string", "r": "raw bytes", "o": "an object", "c": "serialize_order of", "i": "the contents", "t": "a tracked object"}[l[0]]
    return n + (f" {l[1]}" if l[1] else "") + (f" ({l[2]})" if len(l) > 2 and l[2] else "")


def first_value(g):
    """the local that is serialised first, when that is the same on all paths"""
    seen, st, out = set(), [g.entry], []
    while st:
        n = st.pop()
        if n.nid in seen: continue
        seen.add(n.nid)
        l = label(n)
        if l is not None:
            if l[0] not in ("o", "p"): return None
            a = n.d["args"][1] if l[0] == "o" else n.d["args"][0]
            while a[0] in ("addr", "cast"): a = a[-1] if a[0] == "cast" else a[1]
            out.append(a)
            continue
        if n.kind != "exit" and not is_fatal(n): st.extend(s for s, _, _ in n.succ)
    if not out or any(x != out[0] for x in out): return None
    D = out[0]
    if D[0] == "mem" and D[1][0] == "call" and D[2].startswith("std::pair::"): pass
    elif D[0] in ("deref", "mem", "idx", "this", "glob") or D[0] == "var" and param_idx(g.fn, D) is not None: return None
    return D


def compared(g, D):
    """constants the first value is compared with, directly or through its definition"""
    out = set()
    for n in g.nodes():
        if n.kind == "asg" and n.d["lhs"] == D and const(n.d["rhs"]) is not None: out.add(const(n.d["rhs"]))
        for _, c, _ in n.succ:
            if c is None or not is_term(c): continue
            at, _ = norm_cond(c, True)
            if at[0] == "==" and D in at[1:]: out |= {const(x) for x in at[1:] if const(x) is not None}
            if at[0] in ("nz", "pos") and at[1] == D: out.add(0)
            if at == norm_cond(D, True)[0]: out.add(0)
    return out


def noctx(t):
    if not isinstance(t, tuple): return t
    if t and t[0] == "var": return ("var", 0) + t[2:]
    return tuple(noctx(x) for x in t)


def case_assume(D, v, consts):
    if D is None: return None
    D = noctx(D)
    dn = norm_cond(D, True)

    def f(at):
        at = noctx(at)
        if at[0] == "==" and D in at[1:]:
            k = [const(x) for x in at[1:] if x != D]
            if k and k[0] is not None: return k[0] == v
        if at[0] in ("nz", "pos") and at[1] == D: return v != 0
        if dn is not None and dn[0] == at and dn[0][0] not in ("nz", "pos"): return (v != 0) == dn[1]
        if v == 0 and at[0] in ("nz", "pos", "==") and any(is_term(x) and has_call(x, "get_shared_ptr_owner_tag") and (x[0] == "proj" and x[2] == 1 or x[0] == "mem" and fmatch(x[2], "second")) for x in at[1:]): return at[0] == "=="
        return None
    return f


def symmetric(R):
    """Sizing, packing and unpacking a value produce the same sequences of values: for every function that takes part in
    serialisation, the set of possible sequences of (kind, type, member) events is the same in the three modes, with pointer
    tracking on and off, and for each value of the discriminator that is written first."""
    P = R.prog
    fs = wire_funcs(R)
    if len(fs) < 100: raise AnalysisError("serialisation functions not found")
    for f in fs:
        if helper_inline(f, None, None) and callers_of(P, f): continue
        for track in (True, False):
            gs = {m: nfa(P, f, m, track) for m in ("SIZER", "PACK", "UNPACK")}
            ls = {m: language(g, f) for m, g in gs.items()}
            for g in gs.values(): R.cfg_used(g)
            if not any(l for l, _ in ls.values()): continue
            Ds = {m: first_value(g) for m, g in gs.items()}
            consts = set()
            for m in gs:
                if Ds[m] is not None: consts |= compared(gs[m], Ds[m])
            closed = lambda g, D: D[0] == "var" and (w := [n for n in g.nodes() if n.kind in ("asg", "init") and noctx(n.d.get("lhs") or n.d.get("var")) == noctx(D) and n.d.get("rhs") is not None]) and all(const(n.d["rhs"]) is not None for n in w)
            cases = [*sorted(consts)] + ([] if any(D is not None and closed(gs[m], D) for m, D in Ds.items() if m != "UNPACK") else ["other"]) if consts and all(d is not None for d in Ds.values()) else [None]
            who = f.q if len(f.q) < 120 else f.q[:117] + "..."
            for case in cases:
                if case is not None:
                    G = {m: CFG(P, f, inline=helper_inline, assume=mode_assume(m, track, case_assume(Ds[m], case, consts)), exact=True) for m in gs}
                    L = {m: language(g, f) for m, g in G.items()}
                else: G, L = gs, ls
                dead = {m: {n.nid for n in G[m].nodes() if case is not None and n.kind == "asg" and noctx(n.d["lhs"]) == noctx(Ds[m]) and const(n.d["rhs"]) is not None and const(n.d["rhs"]) != case} for m in G}
                for a, b in (("SIZER", "PACK"), ("PACK", "UNPACK")):
                    keep = L[a][1] & L[b][1]
                    la = {k: erase(v, keep) for k, v in L[a][0].items()}
                    lb = {k: erase(v, keep) for k, v in L[b][0].items()}
                    d = distinguish(G[a], la, G[b], lb, dead[a], dead[b])
                    R.ob("symmetric", f"{who}:{a}-{b}:{'tracking' if track else 'plain'}" + (f":{case}" if case is not None else ""), d is None,
                         "" if d is None else f"{who}: after {len(d[0]) - (0 if isinstance(d[1], str) else 1)} values only {a if d[2] == 'first' else b} handles {showl(d[1])}", f.where())


def known(R):
    """When reading, whether a value is present is decided only by what is already known then: a condition on a member of the object
    that is being restored comes after that member was read or assigned."""
    P = R.prog
    k = 0
    for f in wire_funcs(R):
        if helper_inline(f, None, None) and callers_of(P, f): continue
        for track in (True, False):
            g = nfa(P, f, "UNPACK", track)
            lab, _ = language(g, f)
            if not lab: continue

            def ahead(n0):
                seen, st, out = set(), [n0], set()
                while st:
                    n = st.pop()
                    if n.nid in seen or is_fatal(n): continue
                    seen.add(n.nid)
                    if n.kind == "exit": out.add("exit")
                    elif n.nid in lab: out.add(n.nid)
                    else: st.extend(s for s, _, _ in n.succ)
                return out
            rng = {noctx(x) for h, _, _, _ in loop_heads(g) for _, c, _ in h.succ if c is not None and is_term(c) for x in subterms(c) if x[0] == "mem"}
            for n in g.nodes():
                cs = [(s, c, p) for s, c, p in n.succ if c is not None and is_term(c)]
                if len(cs) < 2: continue
                sg = [ahead(s) for s, _, _ in cs]
                if any(not x for x in sg) or all(x == sg[0] for x in sg): continue
                at, _ = norm_cond(cs[0][1], True)
                for t in {noctx(x) for y in at[1:] if is_term(y) for x in subterms(y) if x[0] == "mem"}:
                    root = t
                    while root[0] in ("mem", "deref", "cast", "addr"): root = root[-1] if root[0] == "cast" else root[1]
                    if not (root[0] == "this" or root[0] == "var" and last(f.q) == "operator()" and param_idx(f, root) == 0 or root[0] == "param"): continue
                    if root[0] != "this" and "serializer" in str(f.params[param_idx(f, root)][2]): continue
                    k += 1
                    # a table with the same rows everywhere: it is iterated over and is not itself read
                    if t in rng and not any(noctx(a) == t for m in g.nodes() if m.nid in lab for a in m.d["args"] if is_term(a)): continue

                    def sets(m, t=t):
                        l = lab.get(m.nid)
                        if l is not None:
                            return any(noctx(x) == t or noctx(x) == root for a in m.d["args"] if is_term(a) for x in subterms(a)) or l[0] == "c"
                        if m.kind == "asg": return noctx(m.d["lhs"]) == t or noctx(m.d["lhs"]) == root
                        return m.kind == "call" and (m.d["obj"] is not None and "m" in (m.d.get("flags") or "") and noctx(m.d["obj"]) in (t, ("addr", t)) or last(m.d["q"]) == "serialize_order")
                    never(R, "known", f"{f.q[:100]}:{show(t)}", g, lambda m: m is n, f"{show(t)} decides what is read before it is known", avoid=sets)
    R.ob("known", "scope", True, "")


_callers = {}


def callers_of(P, f):
    if id(P) not in _callers:
        s = set()
        for g in P.funcs.values():
            for n in walk_ast(g.d["body"]): s.add(n)
        _callers[id(P)] = s
    return f.id in _callers[id(P)]


def walk_ast(b):
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if x and x[0] == "call" and len(x) > 3 and isinstance(x[3], str): yield x[3]
            st.extend(x)


def amount(t):
    """normal form of a byte count: multiset of factors per summand, sizeofs as types"""
    out = []
    for g, x in summands(t):
        fs = []
        st = [x]
        while st:
            y = st.pop()
            if y[0] == "bin" and y[1] == "*": st.extend(y[2:])
            elif y[0] == "cast": st.append(y[-1])
            elif y[0] == "sizeof": fs.append("sizeof " + re.sub(r"\b(const|volatile)\b|&", "", y[1]).strip())
            elif y[0] in ("param", "var"): fs.append("#" + str(y[-2] if y[0] == "param" else y[3]))
            elif y[0] == "call": fs.append(last(y[1]) + "()")
            else: fs.append(show(y))
        out.append((g, tuple(sorted(fs))))
    return tuple(sorted(out))


def copies(g):
    return [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("memcpy", "memmove", "copy_n", "copy") and any(is_term(a) for a in n.d["args"])]


def primitive(R):
    """Each primitive accounts for, writes and reads the same number of bytes: sizer, packer and unpacker versions of a value, a
    buffer and a string; data are copied into the buffer when packing and out of it when unpacking; the buffer position moves by
    exactly that number of bytes, from where it was, and never past the end of the buffer."""
    P = R.prog
    by = {}
    for f in P.funcs.values():
        own = last(re.sub(r"<.*>", "", f.q.rsplit("::", 1)[0]))
        nm = last(re.sub(r"<.*>$", "", f.q))
        if own in OWNERS and nm in WIRE and f.params: by.setdefault((own, nm), []).append(f)
    inner = lambda f, e, c: last(re.sub(r"<.*>$", "", f.q)) in ("pack_buffer", "pack", "unpack", "size", "size_buffer") and any(o in f.q for o in OWNERS)

    def total(f, what):
        """the byte count of f along each path (what: 'add' for += on the size, 'next' for buffer steps)"""
        g = CFG(P, f, inline=inner)
        R.cfg_used(g)
        out = set()

        def go(n, acc, seen):
            if n.kind == "exit": out.add(tuple(sorted(acc))); return
            if is_fatal(n) or (n.nid, len(acc)) in seen or len(seen) > 400: return
            seen.add((n.nid, len(acc)))
            if what == "add" and n.kind == "asg" and last(n.d["lhs"][2] if n.d["lhs"][0] == "mem" else "") == "size_" and n.d["op"] == "+=": acc = acc + [x for x in amount(n.d["rhs"])]
            if what == "next" and n.kind == "call" and last(n.d["q"]) == "buf_next": acc = acc + [x for x in amount(n.d["args"][0])]
            for s, _, _ in n.succ: go(s, acc, seen)
        go(g.entry, [], set())
        return g, out
    shape = lambda s: {tuple(sorted((g, tuple(sorted(re.sub(r"^#.*|^size\(\)$", "n", x) for x in fs))) for g, fs in t)) for t in s}
    need = [("ser_sizer", "size", "add"), ("ser_packer", "pack", "next"), ("ser_unpacker", "unpack", "next")]
    for own, nm, what in need:
        fs = R.need(by.get((own, nm), []), f"{own}::{nm}")
        for f in fs:
            g, tot = total(f, what)
            ok = len(tot) == 1 and all(len(t) == 1 and t[0][0] == 1 and len(t[0][1]) == 1 and t[0][1][0].startswith("sizeof") for t in tot)
            ty = re.sub(r"\b(const|volatile)\b|&", "", str(f.params[0][2])).strip()
            R.ob("primitive", f"{own}::{nm}({ty})", ok and all(t[0][1][0] == "sizeof " + ty for t in tot), f"a value of type {ty} takes {tot}", f.where())
    ref = {(1, ("sizeof unsigned long",)), (1, ("n",))}
    for own, nm, what in (("ser_sizer", "size_string", "add"), ("ser_packer", "pack_string", "next"), ("ser_unpacker", "unpack_string", "next")):
        for f in R.need(by.get((own, nm), []), f"{own}::{nm}"):
            g, tot = total(f, what)
            sh = set()
            for t in tot:
                u = set()
                for s, fs in t:
                    fs = tuple(x for x in ("n" if x.startswith("#") or x == "size()" else x for x in fs) if x != "sizeof char" and x != "1")
                    u.add((s, fs))
                sh.add(frozenset(u))
            R.ob("primitive", f"{own}::{nm}", bool(sh) and all(x == frozenset(ref) or x == frozenset({(1, ("sizeof unsigned long",)), (1, ("n",))}) for x in sh), f"a string takes {sorted(map(sorted, sh))}", f.where())
    bufs = {}
    for own, nm, what in (("ser_sizer", "size_buffer", "add"), ("ser_packer", "pack_buffer", "next"), ("ser_unpacker", "unpack_buffer", "next")):
        for f in R.need(by.get((own, nm), []), f"{own}::{nm}"):
            g, tot = total(f, what)
            m = re.search(r"_bufferI(.*)E", f.id)
            for t in tot:
                els = [x for s, fs in t for x in fs if x.startswith("sizeof")]
                mul = [fs for s, fs in t if len(fs) == 2 or any(x.startswith("#") for x in fs)]
                ok = all(s == 1 for s, _ in t) and len(t) <= 2 and sum(1 for s, fs in t if len(fs) == 1 and fs[0].startswith("sizeof")) == 1 and len(mul) == len(t) - 1
                ok = ok and all(any(x.startswith("#") for x in fs) and len(fs) == 2 and any(x.startswith("sizeof") for x in fs) for fs in mul)
                R.ob("primitive", f"{own}::{nm}:{m.group(1)[:20] if m else ''}", ok, f"a buffer takes {t}", f.where())
            if own != "ser_unpacker":
                gz = CFG(P, f, inline=inner, assume=lambda at, ctx=None, f=f: True if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) else False if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 0 else None)
                zero = lambda n: n.kind == "asg" and param_idx(f, n.d["lhs"]) == 1 and const(n.d["rhs"]) == 0
                counted = lambda n: any(param_idx(f, x) == 1 for t in (n.d["args"] if n.kind == "call" and last(n.d["q"]) in ("buf_next", "memcpy") else [n.d["rhs"]] if n.kind == "asg" and n.d["op"] == "+=" else []) for x in subterms(t) if x[0] != "sizeof")
                never(R, "primitive", f"{own}::{nm}:null:{m.group(1)[:20] if m else ''}", gz, counted, "a missing buffer does not count as empty", avoid=zero)
    # direction of copies
    for (own, nm), fs in sorted(by.items()):
        if own not in ("ser_packer", "ser_unpacker") and nm != "raw": continue
        for f in fs:
            for mode in (["PACK", "UNPACK"] if nm == "raw" else ["PACK" if own == "ser_packer" else "UNPACK"]):
                g = CFG(P, f, assume=mode_assume(mode)) if nm == "raw" else CFG(P, f)
                reach = {n.nid for n in closure([g.entry])}
                for n in copies(g):
                    if n.nid not in reach: continue
                    dst, src, cnt = n.d["args"][:3]
                    isb = lambda t: has_call(t, "buf_next")
                    ok = (isb(dst) and not isb(src)) if mode == "PACK" else (isb(src) and not isb(dst))
                    R.ob("primitive", f"{own}::{nm}:direction:{mode}", ok, f"{show(src)} is copied to {show(dst)} when {'packing' if mode == 'PACK' else 'unpacking'}", n.where())
                    b = [x for t in (dst, src) for x in subterms(t) if x[0] == "call" and last(x[1]) == "buf_next"]
                    R.ob("primitive", f"{own}::{nm}:copied:{mode}", bool(b) and amount(b[0][3][0]) == amount(cnt), f"{show(cnt)} bytes are copied, the position moves by {show(b[0][3][0]) if b else '?'}", n.where())
                    other = src if mode == "PACK" else dst
                    R.ob("primitive", f"{own}::{nm}:operand:{mode}", any(x[0] in ("param", "var") and (param_idx(f, x) == 0 or x[0] == "var") for x in subterms(other)), f"{show(other)} is not the value", n.where())
                if nm in ("pack", "unpack", "raw", "pack_buffer") :
                    never(R, "primitive", f"{own}::{nm}:copies:{mode}", g, lambda n: n.kind == "exit", "data are not copied", avoid=lambda n: n in copies(g))
    raw = [f for f in by.get(("serializer", "raw"), [])]
    for f in R.need(raw, "serializer::raw"):
        g = CFG(P, f, assume=mode_assume("SIZER"))
        R.cfg_used(g)
        ad = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "add"]
        R.ob("primitive", "raw:size", bool(ad) and all(param_idx(f, n.d["args"][0]) == 1 for n in ad if n.nid in {x.nid for x in closure([g.entry])}), "the sizing pass does not add the size of raw data", f.where())
    # buffer position
    f = R.need(P.find("SST::Core::Serialization::pvt::ser_buffer_accessor::buf_next", False), "buf_next")[0]
    for room in ("fits", "exact", "over"):
        # used + size compared with the capacity
        def dec(at, ctx=None, room=room):
            if at[0] != "<": return None
            a, b = at[1], at[2]
            cap = lambda t: fin(t, "ser_buffer_accessor::max_size_")
            if cap(b) and not cap(a): return room == "fits"
            if cap(a) and not cap(b): return room == "over"
            return None
        got, bad = [], []
        g = CFG(P, f, terms=Terms(P, keep=True))

        def on(n, e, v):
            if n.kind == "ret": got.append((v(n.d["val"]), dict(e), n))
        walk(g, dec, on=on)
        R.cfg_used(g)
        if room == "over":
            R.ob("primitive", "buf_next:over", not got, "a position past the end of the buffer is handed out", f.where())
            continue
        R.ob("primitive", f"buf_next:{room}", bool(got), "data that fit into the buffer are refused", f.where())
        for val, e, n in got:
            R.ob("primitive", f"buf_next:result:{room}", is_field(val, "ser_buffer_accessor::bufptr_"), f"{show(val)} is handed out", n.where())
            nb = [t for k, t in e.items() if is_field(k, "ser_buffer_accessor::bufptr_")]
            ns = [t for k, t in e.items() if is_field(k, "ser_buffer_accessor::size_")]
            step = lambda t, fld: t is not None and (t[0] == "bin" and t[1] == "+=" and is_field(t[2], fld) and param_idx(f, t[3]) == 0 or sum_is(t, lambda x: is_field(x, fld), lambda x: param_idx(f, x) == 0))
            R.ob("primitive", f"buf_next:moves:{room}", bool(nb) and step(nb[0], "ser_buffer_accessor::bufptr_"), f"the position becomes {show(nb[0]) if nb else 'unchanged'}", n.where())
            R.ob("primitive", f"buf_next:counts:{room}", bool(ns) and step(ns[0], "ser_buffer_accessor::size_"), f"the used size becomes {show(ns[0]) if ns else 'unchanged'}", n.where())
    tests = {norm_cond(c, True)[0] for n in CFG(P, f).nodes() for _, c, _ in n.succ if c is not None and is_term(c)}
    R.ob("primitive", "buf_next:test", any(at[0] == "<" and any(is_field(x, "ser_buffer_accessor::max_size_") for x in at[1:]) for at in tests), "the size of the buffer is not compared as it is", f.where())


def passes(R):
    """Where an object is sized and then packed, both passes cover the same objects in the same order, and the packer is given the
    size that the sizing pass found."""
    P = R.prog
    users = [f for f in P.funcs.values() if any(x for x in raw_calls(f) if x.endswith("serializer12start_sizingEv"))]
    R.need(users, "callers of serializer::start_sizing")
    for f in users:
        g = CFG(P, f, inline=helper_inline)
        R.cfg_used(g)
        st = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "start_sizing"]
        pk = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "start_packing"]
        R.ob("passes", f.q + ":packs", bool(pk) and len(pk) >= len(st), "what is sized is not packed", f.where())
        lab = {}
        for n in g.nodes():
            l = label(n)
            if l is not None: lab[n.nid] = tuple(map(noctx, l))
        for i, s in enumerate(st):
            stop1 = {n.nid for n in pk}
            p = reach_first(s, stop1)
            for q in p:
                stop2 = {n.nid for n in st} | stop1 | {g.exit.nid}
                d = distinguish_from(g, [x for x, _, _ in s.succ], lab, stop1, g, [x for x, _, _ in q.succ], lab, stop2, da={n.nid for n in st})
                R.ob("passes", f"{f.q}:{i}:same", d is None, "" if d is None else f"only the {'sizing' if d[2] == 'first' else 'packing'} pass covers {showl(d[1])}", q.where())
                sz = q.d["args"][1]
                isz = lambda t: t[0] == "call" and last(t[1]) == "size" and not t[3] and any(o in t[1] for o in OWNERS)
                if isz(sz): ok = True
                elif sz[0] == "var":
                    setn = lambda n: n.kind in ("asg", "init") and (n.d.get("lhs") or n.d.get("var")) == sz and n.d.get("rhs") is not None and isz(n.d["rhs"])
                    ok = g.search([x for x, _, _ in s.succ], lambda n: n is q, avoid=setn) is None
                    for n in g.nodes():
                        if setn(n): ok = ok and g.search([x for x, _, _ in n.succ], lambda m: m.nid in lab, avoid=lambda m: m in pk) is None
                else: ok = False
                R.ob("passes", f"{f.q}:{i}:size", ok, f"the packer is given {show(sz)}, not the size that was found", q.where())


def raw_calls(f): return list(walk_ast(f.d["body"]))


def reach_first(s, stop):
    out, seen, st = [], set(), [x for x, _, _ in s.succ]
    while st:
        n = st.pop()
        if n.nid in seen: continue
        seen.add(n.nid)
        if n.nid in stop: out.append(n); continue
        st.extend(x for x, _, _ in n.succ)
    return out


def distinguish_from(ga, ea, la, sa_, gb, eb, lb, sb, da=()):
    class E:
        def __init__(self, succ, nid): self.kind, self.nid, self.succ, self.d = "x", nid, [(x, None, None) for x in succ], None

    class G: pass
    a, b = G(), G()
    a.entry, b.entry = E(ea, -1), E(eb, -2)
    return distinguish(a, la, b, lb, stop_a=sa_, stop_b=sb, da=da)


def elements(R):
    """A restored container has the elements that were written: as many elements as were announced are read, starting from an
    empty container, and the announced number is the number of elements of the container."""
    P = R.prog
    k = 0
    for f in wire_funcs(R):
        if not f.q.startswith(S + "serialize_impl") and not f.q.startswith(S + "pvt::serialize_"): continue
        if helper_inline(f, None, None) and callers_of(P, f): continue
        g = CFG(P, f, inline=helper_inline, assume=mode_assume("UNPACK", True), exact=True)
        lab, _ = language(g, f)
        loops = [(h, body, leave, L) for h, body, leave, L in loop_heads(g) if any(n in lab for n in L)]
        who = f.q if len(f.q) < 110 else f.q[:107] + "..."
        for h, body, leave, L in loops:
            k += 1
            ats = [norm_cond(c, True) for _, c, _ in h.succ if c is not None and is_term(c)]
            lt = [at for at, _ in ats if at[0] == "<" and at[1][0] == "var"]
            if not lt: continue
            i, N = lt[0][1], lt[0][2]
            ini = [n.d["rhs"] for n in g.nodes() if n.kind in ("init", "asg") and (n.d.get("var") or n.d.get("lhs")) == i and n.d.get("op", "=") == "=" and n.d.get("rhs") is not None]
            R.ob("elements", who + ":from", bool(ini) and all(const(x) == 0 for x in ini), "elements are not read from the first one on", h.where())
            inc = [n for n in g.nodes() if n.kind == "asg" and n.d["lhs"] == i and n.nid in L]
            R.ob("elements", who + ":step", bool(inc) and all(n.d["op"] == "++" or n.d["op"] == "+=" and const(n.d["rhs"]) == 1 for n in inc), "elements are left out or repeated", h.where())
            if N[0] == "var":
                rd = lambda n: n.kind == "call" and label(n) is not None and any(N in list(subterms(a)) for a in n.d["args"])
                never(R, "elements", who + ":count", g, lambda n: n is h, "the number of elements is used before it is read", avoid=rd)
            # every iteration adds an element
        if any("clear" in str(x) for x in raw_calls(f)) or re.search(r"serialize_impl<std::(vector|deque|list|forward_list|map|set|multi|unordered)", f.q) and "*" not in f.q.split("serialize_impl<", 1)[1].split(", void")[0][-2:]:
            clr = lambda n: n.kind == "call" and last(n.d["q"]) in ("clear", "resize", "assign") or n.kind == "ctor" and False
            grow = lambda n: n.kind == "call" and last(n.d["q"]) in ("emplace_back", "push_back", "emplace", "insert", "operator[]", "emplace_after", "emplace_hint", "try_emplace", "insert_after") and n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 0
            if [n for n in g.nodes() if grow(n)]:
                never(R, "elements", who + ":empty", g, grow, "elements are added to what the container held before", avoid=clr)
                for h, body, leave, L in loops:
                    p = g.search(body, lambda m: m is h, avoid=grow, edge=lambda a, s, c, p: s.nid in L)
                    R.ob("elements", who + ":adds", p is None, "an element that was read is not added", h.where())
        gp = CFG(P, f, inline=helper_inline, assume=mode_assume("PACK", True), exact=True)
        for n in gp.nodes():
            l = label(n)
            if l is None or l[0] not in ("p", "o") or l[1] == "b": continue
            v = n.d["args"][0] if l[0] == "p" else n.d["args"][1]
            t = expand(gp.T, v)
            if any(x[0] == "call" and last(x[1]) in ("size", "get_size", "distance") for x in subterms(t)) and not any(x[0] == "idx" for x in subterms(t)):
                R.ob("elements", who + ":announced", t[0] == "call" and last(t[1]) in ("size", "get_size", "distance"), f"{show(t)} elements are announced", n.where())
    if k < 20: raise AnalysisError("loops over serialised elements not found")


def identity(R):
    """With pointer tracking an object is written once, where it is first met, and every other pointer to it is written as a
    reference that is resolved to the restored object; an object is known to the tracker before its contents are restored where the
    contents can refer back to it; null pointers are restored as null pointers, others are not."""
    P = R.prog
    ser = [f for f in P.funcs.values() if re.match(re.escape(S) + r"pvt::serialize<.*\*>::operator\(\)$", f.q)]
    R.need(ser, "serialize<T*>")
    seen = {"check_pointer_sizer": "SIZER", "check_pointer_pack": "PACK"}
    content = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "i"
    for f in ser[:40]:
        who = "serialize<T*>" if len(f.q) > 90 else f.q
        for chk, m in seen.items():
            for known in (True, False):
                for null in (True, False):
                    def more(at, known=known, null=null, chk=chk):
                        if any(is_term(x) and fin(x, "pointer_set") for x in at[1:]): return not known if at[0] in ("nz", "pos") else (known if any(const(x) == 0 or has_call(x, "end") for x in at[1:]) else None)
                        if any(is_term(x) and has_call(x, chk) for x in at[1:]): return known if at[0] in ("nz", "pos") else (not known if any(const(x) == 0 for x in at[1:]) else None)
                        if at[0] == "==" and any(const(x) == 0 for x in at[1:]) and any(param_idx(f, y) == 0 for x in at[1:] for y in subterms(x)): return null
                        if at[0] in ("nz", "pos") and (at[1][0] == "var" or any(param_idx(f, y) == 0 for y in subterms(at[1]))): return not null
                        if at[0] == "==" and any(const(x) == 0 for x in at[1:]) and any(x[0] == "var" for x in at[1:]): return null
                        return None
                    g = CFG(P, f, assume=mode_assume(m, True, more))
                    R.cfg_used(g)
                    r = closure([g.entry])
                    has = any(content(n) for n in r)
                    R.ob("identity", f"{who}:{m}:{'null' if null else 'known' if known else 'new'}", has == (not null and not known), f"in {m} mode the object behind a {'null' if null else 'known' if known else 'new'} pointer is {'written' if has else 'not written'}", f.where())
        # unpack
        g = CFG(P, f, assume=mode_assume("UNPACK", True))
        R.cfg_used(g)
        chkn = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "check_pointer_unpack"]
        rdn = [n for n in g.nodes() if n.kind == "call" and (l := label(n)) is not None and l[0] == "p"]
        R.ob("identity", who + ":lookup", bool(chkn) and bool(rdn) and all(any(x in list(subterms(n.d["args"][0])) for m_ in rdn for x in m_.d["args"]) for n in chkn), "the stored pointer is not looked up", f.where())
        for case in ("null", "known", "new"):
            stored = {x for m_ in rdn for x in m_.d["args"]}

            def more(at, case=case):
                if any(is_term(x) and has_call(x, "check_pointer_unpack") for x in at[1:]): return (case == "known") if at[0] in ("nz", "pos") else (case != "known") if any(const(x) == 0 for x in at[1:]) else None
                if at[0] == "==" and any(const(x) == 0 for x in at[1:]): return case == "null" if any(x[0] == "var" and noctx(x) in {noctx(y) for y in stored} for x in at[1:]) else (case != "known")
                if at[0] in ("nz", "pos"): return case != "null" if at[1][0] == "var" and noctx(at[1]) in {noctx(y) for y in stored} else case == "known"
                return None
            gc = CFG(P, f, assume=mode_assume("UNPACK", True, more), terms=Terms(P, keep=True))
            r = closure([gc.entry])
            has = any(content(n) for n in r)
            R.ob("identity", f"{who}:UNPACK:{case}", has == (case == "new"), f"the object behind a {case} pointer is {'read' if has else 'not read'}", f.where())
            asg = [n for n in r if n.kind == "asg" and (param_idx(f, n.d["lhs"]) == 0)]
            val = lambda t: expand(g.T, t)
            if case == "null": R.ob("identity", f"{who}:UNPACK:nulls", bool(asg) and all(const(n.d["rhs"]) == 0 for n in asg), "a null pointer is not restored as null", f.where())
            if case == "known": R.ob("identity", f"{who}:UNPACK:refers", bool(asg) and all(has_call(expand(gc.T, n.d["rhs"]), "check_pointer_unpack") for n in asg), "a pointer to a known object is not restored to that object", f.where())
            if case == "new":
                rep = lambda n: n.kind == "call" and last(n.d["q"]) == "report_real_pointer"
                never(R, "identity", f"{who}:UNPACK:reports", gc, lambda n: n.kind == "exit", "a restored object is not made known", avoid=rep)
                for n in r:
                    if rep(n): R.ob("identity", f"{who}:UNPACK:pair", noctx(n.d["args"][0]) in {noctx(y) for m_ in gc.nodes() if m_.kind == "call" and (l := label(m_)) is not None and l[0] == "p" for y in m_.d["args"]} and any(param_idx(f, y) == 0 for y in subterms(n.d["args"][1])), "the object is made known under another pointer", n.where())
        # without tracking
        for null in (True, False):
            for m in ("SIZER", "PACK"):
                def more(at, null=null):
                    if at[0] == "==" and any(const(x) == 0 for x in at[1:]): return null
                    if at[0] in ("nz", "pos"): return not null
                    return None
                gp = CFG(P, f, assume=mode_assume(m, False, more))
                has = any(content(n) for n in closure([gp.entry]))
                R.ob("identity", f"{who}:plain:{m}:{'null' if null else 'object'}", has != null, f"the object behind a {'null' if null else 'non-null'} pointer is {'written' if has else 'not written'}", f.where())
        gu = CFG(P, f, assume=mode_assume("UNPACK", False))
        nul = lambda n: n.kind == "asg" and param_idx(f, n.d["lhs"]) == 0 and const(n.d["rhs"]) == 0
        gz = CFG(P, f, assume=mode_assume("UNPACK", False, lambda at: False if at[0] in ("nz", "pos") else None))
        never(R, "identity", who + ":plain:nulls", gz, lambda n: n.kind == "exit", "a null pointer is not restored as null", avoid=nul)
    # trackers
    for own, nm in (("ser_sizer", "check_pointer_sizer"), ("ser_packer", "check_pointer_pack")):
        f = R.need(P.find(f"{S}pvt::{own}::{nm}", False), nm)[0]
        for new in (True, False):
            vals = []
            g = CFG(P, f)
            R.cfg_used(g)
            dec = lambda at, ctx=None, new=new: (new if at[0] in ("nz", "pos") else not new) if any(is_term(x) and any(y[0] == "mem" and last(y[2]) == "second" or y[0] == "proj" or y[0] == "call" and last(y[1]) == "insert" for y in subterms(x)) for x in at[1:]) else None
            for v, n in root_rets_vals(g, dec): vals.append(v)
            R.ob("identity", f"{nm}:{'new' if new else 'known'}", bool(vals) and all(v == (not new) for v in vals), f"a {'new' if new else 'known'} pointer is reported as {vals}", f.where())
            R.ob("identity", f"{nm}:stores", any(n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace") and any(param_idx(f, a) == 0 for a in n.d["args"]) for n in g.nodes()), "the pointer is not remembered", f.where())
    f = R.need(P.find(S + "pvt::ser_unpacker::check_pointer_unpack", False), "check_pointer_unpack")[0]
    for known in (True, False):
        dec = lambda at, ctx=None, known=known: (not known) if at[0] == "==" and any(has_call(x, "find") or has_call(x, "end") for x in at[1:]) else known if at[0] in ("nz", "pos") and (has_call(at[1], "count") or has_call(at[1], "contains")) else None
        got = []
        g = CFG(P, f)
        walk(g, dec, on=lambda n, e, v: got.append((v(n.d["val"]), dict(e), n)) if n.kind == "ret" else None)
        R.cfg_used(g)
        R.ob("identity", f"check_pointer_unpack:{'known' if known else 'new'}", bool(got) and all((is_field(v, "pair::second") or fin(v, "ser_unpacker::ser_pointer_map")) if known else const(v) == 0 for v, e, n in got), f"a {'known' if known else 'new'} pointer is resolved to {[show(v) for v, _, _ in got]}", f.where())
        if not known:
            for v, e, n in got:
                sk = [t for k, t in e.items() if is_field(k, "ser_unpacker::split_key")]
                R.ob("identity", "check_pointer_unpack:key", bool(sk) and param_idx(f, sk[0]) == 0, "the pointer of an object that is being restored is not remembered", n.where())
    for nm, key in (("report_new_pointer", lambda f, t: is_field(t, "ser_unpacker::split_key")), ("report_real_pointer", lambda f, t: param_idx(f, t) == 0)):
        f = R.need(P.find(f"{S}pvt::ser_unpacker::{nm}", False), nm)[0]
        g = CFG(P, f)
        R.cfg_used(g)
        st = [n for n in g.nodes() if n.kind == "asg" and n.d["lhs"][0] == "idx" and fin(n.d["lhs"][1], "ser_unpacker::ser_pointer_map")]
        real = 0 if nm == "report_new_pointer" else 1
        R.ob("identity", nm, bool(st) and all(key(f, n.d["lhs"][2]) and param_idx(f, n.d["rhs"]) == real for n in st) or any(n.kind == "call" and last(n.d["q"]) in ("insert_or_assign",) and key(f, n.d["args"][0]) and param_idx(f, n.d["args"][1]) == real for n in g.nodes()), "a restored object is entered under the wrong key", f.where())
    # objects are known before their contents are read
    for f in wire_funcs(R):
        if f.q == S + "pvt::unpack_serializable" or re.match(re.escape(S) + r"serialize_impl<.*\*, void>::operator\(\)$", f.q):
            g = CFG(P, f, inline=helper_inline, assume=mode_assume("UNPACK", True), exact=True)
            nw = [n for n in g.nodes() if n.kind == "new" or n.kind == "call" and last(n.d["q"]) == "get_serializable"]
            so = lambda n: n.kind == "call" and last(n.d["q"]) == "serialize_order"
            if not nw or not any(so(n) for n in g.nodes()) or f.q.startswith(S + "serialize_impl<SST::"): continue
            R.cfg_used(g)
            who = f.q if len(f.q) < 100 else f.q[:97] + "..."
            never(R, "identity", who + ":early", g, so, "the contents of an object are restored before the object is known to the tracker", frm=nw, avoid=lambda n: n.kind == "call" and last(n.d["q"]) == "report_new_pointer")


def root_rets_vals(g, dec):
    out = []
    for n in g.nodes():
        if n.kind == "ret" and is_term(n.d.get("val")): out.append((truthval(n.d["val"], dec), n))
    return out


def polymorphic(R):
    """A polymorphic object is restored as an object of the class that was written: what is written is the class id of that object,
    what is read selects the class, null has an id of its own, two classes cannot share an id, and an unknown id is not used."""
    P = R.prog
    f = R.need(P.find(S + "pvt::pack_serializable", False), "pack_serializable")[0]
    g = CFG(P, f)
    for null in (True, False):
        dec = lambda at, ctx=None, null=null: (not null) if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 0 else null if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) else None
        got = []
        walk(CFG(P, f, terms=Terms(P, keep=True)), dec, on=lambda n, e, v: got.append((v(n.d["args"][0]), n)) if n.kind == "call" and label(n) and label(n)[0] == "p" else None)
        R.cfg_used(g)
        ok = bool(got) and all((const(expand(g.T, v)) is not None or any("null_ptr_id" in str(x) for x in globs_in(v))) if null else has_call(v, "cls_id") and v[0] in ("call", "cast") for v, n in got)
        R.ob("polymorphic", f"written:{'null' if null else 'object'}", ok, f"{[show(v) for v, _ in got]} is written for {'a null pointer' if null else 'an object'}", f.where())
    f = R.need(P.find(S + "pvt::unpack_serializable", False), "unpack_serializable")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    rd = [n for n in g.nodes() if n.kind == "call" and label(n) and label(n)[0] == "p"]
    mk = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "get_serializable"]
    R.ob("polymorphic", "read", bool(rd) and bool(mk) and all(n.d["args"][0] in [m.d["args"][0] for m in rd] or any(x in [m.d["args"][0] for m in rd] for x in subterms(n.d["args"][0])) for n in mk), "the class is not selected by the id that was read", f.where())
    isnull = lambda at, pol, node: at[0] == "==" and not pol and any(x in [m.d["args"][0] for m in rd] for x in at[1:])
    guarded(R, "polymorphic", "null", g, lambda n: n in mk, isnull, "an object is created for a null pointer")
    # factory
    f = R.need(P.find(S + "serializable_factory::add_builder", False), "add_builder")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    st = [n for n in g.nodes() if n.kind == "asg" and (n.d["lhs"][0] == "idx" or any(x[0] == "idx" for x in subterms(n.d["lhs"]))) or n.kind == "asg" and param_idx(f, n.d["rhs"]) == 0]
    R.ob("polymorphic", "registered", bool(st), "a class is not registered", f.where())
    free = lambda at, pol, node: (at[0] == "==" and pol and any(const(x) == 0 for x in at[1:])) or at[0] in ("nz", "pos") and not pol or at[0] == "==" and any(has_call(x, "find") or has_call(x, "end") for x in at[1:]) and pol
    guarded(R, "polymorphic", "unique", g, lambda n: n in st and param_idx(f, n.d["rhs"]) == 0, free, "a class replaces another one with the same id")
    f = R.need(P.find(S + "serializable_factory::get_serializable", False), "get_serializable")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    lk = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("find", "at", "operator[]")]
    R.ob("polymorphic", "lookup", any(any(param_idx(f, x) == 0 for a in n.d["args"] for x in subterms(a)) for n in lk), "the class is not looked up by its id", f.where())
    use = lambda n: n.kind == "call" and last(n.d["q"]) == "build"
    found = lambda at, pol, node: at[0] == "==" and not pol and any(has_call(x, "end") for x in at[1:]) or at[0] in ("nz", "pos") and pol
    guarded(R, "polymorphic", "known", g, use, found, "an unknown class id is used")


CLAUSES = [symmetric, known, primitive, passes, elements, identity, polymorphic]
