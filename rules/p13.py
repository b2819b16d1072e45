"""P13: checkpoint files."""
from sa.q import *
from rules.p11 import label, helper_inline, distinguish, noctx, showl, member
import re

PROP = dict(
    title="A checkpoint is read back section by section as it was written",
    statement="Every section of a checkpoint's files is read in the place where it was written, and holds the same values in the same order: a reader fetches all bytes of a "
              "section before it unpacks them, skips whole sections only, finds the files through the markers the writer put into the registry, and finds each component at "
              "the recorded offset. The number of components that is written is the number that follows, every component is written and every component read is put to use.",
    over=["inputs", "histories"], text="all simulations that can be checkpointed, all numbers of ranks and threads before and after the restart",
    why="The tests restart a few small configurations, where a section that is not read or is read from the wrong place often holds what the simulation computes again "
        "anyway. With other partitions or components the restart continues from wrong data.",
    files=["src/sst/core/simulation.cc", "src/sst/core/model/restart/sstcptmodel.cc", "src/sst/core/model/configGraph.cc", "src/sst/core/checkpointAction.cc"],
    mech=[("Simulation::checkpoint, checkpoint_write_globals, checkpoint_append_registry", "src/sst/core/simulation.cc"), ("Simulation::restart", "src/sst/core/simulation.cc"),
          ("SSTCPTModelDefinition::createConfigGraph", "src/sst/core/model/restart/sstcptmodel.cc"), ("ConfigGraph::restoreRestartData", "src/sst/core/model/configGraph.cc"),
          ("CheckpointAction::createCheckpoint", "src/sst/core/checkpointAction.cc")],
    technique="language equivalence of the sequences of file operations and serialised values of writers and readers, path obligations between fetching and unpacking a section")

TUS = ["simulation.cc", "checkpointAction.cc", "model/restart/sstcptmodel.cc", "model/configGraph.cc", "main.cc"]


def bare(t):
    """the container behind x.data(), &x[0], x.get()->..."""
    while True:
        if t[0] in ("addr", "deref"): t = t[1]
        elif t[0] == "cast": t = t[-1]
        elif t[0] == "idx": t = t[1]
        elif t[0] == "call" and last(t[1]) in ("data", "get", "operator->", "operator*", "front", "operator[]", "begin", "str", "c_str") and t[2] is not None: t = t[2]
        else: return noctx(t)


def fop(n):
    """file operation of a node: (kind, stream, buffer, size)"""
    if n.kind != "call" or n.d["obj"] is None: return None
    q = n.d["q"]
    m = re.search(r"basic_(o|i|)f?stream(<.*>)?::(\w+)$", q)
    if not m: return None
    nm, o = m.group(3), noctx(n.d["obj"])
    if nm in ("write", "read"):
        b, s = n.d["args"][:2]
        fixed = s[0] == "sizeof" or const(s) is not None
        return ("8" if fixed else "N", o, bare(b), None if fixed else noctx(s))
    if nm == "seekg":
        rel = len(n.d["args"]) > 1 and "cur" in show(n.d["args"][1])
        return ("S" if rel else "@", o, None, noctx(n.d["args"][0]))
    if nm in ("open", "close"): return (nm, o, None, None)
    return None


def takes_stream(f, e, ctx): return helper_inline(f, e, ctx) or any(re.search(r"basic_[oi]?f?stream.*&", str(p[2])) for p in f.params) and not f.q.startswith("std::")


def graph_of(P, f): return CFG(P, f, inline=takes_stream, exact=False)


class N:
    def __init__(self, nid, kind, d=None): self.nid, self.kind, self.d, self.succ = nid, kind, d, []


class G: pass


def unroll(g, limit=60000):
    """the graph with loops that run a constant number of times unrolled: nodes are (node, values of such counters)"""
    ctr = set()
    for h, body, leave, L in loop_heads(g):
        for _, c, _ in h.succ:
            if c is None or not is_term(c): continue
            at, _ = norm_cond(c, True)
            if at[0] in ("<", "==") and any(x[0] == "var" for x in at[1:]) and any(const(x) is not None for x in at[1:]):
                ctr |= {x for x in at[1:] if x[0] == "var"}
    made, stack = {}, []

    def get(n, env):
        k = (n.nid, env)
        if k not in made:
            made[k] = x = N(len(made), n.kind, n.d)
            x.orig = n
            x.where = n.where
            stack.append((x, n, env))
            if len(made) > limit: raise AnalysisError("unrolling does not end")
        return made[k]
    r = G()
    r.entry = get(g.entry, ())
    while stack:
        x, n, env = stack.pop()
        e = dict(env)
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if v in ctr:
                op, rhs = n.d.get("op", "="), n.d.get("rhs")
                c = const(rhs) if rhs is not None else None
                if op == "=": e[v] = c
                elif op == "++" or op == "+=" and c is not None: e[v] = None if e.get(v) is None else e[v] + (1 if op == "++" else c)
                elif op == "--" or op == "-=" and c is not None: e[v] = None if e.get(v) is None else e[v] - (1 if op == "--" else c)
                else: e[v] = None
                if e[v] is None or e[v] > 64: e.pop(v, None)
        t = tuple(sorted(e.items(), key=repr))
        for s, c, p in n.succ:
            if c is not None and is_term(c):
                at, _ = norm_cond(c, True)
                pol = norm_cond(c, True)[1]
                vals = [e.get(a) if a in e else const(a) for a in at[1:]] if at[0] in ("<", "==") else []
                if len(vals) == 2 and None not in vals and any(a in e for a in at[1:]):
                    tv = (vals[0] < vals[1]) if at[0] == "<" else vals[0] == vals[1]
                    if tv == pol and p is False or tv != pol and p is True: continue
            x.succ.append((get(s, t), c, p))
    r.nodes = lambda: made.values()
    return r


def fread(f): return None


def writers(R):
    out = []
    for f in R.prog.funcs.values():
        rc = R_calls(f)
        if any("start_packing" in x for x in rc) and any("ofstream" in x or "basic_ostream" in x or "14basic_ofstream" in x or "So5writeEPKcl" in x for x in rc): out.append(f)
    return R.need(out, "functions that write checkpoint files")


def R_calls(f):
    st, out = [f.d["body"]], []
    while st:
        x = st.pop()
        if isinstance(x, list):
            if x and x[0] == "call" and len(x) > 3 and isinstance(x[3], str): out.append(x[3])
            st.extend(x)
    return out


NEEDED = {"SST::Simulation::checkpoint": "components", "SST::Simulation::checkpoint_write_globals": "globals"}


def segments(g, mode):
    """(start node, stream) of every binary file that is written or read, on an unrolled graph"""
    out = []
    used = {fop(n)[1] for n in g.nodes() if fop(n) and fop(n)[0] in "8NS@"}
    for n in g.nodes():
        if n.kind == "init" and noctx(n.d["var"]) in used and n.d.get("rhs") is not None and "stream" in n.d.get("type", ""):
            r = n.d["rhs"]
            if r[0] in ("ctor", "call") and (r[3] if r[0] == "call" else [x for x in r[2:] if x]): pass
            args = [x for x in subterms(r)]
            if len(args) > 1: out.append((n, noctx(n.d["var"])))
        o = fop(n)
        if o and o[0] == "open" and o[1] in used: out.append((n, o[1]))
    return out


def file_lang(g, start, stream):
    """automaton of the file operations on the stream from its opening to its closing"""
    lab, stop = {}, set()
    for n in g.nodes():
        o = fop(n)
        if n.kind == "exit": stop.add(n.nid)
        if o is None or o[1] != stream: continue
        if o[0] in ("close", "open"): stop.add(n.nid)
        elif o[0] in ("8", "N", "S", "@"): lab[n.nid] = "N" if o[0] == "S" else o[0]
    e = N(-1 - start.nid, "x")
    e.succ = start.succ
    r = G()
    r.entry = e
    return r, lab, stop


def same(a, b):
    (ga, la, sa), (gb, lb, sb) = a, b
    return distinguish(ga, la, gb, lb, stop_a=sa, stop_b=sb)


def frames(g, start, stream, mode):
    """index -> start_packing/start_unpacking nodes of the k-th section of a file (smallest possible index).  When writing, k
    sections have been written before; when reading, k + 1 sections have been read"""
    cnt = {start.nid: 0}
    st = [start]
    while st:
        n = st.pop()
        c = cnt[n.nid]
        o = fop(n)
        if o and o[1] == stream and n is not start:
            if o[0] in ("close", "open"): continue
            if o[0] in ("N", "S"): c += 1
        for s, _, _ in n.succ:
            if cnt.get(s.nid, 99) > c:
                cnt[s.nid] = c
                st.append(s)
    out = {}
    nm = "start_packing" if mode == "w" else "start_unpacking"
    for n in g.nodes():
        if n.kind != "call" or last(n.d["q"]) != nm: continue
        if mode == "r":
            if n.nid in cnt: out.setdefault(cnt[n.nid] - 1, []).append(n)
            continue
        # the section is where what was packed is written next
        seen, stk, ks = set(), [x for x, _, _ in n.succ], []
        while stk:
            m = stk.pop()
            if m.nid in seen: continue
            seen.add(m.nid)
            o = fop(m)
            if o and o[0] == "N":
                if o[1] == stream and m.nid in cnt: ks.append(cnt[m.nid])
                continue
            if m.kind == "call" and last(m.d["q"]) == nm: continue
            stk.extend(x for x, _, _ in m.succ)
        if ks: out.setdefault(min(ks), []).append(n)
    return out


def canon(name):
    return re.sub(r"^(cpt_|local_|dummy_)|_$|_cpt$", "", name).lower() if name else None


def fname(t):
    """name of the value that is serialised"""
    t = noctx(t)
    while t[0] in ("addr", "cast", "deref") or t[0] == "call" and last(t[1]) == "get": t = t[-1] if t[0] == "cast" else t[2] if t[0] == "call" else t[1]
    if t[0] == "mem": return canon(last(t[2]))
    if t[0] == "glob": return canon(last(t[1]))
    if t[0] == "var": return canon(t[3])
    if t[0] == "elem": return None
    return None


def obj_lang(g, start, stops):
    lab = {}
    for n in g.nodes():
        l = label(n)
        if l is None: continue
        a = n.d["args"][1] if l[0] == "o" and len(n.d["args"]) > 1 else n.d["args"][0] if l[0] == "p" and n.d["args"] else None
        lab[n.nid] = (l[0], re.sub(r"^(K)", "", str(l[1])), fname(a) if a is not None else None)
    stop = {n.nid for n in g.nodes() if n.kind == "exit" or n is not start and stops(n)}
    e = N(-1 - start.nid, "x")
    e.succ = start.succ
    r = G()
    r.entry = e
    return r, lab, stop


def names(o):
    g, lab, stop = o
    seen, st, out = set(), [g.entry], {}
    while st:
        n = st.pop()
        if n.nid in seen or n.nid in stop: continue
        seen.add(n.nid)
        if n.nid in lab: out.setdefault(lab[n.nid][2], set()).add(n.nid)
        st.extend(s for s, _, _ in n.succ)
    return {k for k in out if k}


def same_objs(R, key, wa, rb, where, what):
    keep = names(wa) & names(rb)
    er = lambda o: {k: (a, b, c if c in keep else None) for k, (a, b, c) in o[1].items()}
    d = distinguish(wa[0], er(wa), rb[0], er(rb), stop_a=wa[2], stop_b=rb[2])
    R.ob("values", key, d is None, "" if d is None else f"{what}: after {len(d[0]) - (0 if isinstance(d[1], str) else 1)} values only the {'writer' if d[2] == 'first' else 'reader'} has {showl(d[1])}", where)


def load(R):
    P = R.prog
    W, D = [], []
    for f in writers(R):
        g0 = graph_of(P, f)
        R.cfg_used(g0)
        g = unroll(g0)
        for s, st in segments(g, "w"): W.append((f, g, s, st))
    for f in P.funcs.values():
        rc = R_calls(f)
        if any("start_unpacking" in x for x in rc) and any("basic_ifstream" in x or "4readEPcl" in x for x in rc):
            g0 = graph_of(P, f)
            R.cfg_used(g0)
            g = unroll(g0)
            for s, st in segments(g, "r"): D.append((f, g, s, st))
    if len(W) < 3 or len(D) < 5: raise AnalysisError(f"{len(W)} written and {len(D)} read checkpoint files found")
    return W, D


def sections(R):
    """Each file is read as the same sequence of counts and sections as it was written."""
    W, D = load(R)
    hit = {i: 0 for i in range(len(W))}
    pairs = []
    for f, g, s, st in D:
        L = file_lang(g, s, st)
        who = f"{f.sq}:{show(st)}"
        seek = [n for n in g.nodes() if fop(n) and fop(n)[0] == "@" and fop(n)[1] == st]
        if seek:
            # sections found by their offsets
            for n in seek:
                want = ["8", "N"]
                cur, ok = [n], True
                for w in want:
                    nxt, seen, stk = [], set(), [x for m in cur for x, _, _ in m.succ]
                    while stk:
                        m = stk.pop()
                        if m.nid in seen: continue
                        seen.add(m.nid)
                        o = fop(m)
                        if o and o[1] == st or m.kind == "exit":
                            if m.kind == "exit" or o[0] != w: ok = False
                            else: nxt.append(m)
                            continue
                        stk.extend(x for x, _, _ in m.succ)
                    cur = nxt
                R.ob("sections", who + ":offset", ok, "what is at an offset is not read as a size and a section", n.where())
            pairs.append((f, g, s, st, None))
            continue
        m = [(i, d) for i, w in enumerate(W) for d in [same(file_lang(w[1], w[2], w[3]), L)]]
        fit = [i for i, d in m if d is None]
        if fit:
            for i in fit: hit[i] += 1
            pairs.append((f, g, s, st, fit[0]))
            R.ob("sections", who, True, "")
        else:
            # the nearest writer
            i, d = max(m, key=lambda x: len(x[1][0]))
            pairs.append((f, g, s, st, i))
            R.ob("sections", who, False, f"{f.sq} reads a file as no function writes it: nearest is {W[i][0].sq}, where after {len(d[0])} operations only the {'writer' if d[2] == 'first' else 'reader'} has {'a size' if d[1] == '8' else 'a section' if d[1] == 'N' else d[1]}", s.where())
    for i, w in enumerate(W):
        R.ob("sections", f"{w[0].sq}:{show(w[3])}:read", hit[i] > 0, f"no reader takes the file that {w[0].sq} writes as it is written", w[2].where())
    return W, pairs


def pairs_quiet(R):
    W, D = load(R)
    out = []
    for f, g, s, st in D:
        if any(fop(n) and fop(n)[0] == "@" and fop(n)[1] == st for n in g.nodes()): out.append((f, g, s, st, None)); continue
        L = file_lang(g, s, st)
        m = [(i, same(file_lang(w[1], w[2], w[3]), L)) for i, w in enumerate(W)]
        fit = [i for i, d in m if d is None]
        out.append((f, g, s, st, fit[0] if fit else max(m, key=lambda x: len(x[1][0]))[0]))
    return W, out


def values(R):
    """Each section is unpacked into the same values in the same order as were packed."""
    W, pairs = pairs_quiet(R)
    wf = {}
    for i, (f, g, s, st) in enumerate(W):
        fr = frames(g, s, st, "w")
        R.ob("values", f"{f.sq}:{show(st)}:packed", bool(fr), "nothing is packed for the file", s.where())
        stops = lambda n, st=st: fop(n) is not None and fop(n)[1] == st or n.kind == "call" and last(n.d["q"]) in ("start_sizing", "start_packing")
        wf[i] = {k: [obj_lang(g, n, stops) for n in ns] for k, ns in fr.items()}
        for k, ls in wf[i].items():
            for l in ls[1:]: same_objs(R, f"{f.sq}:{k}:alternatives", ls[0], l, s.where(), f.sq)
    comp = [i for i in wf if len(wf[i]) > 1 and any("checkpoint" == last(W[i][0].sq) for _ in [0])]
    raw = {}
    for f, g, s, st, i in pairs:
        fr = frames(g, s, st, "r")
        stops = lambda n, st=st: fop(n) is not None and fop(n)[1] == st or n.kind == "call" and last(n.d["q"]) in ("start_unpacking",)
        if i is None:
            # components by offset: what follows is a component section
            for k, ns in fr.items():
                for n in ns:
                    w = [l for j in wf for kk, ls in wf[j].items() for l in ls if kk >= 1 and last(W[j][0].sq) == "checkpoint"]
                    R.need(w, "component sections of Simulation::checkpoint")
                    same_objs(R, f"{f.sq}:{show(st)}:component", w[0], obj_lang(g, n, stops), n.where(), "a component's section")
            continue
        R.ob("values", f"{f.sq}:{show(st)}:unpacked", bool(fr), "nothing is unpacked from the file", s.where())
        for k, ns in fr.items():
            for n in ns:
                if k not in wf[i]:
                    R.ob("values", f"{f.sq}:{show(st)}:{k}", False, f"section {k} is unpacked, which {W[i][0].sq} does not write", n.where())
                    continue
                same_objs(R, f"{f.sq}:{show(st)}:{k}", wf[i][k][0], obj_lang(g, n, stops), n.where(), f"section {k} of the file {W[i][0].sq} writes")
        # sections that are kept to be unpacked later
        cnt = {}
        for n in g.nodes():
            o = fop(n)
            if o and o[0] == "N" and o[1] == st and any(x[0] == "mem" for x in subterms(o[2])): cnt.setdefault(last([x for x in subterms(o[2]) if x[0] == "mem"][0][2]), []).append(n)
        if cnt:
            idx = index_of(g, s, st)
            for fld, ns in cnt.items():
                for n in ns: raw[fld] = (i, idx[n.nid], n)
    P = R.prog
    f = R.need(P.find("SST::ConfigGraph::restoreRestartData", False), "ConfigGraph::restoreRestartData")[0]
    g = CFG(P, f, inline=helper_inline)
    R.cfg_used(g)
    got = set()
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "start_unpacking":
            b = expand(g.T, n.d["args"][0])
            m = [last(x[2]) for x in subterms(b) if x[0] == "mem" and last(x[2]) in raw]
            if not m: continue
            i, k, rn = raw[m[0]]
            got.add(m[0])
            same_objs(R, f"restoreRestartData:{m[0]}", wf[i][k][0], obj_lang(g, n, lambda x: x.kind == "call" and last(x.d["q"]) == "start_unpacking"), n.where(), f"section {k}, kept in {m[0]},")
    for fld in raw: R.ob("values", f"restoreRestartData:{fld}:used", fld in got, f"the section kept in {fld} is not unpacked", f.where())
    if not raw: raise AnalysisError("sections that are kept to be unpacked later not found")


def index_of(g, start, stream):
    cnt = {start.nid: 0}
    st = [start]
    while st:
        n = st.pop()
        c = cnt[n.nid]
        o = fop(n)
        if o and o[1] == stream and n is not start and o[0] in ("N", "S"): c += 1
        for s, _, _ in n.succ:
            if cnt.get(s.nid, 99) > c:
                cnt[s.nid] = c
                st.append(s)
    return cnt


def fetched(R):
    """A section is unpacked only after its bytes were fetched into a buffer made large enough for it, and what was packed is
    written to the file, from a buffer of that size."""
    P = R.prog
    for f in writers(R):
        g = graph_of(P, f)
        R.cfg_used(g)
        pk = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "start_packing"]
        for n in pk:
            b, s = bare(n.d["args"][0]), noctx(n.d["args"][1])
            wr = lambda m: (o := fop(m)) is not None and o[0] == "N" and o[2] == b and o[3] == s
            never(R, "fetched", f"{f.sq}:written", g, lambda m: m.kind == "exit" or m.kind == "call" and last(m.d["q"]) in ("start_packing", "start_sizing"), "what was packed is not written to the file", frm=[n], avoid=wr)
            sets = [m for m in g.nodes() if m.kind in ("asg", "init") and noctx(m.d.get("lhs") or m.d.get("var")) == s and m.d.get("rhs") is not None and has_call(m.d["rhs"], "size") and not any(bare(x) == b for x in subterms(m.d["rhs"]))]
            room = lambda m: m.kind == "call" and last(m.d["q"]) in ("resize", "assign", "reserve_and_resize") and m.d["obj"] is not None and bare(m.d["obj"]) == b and noctx(m.d["args"][0]) == s or \
                m.kind == "init" and noctx(m.d["var"]) == b and any(noctx(x) == s for x in subterms(m.d["rhs"] or ("none",)))
            never(R, "fetched", f"{f.sq}:room", g, lambda m: m is n, "a section is packed into a buffer that was not made large enough", frm=sets or [g.entry], avoid=room, edge=enough(b, s))
        for n in g.nodes():
            o = fop(n)
            if o and o[0] == "N":
                never(R, "fetched", f"{f.sq}:packed", g, lambda m: m is n, "bytes are written that were not packed", avoid=lambda m: m in pk and bare(m.d["args"][0]) == o[2])
                # the size comes first
                sz = lambda m: (p := fop(m)) is not None and p[0] == "8" and p[1] == o[1] and p[2] == o[3]
                for m in pk:
                    never(R, "fetched", f"{f.sq}:size", g, lambda x: x is n, "a section is written without its size", frm=[m], avoid=sz)
    k = 0
    for f in P.funcs.values():
        rc = R_calls(f)
        if not (any("start_unpacking" in x for x in rc) and any("basic_ifstream" in x or "4readEPcl" in x for x in rc)): continue
        g = graph_of(P, f)
        R.cfg_used(g)
        up = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "start_unpacking"]
        streams = {fop(n)[1] for n in g.nodes() if fop(n) and fop(n)[0] in ("8", "N")}
        for n in up:
            k += 1
            b, s = bare(n.d["args"][0]), noctx(n.d["args"][1])
            rd = lambda m: (o := fop(m)) is not None and o[0] == "N" and o[2] == b and (o[3] == s or s[0] == "call")
            szs = [m for m in g.nodes() if (o := fop(m)) is not None and o[0] == "8" and o[2] == s]
            R.ob("fetched", f"{f.sq}:sized", bool(szs) or s[0] == "call", f"the size {show(s)} of a section is not read", n.where())
            if szs: never(R, "fetched", f"{f.sq}:read", g, lambda m: m is n, "a section is unpacked whose bytes were not fetched", frm=szs, avoid=rd)
            never(R, "fetched", f"{f.sq}:first", g, lambda m: m is n, "a section is unpacked before anything was fetched", avoid=rd)
            room = lambda m: m.kind == "call" and last(m.d["q"]) in ("resize", "assign") and m.d["obj"] is not None and bare(m.d["obj"]) == b and noctx(m.d["args"][0]) == s or m.kind == "init" and noctx(m.d["var"]) == b and any(noctx(x) == s for x in subterms(m.d["rhs"] or ("none",)))
            if szs: never(R, "fetched", f"{f.sq}:room", g, rd, "a section is fetched into a buffer that was not made large enough", frm=szs, avoid=room, edge=enough(b, s))
    if k < 5: raise AnalysisError("unpacking of checkpoint sections not found")


def enough(b, s):
    """edges on which the buffer is known to be large enough"""
    def e(n, succ, c, p):
        if c is None or not is_term(c): return True
        at, pol = norm_cond(c, p)
        isz = lambda t: any(x[0] == "call" and last(x[1]) in ("size", "capacity") and x[2] is not None and bare(x[2]) == b for x in subterms(t))
        if at[0] == "<" and isz(at[1]) and noctx(at[2]) == s and pol is False: return False
        if at[0] == "<" and noctx(at[1]) == s and isz(at[2]) and pol is True: return False
        return True
    return e


def strs(g, pred=lambda n: True):
    out = set()
    for n in g.nodes():
        ts = []
        if n.kind == "call": ts = [a for a in n.d["args"] if is_term(a)] + ([n.d["obj"]] if n.d["obj"] is not None else [])
        elif n.kind in ("asg", "init") and n.d.get("rhs") is not None: ts = [n.d["rhs"]]
        for t in ts:
            for x in subterms(t):
                if x[0] in ("str", "const") and isinstance(x[1], str): out.add(x[1].strip('"'))
    return out


def registry(R):
    """The markers the readers look for in the registry are those the writers put there, and the same name is registered, opened for
    writing and opened for reading."""
    P = R.prog
    wr = [R.need(P.find("SST::Simulation::" + x, False), x)[0] for x in ("checkpoint_write_globals", "checkpoint_append_registry")]
    rd = [R.need(P.find(x, False), x)[0] for x in ("SST::Simulation::restart", "SST::Core::SSTCPTModelDefinition::createConfigGraph")]
    ws = set()
    for f in wr:
        g = CFG(P, f, inline=takes_stream)
        R.cfg_used(g)
        ws |= {s.replace("\\n", "").strip("\n") for s in strs(g)}
    k = 0
    for f in rd:
        g = CFG(P, f, inline=takes_stream)
        R.cfg_used(g)
        for s in sorted(strs(g)):
            if not s.startswith("**"): continue
            k += 1
            R.ob("registry", f"{f.sq}:{s}", any(w.startswith(s) or w.strip() == s.strip() and w.startswith(s.rstrip()) for w in ws), f"the reader looks for {s!r}, which is not written", f.where())
    if k < 4: raise AnalysisError("markers of the registry not found")
    # lengths that are cut off are those of the markers that were found
    for f in rd:
        g = CFG(P, f)
        for n in g.nodes():
            if n.kind != "call" or last(n.d["q"]) != "substr": continue
            a = n.d["args"][0]
            if a[0] == "call" and last(a[1]) in ("length", "size"):
                m = noctx(a[2])
                fnd = lambda at, pol, node: (at[0] == "==" and pol or at[0] in ("nz", "pos") and not pol) and any(x[0] == "call" and last(x[1]) == "find" and any(noctx(y) == m for y in x[3] if is_term(y)) or x[0] == "var" for x in at[1:])
                guarded(R, "registry", f"{f.sq}:cut", g, lambda x: x is n, fnd, "a name is cut out of a line in which its marker was not found")
    # who gets which name
    f = R.need(P.find("SST::CheckpointAction::createCheckpoint", False), "CheckpointAction::createCheckpoint")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    E = lambda t: noctx(expand(g.T, t))
    cp = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Simulation::checkpoint")]
    ap = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Simulation::checkpoint_append_registry")]
    gl = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Simulation::checkpoint_write_globals")]
    R.need(cp, "call of Simulation::checkpoint"); R.need(ap, "call of checkpoint_append_registry"); R.need(gl, "call of checkpoint_write_globals")
    for n in cp:
        parts = cat(E(n.d["args"][0]))
        R.ob("registry", "file", all(same_tail(parts, cat(E(m.d["args"][1]))) for m in ap), "the registered name is not that of the file that is written", n.where())
        for m in gl: R.ob("registry", "folder", parts[:1] == cat(E(m.d["args"][1]))[:1], "the files of a checkpoint are written into different folders", n.where())
        flat = E(n.d["args"][0])
        R.ob("registry", "unique", fin2(flat, "rank") and fin2(flat, "thread"), "two partitions write to the same file", n.where())
    for n in ap:
        parts = cat(E(n.d["args"][0]))
        R.ob("registry", "appended", all(same_tail(parts, cat(E(m.d["args"][2]))) and parts[:1] == cat(E(m.d["args"][1]))[:1] for m in gl), "partitions are registered in another file than the one that is started", n.where())
    never(R, "registry", "started", g, lambda n: n in ap, "a partition is registered before the registry is started", avoid=lambda n: n in gl)
    for q, d in (("checkpoint_write_globals", None),):
        h = P.find("SST::Simulation::" + q, False)[0]
        gh = CFG(P, h, inline=takes_stream)
        opens = [n for n in gh.nodes() if n.kind == "init" and "ofstream" in n.d.get("type", "") and n.d.get("rhs") is not None]
        idx = lambda t: {param_idx(h, x) for x in subterms(t) if param_idx(h, x) is not None}
        R.ob("registry", "globals:opened", any({1, 3} <= idx(expand(gh.T, n.d["rhs"])) for n in opens) and any({1, 2} <= idx(expand(gh.T, n.d["rhs"])) for n in opens), "the files are not opened under the names that were given", h.where())
        put = [n for n in gh.nodes() if n.kind == "call" and last(n.d["q"]) == "operator<<" and any(param_idx(h, a) == 3 for a in n.d["args"] if is_term(a))]
        R.ob("registry", "globals:named", bool(put), "the file with the global data is not named in the registry", h.where())
    h = P.find("SST::Simulation::checkpoint_append_registry", False)[0]
    gh = CFG(P, h, inline=takes_stream)
    R.cfg_used(gh)
    put = lambda pred: [n for n in gh.nodes() if n.kind == "call" and last(n.d["q"]) == "operator<<" and any(pred(a) for a in n.d["args"] if is_term(a))]
    R.ob("registry", "partition:named", bool(put(lambda a: param_idx(h, a) == 1)), "the file of a partition is not named in the registry", h.where())
    for fld in ("rank", "thread"): R.ob("registry", f"partition:{fld}", bool(put(lambda a: is_field(a, fld) or a[0] == "mem" and last(a[2]) == fld)), f"the {fld} of a partition is not registered", h.where())
    app = [n for n in gh.nodes() if n.kind == "init" and "ofstream" in n.d.get("type", "") and n.d.get("rhs") is not None]
    R.ob("registry", "partition:append", bool(app) and all("app" in show(n.d["rhs"]) for n in app), "registering a partition replaces what was registered before", h.where())
    for w in ("first", "second"):
        for_each(R, "registry", f"partition:{w}", gh, lambda t: has_field(t, "Simulation::component_blob_offsets_"), lambda n, w=w: n.kind == "call" and last(n.d["q"]) == "operator<<" and any(a[0] in ("mem", "proj") and (last(a[2]) == w if a[0] == "mem" else a[2] == (0 if w == "first" else 1)) for a in n.d["args"] if is_term(a)), f"the {'id' if w == 'first' else 'offset'} of a component is not registered")


def fin2(t, name): return any(x[0] == "mem" and last(x[2]) == name for x in subterms(t))


def cat(t):
    """operands of a chain of string concatenations"""
    if t[0] == "bin" and t[1] == "+": return cat(t[2]) + cat(t[3])
    if t[0] == "call" and last(t[1]) == "operator+" :
        return [y for x in ([t[2]] if t[2] is not None else []) + list(t[3]) if is_term(x) for y in cat(x)]
    return [t]


def same_tail(a, b): return len(a) >= len(b) and a[-len(b):] == b


def components(R):
    """Every component is written after its position was noted, the count of components precedes them, and every component read is
    entered into the component table."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::checkpoint", False), "Simulation::checkpoint")[0]
    g = graph_of(P, f)
    R.cfg_used(g)
    cim = lambda t: has_field(t, "Simulation::compInfoMap")
    wrN = lambda n: (o := fop(n)) is not None and o[0] == "N"
    for_each(R, "components", "written", g, cim, wrN, "a component is not written")
    pos = lambda n: n.kind == "call" and last(n.d["q"]) in ("emplace_back", "push_back") and n.d["obj"] is not None and has_field(n.d["obj"], "Simulation::component_blob_offsets_")
    for_each(R, "components", "noted", g, cim, pos, "the position of a component is not noted")
    heads = [(h, body, L) for h, body, leave, L in loop_heads(g) if any(n.nid in L and wrN(n) for n in g.nodes())]
    for h, body, L in heads:
        p = g.search(body, lambda n: n.nid in L and fop(n) is not None and fop(n)[0] in ("8", "N"), avoid=pos, edge=lambda a, s, c, q: s.nid in L)
        R.ob("components", "position", p is None, "the position of a component is noted after it was written", h.where())
    for n in g.nodes():
        if pos(n):
            ts = [x for a in n.d["args"] for x in subterms(expand(g.T, a))]
            R.ob("components", "position:value", any(x[0] == "call" and last(x[1]) == "tellp" for x in ts), "the noted position is not that in the file", n.where())
            R.ob("components", "position:id", any(x[0] == "mem" and last(x[2]) in ("id_", "id") or x[0] == "call" and last(x[1]) in ("getID", "getId") for x in ts), "the position is noted for another component", n.where())
    clr = lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and has_field(n.d["obj"] or ("none",), "Simulation::component_blob_offsets_")
    never(R, "components", "fresh", g, pos, "positions of an earlier checkpoint are kept", avoid=clr)
    # the count
    cnt = [n for n in g.nodes() if (o := fop(n)) is not None and o[0] == "8"]
    issize = lambda t: t is not None and is_term(t) and any(x[0] == "call" and last(x[1]) == "size" and x[2] is not None and cim(x[2]) for x in subterms(expand(g.T, t)))
    ok = False
    for n in cnt:
        b = fop(n)[2]
        sets = lambda m: m.kind in ("asg", "init") and noctx(m.d.get("lhs") or m.d.get("var")) == b and m.d.get("rhs") is not None
        good = [m for m in g.nodes() if sets(m) and issize(m.d["rhs"])]
        if good and g.search([g.entry], lambda m: m is n, avoid=lambda m: m in good) is None and g.search([x for m in good for x, _, _ in m.succ], lambda m: m is n, avoid=lambda m: sets(m) and m not in good) is not None:
            bad = g.search([x for m in g.nodes() if sets(m) and m not in good for x, _, _ in m.succ], lambda m: m is n, avoid=lambda m: m in good)
            ok = ok or bad is None
    R.ob("components", "count", ok, "the number of components is not written before them", f.where())
    # pending events are gathered before anything is packed
    gc = lambda n: n.kind == "call" and last(n.d["q"]) == "getContents"
    ser = lambda n: n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and "ComponentInfo" in str(l[1]) or n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and l[1] == "pointer"
    ts = lambda nm: lambda n: n.kind == "call" and last(n.d["q"]) == nm and any(has_field(x, "Simulation::tv_sort_") for x in [n.d["obj"] or ("none",)] + list(n.d["args"]))
    never(R, "components", "events:gathered", g, ser, "components are packed before the pending events were gathered", avoid=gc)
    never(R, "components", "events:sorted", g, ser, "components are packed before the pending events were sorted", frm=[n for n in g.nodes() if gc(n)], avoid=ts("sortData"))
    never(R, "components", "events:fresh", g, gc, "events of an earlier checkpoint are kept", avoid=ts("clear"))
    # readers
    f = R.need(P.find("SST::Simulation::restart", False), "Simulation::restart")[0]
    g = graph_of(P, f)
    R.cfg_used(g)
    rd = [n for n in g.nodes() if n.kind == "call" and (l := label(n)) is not None and l[0] == "o" and "ComponentInfo" in str(n.d.get("id") or n.d.get("fn") or "")]
    if not rd: raise AnalysisError("reading of components not found")
    for n in rd:
        v = noctx(n.d["args"][1])
        use = lambda m: m.kind == "call" and last(m.d["q"]) in ("insert", "emplace") and m.d["obj"] is not None and cim(m.d["obj"]) and any(noctx(x) == v for a in m.d["args"] for x in subterms(a))
        never(R, "components", "entered", g, lambda m: m in rd or m.kind == "exit", "a component that was read is not entered into the component table", frm=[n], avoid=use)
    for h, body, leave, L in loop_heads(g):
        inL = [n for n in rd if n.nid in L]
        c = [norm_cond(c, True)[0] for _, c, _ in h.succ if c is not None and is_term(c)]
        lt = [a for a in c if a[0] == "<" and a[1][0] == "var" and a[2][0] == "var"]
        if not inL or not lt: continue
        i, nn = lt[0][1], lt[0][2]
        R.ob("components", "counted", any((o := fop(m)) is not None and o[0] == "8" and o[2] == noctx(nn) for m in g.nodes()), f"the number {show(nn)} of components is not read from the file", h.where())
        ini = [n for n in g.nodes() if n.kind in ("init", "asg") and (n.d.get("var") or n.d.get("lhs")) == i and n.d.get("op", "=") == "="]
        R.ob("components", "counted:from", bool(ini) and all(const(n.d["rhs"]) == 0 for n in ini if n.d.get("rhs") is not None), "components are not read from the first one on", h.where())
        p = g.search(body, lambda m: m is h, avoid=lambda m: m in inL, edge=lambda a, s, c, q: s.nid in L)
        R.ob("components", "counted:each", p is None, "a component is left out", h.where())


def restored(R):
    """Global state continues from the checkpoint: event ids start above those in use anywhere, the simulated time and priority are
    those saved, and the components of a file are unpacked only after the file's own section."""
    P = R.prog
    f = R.need(P.find("SST::Simulation::checkpoint_write_globals", False), "checkpoint_write_globals")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    ar = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("MPI_Allreduce", "SST_MPI_Allreduce", "MPI_Reduce", "SST_MPI_Reduce")]
    for n in R.need(ar, "reduction of the event ids"):
        a = n.d["args"]
        R.ob("restored", "ids:max", "op_max" in show(a[4]) or "MPI_MAX" in show(a[4]), "the event ids in use are not combined by their maximum", n.where())
        src, dst = noctx(bare(a[0])), noctx(bare(a[1]))
        R.ob("restored", "ids:own", any(m.kind in ("asg", "init") and noctx(m.d.get("lhs") or m.d.get("var")) == src and m.d.get("rhs") is not None and has_field(m.d["rhs"], "Event::id_counter") for m in g.nodes()), "the event ids of this rank do not take part", n.where())
        ser = [m for m in g.nodes() if m.kind == "call" and label(m) is not None and label(m)[0] == "o" and noctx(bare(m.d["args"][1])) == dst]
        R.ob("restored", "ids:written", bool(ser), "the largest event id is not written", n.where())
    f = R.need(P.find("SST::Simulation::restart", False), "Simulation::restart")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    st = [n for n in g.nodes() if (n.kind == "call" and last(n.d["q"]) in ("store", "operator=") or n.kind == "asg") and any(has_field(x, "Event::id_counter") for x in ([n.d["obj"]] if n.kind == "call" and n.d["obj"] is not None else [n.d["lhs"]] if n.kind == "asg" else []))]
    R.ob("restored", "ids:continued", bool(st), "event ids are not continued", f.where())
    for n in st:
        v = noctx(bare(n.d["args"][0] if n.kind == "call" else n.d["rhs"]))
        rd = lambda m: m.kind == "call" and label(m) is not None and label(m)[0] == "o" and noctx(bare(m.d["args"][1])) == v
        never(R, "restored", "ids:read", g, lambda m: m is n, "event ids continue from a number that was not read", avoid=rd)
    def dec(at, ctx=None):
        if not any(is_term(x) and fin2(x, "thread") and "num_ranks" not in show(x) and "graph" not in show(x) for x in at[1:]): return None
        if at[0] in ("nz", "pos"): return False
        return True if at[0] == "==" and any(const(x) == 0 for x in at[1:]) else None
    ga = CFG(P, f, assume=dec)
    never(R, "restored", "ids:all", ga, lambda n: n.kind == "exit", "a rank does not continue the event ids", avoid=lambda n: any(n.nid == m.nid or n.d is not None and isinstance(n.d, dict) and n.d.get("q") == m.d.get("q") and n.kind == m.kind and n.line == m.line for m in st))
    # time and priority
    ms = [h for h in P.funcs.values() if any("createSimulation" in x for x in R_calls(h)) and "main" in h.where()]
    sim = [h for h in P.funcs.values() if any("16createSimulation" in x for x in R_calls(h))]
    for h in R.need(sim, "creation of the simulation"):
        gh = CFG(P, h)
        for n in gh.nodes():
            if n.kind == "call" and n.d["q"].endswith("Simulation::createSimulation"):
                ci = [i for i, a in enumerate(n.d["args"]) if "currentsimcycle" in show(a).lower()]
                R.ob("restored", "time", len(n.d["args"]) >= 5 and 3 in ci, "the simulated time is not that of the checkpoint", n.where())
                R.ob("restored", "priority", len(n.d["args"]) >= 5 and "priority" in show(n.d["args"][4]).lower(), "the priority is not that of the checkpoint", n.where())


CLAUSES = [sections, values, fetched, registry, components, restored]
