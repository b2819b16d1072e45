"""P24: messages."""
from sa.q import *
from rules.p17 import fns, fn
from rules.p19 import NONE, strip
import itertools

PROP = dict(
    title="Messages are written when asked for, to the right place; fatal ends the run",
    statement="A message of an Output object is written exactly once if the object is initialised and has a target, its level does not exceed the verbose level and all its bits are in the mask, and not at all otherwise. "
              "It goes to the object's own target (stdout, stderr, its own or the common file; one file per rank), behind the expanded prefix, whose escape codes give file, line, function, rank, thread and time of the "
              "caller and whose other characters stand for themselves. A file is opened before it is written to and closed when its last user is gone, and can be used again. fatal always reports to stderr, "
              "never returns, and ends the process with the given code. An object that is restored writes where it wrote before.",
    over=["inputs", "configurations", "histories"], text="all levels, masks, prefixes, targets, numbers of ranks and threads, orders of opening and closing",
    why="Messages are how a user sees what a model does and why a run failed. Tests look at the messages of a few fixed settings; a mask or level test that is off, a stale file handle or a fatal that returns shows only elsewhere.",
    files=["src/sst/core/output.cc", "src/sst/core/output.h"],
    mech=[("Output::verbose, output, verbosePrefix", "src/sst/core/output.h"), ("Output::outputprintf, buildPrefixString", "src/sst/core/output.cc"), ("Output::setTargetOutput, openSSTTargetFile, closeSSTTargetFile", "src/sst/core/output.cc"),
          ("Output::fatal", "src/sst/core/output.cc")],
    technique="abstract evaluation of filters, targets and prefix expansion over all combinations of level, mask, location and code; path obligations and lifecycle of file handles over interprocedural control-flow graphs")

TUS = ["output.cc"]
ASSUMPTIONS = ["an Output object that writes to a file is not copied (copies share the file but not its use count)", "printf-style functions print as specified", "Simulation::emergencyShutdown and SST_Exit end the run (P10, P02)",
               "debug output is not part of this build"]
LOCS = ("NONE", "STDOUT", "STDERR", "FILE")
WRITE = ("vfprintf", "fprintf", "fputs", "fwrite", "vprintf", "printf", "puts")
O = "Output::"


def own(*stop):
    k = inline_class("Output")
    return lambda f, e, c: k(f, e, c) and last(f.sq) not in stop + ("getMPIWorldSize", "getMPIWorldRank", "getNumThreads", "getThreadRank")


def lastm(t, nm): t = strip(t); return t[0] == "mem" and last(t[2]) == nm


def state(loc, **kw):
    """values of the object's fields"""
    def leaf(t):
        if t[0] == "deref" and lastm(t[1], "m_targetFileAccessCountRef") and "count" in kw: return kw["count"]
        if t[0] == "deref" and lastm(t[1], "m_targetFileHandleRef") and "handle" in kw: return kw["handle"]
        t = strip(t)
        if t[0] in ("enum", "econst", "glob") and last(show(t)) in LOCS: return LOCS.index(last(show(t)))
        if t[0] == "mem":
            nm = last(t[2])
            if nm == "m_targetLoc": return LOCS.index(loc) if loc else None
            if nm in kw: return kw[nm]
        if t[0] == "call" and last(t[1]) in kw: return kw[last(t[1])]
        return None
    return leaf


def filters(R):
    """output, verbose and verbosePrefix: for every combination of initialisation, target, level and mask, written once or not at all."""
    P = R.prog
    wr = lambda r: [n for n, _ in r.events if n.kind == "call" and (last(n.d["q"]) in ("outputprintf",) + WRITE)]
    for q, lv, bt in (("output", None, None), ("verbose", 3, 4), ("verbosePrefix", 4, 5)):
        for f in fns(R, O + q):
            g = CFG(P, f, inline=own("outputprintf"))
            R.cfg_used(g)
            for ini, loc, vl, mask, level, bits in itertools.product((0, 1), LOCS, (0, 2), (0, 1, 5), (0, 1, 2, 3) if lv else (0,), (0, 1, 4, 5, 2) if bt else (0,)):
                base = state(loc, m_objInitialized=ini, m_verboseLevel=vl, m_verboseMask=mask)
                leaf = lambda t: level if lv and param_idx(f, strip(t)) == lv else bits if bt and param_idx(f, strip(t)) == bt else base(t)
                rs = runs(g, [g.entry], lambda n: False, valued(leaf))
                want = 1 if ini and loc != "NONE" and (lv is None or (level <= vl and bits & ~mask == 0)) else 0
                R.ob("filters", f"{q}:{len(f.params)}:{ini}{loc}:{vl},{mask}:{level},{bits}", bool(rs) and all(len(wr(r)) == want for r in rs),
                     f"a message of level {level} and bits {bits} is {'not ' if want else ''}output at verbose level {vl}, mask {mask}, target {loc}" + ("" if ini else " without initialisation"), f.where())
            for n in g.nodes():
                if n.kind == "call" and last(n.d["q"]) == "outputprintf":
                    a = [param_idx(f, strip(x)) for x in n.d["args"] if is_term(x)]
                    nfmt = len(f.params) - 1
                    R.ob("filters", f"{q}:{len(f.params)}:format", nfmt in a, "another format is used", n.where())
                    if len(n.d["args"]) == 5:
                        base_ = 0 if q != "verbosePrefix" else 1
                        ps = [[param_idx(f, y) for y in subterms(x) if param_idx(f, y) is not None] for x in n.d["args"][:3]]
                        R.ob("filters", f"{q}:caller", [p[:1] for p in ps] == [[base_], [base_ + 1], [base_ + 2]], "line, file or function of the caller is lost", n.where())
    f = fn(R, O + "verbosePrefix")
    g = CFG(P, f, inline=own("outputprintf"))
    for lvl in (1, 9):
        for r in runs(g, [g.entry], lambda n: False, valued(lambda t: lvl if param_idx(f, strip(t)) == 4 else 0 if param_idx(f, strip(t)) == 5 else state("STDOUT", m_objInitialized=1, m_verboseLevel=5, m_verboseMask=7)(t))):
            sets = [(i, n) for i, (n, v) in enumerate(r.events) if n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], "m_outputPrefix") or n.kind == "call" and last(n.d["q"]) in ("setPrefix", "swap") and "m_outputPrefix" in str(n.d)]
            outs = [i for i, (n, v) in enumerate(r.events) if n.kind == "call" and last(n.d["q"]) == "outputprintf"]
            tmp = lambda n: any(param_idx(f, strip(x)) == 0 for a in n.d["args"] if is_term(a) for x in subterms(expand(g.T, a)))
            for o in outs: R.ob("filters", "prefix:used", any(i < o and tmp(n) for i, n in sets), "the message has not the prefix given", f.where())
            if any(tmp(n) for _, n in sets): R.ob("filters", "prefix:restored", not tmp(sets[-1][1]), "the object keeps the prefix of one message", f.where())
    for q, fld in (("setVerboseLevel", "m_verboseLevel"), ("setVerboseMask", "m_verboseMask"), ("setPrefix", "m_outputPrefix")):
        f = fn(R, O + q)
        g = CFG(P, f, inline=NONE)
        always(R, "filters", q, g, lambda n: (n.kind == "asg" and is_field(n.d["lhs"], fld) and param_idx(f, strip(n.d["rhs"])) == 0) or n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], fld) and param_idx(f, strip(n.d["args"][0])) == 0, "the setting is not taken over")


def targets(R):
    """Each location selects its stream; the file target its own file if it has a name of one, else the common file, and counts one more user of that file."""
    P = R.prog
    f = fn(R, O + "setTargetOutput")
    g = CFG(P, f, inline=own())
    R.cfg_used(g)
    for loc, local in itertools.product(LOCS, (0, 5)):
        base = state(None, length=local, size=local, empty=int(local == 0))
        leaf = lambda t: LOCS.index(loc) if param_idx(f, strip(t)) == 0 or lastm(t, "m_targetLoc") else base(t)
        rs = runs(g, [g.entry], lambda n: False, valued(leaf))
        R.ob("targets", f"{loc}:one", len(rs) == 1, "the target is not determined", f.where())
        for r in rs:
            env = {last(k[2]): x for k, x in r.env.items() if k[0] == "mem"}
            o = show(env.get("m_targetOutputRef", ("str", "")))
            kind = "Local" if local else "GlobalSim"
            want = {"STDERR": "stderr", "STDOUT": "stdout", "NONE": None, "FILE": f"m_sst{kind}FileHandle"}[loc]
            R.ob("targets", f"{loc}:{local}:stream", want is None or want in o, f"messages for {loc} go to {o}", f.where())
            cnt = [n for n, v in r.events if n.kind == "asg" and (n.d["op"] in ("++", "+=") or len(summands(n.d["rhs"])) == 2) and ("AccessCount" in show(n.d["lhs"]))]
            R.ob("targets", f"{loc}:{local}:users", len(cnt) == (1 if loc == "FILE" else 0), "the number of users of the file is wrong", f.where())
            if loc == "FILE":
                for fld, w in (("m_targetFileHandleRef", "FileHandle"), ("m_targetFileNameRef", "FileName"), ("m_targetFileAccessCountRef", "FileAccessCount")):
                    R.ob("targets", f"{loc}:{local}:{w}", f"m_sst{kind}{w}" in show(env.get(fld, ("str", ""))), "name, handle and number of users belong to different files", f.where())
            keep = env.get("m_targetLoc")
            R.ob("targets", f"{loc}:kept", keep is not None and param_idx(f, strip(keep)) == 0, "the location is not taken over", f.where())
    for q in ("setOutputLocation",):
        f = fn(R, O + q)
        g = CFG(P, f, inline=NONE)
        R.cfg_used(g)
        cl, st = (lambda n: n.kind == "call" and last(n.d["q"]) == "closeSSTTargetFile"), (lambda n: n.kind == "call" and last(n.d["q"]) == "setTargetOutput" and param_idx(f, strip(n.d["args"][0])) == 0)
        always(R, "targets", q + ":close", g, cl, "the object remains a user of its former file")
        always(R, "targets", q + ":set", g, st, "the location is not taken over")
        never(R, "targets", q + ":order", g, st, "the new file is released instead of the former one", avoid=cl)
    f = fn(R, O + "~Output")
    always(R, "targets", "gone", CFG(P, f, inline=NONE), lambda n: n.kind == "call" and last(n.d["q"]) == "closeSSTTargetFile", "an object that is gone remains a user of its file")
    f = [x for x in fns(R, O + "Output") if not x.params]
    for f in R.need(f, "Output::Output()"):
        g = CFG(P, f, inline=own())
        R.cfg_used(g)
        for r in runs(g, [g.entry], lambda n: False):
            env = {last(k[2]): x for k, x in r.env.items() if k[0] == "mem"}
            vals = [x for _, x in (env.items())]
            R.ob("targets", "default:valid", any(w in show(env.get("m_targetOutputRef", ("str", ""))) for w in ("stdout", "stderr")), "an object that is not initialised flushes an undefined stream", f.where())
            R.ob("targets", "default:none", const(env.get("m_objInitialized", ("lit", "1"))) == 0, "an object counts as initialised from the start", f.where())
    f = fn(R, O + "init")
    fields = (("m_outputPrefix", 0), ("m_verboseLevel", 1), ("m_verboseMask", 2), ("m_sstLocalFileName", 4))
    for ini in (0, 1):
        g = CFG(P, f, inline=own("setTargetOutput"))
        R.cfg_used(g)
        for r in runs(g, [g.entry], lambda n: False, valued(state(None, m_objInitialized=ini))):
            ev = [n for n, _ in r.events]
            tg = [i for i, n in enumerate(ev) if n.kind == "call" and last(n.d["q"]) == "setTargetOutput" and param_idx(f, strip(n.d["args"][0])) == 3]
            R.ob("targets", f"init:{ini}:target", len(tg) == (0 if ini else 1), "the target is not set" if not ini else "an object is initialised twice", f.where())
            for fld, k in fields:
                s = [i for i, n in enumerate(ev) if n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], fld) and param_idx(f, strip(n.d["args"][0])) == k or n.kind == "asg" and is_field(n.d["lhs"], fld) and param_idx(f, strip(n.d["rhs"])) == k]
                R.ob("targets", f"init:{ini}:{fld}", len(s) == (0 if ini else 1) and (ini or fld != "m_sstLocalFileName" or not tg or s[0] < tg[0]), "a setting is not taken over", f.where())
            done = [x for k, x in r.env.items() if lastm(k, "m_objInitialized")]
            if not ini: R.ob("targets", "init:done", bool(done) and const(done[0]) == 1, "the object is not initialised", f.where())


def streams(R):
    """outputprintf writes the message once, to the object's stream, after its file has been opened, behind the expanded prefix."""
    P = R.prog
    for f in [x for x in fns(R, O + "outputprintf") if not x.variadic] if hasattr(fns(R, O + "outputprintf")[0], "variadic") else [x for x in fns(R, O + "outputprintf") if x.file.endswith(".cc") or "output.cc" in x.where()]:
        g = CFG(P, f, inline=own("openSSTTargetFile", "buildPrefixString"))
        R.cfg_used(g)
        full = len(f.params) == 5
        for loc in LOCS:
            for r in runs(g, [g.entry], lambda n: False, valued(state(loc, m_objInitialized=1))):
                ev = [(n, v) for n, v in r.events if n.kind == "call"]
                w = [i for i, (n, v) in enumerate(ev) if last(n.d["q"]) in WRITE]
                op = [i for i, (n, v) in enumerate(ev) if last(n.d["q"]) == "openSSTTargetFile"]
                R.ob("streams", f"{len(f.params)}:{loc}:once", len(w) == (0 if loc == "NONE" else 1), "a message is not written exactly once", f.where())
                for i in w:
                    n, v = ev[i]
                    R.ob("streams", f"{len(f.params)}:{loc}:stream", any(x[0] == "deref" and lastm(x[1], "m_targetOutputRef") for x in subterms(n.d["args"][0])), "a message is written to another stream", n.where())
                    R.ob("streams", f"{len(f.params)}:{loc}:opened", bool(op) and op[0] < i, "a message is written before its file is opened", n.where())
                    if full:
                        pre = [j for j, (m, u) in enumerate(ev) if last(m.d["q"]) in ("operator+", "operator+=", "append", "insert", "operator=") and any(has_call(x, "buildPrefixString") for x in [m.d["obj"]] + list(m.d["args"]) if x is not None and is_term(x)) or last(m.d["q"]) == "buildPrefixString"]
                        R.ob("streams", f"prefix:{loc}", bool(pre) and pre[0] < i, "a message is written without its prefix", n.where())
                        order = [x for m, u in ev for x in [y for a in [m.d["obj"]] + list(m.d["args"]) if a is not None and is_term(a) for y in subterms(a)] if x[0] == "bin" and x[1] == "+" and has_call(x[2], "buildPrefixString") or x[0] == "bin" and x[1] == "+" and has_call(x[3], "buildPrefixString") and any(param_idx(f, y) == 3 for y in subterms(x[2]))]
                        for x in order[:1]: R.ob("streams", "prefix:first", has_call(x[2], "buildPrefixString"), "the prefix is behind the message", n.where())
        for n in g.nodes():
            if n.kind == "call" and last(n.d["q"]) == "buildPrefixString":
                ps = [param_idx(f, strip(x)) for x in n.d["args"]]
                R.ob("streams", "prefix:caller", ps == [0, 1, 2], "line, file or function of the caller is lost", n.where())


def handles(R):
    """The file is opened once, when it is first needed and in use, under a name of its own for each rank; it is closed exactly when its last user is gone, and forgotten then."""
    P = R.prog
    f = fn(R, O + "openSSTTargetFile")
    g = CFG(P, f, inline=own())
    R.cfg_used(g)
    op = lambda n: n.kind == "call" and last(n.d["q"]) == "fopen"
    for loc, h, cnt, ws in itertools.product(LOCS, (0, 7), (0, 1, 3), (1, 2, 8)):
        base = state(loc, m_objInitialized=1, handle=h, count=cnt, getMPIWorldSize=ws, m_worldSize_ranks=ws, getMPIWorldRank=1)
        leaf = lambda t: ws if t[0] in ("glob", "mem") and "m_worldSize_ranks" in show(t) else base(t)
        def dec(at, ctx=None):
            if any(is_term(x) and has_call(x, "fopen") for x in at[1:]): return True if at[0] in ("nz", "pos") else False
            return valued(leaf)(at)
        for r in runs(g, [g.entry], lambda n: False, dec):
            ev = [(n, v) for n, v in r.events]
            o = [i for i, (n, v) in enumerate(ev) if op(n)]
            want = loc == "FILE" and h == 0 and cnt > 0
            R.ob("handles", f"open:{loc}:{h}:{cnt}", len(o) == int(want), "a file is opened although it is open or not asked for" if not want else "the file is not opened", f.where())
            if want and o:
                st = [n for n, v in ev if n.kind == "asg" and "m_targetFileHandleRef" in show(n.d["lhs"]) and n.d["lhs"][0] == "deref" or n.kind == "asg" and n.d["lhs"][0] == "deref" and "FileHandle" in show(n.d["lhs"])]
                R.ob("handles", "open:kept", len(st) == 1, "the file that is opened is not used", f.where())
                rank = [i for i, (n, v) in enumerate(ev) if n.kind == "call" and any(is_term(a) and ("m_mpiRank" in show(a) or has_call(a, "getMPIWorldRank")) for a in n.d["args"]) and last(n.d["q"]) != "getMPIWorldRank"]
                app = [i for i, (n, v) in enumerate(ev) if n.kind == "call" and last(n.d["q"]) in ("operator+=", "append", "operator+", "insert")]
                R.ob("handles", f"open:rank:{ws}", (bool(rank) and bool(app) and min(rank) < o[0] and min(app) < o[0]) if ws > 1 else not app, "several ranks write the same file" if ws > 1 else "the file has not the name asked for", f.where())
                nm = v_name(g, ev)
                R.ob("handles", "open:name", nm, "another file is opened", f.where())
    bad = lambda at, ctx=None: (False if at[0] in ("nz", "pos") else True) if any(is_term(x) and (has_call(x, "fopen")) for x in at[1:]) else valued(state("FILE", m_objInitialized=1, handle=0, count=1, getMPIWorldSize=1))(at)
    rs = runs(g, [g.entry], lambda n: False, bad)
    R.ob("handles", "open:error", bool(rs) and all(any(n.kind == "call" and last(n.d["q"]) in ("exit", "abort", "_exit", "fatal", "SST_Exit") for n, _ in r.events) for r in rs if any(op(n) for n, _ in r.events)), "a file that cannot be opened is passed over", f.where())
    f = fn(R, O + "closeSSTTargetFile")
    g = CFG(P, f, inline=own())
    R.cfg_used(g)
    for ini, loc, h, cnt in itertools.product((0, 1), LOCS, (0, 7), (1, 2)):
        for r in runs(g, [g.entry], lambda n: False, valued(state(loc, m_objInitialized=ini, handle=h, count=cnt)), track=("deref",)):
            cl = [i for i, (n, v) in enumerate(r.events) if n.kind == "call" and last(n.d["q"]) == "fclose"]
            want = ini and loc == "FILE" and h and cnt == 1
            R.ob("handles", f"close:{ini}{loc}:{h}:{cnt}", len(cl) == int(bool(want)), "the file is not closed when its last user is gone" if want else "a file is closed that is in use", f.where())
            dn = [n for n, v in r.events if n.kind == "asg" and "AccessCount" in show(n.d["lhs"])]
            R.ob("handles", f"users:{ini}{loc}:{cnt}", len(dn) == int(bool(ini and loc == "FILE")), "the number of users of the file is wrong", f.where())
            for i in cl:
                z = [j for j, (n, v) in enumerate(r.events) if n.kind == "asg" and "FileHandle" in show(n.d["lhs"]) and const(n.d["rhs"]) == 0]
                R.ob("handles", "close:forgotten", bool(z), "a closed file is written to", f.where())


def v_name(g, ev):
    for n, v in ev:
        if n.kind in ("call", "ctor", "init", "asg") and any(is_term(a) and ("m_targetFileNameRef" in show(a)) for a in list(n.d.get("args") or ()) + [n.d.get("rhs"), n.d.get("obj")] if a is not None): return True
    return False


CODES = {"f": ("file",), "l": ("line",), "p": ("func",), "r": ("rank",), "R": ("rank",), "i": ("thread",), "I": ("thread",), "x": ("rank", "thread"), "X": ("rank", "thread"), "t": ("time",), "z": ()}


def prefix(R):
    """Each escape code appends what it stands for and is consumed; text before, between and after the codes is kept; percent signs stay percent signs."""
    P = R.prog
    f = fn(R, O + "buildPrefixString")
    g = CFG(P, f, inline=own())
    R.cfg_used(g)
    src = lambda t: ({"line"} if any(param_idx(f, y) == 0 for y in subterms(t)) else set()) | ({"file"} if any(param_idx(f, y) == 1 for y in subterms(t)) else set()) | ({"func"} if any(param_idx(f, y) == 2 for y in subterms(t)) else set()) | \
        ({"rank"} if "m_mpiRank" in show(t) or has_call(t, "getMPIWorldRank") else set()) | ({"thread"} if has_call(t, "getThreadRank") or "m_threadMap" in show(t) else set()) | \
        ({"time"} if has_call(t, "getCurrentSimCycle") or has_field(t, "currentSimCycle") else set())
    heads = [x for x in loop_heads(g) if any(n.nid in x[3] and n.kind == "call" and last(n.d["q"]) in ("find", "find_first_of", "operator[]", "at") and n.d["obj"] is not None and has_field(n.d["obj"], "m_outputPrefix") for n in g.nodes())]
    R.ob("prefix", "scanned", bool(heads), "the prefix is not expanded", f.where())
    for head, body, leave, L in heads[:1]:
        for c, (ranks, threads) in itertools.product(CODES, ((1, 1), (2, 1), (1, 3), (2, 3))):
            leaf = lambda t: ranks if "m_worldSize_ranks" in show(t) and t[0] in ("glob", "mem") or t[0] == "call" and last(t[1]) == "getMPIWorldSize" else threads if "m_worldSize_threads" in show(t) and t[0] in ("glob", "mem") or t[0] == "call" and last(t[1]) == "getNumThreads" else \
                ord(c) if is_term(t) and char_of(t) else None
            npos = lambda at: at[0] == "==" and any("npos" in show(x) for x in at[1:])
            rs = runs(g, body, lambda n: n is head, lambda at, ctx=None: False if npos(at) else valued(leaf)(at))
            R.ob("prefix", f"@{c}:one", bool(rs), "the code is not expanded", f.where())
            for r in rs:
                got = set()
                for n, v in r.events:
                    if n.kind == "call" and last(n.d["q"]) in ("operator+=", "append", "snprintf", "sprintf", "to_string", "push_back", "operator<<"):
                        for a in n.d["args"]:
                            if is_term(a): got |= src(expand(g.T, a)) | src(v(a))
                want = set(CODES[c])
                if c == "r" and ranks == 1: want = set()
                if c == "i" and threads == 1: want = set()
                if c == "x" and ranks == 1 and threads == 1: want = set()
                ok = got == want or c == "R" and ranks == 1 and not got and any("0" in fmt_ for n, v in r.events if n.kind == "call" for a in n.d["args"] if is_term(a) for fmt_ in [x[1] for x in subterms(a) if x[0] == "str"])
                R.ob("prefix", f"@{c}:{ranks},{threads}", ok, f"@{c} gives {sorted(got) or 'nothing'} with {ranks} ranks and {threads} threads", f.where())
                pos = [x for k, x in r.env.items() if k[0] == "var" and any(y[0] == "bin" and y[1] == "+" for y in subterms(x)) and any(k == y for m in g.nodes() if m.kind == "call" and last(m.d["q"]) == "find" for a in m.d["args"] for y in subterms(a))]
                step = [const(y[3]) for x in pos for y in [x] if y[0] == "bin" and y[1] == "+" and const(y[3]) is not None]
                if step: R.ob("prefix", f"@{c}:next", step[-1] == (1 if c == "z" else 2), "a character of the prefix is lost or expanded twice", f.where())
                if c == "z": R.ob("prefix", "@:kept", any("@" in x[1] for n, v in r.events if n.kind == "call" for a in n.d["args"] if is_term(a) for x in subterms(a) if x[0] == "str") or any(const(a) == 64 for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("operator+=", "push_back", "append") for a in n.d["args"]), "a character @ of the prefix is lost", f.where())
                bef = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("operator+=", "append") and any(is_term(a) and has_field(a, "m_outputPrefix") for a in n.d["args"])]
                R.ob("prefix", "before", len(bef) >= 1, "text of the prefix before a code is lost", f.where())
        esc = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "replace", "push_back", "operator+=", "append") and any(is_term(a) and (const(a) == 37 or any(x[0] == "str" and "%" in x[1] and x[1].strip("%") == "" for x in subterms(a))) for a in n.d["args"])
        R.ob("prefix", "percent", any(esc(n) for n in g.nodes()), "a percent sign in the prefix is taken for a conversion", f.where())
        tail = lambda n: n.kind == "call" and last(n.d["q"]) in ("operator+=", "append") and any(is_term(a) and has_field(a, "m_outputPrefix") for a in n.d["args"]) and n.nid not in L
        always(R, "prefix", "tail", g, tail, "text of the prefix behind the last code is lost")


def char_of(t): t = strip(t); return t[0] == "idx" and has_field(t[1], "m_outputPrefix") or t[0] == "call" and last(t[1]) in ("operator[]", "at") and t[2] is not None and has_field(t[2], "m_outputPrefix")


def fatal(R):
    """fatal: the message is written to stderr on every path (and to the object's file, if that is its target), the other ranks and threads are told, and the process ends with the given code."""
    P = R.prog
    f = fn(R, O + "fatal")
    g = CFG(P, f, inline=own("buildPrefixString", "openSSTTargetFile"))
    R.cfg_used(g)
    for ini, loc in itertools.product((0, 1), LOCS):
        def dec(at, ctx=None): return valued(state(loc, m_objInitialized=ini))(at)
        for r in runs(g, [g.entry], lambda n: False, dec):
            ev = [(n, v) for n, v in r.events if n.kind == "call"]
            w = [n for n, v in ev if last(n.d["q"]) == "vfprintf"]
            err = [n for n in w if "stderr" in show(n.d["args"][0])]
            tgt = [n for n in w if any(x[0] == "deref" and lastm(x[1], "m_targetOutputRef") for x in subterms(n.d["args"][0]))]
            R.ob("fatal", f"{ini}{loc}:stderr", len(err) == 1, "the error is not reported to stderr", f.where())
            R.ob("fatal", f"{ini}{loc}:file", len(tgt) == int(bool(ini and loc == "FILE")), "the error is not reported in the object's file", f.where())
            if tgt: R.ob("fatal", "file:opened", any(last(n.d["q"]) == "openSSTTargetFile" for n, _ in ev[:[n for n, _ in ev].index(tgt[0])]), "the file is not open", f.where())
            ex = [i for i, (n, v) in enumerate(ev) if last(n.d["q"]) == "SST_Exit"]
            em = [i for i, (n, v) in enumerate(ev) if last(n.d["q"]) == "emergencyShutdown"]
            R.ob("fatal", f"{ini}{loc}:exit", len(ex) == 1 and param_idx(f, strip(ev[ex[0]][0].d["args"][0])) == 3, "the process does not end with the code given", f.where())
            R.ob("fatal", f"{ini}{loc}:others", bool(em) and bool(ex) and em[0] < ex[0], "the process ends without closing down the simulation", f.where())
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "buildPrefixString":
            ps = [[param_idx(f, y) for y in subterms(x) if param_idx(f, y) is not None][:1] for x in n.d["args"]]
            R.ob("fatal", "caller", ps == [[0], [1], [2]], "line, file or function of the caller is lost", n.where())


def restored(R):
    """A restored object has its target again."""
    P = R.prog
    f = fn(R, O + "serialize_order")
    for mode, loc in itertools.product(("UNPACK", "PACK"), ("STDOUT", "STDERR", "FILE")):
        g = CFG(P, f, inline=own("setTargetOutput"))
        R.cfg_used(g)
        def dec(at, ctx=None):
            if at[0] == "==" and any("UNPACK" in show(x) for x in at[1:]): return mode == "UNPACK"
            return valued(state(loc, m_objInitialized=1))(at)
        for r in runs(g, [g.entry], lambda n: False, dec):
            st = [n for n, _ in r.events if n.kind == "call" and last(n.d["q"]) == "setTargetOutput"]
            R.ob("restored", mode + " " + loc, len(st) == int(mode == "UNPACK") and all(is_field(n.d["args"][0], "m_targetLoc") for n in st), "a restored object has no target" if mode == "UNPACK" else "an object is changed when it is saved", f.where())


CLAUSES = [filters, targets, streams, handles, prefix, fatal, restored]
