"""P25: JSON configurations."""
from sa.q import *
from rules.p17 import fns, fn
from rules.p19 import strip
import re, subprocess, tempfile, os

PROP = dict(
    title="A configuration written as JSON is read back as the same system",
    statement="Every JSON configuration that a run writes is accepted when it is read, and describes the same components, subcomponents, parameters, shared parameter sets, statistics, port modules, statistic groups, links, "
              "partition and options: each is written whenever it is set, from its own value, and what is read reaches the part of the system it belongs to. What one entry of a document says is never taken for "
              "another entry, the end of an entry leads back to the one around it, and nothing that is read is silently ignored.",
    over=["inputs", "configurations"], text="all configuration graphs that can be written, all documents in the accepted format, all orders and nestings of entries",
    why="A configuration that is written, edited or handed on and read again must mean the same system. Tests read a few documents; an option that is lost, or the parameters of one statistic given to the next, changes "
        "results without a message.",
    files=["src/sst/core/model/json/jsonmodel.cc", "src/sst/core/model/json/jsonstates.h", "src/sst/core/model/cfgoutput/jsonConfigOutput.cc"],
    mech=[("SSTConfigSaxHandler", "src/sst/core/model/json/jsonmodel.cc"), ("parser state tables", "src/sst/core/model/json/jsonstates.h"), ("JSONConfigGraphOutput", "src/sst/core/model/cfgoutput/jsonConfigOutput.cc")],
    technique="extraction of the reader as a finite automaton (abstract runs of each event handler per state and key), reachability of stale collected fields over it, walk of every document shape of the writer through it, guards and sources of what is written")

ASSUMPTIONS = ["the JSON library calls the handler as its SAX interface says and writes what a record holds", "a number that is not negative is reported as unsigned", "what components themselves do with their parameters is not considered"]
TUS = ["model/json/jsonmodel.cc", "model/cfgoutput/jsonConfigOutput.cc"]
H = "Core::SSTConfigSaxHandler::"
VALUES = ("boolean", "number_integer", "number_unsigned", "string")
OPEN = ("start_object", "start_array")
CLOSE = ("end_object", "end_array")


def lastm(t, nm): t = strip(t); return is_term(t) and t[0] == "mem" and last(t[2]) == nm


def tables(R):
    """the states of the reader and its transition tables, after preprocessing"""
    p = os.path.join(R.prog.root if hasattr(R.prog, "root") else os.environ.get("SA_REPO", "/repo"), "src/sst/core/model/json/jsonstates.h")
    txt = subprocess.run(["clang", "-E", "-P", "-x", "c++", p], capture_output=True, text=True, timeout=60).stdout
    m = re.search(r"enum\s+class\s+State[^{]*\{([^}]*)\}", txt)
    if not m: raise AnalysisError("the states of the JSON reader are not found")
    states = [x.strip() for x in m.group(1).split(",") if x.strip()]
    tabs = {}
    for m in re.finditer(r"State\s+(\w+)\s*\[[^\]]*\]\s*=\s*\{([^}]*)\}", txt):
        tabs[m.group(1)] = [x.strip().split("::")[-1] for x in m.group(2).split(",") if x.strip()]
    return states, tabs


class Reader:
    """the SAX handler as an automaton: for each event, state and key the abstract runs of its handler"""
    def __init__(s, R):
        s.R, s.P = R, R.prog
        s.states, s.tabs = tables(R)
        s.ix = {x: i for i, x in enumerate(s.states)}
        s.cfg, s.memo, s.lits = {}, {}, {}
        keys = set()
        for h in VALUES + OPEN + CLOSE + ("key", "null"):
            f = fn(R, H + h)
            g = CFG(s.P, f, inline=inline_class("SSTConfigSaxHandler", "JSONShadowStatistic", "JSONShadowLink", "JSONShadowPortModule"))
            R.cfg_used(g)
            s.cfg[h] = (f, g)
            ks = set()
            for n in g.nodes():
                for t in ([c for _, c, _ in n.succ if c is not None and is_term(c)]):
                    for x in subterms(expand(g.T, t)):
                        if x[0] == "str": ks.add(x[1])
            s.lits[h] = ks
            keys |= ks
        s.keys = sorted(keys | {"\0"})
        s.kx = {k: i + 1 for i, k in enumerate(s.keys)}

    def leaf(s, h, state, key):
        f = s.cfg[h][0]

        def lf(t):
            if t[0] == "str": return s.kx.get(t[1])
            if t[0] == "mem":
                if last(t[2]) == "current_state_": return s.ix[state]
                if last(t[2]) == "current_key_": return s.kx[key] if key is not None else None
            if t[0] in ("enum", "econst", "glob") and last(show(t)) in s.ix: return s.ix[last(show(t))]
            if h == "key" and param_idx(f, t) == 0: return s.kx[key]
            if t[0] == "idx":
                nm, i = last(show(t[1])), fold(t[2], lf)
                if nm in s.tabs and i is not None and i < len(s.tabs[nm]): return s.ix.get(s.tabs[nm][i], -1)
            return None
        return lf

    def opaque(s, g):
        """flags that are set through a reference are not known by their initial value"""
        if not hasattr(g, "_ref"): g._ref = any(n.kind == "call" and last(n.d["q"]) in ("tie", "findComponentIdByName", "get") for n in g.nodes())
        return (lambda r: r[0] in ("lit", "bool") and const(r) in (0, 1)) if g._ref else None

    def step(s, h, state, key=None):
        """[(accepted, next state, events)]"""
        if key is not None and key not in s.lits[h]: key = "\0"
        k = (h, state, key)
        if k not in s.memo:
            f, g = s.cfg[h]
            lf = s.leaf(h, state, key)
            out = []
            for r in runs(g, [g.entry], lambda n: False, valued(lf), opaque=s.opaque(g)):
                if r.fatal(): continue
                v = r.ret()
                ok = v is None or fold(v, lf) != 0
                nx = next((x for m, x in r.env.items() if m[0] == "mem" and last(m[2]) == "current_state_"), None)
                if nx is None: ns = state
                else:
                    i = fold(nx, lf)
                    if i is None: raise AnalysisError(f"next state of {h} in {state} is not determined: {show(nx)}")
                    ns = s.states[i] if 0 <= i < len(s.states) else "Invalid"
                out.append((ok, ns, r.events))
            s.memo[k] = out
        return s.memo[k]


# ---- the writer: the documents it can produce

W = "Core::JSONConfigGraphOutput::"
PARTS = ("outputProgramOptions", "outputSharedParams", "outputStatisticsOptions", "outputComponents", "outputStatisticsGroups", "outputLinks", "outputSubComponent")


class Leaf:
    def __init__(s, node, src, fn, g): s.node, s.src, s.fn, s.g = node, src, fn, g


def chain(t):
    """(record, keys) of record[k1][k2]..; the key of a value that is not a literal is *"""
    ks = []
    while True:
        t = strip(t)
        if t[0] == "idx": k, t = t[2], t[1]
        elif t[0] == "call" and last(t[1]) in ("operator[]", "at") and t[2] is not None and t[3]: k, t = t[3][0], t[2]
        else: break
        k = strip(k)
        while k[0] == "ctor" and len(k[2]) >= 1: k = strip(k[2][0])
        ks.insert(0, k[1] if k[0] == "str" else "*")
    return t, ks


class Writer:
    def __init__(s, R):
        s.R, s.P = R, R.prog
        s.tree, s.root, s.sections = {}, {}, {}
        for q in PARTS:
            f = fn(R, W + q)
            g = CFG(s.P, f, inline=lambda fn_, e, c: last(fn_.sq) not in PARTS and "JSONConfigGraphOutput" in fn_.sq)
            R.cfg_used(g)
            recs = {}   # record variable -> [(keys, child record | Leaf)]
            dumped, texts, rets = [], [], []
            for n in g.nodes():
                if n.kind == "ret" and n.d["val"] is not None: rets.append(strip(n.d["val"]))
                if n.kind != "call": continue
                nm = last(n.d["q"])
                if nm == "operator=" and n.d["obj"] is not None and n.d["q"].startswith("nlohmann"):
                    rec, ks = chain(n.d["obj"])
                    if ks: recs.setdefault(rec, []).append((ks, s.value(n, n.d["args"][0], f, g)))
                elif nm in ("push_back", "emplace_back") and n.d["obj"] is not None and n.d["q"].startswith("nlohmann"):
                    rec, ks = chain(n.d["obj"])
                    recs.setdefault(rec, []).append((ks + ["[]"], s.value(n, n.d["args"][0], f, g)))
                elif nm == "dump" and n.d["obj"] is not None: dumped.append(chain(n.d["obj"])[0])
                if nm == "operator<<":
                    for a in n.d["args"]:
                        for x in subterms(a):
                            if x[0] == "str": texts.append((n, x[1]))
            s.tree[q] = recs
            s.root[q] = [r for r in rets if r in recs] if q == "outputSubComponent" else list(dict.fromkeys(dumped))
            for n, t in texts:
                for m in re.finditer(r'"(\w+)"\s*:\s*(\[|null)?', t):
                    s.sections.setdefault(m.group(1), []).append((q, m.group(2), n))

    def value(s, n, t, f, g):
        t = strip(t)
        while t[0] == "ctor" and t[2]: t = strip(t[2][0])
        if t[0] == "var" and "basic_json" in str(g.T.definition(t)): return ("rec", t, n)
        d = g.T.definition(t) if t[0] == "var" else t
        if d is not None and d[0] == "call" and last(d[1]) == "outputSubComponent": return ("sub", d, n)
        if t[0] == "call" and t[1].startswith("nlohmann"): return ("rec", t, n)
        return Leaf(n, expand(g.T, t), f, g)

    def entries(s, q, rec):
        """nested dict of a record: key -> dict | [element] | Leaf | ("sub",..)"""
        out = {}
        for ks, v in s.tree[q].get(rec, []):
            cur = out
            for k in ks[:-1]: cur = cur.setdefault(k, {})
            if isinstance(v, tuple) and v[0] == "rec":
                sub = s.entries(q, v[1])
                cur[ks[-1]] = sub
            else: cur[ks[-1]] = v
        return out


# ---- rules

BOOLS = ("noCut", "nonlocal", "enable_all_statistics", "shared")
NUMBERS = ("statistic_load_level", "statisticLoadLevel", "slot_number", "rank", "thread")
STAT = {"name": ("shadow_statistic_", "name"), "shared": ("shadow_statistic_", "shared"), "shared_name": ("shadow_statistic_", "shared_name"), "params.*": ("shadow_statistic_", "insert")}
OPTS = {"statistics_options.enable_all_statistics": ("shadow_statistic_", "name"), "statistics_options.statistic_load_level": ("", "setStatisticLoadLevel|stat_load_level"), "statistics_options.params.*": ("shadow_statistic_", "insert")}
pre = lambda p, d: {p + k: v for k, v in d.items()}
PM = dict(**{"port": ("shadow_port_module_", "port"), "type": ("shadow_port_module_", "type"), "params.*": ("shadow_port_module_", "addParameter")}, **pre("statistics.[].", STAT), **OPTS)
CMP = dict(**{"type": ("shadow_component_stack_", "type"), "params.*": ("shadow_component_stack_", "addParameter"), "params_shared_sets.[]": ("shadow_component_stack_", "addSharedParamSet")},
           **pre("statistics.[].", STAT), **OPTS, **pre("port_modules.[].", PM))
SIDE = lambda s: {"component": ("shadow_link_", s + "comp"), "port": ("shadow_link_", s + "port"), "latency": ("shadow_link_", s + "lat")}
SINKS = {
    "program_options": {"*": ("program_options_", "program_options_")},
    "shared_params": {"*.*": ("graph_", "addSharedParam")},
    "statistics_options": {"statisticLoadLevel": ("graph_", "setStatisticLoadLevel"), "statisticOutput": ("graph_", "setStatisticOutput"), "params.*": ("graph_", "addStatisticOutputParameter")},
    "components": dict(CMP, **{"name": ("shadow_component_stack_", "name"), "partition.rank": ("rank_", "rank"), "partition.thread": ("rank_", "thread")}),
    "subcomponents": dict(CMP, **{"slot_name": ("shadow_component_stack_", "name"), "slot_number": ("shadow_component_stack_", "slot_number")}),
    "statistics_group": dict(pre("statistics.[].", {k: STAT[k] for k in ("name", "params.*")}), **{"name": ("graph_|current_stat_group_", "getStatGroup"), "frequency": ("current_stat_group_", "setFrequency"), "components.[]": ("current_stat_group_", "addComponent"),
                             "output.type": ("", "emplace_back|push_back"), "output.params.*": ("", "addParameter")}),
    "links": dict(pre("left.", SIDE("left")), **pre("right.", SIDE("right")), **{"name": ("shadow_link_", "name"), "noCut": ("shadow_link_", "nocut"), "nonlocal": ("shadow_link_", "nonlocal"), "right.rank": ("shadow_link_", "rank"), "right.thread": ("shadow_link_", "thread")}),
}
# the source of each entry: what the written value must be taken from
C_ = {"name": r"\.name$", "slot_name": r"\.name$", "type": r"\.type$", "slot_number": r"slot_num", "params.*": r"params\.find\(.*(getParamsLocalKeys|getLocalKeys|getKeys)\(", "params_shared_sets.[]": r"getSubscribedSharedParamSets", "partition.rank": r"rank\.rank$", "partition.thread": r"rank\.thread$",
      "statistics.[].name": r"enabledStatNames\)\.first", "statistics.[].shared": r"^1$|shared", "statistics.[].shared_name": r"findStatistic\(.*\.name$", "statistics.[].params.*": r"findStatistic\(.*params\.find\(",
      "statistics_options.enable_all_statistics": r"^1$|enabledAllStats", "statistics_options.statistic_load_level": r"statLoadLevel", "statistics_options.params.*": r"allStatConfig\.params\.find\(",
      "port_modules.[].port": r"port_modules\)\.first", "port_modules.[].type": r"port_modules\)\.second\)\.type", "port_modules.[].params.*": r"port_modules\)\.second\)\.params\.find\(", "port_modules.[].statistics_options.statistic_load_level": r"stat_load_level",
      "port_modules.[].statistics_options.params.*": r"all_stat_config\.find\(", "port_modules.[].statistics.[].name": r"per_stat_configs\)\.first", "port_modules.[].statistics.[].params.*": r"per_stat_configs\)\.second\.find\("}
L_ = lambda i: {"component": rf"findComponent\(.*component_\[{i}\]\)\.getFullName", "port": rf"port_\[{i}\]", "latency": rf"latency_str\({i}\)|latency_\[{i}\]"}
SOURCES = {
    "components": {k: v for k, v in C_.items() if not k.startswith("slot_")}, "subcomponents": {k: v for k, v in C_.items() if k != "name" and not k.startswith("partition")},
    "links": dict(pre("left.", L_(0)), **pre("right.", L_(1)), **{"name": r"name_", "noCut": r"no_cut_", "nonlocal": r"nonlocal_", "right.rank": r"component_\[1\]", "right.thread": r"latency_\[1\]"}),
    "statistics_group": {"name": r"\.name$", "frequency": r"outputFrequency.*toString\w*\((0|-\d+)\)", "components.[]": r"getFullName", "output.type": r"getStatOutput\(.*outputID\)\.type", "output.params.*": r"getStatOutput\(.*outputID\)\.params\.find\(",
                         "statistics.[].name": r"statMap\)\.first", "statistics.[].params.*": r"statMap\)\.second\.find\("},
    "statistics_options": {"statisticLoadLevel": r"getStatLoadLevel", "statisticOutput": r"getStatOutput\(0?\)\.type", "params.*": r"getStatOutput\(0?\)\.params\.find\("},
    "shared_params": {"*.*": r"getSharedParamSet"},
}


def documents(R):
    """(section, root entries) of everything the writer writes"""
    w = Writer(R)
    out = []
    for q in PARTS:
        if q == "outputSubComponent": continue
        secs = {k for k, v in w.sections.items() for a, _, _ in v if a == q}
        if len(secs) != 1 or len(w.root[q]) != 1: raise AnalysisError(f"the section written by {q} is not determined: {secs} {len(w.root[q])}")
        sec = secs.pop()
        arr = any(o == "[" for a, o, _ in w.sections[sec] if a == q)
        e = w.entries(q, w.root[q][0])
        out.append((sec, {"[]": e} if arr else e))
    if len(w.root["outputSubComponent"]) != 1: raise AnalysisError("the record of a subcomponent is not determined")
    return w, out, w.entries("outputSubComponent", w.root["outputSubComponent"][0])


def kinds(key):
    return ("boolean",) if key in BOOLS else ("number_unsigned", "number_integer") if key in NUMBERS else ("string",)


def hits(f, ev, holder, sink):
    """the value given is stored in, or handed to, the sink of the holder"""
    for n, v in ev:
        if n.kind == "asg":
            t, vals = n.d["lhs"], [n.d["rhs"]]
        elif n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None: t, vals = n.d["obj"], n.d["args"]
        elif n.kind == "call" and re.fullmatch(sink, last(n.d["q"])) and n.d["obj"] is not None:
            if re.search(holder, show(n.d["obj"])) or not holder: return n
            continue
        else: continue
        s = strip(t)
        nm = last(s[2]) if s[0] == "mem" else ""
        if (re.fullmatch(sink, nm) or re.fullmatch(sink, show(s).split("[")[0])) and re.search(holder, show(t)): return n
    return None


def accepted(R):
    """Every document the writer can produce is accepted by the reader, at every entry, and each entry reaches the part of the system it belongs to."""
    A = Reader(R)
    w, docs, sub = documents(R)
    seen = set()

    def leaf(state, key, where, sec, path, keyed):
        for h in kinds(key):
            f = A.cfg[h][0]
            st = A.step(h, state, key if keyed else None)
            st = st or []
            ok = [x for x in st if x[0]]
            R.ob("accepted", f"{sec}:{path}:{h}", bool(ok) and all(x[1] == state for x in ok), f"the reader does not take {path} of {sec} where the writer puts it (state {state})", where)
            want = SINKS.get(sec, {}).get("*" if sec == "program_options" else path)
            if want is None:
                R.ob("kept", f"{sec}:{path}:known", False, f"{path} of {sec} is written but not known to the reader", where)
                continue
            for _, _, ev in ok:
                n = hits(f, ev, want[0], want[1])
                if h == "boolean" and path.endswith("enable_all_statistics") and n is None and len(ok) > 1: continue   # false
                R.ob("kept", f"{sec}:{path}:{h}:stored", n is not None, f"{path} of {sec} is read but does not reach {want[1]}", f.where())
                if n is None: continue
                vals = [x for a in ([n.d["rhs"]] if n.kind == "asg" else n.d["args"]) if is_term(a) for x in subterms(expand(A.cfg[h][1].T, a))]
                R.ob("kept", f"{sec}:{path}:{h}:value", path.endswith("enable_all_statistics") or sec == "program_options" or any(param_idx(f, x) == 0 for x in vals), f"{path} of {sec} is stored with another value", n.where())
                tgt = n.d["lhs"] if n.kind == "asg" else n.d["obj"]
                if "shadow_component_stack_" in want[0] or "shadow_component_stack_" in show(tgt):
                    R.ob("kept", f"{sec}:{path}:{h}:innermost", re.search(r"shadow_component_stack_\.?(front\(\)|begin\(\)|\[0\])", show(tgt)) is None, f"{path} of {sec} is given to the outermost component", n.where())
                if path.endswith("*") and n.kind == "call" and sec != "program_options":
                    at = [i for i, a in enumerate(n.d["args"]) if is_term(a) and any(x[0] == "mem" and last(x[2]) == "current_key_" for x in subterms(expand(A.cfg[h][1].T, a)))]
                    av = [i for i, a in enumerate(n.d["args"]) if is_term(a) and any(param_idx(f, x) == 0 for x in subterms(expand(A.cfg[h][1].T, a)))]
                    R.ob("kept", f"{sec}:{path}:order", bool(at) and bool(av) and at[0] < av[0], f"key and value of {path} of {sec} are exchanged", n.where())
                if path.endswith("*") and sec != "program_options":
                    R.ob("kept", f"{sec}:{path}:key", any(x[0] == "mem" and last(x[2]) == "current_key_" for x in vals), f"{path} of {sec} is stored under another key", n.where())

    def walk(d, state, sec, path, where):
        """d: entries inside the open object or array of the state"""
        for k, v in d.items():
            p = (path + "." if path else "") + k
            if k == "[]": st2 = state
            else:
                lit = "\0" if k == "*" else k
                nxt = {x[1] for x in A.step("key", state, lit) if x[0]}
                R.ob("accepted", f"{sec}:{p}:key", len(nxt) == 1, f"the reader does not take the key {k} of {sec} in state {state}", where)
                if len(nxt) != 1: continue
                st2 = nxt.pop()
            if isinstance(v, Leaf): leaf(st2, None if k in ("[]",) else ("\0" if k == "*" else k), v.node.where(), sec, p, k != "[]")
            elif isinstance(v, tuple): opened({"[]": {}}, st2, "subcomponents", "", v[2].where(), elem=True)
            else: opened(v, st2, sec, p, where)

    def opened(v, st2, sec, p, where, elem=False):
        h = "start_array" if set(v) == {"[]"} and not elem else "start_object"
        nxt = {x[1] for x in A.step(h, st2) if x[0]}
        R.ob("accepted", f"{sec}:{p}:open", len(nxt) == 1, f"the reader does not take an {h[6:]} at {p} of {sec}", where)
        if len(nxt) != 1: return
        st3 = nxt.pop()
        if elem:
            if ("sub", st3) not in seen:
                seen.add(("sub", st3))
                walk(sub, st3, "subcomponents", "", where)
        else: walk(v, st3, sec, p[:-2] if False else p, where)

    root = {x[1] for x in A.step("start_object", "Entry") if x[0]}
    R.ob("accepted", "root", len(root) == 1, "the reader does not take a document", "")
    for sec, e in docs:
        nxt = {x[1] for x in A.step("key", "Root", sec) if x[0]}
        where = w.sections[sec][0][2].where()
        R.ob("accepted", sec, len(nxt) == 1, f"the reader has no section {sec}", where)
        if len(nxt) != 1: continue
        x = nxt.pop()
        R.ob("accepted", sec + ":null", any(o[0] and o[1] == "Root" for o in A.step("null", x)), f"the reader does not take an empty section {sec}", where)
        if set(e) == {"[]"}:
            arr = {o[1] for o in A.step("start_array", x) if o[0]}
            R.ob("accepted", sec + ":open", len(arr) == 1, f"the reader does not take {sec} as an array", where)
            if len(arr) == 1: opened(e["[]"], arr.pop(), sec, "", where)
        else: opened(e, x, sec, "", where)


def flat(d, p=""):
    for k, v in d.items():
        q = (p + "." if p else "") + k
        if isinstance(v, dict): yield from flat(v, q)
        else: yield q, v


FREE = {"right": ("nonlocal_",), "partition": ("output_partition", "output_partition_"), "output": ("outputID",), "*.*": ("first",), "shared_name": ("shared",), "shared": ("shared", "enabledStatNames"), "enable_all_statistics": ("enabledAllStats", "port_modules", "stat_load_level", "all_stat_config"), "output.params": ("empty",)}


NOISE = ("data", "value", "size", "empty", "getValue", "begin", "end", "operator!=", "operator==", "operator>", "operator<", "operator!")


def complete(R):
    """Each entry is written, with the value of the system it stands for, whenever that value is set."""
    w, docs, sub = documents(R)
    for sec, e in docs + [("subcomponents", sub)]:
        have = dict(flat(e))
        have = {k[3:] if k.startswith("[].") else k: v for k, v in have.items()}
        for path, rx in SOURCES.get(sec, {}).items():
            v = have.get(path)
            R.ob("complete", f"{sec}:{path}", v is not None, f"{path} of {sec} is not written: it is lost on the way through a file", "src/sst/core/model/cfgoutput/jsonConfigOutput.cc")
            if isinstance(v, Leaf): R.ob("complete", f"{sec}:{path}:source", re.search(rx.replace("\\)\\.", "(\\)|\\.c?begin\\(\\)|\\[[^\\]]*\\])\\."), show(v.src)) is not None, f"{path} of {sec} is written from {show(v.src)}", v.node.where())
        for path, v in have.items():
            if not isinstance(v, Leaf): continue
            srcs = set(subterms(v.src))
            free = {x for k, xs in FREE.items() if k in path for x in xs}
            for c, pol in guards(v.g, v.node):
                if c[0] == "more": continue
                c = expand(v.g.T, c)
                one = fold(c, lambda t: {"size": 1, "empty": 0, "operator!=": None}.get(last(t[1])) if t[0] == "call" else None)
                if one is not None and any(x[0] == "call" and last(x[1]) in ("size", "empty") for x in subterms(c)) and "comps_" not in str(c):
                    R.ob("complete", f"{sec}:{path}:{show(c)[:60]}:one", bool(one) == pol, f"{path} of {sec} is left out if there is only one ({show(c)})", v.node.where())
                ms = [x for x in subterms(c) if x[0] in ("mem", "call") and last(x[2] if x[0] == "mem" else x[1]) not in NOISE]
                names = {last(x[2] if x[0] == "mem" else x[1]) for x in ms}
                inner = max(ms, key=lambda x: len(str(x)), default=None)
                if sec == "statistics_options" and path.startswith("params") and "type" in names: continue   # without a type of output its parameters mean nothing
                R.ob("complete", f"{sec}:{path}:{show(c)[:60]}", inner is None or inner in srcs or last(inner[2] if inner[0] == "mem" else inner[1]) in ("comps_", "getComponentMap") or bool(names & free), f"{path} of {sec} is left out depending on {show(c)}", v.node.where())


def guards(g, n):
    """conditions of the branches that decide whether n is reached"""
    out = []
    for b in g.nodes():
        if b.kind != "br" or b is n: continue
        cyc = g.search(g.after(b), lambda x: x is b) is not None
        if cyc and g.search(g.after(n), lambda x: x is b) is None: continue   # a loop that is over
        for s, c, p in b.succ:
            if c is None: continue
            if g.search([g.entry], lambda x: x is n, avoid=lambda x: False, edge=lambda m, t, cc, pp, b=b, p=p: not (m is b and pp == p)) is None:
                out.append((c if is_term(c) else ("more",), p))
    return out


RECORDS = ("shadow_statistic_", "shadow_link_", "shadow_port_module_", "rank_")
READS = ("find", "empty", "size", "length", "c_str", "begin", "end", "back", "front", "at", "operator[]", "operator==", "operator!=", "compare", "data", "getKeys", "count")


def parts(t):
    """(record, field) of the scratch a term denotes; field None: the whole record"""
    t = strip(t)
    while t[0] in ("idx", "elem", "addr"): t = strip(t[1])
    fld = None
    while t[0] == "mem":
        if last(t[2]) in RECORDS: return last(t[2]), fld
        fld = last(t[2])
        t = strip(t[1])
    return None


def const_term(t): return not any(x[0] in ("param", "mem", "var") for x in subterms(t))


def writes(h, ev):
    """last state of each scratch field after the events: True dirty, False clean"""
    out = {}
    for n, v in ev:
        if n.kind == "asg": t, rhs = n.d["lhs"], n.d["rhs"]
        elif n.kind == "call" and n.d["obj"] is not None and last(n.d["q"]) == "operator=": t, rhs = n.d["obj"], n.d["args"][0]
        elif n.kind == "call" and n.d["obj"] is not None and "m" in (n.d.get("flags") or "m") and last(n.d["q"]) not in READS:
            t, rhs = n.d["obj"], None
        else: continue
        x = parts(t)
        if x is None: continue
        if n.kind == "call" and last(n.d["q"]) not in ("operator=", "clear") and (strip(t)[0] != "mem" or strip(t)[0] == "deref"): continue
        if n.kind == "call" and last(n.d["q"]) == "clear": out[x] = False
        elif rhs is None:
            if n.d.get("inlined") or x[1] in (None, "pm"): continue
            out[x] = True
        else: out[x] = h in VALUES or not const_term(rhs)
    return out


def reads(ev):
    out = set()
    for n, v in ev:
        if not isinstance(n.d, dict):
            ts = [n.d]
        else: ts = list(n.d.get("args") or []) + [n.d.get("rhs"), n.d.get("val")]
        if n.kind == "br": ts += [c for _, c, _ in n.succ if c is not None]
        for t in ts:
            if not is_term(t): continue
            st = [t]
            while st:
                x = st.pop()
                p = parts(x) if x and x[0] == "mem" else None
                if p: out.add(p)
                else: st.extend(y for y in x if isinstance(y, tuple))
    return out


def fresh(R):
    """What one entry of a document says is not taken for another: what is collected for an entry is empty when the entry starts."""
    A = Reader(R)
    # the automaton: state -> [(handler, next, writes)]
    edges, use, taken = {}, {}, {}
    work, done = ["Entry"], set()
    while work:
        s = work.pop()
        if s in done or s == "Invalid": continue
        done.add(s)
        for h in OPEN + CLOSE + ("null", "key") + VALUES:
            for k in (A.keys if h in VALUES + ("key",) else (None,)):
                if k is not None and k not in A.lits[h] and k != "\0": continue
                for ok, ns, ev in A.step(h, s, k):
                    if not ok: continue
                    e = (h, ns, tuple(sorted(writes(h, ev).items(), key=str)))
                    if e not in edges.setdefault(s, []): edges[s].append(e)
                    if h in OPEN + CLOSE + ("key",) or h in VALUES and s.startswith("Comp"): taken.setdefault(h, set()).update(reads(ev))
                    if h == "end_object": use.setdefault(s, set()).update(reads(ev))
                    if ns not in done: work.append(ns)
    R.count("states of the reader", len(done)) if hasattr(R, "count") else None
    fields = {x for es in edges.values() for _, _, w in es for x, d in w if d and x[1]}
    for fl in sorted(fields, key=str):
        R.ob("fresh", f"{fl[0]}.{fl[1]}:used", any(fl in r or (fl[0], None) in r for r in taken.values()), f"{fl[0]}{fl[1]} is collected from a document but used nowhere", A.cfg["end_object"][0].where())
        targets = {s for s, r in use.items() if fl in r or (fl[0], None) in r}
        seen, st, bad = set(), [("Entry", False)], {}
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            s, d = x
            for h, ns, w in edges.get(s, []):
                w = dict(w)
                nd = w.get(fl, w.get((fl[0], None), d))
                if h == "start_object" and ns in targets: bad[ns] = bad.get(ns, False) or nd
                st.append((ns, nd))
        for ns, b in sorted(bad.items()):
            R.ob("fresh", f"{fl[0]}.{fl[1]}:{ns}", not b, f"{fl[0]}{fl[1]} still holds what an earlier entry said when a {ns} starts", A.cfg["start_object"][0].where())
    R.need([1] if len(fields) > 8 else [], "what the reader collects")


def nested(R):
    """The reader leaves an object or array to the state that opened it, and keeps one record for each open component."""
    A = Reader(R)
    push = lambda ev: sum(n.kind == "call" and last(n.d["q"]) in ("emplace_back", "push_back") and n.d["obj"] is not None and lastm(n.d["obj"], "shadow_component_stack_") for n, _ in ev)
    pop = lambda ev: sum(n.kind == "call" and last(n.d["q"]) == "pop_back" and n.d["obj"] is not None and lastm(n.d["obj"], "shadow_component_stack_") for n, _ in ev)
    named = {ns for s in A.states for k in A.keys if k in A.lits["key"] or k == "\0" for ok, ns, _ in A.step("key", s, k) if ok and ns != s}
    for s in A.states:
        ks = ([] if s in named else [(None, s)]) + [(k, ns) for k in A.keys if k in A.lits["key"] or k == "\0" for ok, ns, _ in A.step("key", s, k) if ok and ns != s]
        for k, x in ks:
            for h in OPEN:
                for ok, e, ev in A.step(h, x):
                    if not ok: continue
                    cl = [c for c in A.step(h.replace("start", "end"), e) if c[0]]
                    if s == "Entry" or e == "Invalid": continue
                    if k is not None or x == s: R.ob("nested", f"{s}:{k}:{h}", any(c[1] == s for c in cl), f"the end of {e} does not lead back to {s}", A.cfg[h.replace("start", "end")][0].where())
                    comp = h == "start_object" and x in ("CompArray", "SubCompArray")
                    R.ob("nested", f"{x}:{e}:push", push(ev) == comp, f"components that are open are not all known in {e}", A.cfg[h][0].where())
                    for c in cl: R.ob("nested", f"{x}:{e}:pop", pop(c[2]) == comp, f"a component that ended counts as open, or another one as ended, after {e}", A.cfg[h.replace("start", "end")][0].where())
            if k is not None:
                for c in A.step("null", x):
                    if c[0] and (x not in ("SubCompArray_key", "PortModArray_key")): R.ob("nested", f"{s}:{k}:null", c[1] == s, f"an empty {k} does not lead back to {s}", A.cfg["null"][0].where())


CALLS = {"addComponent": (None, (("name",), ("type",))), "addSubComponent": (None, (("name",), ("type",), ("slot_number",))), "addPortModule": (None, (("port",), ("type",), ("params",))), "createLink": (None, (("name",),)),
         "addLink": (None, (("leftcomp", "rightcomp"), None, ("leftport", "rightport"), ("leftlat", "rightlat"))), "addNonLocalLink": (None, (None, ("rank",), ("thread",))), "setRank": (None, (("rank_",),)),
         "addStatistic": (None, (("name",), ("params",))), "enableStatistic": (None, (("name",), ("params",))), "enableAllStatistics": (None, (("params",),)), "reuseStatistic": (None, (("name",), ("id",)))}


def made(R):
    """What an entry says is made part of the system when the entry ends."""
    A = Reader(R)
    for h, (f, g) in A.cfg.items():
        for n in g.nodes():
            if n.kind != "call" or last(n.d["q"]) not in CALLS or len(n.d["args"]) < len(CALLS[last(n.d["q"])][1]): continue
            sides = set()
            for i, names in enumerate(CALLS[last(n.d["q"])][1]):
                if names is None or i >= len(n.d["args"]): continue
                ms = [last(x[2]) for x in subterms(expand(g.T, n.d["args"][i])) if x[0] == "mem"]
                R.ob("made", f"{last(n.d['q'])}:{i}", any(m in names for m in ms), f"{last(n.d['q'])} is given {show(n.d['args'][i])} for {'/'.join(names)}", n.where())
                for m in ms:
                    if m[:4] in ("left", "righ"): sides.add(m[:4])
            if last(n.d["q"]) == "addSubComponent":
                R.ob("made", "addSubComponent:parent", re.search(r"shadow_component_stack_\.?(front\(\)|begin\(\)|\[0\]|back\(\))", show(n.d["obj"])) is None, "a subcomponent is added to another component than the one around it", n.where())
            if last(n.d["q"]) in ("addStatistic", "enableStatistic", "enableAllStatistics"):
                ps = [parts(x)[0] for a in n.d["args"] for x in subterms(expand(g.T, a)) if x[0] == "mem" and parts(x)]
                R.ob("made", f"{last(n.d['q'])}:own", all(p == "shadow_statistic_" for p in ps), "a statistic gets parameters of something else", n.where())
            if last(n.d["q"]) == "addLink": R.ob("made", "addLink:side", len(sides) == 1, "the two sides of a link are mixed", n.where())

    def must(h, state, calls, given, what):
        f = A.cfg[h][0]
        base = A.leaf(h, state, None)
        lf = lambda t: given[last(t[2])] if t[0] == "mem" and last(t[2]) in given else base(t)
        rs = [r for r in runs(A.cfg[h][1], [A.cfg[h][1].entry], lambda n: False, valued(lf), opaque=A.opaque(A.cfg["end_object"][1])) if r.ret() is None or fold(r.ret(), lf) != 0]
        R.ob("made", f"{state}:{what}:ends", bool(rs), f"the end of {state} is not accepted", f.where())
        for r in rs:
            got = [last(n.d["q"]) for n, _ in r.events if n.kind == "call" and last(n.d["q"]) in ("createLink", "setLinkNoCut", "addLink", "addNonLocalLink", "setRank")]
            R.ob("made", f"{state}:{what}", sorted(got) == sorted(calls), f"{state} ({what}) leads to {', '.join(got) or 'nothing'}", f.where())
    for cut in (0, 1):
        for nl in (0, 1):
            must("end_object", "Link", ["createLink", "addLink"] + ["setLinkNoCut"] * cut + (["addNonLocalLink"] if nl else ["addLink"]), dict(nocut=cut, nonlocal_=nl, **{"nonlocal": nl}), f"no cut {cut}, not local {nl}")
    gone = lambda ev: any(n.kind == "call" and last(n.d["q"]) in ("clear", "operator=", "swap") and n.d["obj"] is not None and lastm(n.d["obj"], "current_shared_stats_") for n, _ in ev)
    R.ob("made", "shared:component", all(gone(ev) for ok, _, ev in A.step("end_object", "Comp") if ok) or all(gone(ev) for ok, _, ev in A.step("start_object", "CompArray") if ok),
         "a shared statistic of one component is taken for one of the next", A.cfg["end_object"][0].where())
    must("end_object", "Comp_Partition", ["setRank"], {}, "rank")
    for st, given, want in (("Comp_Stat", dict(shared=0), "enableStatistic"), ("SubComp_Stat", dict(shared=0), "enableStatistic"), ("Comp_Stat", dict(shared=1), "reuseStatistic"), ("SubComp_Stat", dict(shared=1), "reuseStatistic"),
                            ("Comp_StatOptions", dict(shared=0), "enableStatistic"), ("SubComp_StatOptions", dict(shared=0), "enableStatistic"), ("PortMod_Stat", {}, "enableStatistic|enableAllStatistics"), ("PortMod_StatOptions", {}, "enableStatistic|enableAllStatistics"),
                            ("StatGroup_Stat", {}, "addStatistic")):
        f, g = A.cfg["end_object"]
        base = A.leaf("end_object", st, None)

        def lf(t, given=given, base=base):
            if t[0] == "mem" and last(t[2]) in given: return given[last(t[2])]
            if t == ("str", ""): return 1
            if t[0] == "mem" and last(t[2]) == "name" and parts(t) == ("shadow_statistic_", "name"): return 2
            return base(t)
        rs = [r for r in runs(g, [g.entry], lambda n: False, valued(lf), opaque=A.opaque(A.cfg["end_object"][1])) if r.ret() is None or fold(r.ret(), lf) != 0]
        R.ob("made", f"{st}:{want}:ends", bool(rs), f"the end of {st} is not accepted", f.where())
        for r in rs: R.ob("made", f"{st}:{want}:{given.get('shared')}", any(re.fullmatch(want, last(n.d["q"])) for n, _ in r.events if n.kind == "call"), f"a statistic of {st} is not enabled", f.where())


CLAUSES = [accepted, complete, fresh, nested, made]
