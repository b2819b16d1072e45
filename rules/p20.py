"""P20: configuration graph and its partitioning."""
from sa.q import *
from rules.p17 import fns, fn, ALL, once, adds
from rules.p19 import NONE, strip, callp
import itertools

PROP = dict(
    title="The configuration graph is built, partitioned and split without loss",
    statement="Components get distinct ids and names; a link joins exactly two ports, each with the latency given for it, or one port and a remote rank. Unused, dangling or over-referenced links, links without latency and bad "
              "ports end the simulation. Components joined by no-cut links get the same rank; every partitioner gives each component, with its subcomponents, a rank that exists, or the run ends. Links whose ends differ in "
              "rank or thread are marked so; the minimum over rank-crossing links is the lookahead. Splitting gives each rank all its components and links, with each cut link in both parts, knowing the remote rank.",
    over=["configurations", "inputs"], text="all graphs, subcomponent trees, no-cut sets, numbers of ranks and threads, splits, serial and parallel loading",
    why="A component on no rank, a cut link that one side does not know, or a lookahead larger than a cut link's latency makes a parallel run lose or reorder events; the tests run a few graphs on one or two ranks.",
    files=["src/sst/core/model/configGraph.cc", "src/sst/core/model/configLink.cc", "src/sst/core/model/configComponent.cc", "src/sst/core/impl/partitioners/linpart.cc", "src/sst/core/impl/partitioners/rrobin.cc",
           "src/sst/core/impl/partitioners/singlepart.cc", "src/sst/core/impl/partitioners/simplepart.cc", "src/sst/core/main.cc"],
    mech=[("ConfigGraph", "src/sst/core/model/configGraph.cc"), ("ConfigLink", "src/sst/core/model/configLink.cc"), ("SST::IMPL::Partition partitioners", "src/sst/core/impl/partitioners/simplepart.cc"), ("main, start_partitioning", "src/sst/core/main.cc")],
    technique="abstract evaluation of graph building, checking and splitting over all end states of a link (case tables), loop-coverage and path obligations over interprocedural control-flow graphs")

TUS = ["model/configGraph.cc", "model/configLink.cc", "model/configComponent.cc", "impl/partitioners/linpart.cc", "impl/partitioners/rrobin.cc", "impl/partitioners/singlepart.cc", "impl/partitioners/simplepart.cc", "main.cc"]
G = "ConfigGraph::"
L = "ConfigLink::"
UNSET = 99


def idxof(t, field, leaf=lambda t: None):
    """k if t is <x>.field[k]"""
    t = strip(t)
    if t[0] == "idx" and t[1][0] == "mem" and last(t[1][2]) == field: return fold(t[2], leaf)
    return None


def unset(t): return t[0] in ("glob", "enum", "mem", "lit", "cast", "var") and "UNSET_COMPONENT_ID" in show(t)


def lastis(t, name): t = strip(t); return t[0] == "mem" and last(t[2]) == name


def writes(o, leaf, field):
    """{k: value} assigned to the array field"""
    out = {}
    for n, v in o.events:
        if n.kind == "asg": l, r = n.d["lhs"], n.d["rhs"]
        elif n.kind == "call" and last(n.d["q"]) in ("operator=", "assign") and n.d["obj"] is not None: l, r = n.d["obj"], n.d["args"][0]
        else: continue
        k = idxof(v(l), field, leaf)
        if k is None and n.kind == "asg" and strip(v(l))[0] == "idx" and lastis(strip(v(l))[1], field): k = "?"
        if k is not None: out.setdefault(k, []).append(v(r))
    return out


def sole(w, k, pred): return k in w and len(w) == 1 and all(pred(x) for x in w[k])


def build(R):
    """Adding components and links: ids are distinct, a link takes its first end at index 0, the second at index 1; what cannot be right is fatal."""
    P = R.prog
    f = fn(R, G + "addComponent", 2)
    names = lambda t: is_field(strip(t), G + "comps_by_name_")
    for known in (False, True):
        ins = lambda at, ctx=None: (not known) if at[0] in ("nz", "pos") and lastis(at[1], "second") else None
        g = CFG(P, f, inline=NONE, assume=allof(has_key(names, known), ins))
        if known: always(R, "build", "component:name twice", g, is_fatal, "two components of the same name are accepted")
        else:
            never(R, "build", "component:accepted", g, is_fatal, "a new component ends the simulation")
            inc = lambda n: n.kind == "asg" and is_field(n.d["lhs"], G + "nextComponentId")
            once(R, "build", "component:id", g, inc, "two components get the same id", "ids are skipped")
            once(R, "build", "component:kept", g, lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and is_field(n.d["obj"], G + "comps_"), "a component is lost", "a component is inserted twice")
            always(R, "build", "component:name", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace") and n.d["obj"] is not None and names(n.d["obj"]) or n.kind == "asg" and n.d["lhs"][0] == "idx" and names(n.d["lhs"][1]), "the name of a component is not registered")
    f = fn(R, G + "addLink", 4)
    LS = lambda t: strip(t) == ("param", f.params[3][1], 3) or param_idx(f, strip(t)) == 3
    for c0, c1, nl, lat, l0, same in itertools.product((False, True), repeat=6):
        if not c0 and c1 and not nl: continue
        if same and not c0: continue
        cur = {"component_": (5 if c0 else UNSET, 7 if c1 or nl else UNSET), "latency_": (3 if l0 else 0, 3)}

        def leaf(t):
            t = strip(t)
            if unset(t) and t[0] != "bin": return UNSET
            for a in cur:
                k = idxof(t, a)
                if k in (0, 1): return cur[a][k]
            if lastis(t, "nonlocal_"): return nl
            i = param_idx(f, t)
            if i == 0: return 5 if same else 6
            if i == 3: return 1 if lat else 0
            if t[0] in ("null", "nullptr") or show(t) == "nullptr": return 0
            return None
        o = evaluate(R, CFG(P, f, inline=NONE), valued(leaf))
        nm = f"link:first {'set' if c0 else 'unset'}, second {'set' if c1 else 'unset'}, {'remote' if nl else 'local'}, latency {'given' if lat else 'of the link' if l0 else 'missing'}" + (", same component" if same else "")
        bad = c0 and nl or c0 and c1 or not lat and not l0
        if bad: R.ob("build", nm, not o.done and o.fatal, "a link that cannot be connected is accepted", f.where()); continue
        k = 1 if c0 else 0
        R.ob("build", nm, o.done and not o.fatal, "a valid connection ends the simulation", f.where())
        R.ob("build", nm + ":component", sole(writes(o, leaf, "component_"), k, lambda x: param_idx(f, x) == 0), "the link's end is not the component given", f.where())
        R.ob("build", nm + ":port", sole(writes(o, leaf, "port_"), k, lambda x: param_idx(f, strip(x)) == 2), "the link's end is not the port given", f.where())
        w = writes(o, leaf, "latency_")
        R.ob("build", nm + ":latency", sole(w, k, lambda x: callp("getIndexForLatency")(x) and param_idx(f, x[3][0]) == 3) if lat else not w, "the end does not get the latency given for it", f.where())
        pb = [(n, v) for n, v in o.events if n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and n.d["obj"] is not None and lastis(v(n.d["obj"]), "links")]
        want = not (c0 and same)
        R.ob("build", nm + ":listed", (len({n.nid for n, _ in pb}) == 1 and all(any(callp("findComponent")(x) and param_idx(f, x[3][0]) == 0 for x in subterms(v(n.d["obj"]))) and (lastis(v(n.d["args"][0]), "id_") or param_idx(f, v(n.d["args"][0])) == 1) for n, v in pb)) if want else not pb,
             "the component does not list the link once", f.where())
    f = fn(R, G + "addNonLocalLink", 3)
    for nl, c1 in itertools.product((False, True), repeat=2):
        def leaf(t):
            t = strip(t)
            if unset(t) and t[0] != "bin": return UNSET
            if idxof(t, "component_") == 1: return 7 if c1 else UNSET
            if lastis(t, "nonlocal_"): return nl
            return None
        o = evaluate(R, CFG(P, f, inline=NONE), valued(leaf))
        nm = f"remote end:{'already remote' if nl else 'second set' if c1 else 'free'}"
        if nl or c1: R.ob("build", nm, not o.done and o.fatal, "a link gets a remote end in addition to two others", f.where()); continue
        R.ob("build", nm, o.done and not o.fatal, "a valid remote end ends the simulation", f.where())
        R.ob("build", nm + ":rank", sole(writes(o, leaf, "component_"), 1, lambda x: param_idx(f, strip(x)) == 1), "the remote rank is not kept", f.where())
        R.ob("build", nm + ":thread", sole(writes(o, leaf, "latency_"), 1, lambda x: param_idx(f, strip(x)) == 2), "the remote thread is not kept", f.where())
        R.ob("build", nm + ":flag", any(n.kind == "asg" and lastis(n.d["lhs"], "nonlocal_") and const(v(n.d["rhs"])) == 1 for n, v in o.events), "the link is not marked non-local", f.where())
    f = fn(R, G + "createLink", 2)
    g = CFG(P, f, inline=NONE)
    for n in root_rets(g):
        v = expand(g.T, n.d["val"])
        x = strip(v)
        while x[0] == "cast": x = x[-1]
        R.ob("build", "link:id", x[0] == "bin" and x[1] in ("|", "+") and has_field(x, G + "link_rank_mask") and has_call(x, "size") and has_field(x, G + "links_"), "link ids are not unique over the links and ranks", n.where())
    once(R, "build", "link:kept", g, lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and is_field(n.d["obj"], G + "links_"), "a link is lost", "a link is kept twice")
    for lat in (True, False):
        leaf = lambda t: (1 if lat else 0) if param_idx(f, strip(t)) == 1 else None
        o = evaluate(R, g, valued(leaf))
        w = writes(o, leaf, "latency_")
        R.ob("build", "link:latency " + ("given" if lat else "none"), (set(w) == {0, 1} and all(callp("getIndexForLatency")(x) and param_idx(f, x[3][0]) == 1 for xs in w.values() for x in xs)) if lat else not w, "the link's latency does not apply to both ends", f.where())
    f = fn(R, G + "setLinkNoCut", 1)
    always(R, "build", "no cut", CFG(P, f), lambda n: n.kind == "asg" and lastis(n.d["lhs"], "no_cut_") and const(n.d["rhs"]) == 1, "a no-cut link may be cut")
    for f in fns(R, G + "findComponent", 1):
        masked = lambda t: any(x[0] == "bin" and x[1] == "&" for x in subterms(t)) or has_call(t, "COMPONENT_ID_MASK")
        for top in (True, False):
            dec = lambda at, ctx=None: top if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) and any(masked(x) for x in at[1:]) else None
            o = evaluate(R, CFG(P, f, inline=NONE), dec)
            fwd = o.rets and all(callp("findComponent")(strip(x)) and param_idx(f, strip(x)[3][0]) == 0 for _, v in o.rets for x in (strip(v),))
            if fwd: break
            for _, v in o.rets:
                v = strip(v)
                if top: ok = v[0] == "idx" and lastis(v[1], "comps_") and 0 in [param_idx(f, x) for x in subterms(v[2]) if x[0] == "param"] or callp("operator[]")(v) and lastis(v[2], "comps_")
                else: ok = callp("findSubComponent")(v) and param_idx(f, v[3][0]) == 0 and masked(v[2]) and has_field(v[2], G + "comps_")
                R.ob("build", "find:" + ("component" if top else "subcomponent"), ok, "another component is found", f.where())
    f = fn(R, G + "updateLinkId", 2)
    for c0, c1, nl in itertools.product((False, True), repeat=3):
        def leaf(t):
            t = strip(t)
            if unset(t) and t[0] != "bin": return UNSET
            k = idxof(t, "component_")
            if k in (0, 1): return ((5 if c0 else UNSET), (7 if c1 or nl else UNSET))[k]
            if lastis(t, "nonlocal_"): return nl
            return None
        g = CFG(P, f, inline=NONE)
        o = evaluate(R, g, valued(leaf))
        got = set()
        for n, v in o.calls("replaceLinkId"):
            for k in (0, 1):
                if any(callp("findComponent")(x) and idxof(x[3][0], "component_") == k for x in subterms(expand(g.T, v(n.d["obj"])))) and lastis(v(n.d["args"][0]), "id_") and param_idx(f, v(n.d["args"][1])) == 1: got.add(k)
        want = ({0} if c0 else set()) | ({1} if c1 and not nl else set())
        R.ob("build", f"new link id:{int(c0)}{int(c1)}{int(nl)}", got == want, "a connected component keeps the old link id", f.where())
        setid = lambda n: n.kind == "asg" and lastis(n.d["lhs"], "id_") and param_idx(f, n.d["rhs"]) == 1
        always(R, "build", "new link id", g, setid, "the link keeps its old id")
        never(R, "build", "new link id:order", g, lambda n: n.kind == "call" and last(n.d["q"]) == "replaceLinkId", "the old id is gone when the components' ids are replaced", frm=[n for n in g.nodes() if setid(n)])
    f = fn(R, "ConfigComponent::replaceLinkId", 2)
    g = CFG(P, f)
    rep = [n for n in g.nodes() if n.kind == "asg" and param_idx(f, n.d["rhs"]) == 1 or n.kind == "call" and last(n.d["q"]) in ("replace", "replace_if")]
    R.cfg_used(g)
    R.ob("build", "replace id", bool(rep) and all(n.kind == "call" or any(True for _ in [0]) for n in rep), "an id is not replaced", f.where())
    guarded(R, "build", "replace id:only", g, lambda n: n.kind == "asg" and param_idx(f, n.d["rhs"]) == 1, lambda at, pol, n: at[0] == "==" and pol and any(param_idx(f, x) == 0 for x in at[1:]), "another link's id is replaced")
    f = fn(R, "ConfigComponent::setRank", 1)
    g = CFG(P, f, inline=NONE)
    always(R, "build", "rank", g, lambda n: (n.kind == "asg" and is_field(n.d["lhs"], "ConfigComponent::rank") and param_idx(f, n.d["rhs"]) == 0) or n.kind == "call" and last(n.d["q"]) == "operator=" and is_field(n.d["obj"], "ConfigComponent::rank") and param_idx(f, strip(n.d["args"][0])) == 0, "the component's rank is not set")
    for_each(R, "build", "rank:subcomponents", g, lambda c: has_field(c, "ConfigComponent::subComponents"), lambda n: n.kind == "call" and last(n.d["q"]) == "setRank" and param_idx(f, strip(n.d["args"][0])) == 0, "a subcomponent is not on the rank of its component")
    f = fn(R, "ConfigComponent::allLinks")
    g = CFG(P, f, inline=NONE)
    addl = lambda n, what: n.kind == "call" and last(n.d["q"]) in ("insert", "push_back", "append_range") and any(what(expand(g.T, a)) for a in n.d["args"])
    own = lambda n: n.kind in ("call", "init", "ctor", "asg") and any(is_term(a) and has_field(a, "ConfigComponent::links") for a in (n.d.get("args") or []) if is_term(a)) or n.kind in ("init", "asg") and is_term(n.d.get("rhs")) and has_field(n.d["rhs"], "ConfigComponent::links")
    always(R, "build", "all links:own", g, own, "the component's own links are left out")
    for_each(R, "build", "all links:subcomponents", g, lambda c: has_field(c, "ConfigComponent::subComponents"), lambda n: n.kind == "call" and last(n.d["q"]) == "allLinks", "a subcomponent's links are left out")
    for_each(R, "build", "all links:kept", g, lambda c: has_field(c, "ConfigComponent::subComponents"), lambda n: addl(n, lambda a: has_call(a, "allLinks")), "a subcomponent's links are left out")
    f = fn(R, "ConfigComponent::getNextSubComponentID")
    own = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "ConfigComponent::nextSubID")
    isroot = lambda val: lambda at, ctx=None: val if at[0] == "==" and all(has_field(x, "ConfigComponent::id") for x in at[1:]) else None
    g = CFG(P, f, inline=NONE, assume=isroot(True))
    once(R, "build", "subcomponent id", g, own, "two subcomponents get the same id", "ids are skipped")
    o = evaluate(R, CFG(P, f, inline=NONE), isroot(False))
    R.ob("build", "subcomponent id:root", bool(o.rets) and all(callp("getNextSubComponentID")(v) and any(callp("findComponent")(x) for x in subterms(v)) for _, v in o.rets) and not any(own(n) for n, _ in o.events), "a nested subcomponent does not draw its id from the component", f.where())


def latency(R):
    """Latencies are kept as an index of the given text until all are known, then replaced once by the time of that text; a remote end has none."""
    P = R.prog
    f = fn(R, L + "getIndexForLatency", 1)
    g = CFG(P, f, inline=NONE)
    isx = lambda t: has_glob(t, "lat_to_index") or has_field(t, "lat_to_index")
    for known in (True, False):
        dec = table(lambda at, ctx=None: known if at[0] in ("nz", "pos") and isx(at[1]) and not has_call(at[1], "size") else (not known) if at[0] == "==" and any(isx(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else None,
                    has_key(isx, known), lambda at, ctx=None: (not known) if at[0] in ("nz", "pos") and lastis(at[1], "second") else None)
        o = evaluate(R, g, dec)
        w = [v(n.d["rhs"]) for n, v in o.events if n.kind == "asg" and isx(v(n.d["lhs"]))]
        sz = lambda t: has_call(t, "size") and isx(t)
        if known: R.ob("latency", "index:known", not w, "a latency text gets a new index when it is used again", f.where())
        else: R.ob("latency", "index:new", bool(w) and all(callp("size")(strip(x)) for x in w) or any(n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace") and any(sz(v(a)) for a in n.d["args"]) for n, v in o.events), "a new latency text does not get the next index", f.where())
    f = fn(R, L + "initializeLinkLatencyVector")
    g = CFG(P, f, inline=NONE)
    for_each(R, "latency", "times", g, lambda c: isx(c), lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and has_call(expand(g.T, n.d["rhs"]), "getSimCycles"), "a latency text has no time")
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) == "getSimCycles": R.ob("latency", "times:text", lastis(strip(expand(g.T, n.d["args"][0])), "first"), "the time of something else than a latency text is used", n.where())
        if n.kind == "asg" and n.d["lhs"][0] == "idx" and has_call(expand(g.T, n.d["rhs"]), "getSimCycles"): R.ob("latency", "times:index", lastis(strip(expand(g.T, n.d["lhs"][2])), "second"), "the time of a text is kept under another index", n.where())
        if n.kind == "call" and last(n.d["q"]) == "resize":
            R.ob("latency", "times:room", sum_is(expand(g.T, n.d["args"][0]), lambda t: callp("size")(t), lambda t: const(t) == 1), "there is no room for the last index", n.where())
    f = fn(R, L + "updateLatencies", 0)
    for c0, c1, nl in itertools.product((False, True), repeat=3):
        def leaf(t):
            t = strip(t)
            if unset(t) and t[0] != "bin": return UNSET
            k = idxof(t, "component_")
            if k in (0, 1): return ((5 if c0 else UNSET), (7 if c1 or nl else UNSET))[k]
            if lastis(t, "nonlocal_"): return nl
            return None
        o = evaluate(R, CFG(P, f, inline=NONE), valued(leaf))
        w = writes(o, leaf, "latency_")
        want = ({0} if c0 else set()) | ({1} if c1 and not nl else set())
        R.ob("latency", f"resolve:{int(c0)}{int(c1)}{int(nl)}", set(w) == want and all(len(xs) == 1 and callp("getLatencyFromIndex")(xs[0]) and idxof(xs[0][3][0], "latency_") == k for k, xs in w.items()), "an end's latency is not the time of its text, or a remote thread is taken for one", f.where())
    f = fn(R, G + "postCreationCleanup")
    for_each(R, "latency", "resolve all", CFG(P, f, inline=lambda f2, e, c: last(f2.sq) == "getLinkMap"), lambda c: has_field(c, G + "links_"), lambda n: n.kind == "call" and last(n.d["q"]) == "updateLatencies", "a link keeps an index for a latency")
    for f in fns(R, L + "getMinLatency"):
        for nl in (True, False):
            for a, b in ((3, 5), (5, 3), (4, 4)):
                leaf = lambda t: nl if lastis(t, "nonlocal_") else (a, b)[idxof(t, "latency_")] if idxof(t, "latency_") in (0, 1) else None
                o = evaluate(R, CFG(P, f, inline=NONE), valued(leaf))
                want = a if nl else min(a, b)
                R.ob("latency", f"minimum:{'remote' if nl else 'local'} {a} {b}", bool(o.rets) and all(fold(v, leaf) == want for _, v in o.rets), "the minimum is not that of the link's local latencies", f.where())
    f = fn(R, L + "setAsNonLocal", 2)
    for which in (0, 1):
        leaf = lambda t: which if param_idx(f, strip(t)) == 0 else None
        g = CFG(P, f, inline=NONE)
        o = evaluate(R, g, valued(leaf))
        sw = {last(strip(v(n.d["args"][0]))[1][2]) for n, v in o.calls("swap") if all(strip(v(a))[0] == "idx" for a in n.d["args"]) and {idxof(v(a), last(strip(v(a))[1][2]), leaf) for a in n.d["args"]} == {0, 1}}
        fields = {"component_", "port_", "latency_"}
        if not sw and which == 1:   # written without std::swap: index 0 receives index 1's data
            sw = {x for x in fields if any(idxof(r, x) == 1 for r in writes(o, leaf, x).get(0, []))}
        R.ob("latency", f"remote:local end {which}", sw == (fields if which else set()), "the local end's data does not end at index 0", f.where())
        rk = lambda name: lambda x: lastis(x, name) and param_idx(f, strip(x)[1]) == 1
        w = writes(o, leaf, "component_").get(1, []); wl = writes(o, leaf, "latency_").get(1, [])
        R.ob("latency", f"remote {which}:rank", bool(w) and rk("rank")(w[-1]), "the remote rank is not kept", f.where())
        R.ob("latency", f"remote {which}:thread", bool(wl) and rk("thread")(wl[-1]), "the remote thread is not kept", f.where())
        R.ob("latency", f"remote {which}:flag", any(n.kind == "asg" and lastis(n.d["lhs"], "nonlocal_") and const(v(n.d["rhs"])) == 1 for n, v in o.events), "the link is not marked non-local", f.where())
        late = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "swap"]
        first = lambda n: n.kind == "asg" and idxof(n.d["lhs"], "component_") == 1
        if late: never(R, "latency", f"remote {which}:order", g, lambda n: n.kind == "call" and last(n.d["q"]) == "swap", "the remote rank is swapped to the local end", frm=[n for n in g.nodes() if first(n)])


def ends(g, t):
    """which ends (0, 1) of the link a term about ranks refers to"""
    out = set()

    def go(t, depth):
        for x in subterms(t):
            k = idxof(x, "component_")
            if k in (0, 1): out.add(k)
        if out or depth == 0: return
        bases = {x for x in subterms(t) if x[0] in ("var", "idx", "mem")}
        for n in g.nodes():
            if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] in bases: go(n.d["args"][0], depth - 1)
            if n.kind == "asg" and n.d["lhs"] in bases: go(n.d["rhs"], depth - 1)
            if n.kind == "init" and n.d["var"] in bases and n.d.get("rhs") is not None: go(n.d["rhs"], depth - 1)
    go(t, 3)
    return out


def scalars(g):
    """paths worth tracking: all but those of class type"""
    cls = {n.d["var"] for n in g.nodes() if n.kind == "init" and "RankInfo" in str(n.d.get("type"))}
    return {(n.d.get("lhs") or n.d.get("var")) for n in g.nodes() if n.kind in ("asg", "init")} - cls


def check(R):
    """Structural errors and bad ranks are found; links are marked by the ranks and threads of their two ends."""
    P = R.prog
    f = fn(R, G + "checkForStructuralErrors")
    for c0, c1, nl in itertools.product((False, True), repeat=3):
        if not c0 and c1 and not nl: continue
        def leaf(t):
            t = strip(t)
            if unset(t) and t[0] != "bin": return UNSET
            k = idxof(t, "component_")
            if k in (0, 1): return ((5 if c0 else UNSET), (7 if c1 or nl else UNSET))[k]
            if lastis(t, "nonlocal_"): return nl
            return None
        g = CFG(P, f, inline=NONE)
        o = evaluate(R, g, valued(leaf))
        vals = {const(v) for _, v in o.rets}
        bad = not c0 or not c1 and not nl
        R.ob("check", f"dangling:{int(c0)}{int(c1)}{int(nl)}", (1 in vals or o.fatal) if bad else vals == {0}, "a link with a missing end is accepted" if bad else "a complete link is reported", f.where())
        if bad:
            gg = CFG(P, f, inline=NONE, assume=lambda at, ctx=None: valued(leaf)(at))
            rv = {strip(n.d["val"]) for n in root_rets(gg)}
            sets = lambda n: n.kind == "asg" and n.d["lhs"] in rv and (const(n.d["rhs"]) == 1) or n.kind == "ret" and const(n.d["val"]) == 1
            for_each(R, "check", f"dangling:{int(c0)}{int(c1)}{int(nl)} each", gg, lambda c: has_field(c, G + "links_"), sets, "an erroneous link is passed over")
            for h, body, leave, LL in loop_heads(gg):
                for n in gg.nodes():
                    if n.nid in LL and n.kind == "asg" and n.d["lhs"] in rv and n.d["op"] == "=" and const(n.d["rhs"]) != 1 and not any(x in rv for x in subterms(n.d["rhs"])): R.ob("check", "dangling:kept", False, "a later link hides an error", n.where())
    for_each(R, "check", "ports", CFG(P, f, inline=NONE), lambda c: has_field(c, G + "comps_"), lambda n: n.kind == "call" and last(n.d["q"]) == "checkPorts", "a component's ports are not checked")
    f = fn(R, "ConfigComponent::checkPorts")
    g = CFG(P, f, inline=NONE)
    for_each(R, "check", "ports:subcomponents", g, lambda c: has_field(c, "ConfigComponent::subComponents"), lambda n: n.kind == "call" and last(n.d["q"]) == "checkPorts", "a subcomponent's ports are not checked")
    mine = lambda at, ctx=None: True if at[0] == "==" and any(has_field(x, "ConfigComponent::id") for x in at[1:]) and any("component_" in show(x) for x in at[1:]) else False if at[0] in ("nz", "pos") and lastis(at[1], "nonlocal_") else None
    gv = CFG(P, f, inline=NONE, assume=mine)
    chk = lambda n: is_fatal(n) or n.kind == "call" and last(n.d["q"]) == "isPortNameValid"
    for_each(R, "check", "ports:known", gv, lambda c: True, chk, "a port the element does not have is accepted")
    inner = {h.nid for h, body, leave, LL in loop_heads(gv) if any(n.nid in LL and chk(n) for n in gv.nodes())}
    for_each(R, "check", "ports:links", gv, lambda c: has_field(c, "ConfigComponent::links"), lambda n: n.nid in inner or chk(n), "a link's port is not checked")
    gv = CFG(P, f, inline=NONE, assume=allof(mine, truth(callp("isPortNameValid"), False)))
    bad = gv.search([n for n in gv.nodes() if n.kind == "call" and last(n.d["q"]) == "isPortNameValid"], lambda n: n is gv.exit, avoid=is_fatal)
    R.cfg_used(gv)
    R.ob("check", "ports:unknown", bad is None and any(is_fatal(n) for n in gv.nodes()), "a port the element does not have is accepted", f.where())
    two = lambda at, ctx=None: False if at[0] in ("nz", "pos") and lastis(at[1], "second") else None
    gd = CFG(P, f, inline=NONE, assume=allof(mine, truth(callp("isPortNameValid"), True), two))
    R.cfg_used(gd)
    R.ob("check", "ports:twice", any(is_fatal(n) for n in gd.nodes()), "a port with two links is accepted", f.where())
    f = fn(R, G + "checkRanks", 1)
    MAXU = 2**32 - 1

    def rankterm(t, name):
        t = strip(t)
        return t[1] if t[0] == "mem" and last(t[2]) == name else None
    for r, t_, ok in ((0, 0, True), (1, 1, True), (2, 0, False), (0, 2, False), (MAXU, MAXU, False), (MAXU, 0, False), (0, MAXU, False)):
        def leaf(t):
            t = strip(t)
            if "UNASSIGNED" in show(t) and t[0] in ("glob", "mem", "enum", "lit", "var"): return MAXU
            for name, w, c in (("rank", 2, r), ("thread", 2, t_)):
                b = rankterm(t, name)
                if b is not None: return w if param_idx(f, b) == 0 else c if "comps_" in show(t) and "component_" not in show(t) and not ends(g, t) else None
            if t[0] == "un" and t[1] == "-" and const(t[2]) == 1: return MAXU
            return None
        g = CFG(P, f, inline=helpers(f, stop=("findComponent",)))
        o = evaluate(R, g, valued(leaf), rel=scalars(g))
        vals = {const(v) for _, v in o.rets}
        R.ob("check", f"rank {r},{t_} of 2,2", (0 not in vals) if ok else (0 in vals), "an existing rank is refused" if ok else "a rank that does not exist is accepted", f.where())
    for nl in (False, True):
        for dr, dt in ((False, False), (False, True), (True, False), (True, True)):
            val = {("rank", 0): 0, ("thread", 0): 0, ("rank", 1): 1 if dr else 0, ("thread", 1): 1 if dt else 0}
            g = CFG(P, f, inline=helpers(f, stop=("findComponent",)))

            def leaf(t):
                t = strip(t)
                if lastis(t, "nonlocal_"): return nl
                if idxof(t, "component_") == 1 and nl: return val["rank", 1]
                if idxof(t, "latency_") == 1 and nl: return val["thread", 1]
                if callp("isAssigned")(t) or callp("inRange")(t): return 1
                for name in ("rank", "thread"):
                    b = rankterm(t, name)
                    if b is not None:
                        e = ends(g, b)
                        if len(e) == 1 and not (nl and e == {1}): return val[name, e.pop()]
                return None
            o = evaluate(R, g, valued(leaf), rel=scalars(g))
            mark = lambda name: {fold(v(n.d["rhs"]), leaf) for n, v in o.events if n.kind == "asg" and lastis(n.d["lhs"], name)}
            nm = f"marks:{'remote' if nl else 'local'} rank {'differs' if dr else 'same'}, thread {'differs' if dt else 'same'}"
            R.ob("check", nm + ":rank", (1 in mark("cross_rank_") and not mark("cross_rank_") - {1}) if dr else not mark("cross_rank_") - {0}, "a link is not marked by the ranks of its ends", f.where())
            if not dr: R.ob("check", nm + ":thread", (mark("cross_thread_") == {1}) if dt else not mark("cross_thread_") - {0}, "a link is not marked by the threads of its ends", f.where())


def main_fn(R): return R.need([f for f in R.prog.find("main", False) if f.file.endswith("main.cc")] or [f for f in R.prog.find("SST::main", False)], "main")[0]


def calls_of(f, name): return raw_has(f, name)


def used(R):
    """The results of the checks are used: errors in the graph and unknown ranks end the run; the lookahead is the minimum over all ranks."""
    P = R.prog
    for q in ("checkForStructuralErrors", "checkRanks"):
        sites = [(f, n) for f, n in callers(P, lambda qn: last(qn) == q)]
        R.need(sites, "a caller of " + q)
        for f, n in sites:
            badval = q == "checkForStructuralErrors"
            g = CFG(P, f, inline=NONE, assume=truth(lambda t: callp(q)(strip(t)), badval))
            src = [m for m in g.nodes() if m.kind == "call" and last(m.d["q"]) == q]
            R.cfg_used(g)
            esc = g.search(src, lambda m: m is g.exit, avoid=lambda m: is_fatal(m) or m.kind == "call" and last(m.d["q"]) in ("SST_Exit", "exit", "fatal", "abort", "MPI_Abort"))
            R.ob("used", f"{q} in {last(f.sq)}", esc is None, "the run goes on with a graph that failed its check", f.where())
    f = fn(R, G + "getMinimumPartitionLatency")
    none = lambda at, ctx=None: True if at[0] in ("nz", "pos") and has_call(at[1], "size") else False if at[0] == "==" and any("getNumComponents" in show(x) or has_call(x, "size") for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else None
    g = CFG(P, f, inline=lambda f2, e, c: last(f2.sq) not in ("getMinLatency", "getNumComponents", "size"), assume=allof(truth(lambda t: lastis(t, "cross_rank_"), True), none))
    accs = min_fold(R, "used", "lookahead", g, lambda c: has_field(c, G + "links_"), lambda t: callp("getMinLatency")(strip(t)), "the lookahead is not the minimum over the links that cross ranks")
    g2 = CFG(P, f, inline=NONE, assume=truth(lambda t: lastis(t, "cross_rank_"), False))
    never(R, "used", "lookahead:only crossing", g2, lambda n: n.kind == "asg" and has_call(expand(g2.T, n.d["rhs"]), "getMinLatency") and n.d["lhs"] in accs, "links inside a rank shorten the lookahead")
    for n in root_rets(g): R.ob("used", "lookahead:result", strip(n.d["val"]) in accs, "something else is returned", n.where())
    f = main_fn(R)
    g = CFG(P, f, inline=NONE)
    red = [n for n in g.nodes() if n.kind == "call" and "Allreduce" in n.d["q"]]
    ok = [n for n in red if any("getMinimumPartitionLatency" in show(expand(g.T, m.d["rhs"])) and m.d["lhs"] in list(subterms(n.d["args"][0])) for m in g.nodes() if m.kind == "asg")]
    R.ob("used", "lookahead:over ranks", bool(ok) and all("op_min" in show(n.d["args"][4]).lower() or "mpi_min" in show(n.d["args"][4]).lower() for n in ok), "the lookahead is not the minimum over all ranks", f.where())


def collapse(R):
    """Components joined by no-cut links form one group; each component is in one group, each group knows its outer links; ranks go to all members."""
    P = R.prog
    f = fn(R, G + "getConnectedNoCutComps", 2)
    g = CFG(P, f, inline=NONE)
    always(R, "collapse", "member", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace") and param_idx(f, n.d["obj"]) == 1, "a component is not in its own group")
    always(R, "collapse", "visited", g, lambda n: n.kind == "asg" and lastis(n.d["lhs"], "visited") and const(n.d["rhs"]) == 1, "a component gets into two groups")
    masked = lambda t: next((x for x in subterms(t) if x[0] == "bin" and x[1] == "&"), None)
    for first in (True, False):   # the component is at end 0 / at end 1
        def dec(at, ctx=None):
            if at[0] in ("nz", "pos") and lastis(at[1], "no_cut_"): return True
            if at[0] == "==":
                ks = [k for x in at[1:] for k in {idxof(y, "component_") for y in subterms(x)} if k is not None]
                st = any(param_idx(f, y) == 0 for x in at[1:] for y in subterms(x) if y[0] == "param")
                if len(ks) == 1 and st: return (ks[0] == 0) == first
            return has_key(lambda t: param_idx(f, strip(t)) == 1, False)(at)
        gg = CFG(P, f, inline=NONE)
        o = evaluate(R, gg, dec)
        want = 1 if first else 0
        got = [pick(v(n.d["args"][0]), dec) for n, v in o.calls("getConnectedNoCutComps")]
        ks = [set(k for k in (idxof(y, "component_") for y in subterms(resolve(x, dec))) if k is not None) for x in got]
        R.ob("collapse", f"follow:end {want}", bool(ks) and all(k == {want} for k in ks), "a no-cut link is not followed to its other end", f.where())
        ga = CFG(P, f, inline=NONE, assume=dec)
        for_each(R, "collapse", f"follow:each {want}", ga, lambda c: "allLinks" in show(c) or has_call(c, "allLinks"), lambda n: n.kind == "call" and last(n.d["q"]) == "getConnectedNoCutComps", "a no-cut link is not followed")
    over = lambda t: has_call(t, "allLinks") or "allLinks" in show(t)
    present(R, "collapse", "all links", g, lambda n: n.kind == "call" and last(n.d["q"]) == "allLinks", "no-cut links of subcomponents are not followed")
    f = fn(R, G + "getCollapsedPartitionGraph")
    vis = lambda v: truth(lambda t: lastis(t, "visited"), v)
    g = CFG(P, f, inline=NONE, assume=vis(False))
    incomps = lambda c: has_field(c, G + "comps_")
    get = lambda n: n.kind == "call" and last(n.d["q"]) == "getConnectedNoCutComps"
    newg = lambda n: n.kind == "call" and last(n.d["q"]) == "insert" and any(x[0] == "new" for a in n.d["args"] for x in subterms(a))
    for_each(R, "collapse", "group", g, incomps, get, "a component is in no group")
    for_each(R, "collapse", "group:partition component", g, incomps, newg, "a group is not partitioned")
    gv = CFG(P, f, inline=NONE, assume=vis(True))
    never(R, "collapse", "group:once", gv, lambda n: get(n) or newg(n), "a component gets into two groups")
    clr = lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and has_var(n.d["obj"], group_vars(g, get)) or n.kind == "init" and n.d["var"][2:] in group_vars(g, get)
    for c in [n for n in g.nodes() if get(n)]:
        never(R, "collapse", "group:fresh", g, get, "a group starts with the members of the one before", frm=[c], avoid=clr)
    reset = lambda n: n.kind == "asg" and lastis(n.d["lhs"], "visited") and const(n.d["rhs"]) == 0
    for_each(R, "collapse", "unvisited", CFG(P, f, inline=NONE), incomps, reset, "a component is passed over")
    gm = CFG(P, f, inline=NONE, assume=vis(False))
    gvars = group_vars(gm, get)
    ingrp = lambda c: has_var(c, gvars)
    for_each(R, "collapse", "members", gm, ingrp, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace") and lastis(n.d["obj"], "group"), "a member of a group gets no rank")
    for_each(R, "collapse", "weight", gm, ingrp, lambda n: n.kind == "asg" and lastis(n.d["lhs"], "weight"), "a member's weight is not counted")
    for in0, in1 in itertools.product((True, False), repeat=2):
        def dec(at, ctx=None):
            for k, val in ((0, in0), (1, in1)):
                r = has_key(ingrp, val, key=lambda a: any(idxof(y, "component_") == k for y in subterms(expand(gm.T, a))))
                mention = [y for x in at[1:] if is_term(x) for y in subterms(x) if idxof(y, "component_") == k]
                if mention:
                    r = r(at)
                    if r is not None: return r
            return None
        ga = CFG(P, f, inline=NONE, assume=allof(vis(False), dec))
        out = lambda n: n.kind == "call" and last(n.d["q"]) == "push_back" and lastis(n.d["obj"], "links")
        ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace") and n.d["obj"][0] == "var" and any(lastis(strip(a), "id_") or "links" in show(a) for a in n.d["args"])
        R.cfg_used(ga)
        inner = in0 and in1
        R.ob("collapse", f"links:{int(in0)}{int(in1)}", (any(ins(n) for n in ga.nodes()) and not any(out(n) for n in ga.nodes())) if inner else (any(out(n) for n in ga.nodes()) and not any(ins(n) for n in ga.nodes())), "a link inside a group is partitioned, or one that leaves it is not", f.where())
    f = fn(R, G + "annotateRanks", 1)
    g = CFG(P, f, inline=lambda f2, e, c: last(f2.sq) == "getComponentMap")
    ev = lambda n: n.kind == "call" and last(n.d["q"]) == "setRank" and lastis(strip(n.d["args"][0]), "rank") and has_field(n.d["obj"], G + "comps_")
    for_each(R, "collapse", "ranks", g, lambda c: "group" in show(c), ev, "a member of a group does not get the rank of the group")
    for_each(R, "collapse", "ranks:groups", g, lambda c: has_field(c, "PartitionGraph::comps_") and "group" not in show(c), lambda n: n.kind in ("loop", "init", "br", "call") and "group" in str(n.d), "a group gets no ranks")


def group_vars(g, get): return {x[2:] for n in g.nodes() if get(n) for x in subterms(n.d["args"][1]) if x[0] == "var"}


def has_var(t, vs): return any(x[0] == "var" and x[2:] in vs for x in subterms(t))


def resolve(t, dec):
    """t with every decided ?: replaced"""
    if not isinstance(t, tuple) or not t: return t
    if t[0] in ("cond", "?:") and len(t) >= 4:
        r = truthval(t[1], dec)
        if r is not None: return resolve(t[2] if r else t[3], dec)
    return tuple(resolve(x, dec) if isinstance(x, tuple) else x for x in t)


def setrank(n):
    """(element term, value) if n gives an element its rank"""
    if n.kind == "asg" and lastis(n.d["lhs"], "rank") and not is_field(n.d["lhs"], "RankInfo::rank"): return n.d["lhs"], n.d["rhs"]
    if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and lastis(n.d["obj"], "rank"): return n.d["obj"], n.d["args"][0]
    if n.kind == "call" and last(n.d["q"]) == "setRank": return n.d["obj"], n.d["args"][0]
    return None


def bounded(R, clause, name, g, x, lim, msg):
    """the counter x stays below lim: assigned only by ++ followed, before it is used again, by a test against the limit that resets it; or modulo"""
    R.cfg_used(g)
    last_ = None
    for n in g.nodes():
        if n.kind != "asg" or not x(n.d["lhs"]): continue
        op, r = n.d["op"], n.d["rhs"]
        plus = op == "++" or op == "+=" and const(r) == 1 or op == "=" and any(x(t) for t in subterms(r)) and not any(t[0] == "bin" and t[1] == "%" for t in subterms(r))
        if not plus:
            ok = op == "=" and (const(r) == 0 or strip(r)[0] == "bin" and strip(r)[1] == "%" and lim(strip(r)[3])) or op == "%=" and lim(r)
            R.ob(clause, name, ok, msg, n.where()); continue

        def below(a, s, c, p):
            if c is None or not is_term(c): return False
            at, pol = norm_cond(c, p)
            return at[0] == "==" and not pol and any(x(t) for t in at[1:]) and any(lim(t) for t in at[1:]) or at[0] == "<" and pol and x(at[1]) and lim(at[2]) or at[0] == "==" and not pol and False
        reset = lambda m: m.kind == "asg" and x(m.d["lhs"]) and (m.d["op"] == "=" and (const(m.d["rhs"]) == 0 or strip(m.d["rhs"])[0] == "bin" and strip(m.d["rhs"])[1] == "%"))
        use = lambda m: setrank(m) is not None or m is n
        esc = g.search([s for s, c, p in n.succ], use, avoid=reset, edge=lambda a, s, c, p: not below(a, s, c, p))
        R.ob(clause, name, esc is None, msg, n.where())


def partitioners(R):
    """Each partitioner gives every component a rank in range."""
    P = R.prog
    Q = "IMPL::Partition::"
    f = fn(R, Q + "SimplePartitioner::convertPartNum", 1)
    for n in root_rets(CFG(P, f, inline=NONE)):
        v = strip(n.d["val"])
        a = v[2] if v[0] in ("ctor",) and isinstance(v[2], tuple) else v[3] if v[0] == "call" else ()
        a = [strip(x) for x in a if is_term(x)]
        ok = len(a) == 2 and any(a[0][:2] == ("bin", o0) and a[1][:2] == ("bin", o1) and all(param_idx(f, strip(x[2])) == 0 and lastis(x[3], d) for x in a) for o0, o1, d in (("/", "%", "thread"), ("%", "/", "rank")))
        R.ob("partitioners", "simple:numbering", ok, "a part number is mapped to a rank that does not exist, or twice", n.where())
    single = [f for f in fns(R, Q + "SSTSinglePartition::performPartition", 1) if "ConfigGraph" in str(f.params[0])]
    for f in R.need(single, "the single partitioner"):
        g = CFG(P, f, inline=NONE)
        zero = lambda n: n.kind == "call" and last(n.d["q"]) == "setRank" and "RankInfo(0, 0)" in show(expand(g.T, n.d["args"][0]))
        for_each(R, "partitioners", "single", g, lambda c: "getComponentMap" in show(c) or "comps_" in show(c) or True, zero, "a component, with its subcomponents, is not placed on rank 0")
    one = [f for f in fns(R, Q + "SSTRoundRobinPartition::performPartition", 1) if "PartitionGraph" in str(f.params[0])]
    lin = [f for f in fns(R, Q + "SSTLinearPartition::performPartition", 1) if "PartitionGraph" in str(f.params[0])]
    sim = [f for f in fns(R, Q + "SimplePartitioner::performPartition", 1) if "PartitionGraph" in str(f.params[0])]
    for f in R.need(one, "the round-robin partitioner"):
        g = CFG(P, f, inline=NONE)
        for_each(R, "partitioners", "round robin", g, lambda c: "comps_" in show(c) or "compMap" in show(c) or "getComponentMap" in show(c), lambda n: setrank(n) is not None, "a component gets no rank")
        cur = lambda fld: lambda t: lastis(t, fld) and strip(strip(t)[1])[0] == "var"
        lim = lambda fld: lambda t: lastis(t, fld) and has_field(t, "world_size")
        for fld in ("rank", "thread"): bounded(R, "partitioners", "round robin:" + fld, g, cur(fld), lim(fld), "a component gets a rank that does not exist")
    for f in R.need(lin, "the linear partitioner"):
        g = CFG(P, f, inline=NONE)
        for_each(R, "partitioners", "linear", g, lambda c: "comps_" in show(c) or "compMap" in show(c) or "getComponentMap" in show(c), lambda n: setrank(n) is not None, "a component gets no rank")
        cur = lambda fld: lambda t: lastis(t, fld) and strip(strip(t)[1])[0] == "var"
        bounded(R, "partitioners", "linear:thread", g, cur("thread"), lambda t: lastis(t, "thread") and has_field(t, "rankcount"), "a component gets a thread that does not exist")
        T = g.T
        tot = lambda t: any(x[0] == "bin" and x[1] == "*" and {last(y[2]) for y in (strip(x[2]), strip(x[3])) if y[0] == "mem"} == {"rank", "thread"} for x in subterms(expand(T, t)))
        cnt = lambda t: "getNumComponents" in show(expand(T, t)) or "size()" in show(expand(T, t))
        inits = [(n.d["var"], strip(n.d["rhs"])) for n in g.nodes() if n.kind == "init" and n.d.get("rhs") is not None]
        per = [v for v, r in inits if r[0] == "bin" and r[1] == "/" and cnt(r[2]) and tot(r[3])]
        rem = [v for v, r in inits if r[0] == "bin" and r[1] == "%" and cnt(r[2]) and tot(r[3])]
        R.ob("partitioners", "linear:share", bool(per) and bool(rem), "the components are not shared out evenly over all threads, so that some rank is beyond the last", f.where())
        if per and rem:
            per, rem = [v[2:] for v in per], [v[2:] for v in rem]
            isper = lambda t: strip(t)[0] == "var" and strip(t)[2:] in per or strip(expand(T, t))[:2] == ("bin", "/")
            isrem = lambda t: strip(t)[0] == "var" and strip(t)[2:] in rem
            adv = [n for n in g.nodes() if n.kind == "asg" and cur("thread")(n.d["lhs"]) and const(n.d["rhs"]) != 0]
            num = [t for n in g.nodes() for _, c, p in n.succ if c is not None and is_term(c) for at in [norm_cond(c, p)[0]] if at[0] == "<" and isper(at[2]) for t in [at[1]]]
            R.ob("partitioners", "linear:full", bool(num), "the next rank is taken before the current one has its share", f.where())
            enough = lambda at, pol, n: at[0] == "<" and not pol and isper(at[2])
            guarded(R, "partitioners", "linear:advance", g, lambda n: n in adv, enough, "the next rank is taken before the current one has its share")
            # the count restarts with each rank
            for a in adv:
                z = lambda m: m.kind == "asg" and m.d["lhs"] in num and const(m.d["rhs"]) == 0
                bad = g.search([s for s, c, p in a.succ], lambda m: m.kind == "asg" and m.d["lhs"] in num and not z(m), avoid=z)
                R.ob("partitioners", "linear:restart", bad is None, "a rank gets less than its share, so that some rank is beyond the last", a.where())
            # an additional component is taken only while there is a remainder, each of which is used up
            dec = [n for n in g.nodes() if n.kind == "asg" and isrem(n.d["lhs"]) and n.d["op"] in ("--", "-=")]
            R.ob("partitioners", "linear:remainder", bool(dec), "the remainder is never used up", f.where())
            guarded(R, "partitioners", "linear:remainder", g, lambda n: n in dec, lambda at, pol, n: pol and (at[0] in ("nz", "pos") and isrem(at[1]) or at[0] == "<" and const(at[1]) == 0 and isrem(at[2])), "more is taken than the remainder")
            z = lambda m: m.kind == "asg" and isrem(m.d["lhs"]) and const(m.d["rhs"]) == 0
            few = lambda at, ctx=None: True if at[0] == "==" and any(isper(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else False if at[0] in ("nz", "pos") and isper(at[1]) else None
            gf = CFG(P, f, inline=NONE, assume=few)
            never(R, "partitioners", "linear:few", gf, lambda n: n in [m for m in gf.nodes() if m.kind == "asg" and isrem(m.d["lhs"]) and m.d["op"] in ("--", "-=")], "with fewer components than ranks a component beyond the last is used", avoid=z)
    f = fn(R, Q + "SimplePartitioner::simple_partition_step")
    g = CFG(P, f, inline=NONE)
    for side, (si, li, ri) in {"A": (1, 2, 3), "B": (4, 5, 6)}.items():
        def gives(n):
            s = setrank(n)
            if s is None: return False
            v = expand(g.T, s[1])
            return any(x[0] == "idx" and param_idx(f, strip(x[1])) == si for x in subterms(s[0])) and [param_idx(f, x) for x in subterms(v) if x[0] == "param"] in ([ri], [ri, ri])
        for_each(R, "partitioners", "simple:set " + side, g, lambda c: any(param_idx(f, x) == li for x in subterms(c)), gives, "a component gets no rank, or that of the other half")
    rec = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "simple_partition_step"]
    for n in rec:
        lo, hi = (expand(g.T, n.d["args"][i]) for i in (3, 6))
        guarded(R, "partitioners", "simple:halving", g, lambda m, n=n: m is n, lambda at, pol, m, hi=hi: pol and at[0] == "<" and expand(g.T, at[1]) == hi and has_field(at[2], "total_parts"), "a half gets a part number that does not exist")
        p = [i for i in (3, 6) if param_idx(f, strip(lo)) == i]
        R.ob("partitioners", "simple:parts", bool(p) and any(param_idx(f, strip(x)) == p[0] for s, x in summands(strip(hi))), "the halves do not get part numbers derived from that of the whole", n.where())
    for f in R.need(sim, "the simple partitioner"):
        par = lambda v: lambda at, ctx=None: v if at[0] == "==" and any(has_field(x, "total_parts") for x in at[1:]) else None
        g1 = CFG(P, f, inline=NONE, assume=par(True))
        for_each(R, "partitioners", "simple:one part", g1, lambda c: "omponent" in show(c) or "comps_" in show(c), lambda n: setrank(n) is not None and "RankInfo(0, 0)" in show(expand(g1.T, setrank(n)[1])), "a component is not placed on the only part")
        g2 = CFG(P, f, inline=NONE, assume=par(False))
        put = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and not has_field(n.d["rhs"], "x") and "id" in show(expand(g2.T, n.d["rhs"])) and n.d["lhs"][1][0] in ("var", "call", "deref") and "timeTable" not in show(n.d["lhs"])
        puts = lambda n: put(n) or n.kind == "call" and last(n.d["q"]) == "push_back"
        for_each(R, "partitioners", "simple:split", g2, lambda c: "comps_" in show(c) or "component_map" in show(c), puts, "a component is in neither half")


def filter_(R):
    """Splitting a graph: each link goes to the parts of its ends, in two copies if they differ, with the other end's rank where it is remote."""
    P = R.prog
    lf = [f for f in fns(R, G + "GraphFilter::operator()", 1)]
    lk = R.need([f for f in lf if "ConfigLink" in str(f.params[0])], "the link filter")[0]
    cf = R.need([f for f in lf if "ConfigComponent" in str(f.params[0])], "the component filter")[0]
    cases = [(False, a, b) for a in "ONX" for b in "ONX"] + [(True, a, "-") for a in "ONX"]
    for nl, a, b in cases:
        g = CFG(P, lk, inline=lambda f2, e, c: last(f2.sq) not in ("findComponent", "setAsNonLocal", "insert", "count"))
        loc = (a, b)
        gr = CFG(P, lk, inline=helpers(lk, stop=("findComponent", "setAsNonLocal")), assume=truth(lambda t: lastis(t, "nonlocal_"), True)) if nl else None
        nope = lambda r: strip(r)[0] == "un" or const(r) == 2**32 - 1 or "UNASSIGNED" in show(r) or show(strip(r)) in ("RankInfo()", "RankInfo(-1, -1)")

        def invalid_when_remote(arg):
            bases = {x[2:] if x[0] == "var" else show(x) for x in subterms(strip(arg)) if x[0] in ("var", "idx", "mem")}
            key = lambda x: x[2:] if x[0] == "var" else show(x)
            rs = [n.d["rhs"] for n in gr.nodes() if n.kind == "asg" and key(n.d["lhs"]) in bases] + [n.d["args"][0] for n in gr.nodes() if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and key(n.d["obj"]) in bases]
            return all(nope(r) for r in rs)

        def leaf(t):
            t = strip(t)
            if lastis(t, "nonlocal_"): return nl
            for s, which in (("oset_", "O"), ("nset_", "N")):
                if t[0] == "call" and last(t[1]) in ("count", "contains") and t[2] is not None and has_field(t[2], "GraphFilter::" + s):
                    arg = t[3][0]
                    if const(strip(arg)) is not None or strip(arg)[0] == "un": return 0   # the invalid rank
                    e = ends(g, arg)
                    if len(e) != 1: return None
                    k = e.pop()
                    if nl and k == 1: return 0 if "component_" not in show(arg) and invalid_when_remote(arg) else None
                    return int(loc[k] == which)
            return None
        o = evaluate(R, g, table(valued(leaf), lambda at, ctx=None: None), rel=scalars(g))
        nm = f"link {'remote ' if nl else ''}{a}{b}"
        me = lambda t: param_idx(lk, strip(t)) == 0
        isnew = lambda t: strip(t)[0] == "new" or strip(t)[0] == "var" and any(n.kind == "init" and n.d["var"] == strip(t) and n.d.get("rhs") is not None and strip(n.d["rhs"])[0] == "new" for n in g.nodes())
        stays = "O" in loc
        moved = "N" in loc
        R.ob("split", nm + ":original", bool(o.rets) and all(me(v) if stays else show(v) == "nullptr" or const(v) == 0 for _, v in o.rets), "a link does not stay exactly where one of its components stays", lk.where())
        ins = {(n.nid, "me" if me(v(n.d["args"][0])) else "new" if isnew(v(n.d["args"][0])) else "?") for n, v in o.calls("insert") if n.d["obj"] is not None and has_field(n.d["obj"], "GraphFilter::ngraph_")}
        want = ["new"] if stays and moved else ["me"] if moved else []
        R.ob("split", nm + ":new", sorted(x for _, x in ins) == want, "a link does not go to the part of its component, once", lk.where())
        dels = [n for n, v in o.events if n.kind == "delete"]
        R.ob("split", nm + ":deleted", bool(dels) == (not stays and not moved), "a link that is needed is deleted", lk.where())
        sets = set()
        for n, v in o.calls("setAsNonLocal"):
            k = fold(v(n.d["args"][0]), leaf)
            x = resolve_idx(v(n.d["args"][1]), leaf)
            e = ends(g, x)
            sets.add(("me" if me(v(n.d["obj"])) else "new" if isnew(v(n.d["obj"])) else "?", k, e.pop() if len(e) == 1 else None))
        if nl or a == b: want = set()
        elif {a, b} == {"O", "N"}:
            o0, n0 = (0, 1) if a == "O" else (1, 0)
            want = {("me", o0, n0), ("new", n0, o0)}
        else:
            k = 0 if a != "X" else 1
            want = {("me", k, 1 - k)}
        R.ob("split", nm + ":remote", sets == want, "a cut link does not know its local end and the remote rank", lk.where())
    for a in "ONX":
        def leaf(t):
            t = strip(t)
            for s, which in (("oset_", "O"), ("nset_", "N")):
                if t[0] == "call" and last(t[1]) in ("count", "contains") and t[2] is not None and has_field(t[2], "GraphFilter::" + s): return int(a == which)
            return None
        def keys(at, ctx=None):
            for s, which in (("oset_", "O"), ("nset_", "N")):
                r = has_key(lambda t: has_field(t, "GraphFilter::" + s), a == which)(at)
                if r is not None: return r
            return None
        o = evaluate(R, CFG(P, cf, inline=NONE), table(valued(leaf), keys))
        me = lambda t: param_idx(cf, strip(t)) == 0
        R.ob("split", "component " + a + ":original", bool(o.rets) and all(me(v) if a == "O" else show(v) == "nullptr" or const(v) == 0 for _, v in o.rets), "a component does not stay exactly if its rank does", cf.where())
        ins = [n for n, v in o.calls("insert") if has_field(n.d["obj"], "GraphFilter::ngraph_") and me(v(n.d["args"][0]))]
        R.ob("split", "component " + a + ":new", bool(ins) == (a == "N"), "a component does not move exactly with its rank", cf.where())
        R.ob("split", "component " + a + ":deleted", any(n.kind == "delete" for n, _ in o.events) == (a == "X"), "a component that is needed is deleted", cf.where())
    g = CFG(P, cf, inline=NONE)
    for n in g.nodes():
        if n.kind == "call" and last(n.d["q"]) in ("count", "contains", "find"): R.ob("split", "component:by rank", show(strip(n.d["args"][0])).endswith("rank.rank"), "a component is split by something else than its rank", n.where())
    f = fn(R, G + "splitGraph", 2)
    g = CFG(P, f, inline=NONE)
    fl = lambda fld: lambda n: n.kind == "call" and last(n.d["q"]) == "filter" and is_field(n.d["obj"], G + fld)
    for fld in ("links_", "comps_"): once(R, "split", "filter " + fld, g, fl(fld), "the graph is not split", "the graph is split twice")
    never(R, "split", "filter:order", g, fl("comps_"), "the components are gone when the links are split", avoid=fl("links_"))
    for n in g.nodes():
        if n.kind in ("ctor",) and n.d["q"].endswith("GraphFilter"):
            a = [strip(x) for x in n.d["args"]]
            R.ob("split", "filter:sets", len(a) >= 4 and param_idx(f, a[2]) == 0 and param_idx(f, a[3]) == 1, "the sets of ranks are exchanged", n.where())
    given = lambda at, ctx=None: False if at[0] in ("nz", "pos") and callp("empty")(at[1]) else True if at[0] in ("nz", "pos") and strip(at[1])[0] == "var" and "ConfigGraph" in show(at[1]) + str(vtype(g, at[1])) else None
    gg = CFG(P, f, inline=NONE, assume=given)
    isgraph = lambda t: strip(t)[0] == "var"
    lvl = lambda n: n.kind == "call" and last(n.d["q"]) == "setStatisticLoadLevel" and n.d["obj"][0] == "var" or n.kind == "asg" and lastis(n.d["lhs"], "load_level")
    out = lambda n: n.kind == "call" and last(n.d["q"]) in ("operator=", "assign") and lastis(n.d["obj"], "outputs") or n.kind == "asg" and lastis(n.d["lhs"], "outputs")
    always(R, "split", "load level", gg, lvl, "the new part does not have the statistics load level")
    always(R, "split", "outputs", gg, out, "the new part does not have the statistics outputs")
    cpt = ("cpt_ranks", "cpt_currentSimCycle", "cpt_currentPriority", "cpt_minPart", "cpt_minPartTC", "cpt_max_event_id", "cpt_libnames", "cpt_shared_objects", "cpt_stats_config")
    for c in cpt:
        ev = lambda n: (n.kind == "asg" and lastis(n.d["lhs"], c) and lastis(n.d["rhs"], c)) or n.kind == "call" and last(n.d["q"]) == "operator=" and lastis(n.d["obj"], c) and lastis(strip(n.d["args"][0]), c)
        always(R, "split", "restart data " + c, gg, ev, "the new part lacks data of the checkpoint")
    # statistic groups
    cop = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "insert_or_assign") and lastis(n.d["obj"], "groups") or n.kind == "asg" and n.d["lhs"][0] == "idx" and lastis(n.d["lhs"][1], "groups")
    era = lambda n: n.kind == "call" and last(n.d["q"]) == "erase" and lastis(n.d["obj"], "groups")
    for zn, zo in ((False, False), (True, False), (False, True)):
        for specs in [[x] for x in itertools.product((False, True), repeat=2)] + list(itertools.product(list(itertools.product((False, True), repeat=2)), repeat=2)):
            ends_ = group_runs(g, f, specs, zn, zo, cop, era)
            if not ends_: continue
            nm = f"groups:{'/'.join(str(int(a)) + str(int(b)) for a, b in specs)} {int(zn)}{int(zo)}"
            if zn or any(a for a, _ in specs): R.ob("split", nm + ":copied", all(c for c, _ in ends_), "a statistics group of the new part is lost", f.where())
            if zo or any(b for _, b in specs): R.ob("split", nm + ":kept", not any(e for _, e in ends_), "a statistics group of the remaining part is removed", f.where())


def group_runs(g, f, specs, zn, zo, cop, era):
    """abstract runs over one statistics group whose components are in the new/old part as in specs: [(copied, removed)]"""
    heads = loop_heads(g)
    inner = [x for x in heads if any(c is not None and is_term(c) and any(y[0] == "mem" and last(y[2]) == "components" for y in subterms(expand(g.T, c))) for _, c, _ in x[0].succ)]
    inner = [x for x in inner if not any(c is not None and is_term(c) and has_call(c, "contains") for _, c, _ in x[0].succ)] if len(inner) > 1 else inner
    if len(inner) != 1: return None
    h, body, leave, LL = inner[0]
    outer = [x for x in heads if x[0] is not h and h.nid in x[3]]
    if not outer: return None
    oh, obody, oleave, OL = max(outer, key=lambda x: len(x[3]))
    out = set()
    st, seen = [(s, (), 0, False, False) for s in obody], set()
    while st:
        n, te, k, c, e = st.pop()
        if (n.nid, te, k, c, e) in seen: continue
        seen.add((n.nid, te, k, c, e))
        if n is oh:
            if k > 0: out.add((c, e))
            continue
        if n.nid not in OL or len(seen) > 20000: continue
        c, e = c or cop(n), e or era(n)
        env = dict(te)
        inn, ino = specs[k - 1] if k > 0 else (None, None)

        def dec(at, ctx=None):
            if at[0] == "==" and any(strip(x)[0] == "var" and "ConfigGraph" in str(vtype(g, strip(x))) for x in at[1:]): return False
            if at[0] not in ("nz", "pos"): return None
            t = strip(at[1])
            if t[0] == "call" and last(t[1]) in ("contains", "containsComponent"): return inn if any(x[0] in ("var", "new") for x in subterms(t[2])) else ino
            if (callp("count")(t) or callp("contains")(t)) and t[2] is not None and param_idx(f, strip(t[2])) in (0, 1): return (zo, zn)[param_idx(f, strip(t[2]))]
            if t[0] in ("var", "new") and "ConfigGraph" in str(vtype(g, t)) + show(t): return True
            return None
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            if v[0] == "var" and n.d.get("rhs") is not None:
                r = subst(n.d["rhs"], env)
                b = truthval(r, dec) if const(r) is None else bool(const(r))
                if n.d.get("op", "=") in ("|=", "&=") and b is not None and v in env: b = (b or const(env[v]) == 1) if n.d["op"] == "|=" else (b and const(env[v]) == 1)
                elif n.d.get("op", "=") != "=": b = None
                if b is None or "bool" not in str(vtype(g, v)): env.pop(v, None)
                else: env[v] = ("lit", str(int(b)))
        nt = tuple(sorted(env.items(), key=repr))
        if n is h:
            for s, cc, p in n.succ:
                if s in body:
                    if k < len(specs): st.append((s, nt, k + 1, c, e))
                elif k == len(specs): st.append((s, nt, k, c, e))
            continue
        for s in live(n, lambda t: subst(t, env), dec): st.append((s, nt, k, c, e))
    return out


def vtype(g, v):
    for n in g.nodes():
        if n.kind in ("init", "decl") and n.d["var"][2:] == v[2:]: return n.d.get("type")
    return ""


def exchange(R):
    """main(): partitioning precedes its use; with parallel loading every link to a rank exchanges its id by name, a mismatch ends the run; the ids are sorted again."""
    P = R.prog
    sp = R.need([f for f in P.find("start_partitioning", False)] or [f for f in P.find("SST::start_partitioning", False)], "start_partitioning")[0]
    mine = lambda t: lastis(t, "rank") and param_idx(sp, strip(strip(t)[1])) == 1
    zero = lambda at, ctx=None: False if at[0] in ("nz", "pos") and ("parallel_load" in show(at[1]) or callp("requiresConfigGraph")(at[1]) or mine(at[1])) else None
    g = CFG(P, sp, inline=NONE, assume=zero)
    seq = [lambda n: n.kind == "call" and last(n.d["q"]) == q for q in ()]
    steps = [(lambda n, q=q: n.kind == "call" and last(n.d["q"]) == q) for q in ("getCollapsedPartitionGraph", "performPartition", "annotateRanks", "checkRanks")]
    for s, nm in zip(steps, ("collapsed", "partitioned", "annotated", "checked")): always(R, "exchange", "partitioning:" + nm, g, s, "a step of partitioning is left out")
    for a, b, nm in zip(steps, steps[1:], ("partitioned", "annotated", "checked")): never(R, "exchange", "partitioning:order " + nm, g, b, "a step of partitioning comes too early", avoid=a)
    f = main_fn(R)
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    upd = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "updateLinkId"]
    R.ob("exchange", "ids", bool(upd), "link ids are not exchanged when loading in parallel", f.where())
    res = lambda n: n.kind == "call" and last(n.d["q"]) == "resortLinkMap"
    for n in upd:
        p = g.search([n], lambda m: m is g.exit or m.kind == "call" and last(m.d["q"]) in ("start_simulation",), avoid=lambda m: res(m) or is_fatal(m))
        R.ob("exchange", "resorted", p is None, "links are looked up by their new ids in the old order", n.where())
        eqname = lambda at, pol, m: (at[0] == "==" and pol or at[0] in ("nz", "pos") and at[1][0] == "call" and (last(at[1][1]) == "operator==" and pol or last(at[1][1]) in ("operator!=", "compare") and not pol)) and "name" in show(at[1]) + (show(at[2]) if len(at) > 2 else "") and not any(has_call(x, "size") or has_call(x, "length") for x in at[1:] if is_term(x))
        guarded(R, "exchange", "names", g, lambda m, n=n: m is n, eqname, "the id of a link of another name is taken over")
        nodes = {x[0]: x for x in [(m.nid, m) for m in g.nodes()]}
        hd = [(h, body, LL) for h, body, leave, LL in loop_heads(g) if n.nid in LL]
        if hd:
            h, body, LL = min(hd, key=lambda x: len(x[2]))
            it = [x for x in subterms(n.d["args"][0]) if x[0] == "var"]
            stepn = lambda m: m.kind in ("call", "asg") and (last(m.d.get("q", "")) in ("operator++", "operator+=", "next") and m.d.get("obj") in it or m.kind == "asg" and m.d["lhs"] in it)
            R.ob("exchange", "each", g.search(body, lambda m: m is h, avoid=lambda m: m is n or is_fatal(m), edge=lambda a, s, c, p: s.nid in LL) is None, "a received id is not used", n.where())
            R.ob("exchange", "next", g.search(body, lambda m: m is h, avoid=lambda m: stepn(m) or is_fatal(m), edge=lambda a, s, c, p: s.nid in LL) is None, "two received ids go to the same link", n.where())
    srt = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("sort", "stable_sort")]
    R.ob("exchange", "sorted", bool(srt), "the links to a rank are not in the same order on both ranks", f.where())


def distribute(R):
    """Distribution: the ranks not kept are sent, with their part of the graph, to the first of them, until one rank is left."""
    P = R.prog
    f = main_fn(R)
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    sp = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "splitGraph"]
    R.ob("distribute", "split", bool(sp), "the graph is not distributed", f.where())
    for n in sp:
        mine, yours = (strip(a) for a in n.d["args"])
        R.ob("distribute", "two sets", mine != yours and mine[0] == "var" and yours[0] == "var", "a part is kept and sent", n.where())
        snd = [m for m in g.nodes() if m.kind == "call" and last(m.d["q"]) == "send"]
        for what, pred in (("ranks", lambda m: strip(m.d["args"][2]) == yours), ("graph", lambda m: has_call(expand(g.T, m.d["args"][2]), "splitGraph"))):
            others = [m for m in sp]
            p = g.search([s for s, c, pl in n.succ], lambda m: m in others or m is g.exit or m.kind == "call" and last(m.d["q"]) == "clear" and strip(m.d["obj"]) == yours, avoid=lambda m: m.kind == "call" and last(m.d["q"]) == "send" and pred(m) or is_fatal(m) or m.kind in ("throw",))
            R.ob("distribute", "sent " + what, p is None, "a part of the graph is not sent", n.where())
        for m in snd:
            if pred_any(m, yours, g): R.ob("distribute", "to", any(callp("begin")(x) and strip(x[2]) == yours for d in (0, 1) for x in subterms(expand(g.T, m.d["args"][0], depth=d) if d else m.d["args"][0])), "a part is sent to a rank that is not in it", m.where())
    # the loop ends only with one rank left
    ends_ = [(h, body, LL) for h, body, leave, LL in loop_heads(g) if any(n.nid in LL for n in sp)]
    R.ob("distribute", "until one", any(any(at[0] == "==" and any(callp("size")(strip(x)) for x in at[1:]) and any(const(x) == 1 for x in at[1:]) or at[0] == "<" and const(at[1]) == 1 for _, c, p in h.succ if c is not None and is_term(c) for at in [norm_cond(c, p)[0]]) for h, body, LL in ends_), "a rank keeps parts of others", f.where())


def pred_any(m, yours, g): return strip(m.d["args"][2]) == yours or has_call(expand(g.T, m.d["args"][2]), "splitGraph")


def resolve_idx(t, leaf):
    if not isinstance(t, tuple) or not t: return t
    if t[0] == "idx":
        k = fold(t[2], leaf)
        return ("idx", resolve_idx(t[1], leaf), ("lit", str(k)) if k is not None else t[2])
    return tuple(resolve_idx(x, leaf) if isinstance(x, tuple) else x for x in t)


def order(R):
    """Ranks compare by rank, then thread; a rank is in range if rank and thread are (all pairs of ranks and threads 0, 1, 2)."""
    P = R.prog
    want = {"operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b, "operator<": lambda a, b: a < b, "operator<=": lambda a, b: a <= b, "operator>": lambda a, b: a > b,
            "operator>=": lambda a, b: a >= b, "inRange": lambda a, b: a[0] > b[0] and a[1] > b[1]}
    R.need(P.find("SST::RankInfo::operator<", False), "RankInfo::operator<")
    for op, w in want.items():
        for f in P.find("SST::RankInfo::" + op, False):
            g = CFG(P, f, inline=NONE)
            R.cfg_used(g)
            for a, b in itertools.product(itertools.product(range(3), repeat=2), repeat=2):
                def leaf(t):
                    if t[0] == "un" and t[1] == "!": return None
                    t = strip(t)
                    if t[0] == "mem" and last(t[2]) in ("rank", "thread"):
                        x = a if strip(t[1])[0] == "this" else b if param_idx(f, strip(t[1])) == 0 else None
                        return None if x is None else x[0 if last(t[2]) == "rank" else 1]
                    if t[0] == "bin" and "operator" + t[1] in want:
                        o = lambda x: a if strip(x)[0] == "this" else b if param_idx(f, strip(x)) == 0 else None
                        if o(t[2]) is not None and o(t[3]) is not None: return int(want["operator" + t[1]](o(t[2]), o(t[3])))
                    if t[0] == "call" and last(t[1]) in want and t[2] is not None and len(t[3]) == 1:
                        o = lambda x: a if strip(x)[0] == "this" else b if param_idx(f, strip(x)) == 0 else None
                        if o(t[2]) is not None and o(t[3][0]) is not None: return int(want[last(t[1])](o(t[2]), o(t[3][0])))
                    return None
                for r in runs(g, [g.entry], lambda n: False, valued(leaf)):
                    v = None if r.ret() is None else fold(r.ret(), leaf)
                    if v is None: continue  # compared by other means than rank and thread
                    R.ob("order", op, bool(v) == w(a, b), f"{op} of {a} and {b} is {v}", f.where())


def counted(R):
    """Asking which ranks have components, how many, and giving all components one rank go over every component."""
    P = R.prog
    f = fn(R, G + "setComponentRanks")
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    comps = lambda c: has_field(c, G + "comps_")
    for_each(R, "counted", "setComponentRanks", g, comps, lambda n: n.kind == "call" and last(n.d["q"]) == "setRank" and param_idx(f, strip(n.d["args"][0])) == 0, "a component keeps another rank")
    for q, hit in (("containsComponentInRank", lambda n: n.kind == "ret" and const(n.d["val"]) == 1), ("getNumComponentsInMPIRank", lambda n: n.kind == "asg" and n.d["op"] in ("++", "+=") or n.kind == "call" and last(n.d["q"]) == "operator++")):
        for f in R.need(P.find("SST::" + G + q, False), G + q):
            if "any_of" in repr(f.body if hasattr(f, "body") else "") or "count_if" in repr(f.body if hasattr(f, "body") else ""): continue
            for same in (True, False):
                isp = lambda t: param_idx(f, strip(t)) == 0 or strip(t)[0] == "mem" and param_idx(f, strip(strip(t)[1])) == 0
                isr = lambda t: lastis(t, "rank")
                def dec(at, ctx=None):
                    if at[0] == "==" and any(isp(x) for x in at[1:]) and any(isr(x) for x in at[1:]): return same
                    if at[0] in ("nz", "pos") and strip(at[1])[0] == "call" and last(strip(at[1])[1]) in ("operator==", "operator!="):
                        c = strip(at[1])
                        xs = [x for x in (c[2],) + tuple(c[3]) if x is not None and is_term(x)]
                        if any(isp(x) for x in xs) and any(isr(x) for x in xs): return same == (last(c[1]) == "operator==")
                    return None
                g = CFG(P, f, inline=NONE, assume=dec)
                R.cfg_used(g)
                hs = [h for h in loop_heads(g)]
                if not hs: continue
                inc = [n for n in g.nodes() if hit(n) and any(n.nid in h[3] or n.kind == "ret" for h in hs) and not (n.kind == "asg" and "iter" in show(n.d["lhs"]).lower() + (n.d.get("type") or ""))]
                live_ = g.search([g.entry], lambda n: n in inc)
                cnt = [n for n in inc if n.kind == "ret" or any((n.d["lhs"] if n.kind == "asg" else n.d["obj"]) in subterms(r.d["val"]) for r in root_rets(g))] if q.startswith("get") else inc
                if same and not q.startswith("get"): R.ob("counted", q + ":found", bool(cnt), "a rank that has components seems empty", f.where())
                elif same: R.ob("counted", q + ":counted", bool(cnt), "a component is not counted", f.where())
                else: R.ob("counted", q + ":other", not cnt, "a component of another rank is taken for one of this rank", f.where())


def plain(R):
    """The partition graph has every component and every link, each link at both its components, with the values of the configuration."""
    P = R.prog
    f = fn(R, G + "getPartitionGraph")
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    links, comps = lambda c: has_field(c, G + "links_"), lambda c: has_field(c, G + "comps_") and not has_field(c, G + "links_")
    for_each(R, "plain", "components", g, comps, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace"), "a component is missing in the partition graph")
    for_each(R, "plain", "links", g, links, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace"), "a link is missing in the partition graph")
    add = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and n.d["obj"] is not None
    heads = [h for h in loop_heads(g) if any(c is not None and is_term(c) and links(expand(g.T, c)) for _, c, _ in h[0].succ)]
    for h in heads:
        for r in runs(g, h[1], lambda n: n is h[0], valued(lambda t: None)):
            ks = []
            for n, v in r.events:
                if add(n):
                    t = v(n.d["obj"])
                    k = {fold(x[2], lambda t: None) for d in (0, 2, 4) for x in subterms(expand(g.T, t, depth=d) if d else t) if x[0] == "idx" and lastis(x[1], "component_")}
                    ks += list(k) if len(k) == 1 else ["?"]
            if any(add(n) for n in g.nodes()) : R.ob("plain", "both ends", sorted(map(str, ks)) == ["0", "1"] or "?" in ks and len(ks) == 2, f"a link is entered at its ends {ks}", h[0].where())
    for f in P.find("SST::PartitionLink::PartitionLink", False):
        if len(f.params) != 1 or "ConfigLink" not in f.params[0][2]: continue
        g = CFG(P, f, inline=NONE)
        R.cfg_used(g)
        o = runs(g, [g.entry], lambda n: False)
        for r in o:
            vals = {}
            for n, v in r.events:
                if n.kind not in ("asg", "init") or n.d.get("rhs") is None: continue
                l, x = strip(n.d.get("lhs") or n.d.get("var")), strip(v(n.d["rhs"]))
                key = lambda t: (last(t[2]), None) if t[0] == "mem" else (last(t[1][2]), fold(t[2], lambda y: None)) if t[0] == "idx" and t[1][0] == "mem" else None
                if key(l): vals[key(l)] = key(x)
            for k, x in vals.items(): R.ob("plain", f"link:{k[0]}[{k[1]}]", k == x or x is None, f"{k} of a link is taken from {x}", f.where())


CLAUSES = [build, latency, check, used, collapse, partitioners, filter_, exchange, distribute, order, counted, plain]
