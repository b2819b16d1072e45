"""P21: parameters."""
from sa.q import *
from sa.model import VERIF
from rules.p17 import fns, fn, ALL, once
from rules.p19 import NONE, strip, callp
import itertools

PROP = dict(
    title="A parameter lookup yields the configured value of that key, converted",
    statement="Looking up a parameter yields the value given for exactly that key: the object's own value if there is one, else that of the first subscribed shared set that has it, converted to the requested type; a key given nowhere "
              "yields the default and is reported as not found; a value that cannot be converted raises an error. Each key name has one number and back. Insertion without overwriting keeps the existing value. Copies, scoped "
              "subsets, unions, distribution to ranks and checkpoints give the same answers; lists, sets and maps yield each element once, in order, with delimiters inside quotes left alone.",
    over=["configurations", "inputs"], text="all keys, values, quotings, element types, combinations of own and shared values, scopes, copies and serialised forms",
    why="A lookup that prefers the shared value, a key cut wrongly at the scope, or a list split inside quotes silently gives a model another configuration than the user wrote; the tests look up a few keys with plain values.",
    files=["src/sst/core/params.cc", "src/sst/core/params.h", "src/sst/core/from_string.h", "src/sst/core/factory.cc", "src/sst/core/factory.h", "src/sst/core/main.cc"],
    mech=[("Params", "src/sst/core/params.cc"), ("Params::find_impl, find_array, find_set, find_map", "src/sst/core/params.h"), ("from_string", "src/sst/core/from_string.h"), ("Factory::CreateWithParams", "src/sst/core/factory.h")],
    technique="abstract evaluation of lookups and of the tokenizer's transition function over character classes (case tables), path obligations over control-flow graphs of every template instance")

TUS = ["params.cc", "factory.cc", "baseComponent.cc", "main.cc", "model/configGraph.cc", "model/sstmodel.cc"]
LOAD = dict(extra=[VERIF + "/tool/witness/params.cc"])
PA = "Params::"
OWN = ("my_data",)


def P(f, i): return lambda t: param_idx(f, strip(t)) == i


def eachof(field): return lambda t: strip(t)[0] == "elem" and has_field(t, PA + field)


def mapterm(t):
    """the term is one of the maps of the precedence list"""
    t = strip(t)
    while t[0] == "un" and t[1] in ("*",) or t[0] == "deref": t = t[-1]
    return t[0] in ("elem", "idx") and has_field(t, PA + "data")


def lookup_loop(R, f, g):
    hs = [h for h in loop_heads(g) if any(c is not None and is_term(c) and has_field(c, PA + "data") for _, c, _ in h[0].succ)]
    if not hs: raise AnalysisError(f"{f.q}: no loop over the parameter maps")
    return min(hs, key=lambda h: len(h[3]))


def lookup(R):
    """getString/contains/count: the first map in the list of precedence that has the key decides; the key is the one asked for."""
    for name in ("getString", "contains", "count"):
        f = fn(R, PA + name)
        g = CFG(R.prog, f, inline=lambda h, e, c: False)
        R.cfg_used(g)
        h, body, leave, L = lookup_loop(R, f, g)
        rng = [c for _, c, _ in h.succ if c is not None]
        R.ob("lookup", name + ":forwards", not any(has_call(c, "rbegin") or has_call(c, "crbegin") for c in rng) and (rng[0][0] == "more" or True), "the shared sets are asked before the own values", h.where())
        for hit in (True, False):
            dec = has_key(mapterm, hit)
            val = valued(lambda t: (1 if hit else 0) if callp("count")(strip(t)) and t[2] is not None and mapterm(t[2]) else None)
            rs = runs(g, body, lambda n: n is h, table(dec, val))
            R.ob("lookup", f"{name}:{'hit' if hit else 'miss'}", bool(rs) and all((r.node is h) != hit for r in rs), "a value is passed over" if hit else "the lookup ends at a set that does not have the key", h.where())
            if hit:
                for r in rs:
                    v = r.ret()
                    if name == "getString":
                        R.ob("lookup", name + ":value", v is not None and v[0] == "mem" and last(v[2]) == "second" and any(mapterm(x) for x in subterms(v)), "the value returned is not the one found", h.where())
                        R.ob("lookup", name + ":found", [const(n.d["rhs"]) for n, _ in r.events if n.kind == "asg" and P(f, 1)(n.d["lhs"])][-1:] == [1], "a parameter that is found is reported as missing", h.where())
                    else: R.ob("lookup", name + ":value", v is not None and (const(v) not in (None, 0) or fold(v, lambda t: 1 if callp("count")(strip(t)) else None) == 1), "a parameter that is found is reported as missing", h.where())
        for n in g.nodes():
            if n.kind == "call" and last(n.d["q"]) in ("find", "count", "at", "contains") and n.d["obj"] is not None and mapterm(n.d["obj"]):
                k = strip(expand(g.T, n.d["args"][0]))
                R.ob("lookup", name + ":key", callp("getKey")(k) and P(f, 0)(k[3][0]), "another key is looked up", n.where())
        for r in runs(g, [g.entry], lambda n: False, table(has_key(mapterm, False), valued(lambda t: 0 if callp("count")(strip(t)) and t[2] is not None and mapterm(t[2]) else None))):
            v = r.ret()
            flag = [const(n.d["rhs"]) for n, _ in r.events if n.kind == "asg" and P(f, 1)(n.d["lhs"])] if name == "getString" else []
            if name == "getString": R.ob("lookup", name + ":missing", flag[-1:] == [0] and v is not None and not any(mapterm(x) for x in subterms(v)), "a missing parameter is reported as found", f.where())
            else: R.ob("lookup", name + ":missing", v is not None and const(v) == 0, "a missing parameter is reported as found", f.where())
    # names and numbers of keys
    f = fn(R, PA + "getKey")
    g = CFG(R.prog, f, inline=NONE)
    km = lambda t: has_field(t, PA + "keyMap") and not has_field(t, PA + "keyMapReverse")
    o = evaluate(R, g, has_key(km, True))
    R.ob("keys", "known", bool(o.rets) and all(strip(v)[0] == "mem" and last(strip(v)[2]) == "second" or strip(v)[0] == "idx" and km(v) for _, v in o.rets), "a known key gets another number", f.where())
    R.ob("keys", "known:unchanged", not any(n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") or n.kind == "asg" and has_field(n.d["lhs"], PA + "nextKeyID") for n, _ in o.events), "a known key is entered again", f.where())
    gg = CFG(R.prog, f, inline=NONE, assume=lambda at, ctx=None: has_key(km, False)(at))
    nxt = lambda n: n.kind == "asg" and is_field(n.d["lhs"], PA + "nextKeyID")
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and has_field(n.d["obj"], PA + "keyMapReverse")
    ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace", "insert_or_assign") and km(n.d["obj"]) or n.kind == "asg" and n.d["lhs"][0] == "idx" and km(n.d["lhs"][1])
    for ev, nm, msg in ((nxt, "number", "two keys get the same number"), (push, "name", "a key's number does not lead back to its name"), (ins, "entry", "a key gets a new number each time")): once(R, "keys", "new:" + nm, gg, ev, msg, msg)
    for n in gg.nodes():
        if n.kind == "call" and push(n): R.ob("keys", "new:name is the key's", P(f, 0)(n.d["args"][0]), "a key's number does not lead back to its name", n.where())
        if nxt(n): R.ob("keys", "new:next", n.d["op"] in ("++",) or n.d["op"] == "+=" and const(n.d["rhs"]) == 1 or n.d["op"] == "=" and sorted(str(const(x)) for _, x in summands(n.d["rhs"])) in (["1", "None"],), "numbers and names get out of step", n.where())
    rs = [r for r in runs(gg, [gg.entry], lambda n: False, lambda at, ctx=None: has_key(km, False)(at)) if r.ret() is not None]
    for r in rs:
        v = r.ret()
        s = [show(strip(x)) for n, val in r.events if ins(n) for x in ([a for a in (val(n.d["args"][0]),)] if n.kind == "call" else [val(n.d["rhs"])])]
        R.ob("keys", "new:returned", bool(s) and all(show(strip(v)) in x for x in s), "a new key is entered with another number than the one returned", f.where())
        R.ob("keys", "new:counter's", has_field(v, PA + "nextKeyID"), "a new key's number is not new", f.where())
    f = fn(R, PA + "getParamName")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    R.ob("keys", "name", all(strip(n.d["val"])[0] == "idx" and has_field(strip(n.d["val"])[1], PA + "keyMapReverse") and P(f, 0)(strip(n.d["val"])[2]) for n in root_rets(g)), "a key's number leads to another name", f.where())


def copies(R):
    """copies, assignment, clear, insert, shared sets: the own map stays first and own, nothing is lost, precedence is kept."""
    flds = ("my_data", "data", "allowedKeys", "verify_enabled")
    cc = R.need([f for f in R.prog.find("SST::Params::Params", False) if len(f.params) == 1], "Params copy constructor")[0]
    ap = R.need([f for f in R.prog.find("SST::Params::operator=", False) if f.body], "Params::operator=")[0]
    own = lambda n: n.kind == "asg" and n.d["lhs"][0] == "idx" and is_field(n.d["lhs"][1], PA + "data") and const(n.d["lhs"][2]) == 0 and "my_data" in show(n.d["rhs"]) and not any(x[0] == "param" for x in subterms(n.d["rhs"]))
    for f, nm in ((cc, "copy"), (ap, "assignment")):
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        for fld in flds:
            src = lambda t: strip(t)[0] == "mem" and last(strip(t)[2]) == fld and any(x[0] == "param" for x in subterms(t))
            ev = lambda n: (n.kind in ("asg", "init") and is_field(n.d.get("lhs") or n.d["var"], PA + fld) and n.d.get("rhs") is not None and src(n.d["rhs"])) or (n.kind == "call" and last(n.d["q"]) in ("operator=", "assign") and is_field(n.d["obj"], PA + fld) and src(n.d["args"][0]))
            always(R, "copies", f"{nm}:{fld}", g, ev, "a copy lacks part of the parameters")
            if fld == "data": always(R, "copies", nm + ":own map", g, own, "a copy shares its own values with the original", frm=[n for n in g.nodes() if ev(n)] or None)
    f = fn(R, PA + "clear", 0)
    g = CFG(R.prog, f, inline=NONE)
    for fld in ("my_data", "data"): always(R, "copies", "clear:" + fld, g, lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and is_field(n.d["obj"], PA + fld) or n.kind == "call" and last(n.d["q"]) == "resize" and is_field(n.d["obj"], PA + fld), "cleared parameters keep values")
    for f, nm in ((f, "clear"), (R.need([x for x in R.prog.find("SST::Params::Params", False) if not x.params], "Params()")[0], "new")):
        g = CFG(R.prog, f, inline=NONE)
        put = lambda n: (n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back", "insert") and is_field(n.d["obj"], PA + "data") and "my_data" in show(n.d["args"][-1])) or own(n)
        always(R, "copies", nm + ":own map", g, put, "the own values are not looked up")
        if nm == "clear": never(R, "copies", nm + ":own map stays", g, lambda n: n.kind == "call" and last(n.d["q"]) == "clear" and is_field(n.d["obj"], PA + "data"), "the own values are not looked up", frm=[n for n in g.nodes() if put(n)] or None)
    # insertion
    for q, cont, base in ((PA + "insert", lambda t: is_field(strip(t), PA + "my_data"), 0), (PA + "insert_shared", lambda t: strip(t)[0] in ("idx",) and has_field(strip(t)[1], PA + "shared_params") and strip(strip(t)[2])[0] == "param", 1)):
        f = R.need([x for x in R.prog.find("SST::" + q, False) if len(x.params) == 3 + base], q)[0]
        g = CFG(R.prog, f, inline=NONE)
        for ow in (True, False):
            o = evaluate(R, g, lambda at, ctx=None: ow if at[0] == "nz" and param_idx(f, strip(at[1])) == 2 + base else None)
            iskey = lambda t: callp("getKey")(strip(t)) and P(f, base)(strip(t)[3][0])
            setv = [(n, v) for n, v in o.calls("operator=") if strip(v(n.d["obj"]))[0] == "idx" and cont(strip(v(n.d["obj"]))[1]) and const(strip(v(n.d["obj"]))[2]) is None]
            ioa = [(n, v) for n, v in o.calls("insert_or_assign") if cont(v(n.d["obj"]))]
            keep = [(n, v) for nm in ("insert", "emplace", "try_emplace") for n, v in o.calls(nm) if cont(v(n.d["obj"]))]
            nm = f"{last(q)}:{'overwrite' if ow else 'keep'}"
            if ow:
                good = bool(setv or ioa) and all(iskey(strip(v(n.d["obj"]))[2]) and P(f, base + 1)(v(n.d["args"][0])) for n, v in setv) and all(iskey(v(n.d["args"][0])) and P(f, base + 1)(v(n.d["args"][1])) for n, v in ioa)
                R.ob("insert", nm, good, "an inserted value does not replace the existing one", f.where())
            else:
                R.ob("insert", nm, bool(keep) and not ioa and not setv, "an existing value is replaced, or a new one not inserted", f.where())
                for n, v in keep:
                    t = v(n.d["args"][0])
                    a = [strip(x) for x in (n.d["args"] if len(n.d["args"]) == 2 else strip(t)[3] if strip(t)[0] == "call" else n.d["args"])]
                    R.ob("insert", nm + ":pair", len(a) == 2 and iskey(v(a[0])) and P(f, base + 1)(v(a[1])), "another key or value is inserted", n.where())
    f = R.need([x for x in R.prog.find("SST::" + PA + "insert", False) if len(x.params) == 1], "Params::insert(Params)")[0]
    g = CFG(R.prog, f, inline=NONE)
    theirs = lambda t, fld: any(x[0] == "mem" and last(x[2]) == fld and x[1][0] == "param" for x in subterms(t))
    always(R, "insert", "union:own", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "merge") and is_field(n.d["obj"], PA + "my_data") and theirs(n.d["args"][0], "my_data"), "the union of two parameter sets lacks the other's values")
    never(R, "insert", "union:keeps", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("operator=", "insert_or_assign", "clear", "swap") and has_field(n.d["obj"] if n.d["obj"] is not None else ("lit", "0"), PA + "my_data") and not theirs(n.d["obj"], "my_data"), "the union of two parameter sets replaces existing values")
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and is_field(n.d["obj"], PA + "data")
    hs = [h for h in loop_heads(g) if any(c is not None and is_term(c) and theirs(c, "data") for _, c, _ in h[0].succ)]
    R.ob("insert", "union:shared", bool(hs), "the union of two parameter sets lacks the other's shared sets", f.where())
    for h, body, leave, L in hs:
        for m in g.nodes():
            if m.nid in L and m.kind == "br" and not any(x[0] is not h and m.nid in x[3] and len(x[3]) < len(L) for x in loop_heads(g)):
                for s, c, p in m.succ:
                    if s.nid not in L: R.ob("insert", "union:to the end", c is not None and is_term(c) and theirs(c, "data") and not any(is_field(x, PA + "data") and not theirs(x, "data") for x in subterms(c)), "the union of two parameter sets lacks the other's shared sets", m.where())
        cnt = {x for _, c, _ in h.succ if c is not None and is_term(c) for x in subterms(c) if x[0] == "var"}
        for m in g.nodes():
            if m.kind == "init" and m.d["var"] in cnt and const(m.d.get("rhs") or ("none",)) is not None: R.ob("insert", "union:from the first", const(m.d["rhs"]) == 1, "the union of two parameter sets takes in the other's own values, or leaves out a shared set", m.where())
        inner = [x for x in loop_heads(g) if x[0] is not h and x[0].nid in L and len(x[3]) < len(L) and any(c is not None and is_term(c) and has_field(c, PA + "data") and not theirs(c, "data") for _, c, _ in x[0].succ)]
        for there in (True, False):
            same = lambda at, ctx=None: there if at[0] == "==" and any(theirs(x, "data") for x in at[1:]) and any(has_field(x, PA + "data") and not theirs(x, "data") for x in at[1:]) else there if False else None
            def dec(at, ctx=None):
                r = same(at)
                if r is not None: return r
                return None
            rs = runs(g, body, lambda n: n is h, dec)
            if there: rs = [r for r in rs if any(n.kind == "br" and any(c is not None and is_term(c) and c[0] not in ("more",) and same(norm_cond(c, True)[0]) is not None for _, c, _ in n.succ) for n, _ in r.events)]
            pushed = [any(push(n) for n, _ in r.events) for r in rs]
            R.ob("insert", f"union:shared {'twice' if there else 'new'}", bool(rs) and (not any(pushed) if there else all(pushed)), "a shared set is listed twice" if there else "the union of two parameter sets lacks the other's shared sets", h.where())
    f = fn(R, PA + "addSharedParamSet")
    g = CFG(R.prog, f, inline=NONE)
    once(R, "insert", "subscribe", g, lambda n: push(n) and has_field(n.d["args"][0], PA + "shared_params") and any(x[0] == "param" for x in subterms(n.d["args"][0])), "a subscribed shared set is not looked up", "a shared set is listed twice")
    never(R, "insert", "subscribe:precedence", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "push_front") and is_field(n.d["obj"], PA + "data"), "a shared set takes precedence over what was there before")


def scoped(R):
    """get_scoped_params: each key that starts with 'scope.' keeps its value, less the prefix; precedence and documentation checks kept."""
    f = fn(R, PA + "get_scoped_params")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    T = g.T
    isprefix = lambda t: strip(t)[0] == "bin" and strip(t)[1] == "+" and P(f, 0)(strip(t)[2]) and show(strip(strip(t)[3])).strip("\"'") in (".", "46")
    plen = lambda t: strip(t)[0] == "call" and last(strip(t)[1]) in ("length", "size") and isprefix(expand(T, strip(t)[2])) or (strip(t)[0] == "bin" and strip(t)[1] == "+" and sorted(str(const(x)) for _, x in summands(t)) == ["1", "None"] and P(f, 0)([x for _, x in summands(t) if const(x) is None][0][2]))
    name = lambda t: strip(t)[0] in ("idx", "call") and (has_field(t, PA + "keyMapReverse") or callp("getParamName")(strip(t)))
    ins = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "insert" and n.d["obj"] is not None and n.d["obj"][0] == "var"]
    R.ob("scope", "insert", bool(ins), "scoped parameters are empty", f.where())
    for n in ins:
        a = [expand(T, x) for x in n.d["args"]]
        k = strip(a[0])
        R.ob("scope", "key", k[0] == "call" and last(k[1]) == "substr" and name(k[2]) and plen(k[3][0]) and (len(k[3]) < 2 or "npos" in show(k[3][1]) or const(k[3][1]) in (-1, 2**64 - 1)), "a scoped key is not the key without its scope", n.where())
        R.ob("scope", "value", strip(a[1])[0] == "mem" and last(strip(a[1])[2]) == "second", "a scoped key gets another value", n.where())
        R.ob("scope", "precedence", len(a) > 2 and const(a[2]) == 0, "in a scoped set, a shared value replaces the own one", n.where())

        def match(yes):
            def dec(at, ctx=None):
                xs = [strip(expand(T, x)) for x in at[1:] if is_term(x)]
                if at[0] == "==":
                    if any(isprefix(x) for x in xs): return yes
                    if any(x[0] == "call" and last(x[1]) in ("compare", "find", "rfind") for x in xs) and any(const(x) == 0 for x in xs): return yes
                if at[0] in ("nz", "pos") and xs and xs[0][0] == "call" and last(xs[0][1]) in ("compare",): return not yes
                if at[0] in ("nz", "pos") and xs and xs[0][0] == "call" and last(xs[0][1]) in ("starts_with", "operator=="): return yes
                return None
            return dec
        hs = [h for h in loop_heads(g) if n.nid in h[3]]
        R.ob("scope", "loops", len({id(h[3]) for h in hs}) >= 1, "scoped parameters are taken from one value only", n.where())
        if not hs: continue
        h = min(hs, key=lambda x: len(x[3]))
        for yes in (True, False):
            rs = runs(g, h[1], lambda m: m is h[0], match(yes))
            got = [any(m is n for m, _ in r.events) for r in rs]
            R.ob("scope", "matching" if yes else "other", bool(rs) and (all(got) if yes else not any(got)), "a key of the scope is left out" if yes else "a key of another scope is taken in", n.where())
    subs = [x for m in g.nodes() for x in ([m.d["rhs"]] if m.kind == "init" and m.d.get("rhs") is not None else []) for x in subterms(x) if x[0] == "call" and last(x[1]) == "substr" and name(x[2])]
    for x in subs:
        if len(x[3]) > 1 and const(x[3][0]) == 0: R.ob("scope", "compared length", plen(expand(T, x[3][1])), "the scope is compared over another length", f.where())
    maps = [h for h in loop_heads(g) if any(c is not None and is_term(c) and has_field(c, PA + "data") for _, c, _ in h[0].succ)]
    R.ob("scope", "all maps", bool(maps), "scoped parameters are taken from one map only", f.where())
    always(R, "scope", "documented keys", g, lambda n: n.kind == "call" and last(n.d["q"]) == "operator=" and lastfield(n.d["obj"], "allowedKeys") or n.kind == "asg" and lastfield(n.d["lhs"], "allowedKeys"), "a scoped set warns about documented keys")
    f = fn(R, PA + "getKeys")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    ins = lambda n: n.kind == "call" and last(n.d["q"]) in ("insert", "emplace")
    zero = lambda v: (lambda at, ctx=None: v if at[0] == "==" and any(const(x) == 0 for x in at[1:]) and any(strip(x)[0] == "mem" and last(strip(x)[2]) == "first" for x in at[1:]) else v if False else (not v) if at[0] in ("nz", "pos") and strip(at[1])[0] == "mem" and last(strip(at[1])[2]) == "first" else None)
    hs = [h for h in loop_heads(g) if any(ins(n) and n.nid in h[3] for n in g.nodes())]
    R.ob("scope", "keys", bool(hs), "the keys are not listed", f.where())
    if hs:
        h = min(hs, key=lambda x: len(x[3]))
        for meta in (True, False):
            rs = runs(g, h[1], lambda m: m is h[0], zero(meta))
            got = [any(ins(m) for m, _ in r.events) for r in rs]
            R.ob("scope", "keys:" + ("metadata" if meta else "listed"), bool(rs) and (not any(got) if meta else all(got)), "the name of a shared set is listed as a parameter" if meta else "a parameter is not listed", h[0].where())
    for n in g.nodes():
        if ins(n): R.ob("scope", "keys:names", any(name(x) for x in subterms(expand(g.T, n.d["args"][0]))), "a parameter is listed under another name", n.where())


def lastfield(t, f): t = strip(t) if t is not None else ("lit", "0"); return t[0] == "mem" and last(t[2]) == f


WIDTH = {"stoi": 32, "stol": 64, "stoll": 64, "stoul": 64, "stoull": 64, "stof": 24, "stod": 53, "stold": 64}
NEED = {"int": 32, "long": 64, "long long": 64, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "short": 16, "unsigned short": 16, "signed char": 8, "unsigned char": 8, "char": 8, "float": 24, "double": 53, "long double": 64}


def typed(R):
    """find_impl and from_string in every instance: found -> the found value converted, else the default; conversions are wide enough and raise on bad input."""
    for f in fns(R, PA + "find_impl"):
        g = CFG(R.prog, f, inline=NONE)
        for found in (True, False):
            o = evaluate(R, g, lambda at, ctx=None: found if at[0] in ("nz", "pos") and param_idx(f, strip(at[1])) == 2 else True if at[0] == "nz" and False else None)
            vals = [strip(v) for _, v in o.rets]
            if found: good = bool(vals) and all(any(callp("getString")(x) for x in subterms(v)) and not any(param_idx(f, x) == 1 for x in subterms(v)) and (callp("convert_value")(v) or callp("from_string")(v)) for v in vals)
            else: good = bool(vals) and all(any(param_idx(f, x) == 1 for x in subterms(v)) and not any(callp("getString")(x) for x in subterms(v)) for v in vals)
            R.ob("typed", f"find_impl:{'found' if found else 'default'}", good, "a parameter that is found does not yield its value" if found else "a missing parameter does not yield the default", f.where())
        gs = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "getString"]
        R.ob("typed", "find_impl:key", bool(gs) and all(P(f, 0)(n.d["args"][0]) and P(f, 2)(n.d["args"][1]) for n in gs), "another key is looked up", f.where())
        never(R, "typed", "find_impl:flag kept", g, lambda n: n.kind == "asg" and param_idx(f, n.d["lhs"]) == 2 and const(n.d["rhs"]) == 0, "a parameter that is found is reported as missing")
        caught(R, g, f, "find_impl")
    for f in fns(R, PA + "convert_value"):
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        rets = root_rets(g)
        R.ob("typed", "convert", bool(rets) and all(callp("from_string")(strip(n.d["val"])) and P(f, 1)(strip(n.d["val"])[3][0]) for n in rets), "another value is converted", f.where())
        caught(R, g, f, "convert")
    for f in fns(R, PA + "find"):
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        rets = root_rets(g)
        isb = len(f.params) > 1 and "char" in f.params[1].get("t", "") and "*" in f.params[1].get("t", "") if isinstance(f.params[0], dict) else False
        for n in rets:
            v = strip(n.d["val"])
            ok = callp("find_impl")(v) and P(f, 0)(v[3][0])
            if ok and len(f.params) > 1 and not (len(f.params) == 2 and "bool &" in ptype(f, 1)):
                d = strip(expand(g.T, v[3][1]))
                ok = any(param_idx(f, x) == 1 for x in subterms(d)) or (const(d) == 0 and "*" in ptype(f, 1))
            if ok and "bool &" in ptype(f, len(f.params) - 1): ok = param_idx(f, strip(v[3][2])) == len(f.params) - 1
            R.ob("typed", "find:forwards", ok, "a lookup passes on another key, default or flag", n.where())
        R.ob("typed", "find:returns", bool(rets), "a lookup does not return the value", f.where())
    for f in fns(R, "Core::from_string"):
        g = CFG(R.prog, f, inline=NONE)
        R.cfg_used(g)
        rt = rettype(f)
        for n in root_rets(g):
            v = strip(n.d["val"])
            inner = [x for x in subterms(n.d["val"]) if x[0] == "call" and last(x[1]) in WIDTH]
            for x in inner:
                R.ob("typed", "from_string:input", P(f, 0)(x[3][0]), "another text is converted", n.where())
                if rt in NEED: R.ob("typed", f"from_string:{rt}", WIDTH[last(x[1])] >= NEED[rt] and (last(x[1]) in ("stof", "stod", "stold")) == (rt in ("float", "double", "long double")), "a value is cut when it is converted", n.where())
                if last(x[1]) not in ("stof", "stod", "stold") and rt in NEED:
                    R.ob("typed", f"from_string:{rt} base", len(x[3]) > 2 and const(x[3][2]) == 0, "hexadecimal values are not understood", n.where())
            if rt == "bool": R.ob("typed", "from_string:bool", const(v) in (0, 1), "a truth value is not decided by the text", n.where())
            elif rt in NEED: R.ob("typed", f"from_string:{rt} conversion", len(inner) == 1, "the text is not converted", n.where())
        if rt == "bool": booleans(R, f, g)


def booleans(R, f, g):
    words = {"true": 1, "t": 1, "yes": 1, "y": 1, "on": 1, "1": 1, "false": 0, "f": 0, "no": 0, "n": 0, "off": 0, "0": 0, "maybe": None}
    lowered = any(n.kind in ("call",) and last(n.d["q"]) == "tolower" for n in g.nodes())
    R.ob("typed", "bool:case", lowered, "truth values are case sensitive", f.where())
    for w, want in words.items():
        def dec(at, ctx=None):
            ss = [y[1].strip('"') for x in at[1:] if is_term(x) for y in subterms(x) if y[0] == "str"]
            if at[0] == "==" and len(ss) == 1: return ss[0] == w
            if at[0] in ("nz", "pos") and len(ss) == 1:
                if any(y[0] == "call" and last(y[1]) == "compare" for y in subterms(at[1])): return ss[0] != w
                return (ss[0] == w) != any(y[0] == "call" and last(y[1]) == "operator!=" for y in subterms(at[1]))
            return None
        o = evaluate(R, g, dec)
        got = {const(strip(v)) for _, v in o.rets}
        R.ob("typed", f"bool:{w}", got == ({want} if want is not None else set()) and (o.fatal == (want is None)), "a truth value is misread", f.where())


def rettype(f):
    t = f.d.get("ret") or f.d.get("rt") or ""
    return t


def ptype(f, i):
    p = f.params[i]
    return str(p.get("t") or p.get("type") or p) if isinstance(p, dict) else str(p)


def caught(R, g, f, nm):
    """an error caught is raised again"""
    for n in g.nodes():
        if n.kind == "br":
            for s, c, p in n.succ:
                if c is not None and is_term(c) and c[0] == "catch":
                    q = g.search([s], lambda m: m is g.exit)
                    R.ob("typed", nm + ":raises", q is None, "a value that cannot be converted passes silently", n.where())


def lists(R):
    """find_array/find_set/find_map: exactly the tokens between the brackets, each cleaned, converted, added in order; a lone value is one element."""
    for name, brackets in (("find_array", (91, 93)), ("find_set", (123, 125)), ("find_map", (123, 125))):
        for f in fns(R, PA + name):
            g = CFG(R.prog, f, inline=NONE)
            R.cfg_used(g)
            out = lambda t: param_idx(f, strip(t)) == 1
            add = lambda n: (n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back", "insert", "emplace", "insert_or_assign") and n.d["obj"] is not None and out(n.d["obj"])) or (n.kind == "asg" and n.d["lhs"][0] == "idx" and out(n.d["lhs"][1])) or \
                (n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and n.d["obj"][0] == "idx" and out(n.d["obj"][1]))
            isval = lambda t: strip(t)[0] == "var" or callp("getString")(strip(t)) or inner_cut(strip(t))

            def oracle(found, b, e, pyset=False):
                def leaf(t):
                    t = strip(t)
                    if t[0] == "call" and last(t[1]) in ("front",): return b
                    if t[0] == "call" and last(t[1]) in ("back",): return e
                    if t[0] == "idx" and const(t[2]) == 0: return b
                    if t[0] == "call" and last(t[1]) in ("find", "rfind") and any(x[0] == "str" for x in subterms(t)): return 0 if pyset else 5
                    if t[0] == "call" and last(t[1]) == "size" and has_call(t, "kvpair"): return 2
                    return None
                val = valued(leaf)
                return lambda at, ctx=None: (found if at[0] in ("nz", "pos") and (strip(at[1])[0] == "var" and strip(at[1])[3] == fl) else val(at))
            gs = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) == "getString"]
            R.ob("lists", name + ":key", bool(gs) and all(P(f, 0)(n.d["args"][0]) for n in gs), "another key is looked up", f.where())
            if not gs: continue
            fl = strip(gs[0].d["args"][1])[3] if strip(gs[0].d["args"][1])[0] == "var" else None
            start = [s for n in gs for s, _, _ in n.succ]
            head = lambda n: n.kind == "call" and last(n.d["q"]) == "getDelimitedTokens"
            rs = runs(g, start, head, oracle(False, 0, 0))
            R.ob("lists", name + ":absent", bool(rs) and all(not any(add(n) for n, _ in r.events) and not head(r.node) and not r.fatal() for r in rs), "an absent list is not left alone", f.where())
            rs = runs(g, start, head, oracle(True, *brackets))
            R.ob("lists", name + ":bracketed", bool(rs) and all(head(r.node) for r in rs), "a list is not split", f.where())
            for r in rs:
                cut = [v(n.d["args"][0]) if last(n.d["q"]) == "operator=" else None for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["args"] and strip(n.d["args"][0])[0] == "call" and last(strip(n.d["args"][0])[1]) == "substr"]
                for c in cut: R.ob("lists", name + ":inside", inner_cut(strip(c)), "a list is not what is between its brackets", f.where())
            for b, e in ((brackets[0], 65), (65, brackets[1]), (65, 65)):
                rs = runs(g, start, head, oracle(True, b, e))
                if name == "find_map": R.ob("lists", name + ":unbracketed", bool(rs) and all(r.fatal() for r in rs), "a value that is no map is accepted", f.where())
                else:
                    R.ob("lists", name + ":single", bool(rs) and all(len([n for n, _ in r.events if add(n)]) == 1 and not head(r.node) for r in rs), "a single value is not one element", f.where())
            # the tokens
            splits = [n for n in g.nodes() if head(n)]
            outer = [n for n in splits if n.d["args"][0] and isval(expand(g.T, n.d["args"][0])) and const(n.d["args"][1]) == 44]
            R.ob("lists", name + ":delimiter", len(outer) == 1, "a list is not split at commas", f.where())
            tok = lambda t: strip(t)[0] == "elem"
            clean = lambda n: n.kind == "call" and last(n.d["q"]) == "cleanToken"
            conv = lambda t: [x for x in subterms(t) if x[0] == "call" and last(x[1]) in ("convert_value", "from_string")]
            ads = [n for n in g.nodes() if add(n) and any(head(m) for m in g.nodes() if g.search([s for s, _, _ in m.succ], lambda z: z is n) is not None)]
            R.ob("lists", name + ":added", bool(ads), "the elements are not added", f.where())
            for n in ads:
                hs = [h for h in loop_heads(g) if n.nid in h[3]]
                R.ob("lists", name + ":loop", bool(hs), "only one element is added", n.where())
                for h in hs[:1]:
                    rr = runs(g, h[1], lambda m: m is h[0], lambda at, ctx=None: True if at[0] == "==" and any(const(x) == 2 for x in at[1:]) else None)
                    R.ob("lists", name + ":each", bool(rr) and all(len([1 for m, _ in r.events if add(m)]) == 1 for r in rr if not r.fatal()), "an element is left out or added twice", n.where())
                arg = n.d["args"] if n.kind == "call" and last(n.d["q"]) != "operator=" else [n.d["lhs"][2], n.d["rhs"]] if n.kind == "asg" else [n.d["obj"][2], n.d["args"][0]]
                R.ob("lists", name + ":converted", all(conv(expand(g.T, a)) for a in arg), "an element is not converted", n.where())
                if name == "find_map":
                    idx = [[const(y[2]) for x in conv(expand(g.T, a)) for y in subterms(x) if y[0] == "idx"] for a in arg]
                    if all(idx): R.ob("lists", name + ":pair", [i[0] for i in idx] == [0, 1], "key and value are exchanged", n.where())
                    for k in (0, 1, 2, 3):
                        rr = runs(g, [x for m in splits if const(m.d["args"][1]) == 58 for x, _, _ in m.succ], lambda m: m is n, valued(lambda t: k if strip(t)[0] == "call" and last(strip(t)[1]) == "size" and strip(strip(t)[2])[0] == "var" else None))
                        R.ob("lists", name + f":entry of {k}", bool(rr) and all((r.node is n) == (k == 2) and r.fatal() == (k != 2) for r in rr), "an entry that is no pair is accepted, or a pair is not", n.where())
            cl = [n for n in g.nodes() if clean(n)]
            R.ob("lists", name + ":cleaned", bool(cl), "quotes stay in the elements", f.where())
            if name == "find_map":
                R.ob("lists", name + ":both cleaned", {const(x[2]) for n in cl for x in subterms(expand(g.T, n.d["args"][0])) if x[0] == "idx"} >= {0, 1} or len(cl) >= 2, "quotes stay in the elements", f.where())
                R.ob("lists", name + ":colon", any(const(n.d["args"][1]) == 58 for n in splits), "an entry is not split at its colon", f.where())


def inner_cut(c):
    """value.substr(1, value.size() - 2)"""
    if not (c[0] == "call" and last(c[1]) == "substr"): return False
    a = c[3]
    if const(a[0]) == 1 and len(a) > 1:
        ss = summands(a[1])
        return sum(const(x) * s for s, x in ss if const(x) is not None) == -2 and len([1 for s, x in ss if const(x) is None]) == 1
    if const(a[0]) == 4 and len(a) > 1:
        ss = summands(a[1])
        return sum(const(x) * s for s, x in ss if const(x) is not None) == -5
    return False


def tokens(R):
    """getDelimitedTokens as a transition function of (escaped, in a token, in quotes) and the next character's class."""
    f = fn(R, PA + "getDelimitedTokens")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    hs = [h for h in loop_heads(g) if any(c is not None and is_term(c) and param_in(f, c, 0) for _, c, _ in h[0].succ)]
    if not hs: raise AnalysisError("getDelimitedTokens: no loop over the characters")
    h, body, leave, L = max(hs, key=lambda x: len(x[3]))
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and param_idx(f, strip(n.d["obj"])) == 2
    inits = {n.d["var"][3]: n.d for n in g.nodes() if n.kind == "init" and n.nid not in L}
    bools = [v for v, d in inits.items() if d.get("type") == "bool"]
    ints = [v for v, d in inits.items() if d.get("rhs") is not None and const(d["rhs"]) == -1]
    chars = [v for v, d in inits.items() if "char" == d.get("type")]
    var = lambda nm: next(n.d["var"] for n in g.nodes() if n.kind == "init" and n.d["var"][3] == nm)
    if len(bools) != 2 or len(ints) != 1 or len(chars) != 1: raise AnalysisError("getDelimitedTokens: state variables not recognised")
    ch = lambda t: strip(t)[0] in ("idx", "elem") and param_in(f, t, 0)
    SP, DE, DQ, SQ, BS, OT = 32, 44, 34, 39, 92, 120

    def step(env, c):
        def leaf(t):
            t = strip(t)
            if ch(t): return c
            if t[0] == "call" and last(t[1]) == "isspace": return int(c == SP)
            if param_idx(f, t) == 1: return DE
            if t[0] == "var" and t[3] in env: return env[t[3]]
            if t[0] == "var" and t[3] not in bools + ints + chars: return 5
            return None
        dec = valued(leaf)
        e0 = {var(k): ("lit", str(v)) for k, v in env.items()}
        res = []
        for r in runs(g, body, lambda n: n is h, dec, e0):
            out = {}
            for k in env:
                v = r.env.get(var(k))
                out[k] = env[k] if v is None else fold(v, lambda t: leaf(t) if not (strip(t)[0] == "var" and strip(t)[3] in env) else None)
            res.append((out, sum(1 for n, _ in r.events if push(n)), r))
        return res
    # which flag is which: the quote flag is set by a quote character inside a token, the escape flag by a backslash in quotes
    base = {bools[0]: 0, bools[1]: 0, ints[0]: 3, chars[0]: DQ}
    s = step(base, DQ)
    q = [b for b in bools if s and all(o[b] == 1 for o, _, _ in s)]
    R.ob("tokens", "quote", len(s) >= 1 and len(q) == 1, "a quote does not start a quoted part", f.where())
    if len(q) != 1: return
    q, st, qc = q[0], ints[0], chars[0]
    ig = [b for b in bools if b != q][0]

    def want(e, c):
        """(escape, in quotes, in token, quote char, tokens pushed)"""
        tok = e[st] != -1
        if e[ig]: return (0, e[q], tok, e[qc], 0)
        if not tok:
            if c == SP: return (0, e[q], False, e[qc], 0)
            tok = True
        if e[q]:
            if c == BS: return (1, 1, tok, e[qc], 0)
            if c == e[qc]: return (0, 0, tok, e[qc], 0)
            return (0, 1, tok, e[qc], 0)
        if c == DE: return (0, 0, False, e[qc], 1)
        if c in (DQ, SQ): return (0, 1, tok, c, 0)
        return (0, 0, tok, e[qc], 0)
    names = {SP: "space", DE: "delimiter", DQ: "double quote", SQ: "single quote", BS: "backslash", OT: "other"}
    for a, b, t, k, c in itertools.product((0, 1), (0, 1), (-1, 3), (DQ, SQ), names):
        if (a or b) and t == -1: continue
        if a and not b: continue
        e = {ig: a, q: b, st: t, qc: k}
        w = want(e, c)
        rs = step(e, c)
        nm = f"{names[c]}{' escaped' if a else ''}{' in quotes' + chr(k) if b else ''}{' in token' if t != -1 else ''}"
        R.ob("tokens", "state:" + nm, bool(rs) and all((o[ig], o[q], o[st] != -1, o[qc], p) == w for o, p, _ in rs), "a character is taken for something else", f.where())
        if t == -1 and not w[4] and w[2]: R.ob("tokens", "start:" + nm, all(o[st] == 5 for o, _, _ in rs), "a token does not start at its first character", f.where())
    for n in g.nodes():
        if not push(n): continue
        a = strip(n.d["args"][0])
        ok = a[0] == "call" and last(a[1]) == "substr" and param_idx(f, strip(a[2])) == 0 and strip(a[3][0])[0] == "var" and strip(a[3][0])[3] == st
        R.ob("tokens", "text", ok, "a token does not start where it was found", n.where())
        if ok and n.nid in L:
            ss = summands(a[3][1])
            R.ob("tokens", "length", sorted((s, strip(x)[3] == st) for s, x in ss if strip(x)[0] == "var") == [(-1, True), (1, False)] and len(ss) == 2, "a token contains its delimiter, or lacks characters", n.where())
    for v in (-1, 3):
        rs = runs(g, leave, lambda n: n is h, valued(lambda t: v if strip(t)[0] == "var" and strip(t)[3] == st else None))
        p = [sum(1 for n, _ in r.events if push(n)) for r in rs]
        R.ob("tokens", "last:" + ("none" if v == -1 else "one"), bool(p) and all(x == (0 if v == -1 else 1) for x in p), "the last token is lost" if v != -1 else "an empty token is added", f.where())
    # cleaning
    f = fn(R, PA + "cleanToken")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    rm = lambda n: n.kind == "call" and last(n.d["q"]) in ("operator=", "assign", "erase", "pop_back") and n.d["obj"] is not None and param_idx(f, strip(n.d["obj"])) == 0
    cutq = lambda n: n.kind == "call" and last(n.d["q"]) == "operator=" and rm(n)

    def clean(first, end):
        def leaf(t):
            t = strip(t)
            if t[0] == "call" and last(t[1]) == "isspace": return 0
            if t[0] == "call" and last(t[1]) == "front": return first
            if t[0] == "call" and last(t[1]) == "back": return end
            return None
        return runs(g, [g.entry], lambda n: cutq(n), valued(leaf))
    for first, end in ((DQ, DQ), (SQ, SQ)):
        rs = clean(first, end)
        R.ob("tokens", "unquoted", bool(rs) and all(cutq(r.node) for r in rs), "quotes stay in the elements", f.where())
    for first, end in ((DQ, SQ), (SQ, DQ), (DQ, OT), (SQ, OT)):
        rs = clean(first, end)
        R.ob("tokens", "unbalanced", bool(rs) and all(r.fatal() for r in rs), "an element with unbalanced quotes is accepted", f.where())
    rs = clean(OT, OT) + clean(OT, DQ)
    R.ob("tokens", "plain", bool(rs) and all(not cutq(r.node) and not r.fatal() for r in rs), "an element without quotes is changed", f.where())
    for n in g.nodes():
        if cutq(n): R.ob("tokens", "unquote", inner_cut(strip(expand(g.T, n.d["args"][0]))), "more or less than the quotes is cut off", n.where())


def param_in(f, t, i): return any(param_idx(f, x) == i for x in subterms(t))


def carried(R):
    """graph distribution and checkpoints carry own values, shared sets in order and the precedence; element creation checks documented keys in balance."""
    f = fn(R, PA + "serialize_order")
    g0 = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g0)
    modes = {"PACK": 1, "SIZER": 0, "UNPACK": 2}
    enum = R.prog.enum("serializer::SERIALIZE_MODE") if hasattr(R.prog, "enum") else None
    track = lambda v: (lambda at, ctx=None: v if at[0] in ("nz", "pos") and callp("is_pointer_tracking_enabled")(strip(at[1])) else None)
    push = lambda n: n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back")
    for v in (True, False):
        g = CFG(R.prog, f, inline=NONE, assume=track(v))
        if v:
            ins = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("insert", "emplace", "try_emplace") and n.d["obj"] is not None and n.d["obj"][0] == "var"]
            over = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("operator=", "insert_or_assign") and n.d["obj"] is not None and (n.d["obj"][0] == "idx" and n.d["obj"][1][0] == "var" or n.d["obj"][0] == "var" and "tmp" in show(n.d["obj"]))]
            R.ob("carried", "checkpoint:precedence", bool(ins) and not over, "a checkpoint holds the shared value where the own one counts", f.where())
            for n in ins:
                a = expand(g.T, n.d["args"][0])
                R.ob("carried", "checkpoint:names", any(callp("getParamName")(x) for x in subterms(a)) or has_field(a, PA + "keyMapReverse"), "a checkpoint holds key numbers, which differ after a restart", n.where())
                R.ob("carried", "checkpoint:pair", "second" in show(a), "a checkpoint holds another value", n.where())
                hs = [h for h in loop_heads(g) if n.nid in h[3]]
                R.ob("carried", "checkpoint:all maps", any(c is not None and is_term(c) and has_field(c, PA + "data") for h in hs for _, c, _ in h[0].succ), "a checkpoint lacks the shared values", n.where())
                R.ob("carried", "checkpoint:maps in order", len({tuple(sorted(h[3])) for h in hs}) >= 2 and not any(has_call(c, "rbegin") for h in hs for _, c, _ in h[0].succ if c is not None and is_term(c)), "a checkpoint holds the shared value where the own one counts", n.where())
            back = [n for n in g.nodes() if n.kind == "call" and n.d["q"].endswith("Params::insert")]
            R.ob("carried", "restart:values", bool(back) and all("first" in show(n.d["args"][0]) and "second" in show(n.d["args"][1]) for n in back), "a restart does not restore the values", f.where())
        else:
            out = [n for n in g.nodes() if push(n) and n.d["obj"][0] == "var"]
            inn = [n for n in g.nodes() if push(n) and is_field(n.d["obj"], PA + "data")]
            R.ob("carried", "distribution:sets", bool(out) and bool(inn), "shared sets are lost when the graph is distributed", f.where())
            for n in out:
                a = strip(n.d["args"][0])
                R.ob("carried", "distribution:set names", a[0] == "idx" and const(a[2]) == 0 and has_field(a[1], PA + "data"), "shared sets are not sent by name", n.where())
                cnt = [m.d for m in g.nodes() if m.kind == "init" and m.d["var"] in list(subterms(a)) and m.d.get("rhs") is not None]
                for d in cnt: R.ob("carried", "distribution:from the first", const(d["rhs"]) == 1, "the own values are taken for a shared set, or the first set is left out", n.where())
            for n in inn:
                a = expand(g.T, n.d["args"][0])
                R.ob("carried", "distribution:subscribed", has_field(a, PA + "shared_params"), "shared sets are not subscribed again", n.where())
    f = main_like(R)
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    for s in ("keyMap", "keyMapReverse", "nextKeyID", "shared_params"):
        R.ob("carried", "broadcast:" + s, any(n.kind == "call" and last(n.d["q"]) == "broadcast" and any(is_field(strip(a), PA + s) or (strip(a)[0] == "glob" and strip(a)[1].endswith(PA + s)) for a in n.d["args"][:1]) for n in g.nodes()), "ranks do not share the key tables", f.where())
    # documented keys
    push = lambda n: n.kind == "call" and last(n.d["q"]) == "pushAllowedKeys"
    pop = lambda n: n.kind == "call" and last(n.d["q"]) == "popAllowedKeys"
    sites = 0
    for f in R.prog.funcs.values() if hasattr(R.prog, "funcs") else []:
        if "pushAllowedKeys" not in f.raw if isinstance(f.raw, str) else b"pushAllowedKeys" not in f.raw: continue
        if last(f.sq) in ("pushAllowedKeys",) or "Factory" not in f.sq: continue
        g = CFG(R.prog, f, inline=NONE)
        pu = [n for n in g.nodes() if push(n)]
        if not pu: continue
        sites += 1
        make = lambda n: n.kind == "call" and last(n.d["q"]) in ("create",)
        always(R, "carried", last(f.sq) + ":balanced", g, pop, "an element's documented keys stay valid for the next", frm=pu)
        never(R, "carried", last(f.sq) + ":until created", g, make, "an element is created without its documented keys", frm=[n for n in g.nodes() if pop(n)], avoid=push)
    f = fn(R, PA + "verifyKey")
    g = CFG(R.prog, f, inline=NONE)
    R.cfg_used(g)
    warn = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in ("output", "verbose")]
    inset = lambda v: has_key(lambda t: has_field(t, PA + "allowedKeys"), v)
    if warn:
        hs = [h for h in loop_heads(g) if any(c is not None and is_term(c) and has_field(expand(g.T, c), PA + "allowedKeys") for _, c, _ in h[0].succ)]
        R.ob("carried", "documented:levels", bool(hs), "only one level of documented keys counts", f.where())
        for h in hs[:1]:
            for v in (True, False):
                rs = runs(g, h[1], lambda n: n is h[0], table(inset(v), lambda at: (v if at[0] == "==" else None) if False else member(at, v)))
                R.ob("carried", f"documented:{v}", bool(rs) and all((r.node is h[0]) != v and not any(n in warn for n, _ in r.events) for r in rs), "a documented key is warned about" if v else "an undocumented key passes", h[0].where())


def member(at, v):
    """find(k) != end() / count(k) of a set of documented keys reached by an iterator"""
    xs = [strip(x) for x in at[1:] if is_term(x)]
    if at[0] == "==" and any(x[0] == "call" and last(x[1]) in ("end", "cend") for x in xs) and any(x[0] == "call" and last(x[1]) == "find" for x in xs): return not v
    if at[0] in ("nz", "pos") and xs[0][0] == "call" and last(xs[0][1]) in ("count", "contains"): return v
    if at[0] in ("nz", "pos") and xs[0][0] == "call" and last(xs[0][1]) in ("operator!=", "operator=="):
        ys = [strip(y) for y in ((xs[0][2],) + tuple(xs[0][3])) if is_term(y)]
        if any(callp("find")(y) for y in ys) and any(callp("end")(y) for y in ys): return v == (last(xs[0][1]) == "operator!=")
    return None


def main_like(R):
    from rules.p20 import main_fn
    return main_fn(R)


CLAUSES = [lookup, copies, scoped, typed, lists, tokens, carried]
