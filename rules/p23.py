"""P23: statistic output."""
from sa.q import *
from rules.p17 import fns, fn
from rules.p19 import NONE, strip, callp
import itertools, re

PROP = dict(
    title="Statistic output has each statistic's own values in the columns of the header",
    statement="A statistic that is output yields one record. In CSV it holds the statistic's own component, name, sub id and type, time and rank where asked for, in the order of the header, and each of its "
              "fields in the column registered for that field; columns of other statistics hold 0. Text and JSON records name their statistic and hold its values, each value formatted by its type. A field name and type is one column with one handle, different ones are different columns. "
              "Records are not interleaved, are complete before the next one starts, and every rank writes its own file, closed at the end.",
    over=["configurations", "histories"], text="all sets of statistics and fields, output options, numbers of ranks and orders of output",
    why="Values in a wrong column, of another statistic or truncated by a wrong format look like valid results; the tests compare a few small reference files with few statistics and small values.",
    files=["src/sst/core/statapi/statoutput.cc", "src/sst/core/statapi/statoutputcsv.cc", "src/sst/core/statapi/statoutputtxt.cc", "src/sst/core/statapi/statoutputjson.cc", "src/sst/core/statapi/statfieldinfo.cc"],
    mech=[("StatisticFieldsOutput", "src/sst/core/statapi/statoutput.cc"), ("StatisticOutputCSV", "src/sst/core/statapi/statoutputcsv.cc"), ("StatisticOutputTextBase", "src/sst/core/statapi/statoutputtxt.cc"),
          ("StatisticOutputJSON", "src/sst/core/statapi/statoutputjson.cc")],
    technique="abstract evaluation of registration and record writing over all output options (header against record), format/type agreement, path obligations")

TUS = ["statapi/statoutput.cc", "statapi/statoutputcsv.cc", "statapi/statoutputtxt.cc", "statapi/statoutputjson.cc", "statapi/statfieldinfo.cc"]
ASSUMPTIONS = ["printf-style functions print as specified", "the HDF5 output is not part of this build"]
S = "Statistics::"
CSV, TXT, JSON, FO = S + "StatisticOutputCSV::", S + "StatisticOutputTextBase::", S + "StatisticOutputJSON::", S + "StatisticFieldsOutput::"
PRINT = ("print", "fprintf", "printf", "vfprintf", "gzprintf", "fputs", "puts", "format_string", "snprintf")


def fmt(t):
    """the literal text of a term"""
    return [x[1] for x in subterms(t) if x[0] == "str"]


def tokens(r, classify):
    """the sequence of recognised parts that a path writes or appends"""
    out = []
    for n, v in r.events:
        if n.kind != "call" or not (last(n.d["q"]) in PRINT or last(n.d["q"]) in ("operator=", "operator+=", "append", "operator<<", "push_back")): continue
        for a in n.d["args"]:
            if not is_term(a): continue
            k = classify(v(a))
            if k is None: k = classify(expand_own(a))
            if k is not None and (not out or out[-1] != k): out.append(k)
    return out


def expand_own(a): return a


def own(cls, *stop):
    """helpers of the class itself are part of the function"""
    k = inline_class(last(cls[:-2]))
    return lambda f, e, c: k(f, e, c) and last(f.sq) not in stop + ("print", "getNumRanks", "getRank", "getAbsolutePathForOutputFile", "outputsToFile", "getSimulationOutput", "getCurrentSimCycle")


def flags(simtime, rank, **more):
    names = {"m_outputSimTime": simtime, "m_outputRank": rank, **more}
    def dec(at, ctx=None):
        for x in at[1:]:
            if is_term(x) and strip(x)[0] == "mem" and last(strip(x)[2]) in names:
                v = names[last(strip(x)[2])]
                if at[0] in ("nz", "pos"): return v
                if at[0] == "==":
                    c = [const(y) for y in at[1:] if const(y) is not None]
                    if c: return v == bool(c[0])
        return None
    return dec


HEADS = {"ComponentName": "component", "StatisticName": "name", "StatisticSubId": "subid", "StatisticType": "type", "SimTime": "time", "Rank": "rank"}
CUR = {"m_currentComponentName": "component", "m_currentStatisticName": "name", "m_currentStatisticSubId": "subid", "m_currentStatisticType": "type"}
GET = {"component": ("getCompName", "stat_name_full"), "name": ("getStatName",), "subid": ("getStatSubId",), "type": ("getStatTypeName",)}


def header(R):
    """CSV: for every choice of time and rank the header's columns and those of a record are the same, in the same order; header and record then list all registered fields."""
    P = R.prog
    hd, rec = fn(R, CSV + "startOfSimulation"), fn(R, CSV + "implStopOutputEntries")

    def head(t):
        k = [HEADS[x.strip(" ,;")] for x in fmt(t) if x.strip(" ,;") in HEADS]
        return k[0] if len(k) == 1 else None

    def cell(t):
        k = {v for f, v in CUR.items() if has_field(t, f)}
        if has_call(t, "getCurrentSimCycle") or has_field(t, "currentSimCycle"): k.add("time")
        if has_call(t, "getRank") or has_field(t, "RankInfo::rank"): k.add("rank")
        return k.pop() if len(k) == 1 else None
    for st, rk in itertools.product((True, False), repeat=2):
        dec = flags(st, rk, m_outputTopHeader=True)
        opened = lambda at, ctx=None: True if at[0] in ("nz", "pos") and has_call(at[1], "openFile") else dec(at)
        g, h = CFG(P, hd, inline=own(CSV, "openFile")), CFG(P, rec, inline=own(CSV))
        R.cfg_used(g); R.cfg_used(h)
        a = {tuple(tokens(r, head)) for r in runs(g, [g.entry], lambda n: False, opened)}
        b = {tuple(tokens(r, cell)) for r in runs(h, [h.entry], lambda n: False, dec)}
        want = ("component", "name", "subid", "type") + (("time",) if st else ()) + (("rank",) if rk else ())
        R.ob("header", f"record:{int(st)}{int(rk)}", len(b) == 1 and set(b.copy().pop()) == set(want), f"a record holds {sorted(b)}", rec.where())
        R.ob("header", f"agree:{int(st)}{int(rk)}", a == b, f"the header {sorted(a)} does not name the columns of a record {sorted(b)}", hd.where())
    g = CFG(P, hd, inline=own(CSV, "openFile"), assume=flags(True, True, m_outputTopHeader=True))
    hs = [x for x in loop_heads(g) if any(n.kind == "call" and (last(n.d["q"]) == "getFieldName" or "field_name_" in str(n.d["args"])) and n.nid in x[3] for n in g.nodes())]
    R.ob("header", "fields", bool(hs), "the fields are not in the header", hd.where())
    for x in hs[:1]:
        for r in runs(g, x[1], lambda n: n is x[0]):
            nm = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("getFieldName",) or n.kind == "call" and any(has_field(a, "field_name_") for a in n.d["args"] if is_term(a))]
            R.ob("header", "each field", bool(nm) and any(n.kind == "call" and last(n.d["q"]) in PRINT for n, _ in r.events), "a field is left out of the header", x[0].where())
    g = CFG(P, rec, inline=own(CSV))
    cells = lambda n: n.kind == "call" and last(n.d["q"]) in PRINT and any(has_field(a, "m_OutputBufferArray") for a in n.d["args"] if is_term(a))
    R.ob("header", "cells", any(cells(n) for n in g.nodes()), "the values are not in the record", rec.where())
    for n in g.nodes():
        if cells(n):
            idx = [x for a in n.d["args"] for x in subterms(a) if x[0] == "idx"]
            hs = [x for x in loop_heads(g) if n.nid in x[3]]
            R.ob("header", "cells:each", bool(hs), "only one value is in the record", n.where())
            for x in hs[:1]:
                p = g.search(x[1], lambda m: m is x[0], avoid=cells)
                R.ob("header", "cells:all", p is None, "a value is left out of the record", n.where())
                for i in idx:
                    if i[2][0] == "var":
                        ini = [m for m in g.nodes() if m.kind in ("asg", "init") and (m.d.get("lhs") or m.d.get("var")) == i[2] and m.d.get("rhs") is not None and m.d.get("op", "=") == "=" and m.nid not in x[3]]
                        R.ob("header", "cells:first", all(const(m.d["rhs"]) == 0 for m in ini) and bool(ini), "the first values are left out of the record", n.where())
    nl = lambda n: n.kind == "call" and last(n.d["q"]) in PRINT and any("\n" in x or "\\n" in x for a in n.d["args"] if is_term(a) for x in fmt(a))
    if any(nl(n) for n in g.nodes()): always(R, "header", "line", g, nl, "a record does not end its line")


def textheader(R):
    """The text header goes to the file as the records do, and names each field by itself."""
    P = R.prog
    f = fn(R, TXT + "startOfSimulation")
    for st, rk in itertools.product((True, False), repeat=2):
        g = CFG(P, f, inline=own(TXT, "openFile"), assume=(lambda d: lambda at, ctx=None: True if at[0] in ("nz", "pos") and has_call(at[1], "openFile") else d(at))(flags(st, rk, m_outputTopHeader=True)))
        R.cfg_used(g)
        out = [n for n in g.nodes() if n.kind == "call" and last(n.d["q"]) in PRINT and last(n.d["q"]) not in ("format_string", "snprintf")]
        R.ob("header", f"txt:file:{int(st)}{int(rk)}", bool(out) and all(last(n.d["q"]) == "print" or any(has_field(a, x) for a in n.d["args"] if is_term(a) for x in ("m_hFile", "m_gzFile")) for n in out), "a part of the header is not written to the file", f.where())
        for w, on in (("SimTime", st), ("Rank", rk)):
            ev = lambda n: n.kind in ("call", "asg", "ctor") and any(w in x for t in list(n.d.get("args") or ()) + [n.d.get("rhs")] if is_term(t) for x in fmt(t))
            if on: always(R, "header", f"txt:{w}", g, ev, f"the column {w} is not in the header")
            else: never(R, "header", f"txt:{w}:off", g, ev, f"the column {w} is in the header but not in the records")
        for x in [x for x in loop_heads(g) if any(n in out for n in g.nodes() if n.nid in x[3])][:1]:
            for r in runs(g, x[1], lambda n: n is x[0]):
                kept, nm = True, None
                for n, v in r.events:
                    if n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "m_outputBuffer") and last(n.d["q"]) in ("operator=", "clear", "assign") or n.kind == "asg" and is_field(n.d["lhs"], "m_outputBuffer"): kept = False
                    if n.kind == "call" and last(n.d["q"]) in PRINT and n in out and nm is None: nm = kept and any(has_field(a, "m_outputBuffer") for a in n.d["args"] if is_term(a))
                R.ob("header", "txt:each", nm is False, "a column is headed by the names of earlier columns, too" if nm else "a field is left out of the header", x[0].where())


def current(R):
    """The record that starts carries the names of the statistic it is about, and no value of an earlier one."""
    P = R.prog
    for cls, nm in ((CSV, "csv"), (JSON, "json")):
        f = fn(R, cls + "implStartOutputEntries")
        g = CFG(P, f, inline=own(cls))
        R.cfg_used(g)
        for fld, key in CUR.items():
            if cls == JSON and key != "component": continue
            st = lambda n: (n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and has_field(n.d["obj"], fld) or n.kind == "asg" and has_field(n.d["lhs"], fld))
            val = lambda n: expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"])
            always(R, "current", f"{nm}:{key}", g, st, f"the {key} of an earlier statistic is output")
            for n in g.nodes():
                if st(n): R.ob("current", f"{nm}:{key}:value", any(has_call(val(n), c) for c in GET[key]) or named(val(n), key), f"the {key} is taken from {show(val(n))}", n.where())
        if cls == CSV:
            zero = lambda n: n.kind == "call" and last(n.d["q"]) in ("operator=", "assign", "fill") and any("0" in fmt(a) for a in n.d["args"] if is_term(a)) or n.kind == "asg" and "0" in fmt(n.d["rhs"])
            arr = lambda t: has_field(t, "m_OutputBufferArray")
            over = {n.nid for h, body, leave, L in loop_heads(g) if any(c is not None and is_term(c) and (arr(c) or arr(expand(g.T, c))) for _, c, _ in h.succ) for n in g.nodes() if n.nid in L}

            def clr(n):
                if not zero(n): return False
                o = n.d.get("obj") or n.d.get("lhs")
                return o is not None and (arr(o) or arr(expand(g.T, o)) or o[0] == "var" and n.nid in over) or any(is_term(a) and arr(a) for a in n.d.get("args") or ())
            R.ob("current", "csv:reset", any(clr(n) for n in g.nodes()), "values of an earlier statistic stay in the record", f.where())
            for n in g.nodes():
                if clr(n) and n.kind == "call" and last(n.d["q"]) == "operator=" or clr(n) and n.kind == "asg":
                    hs = [x for x in loop_heads(g) if n.nid in x[3]]
                    for x in hs[:1]:
                        R.ob("current", "csv:reset:each", g.search(x[1], lambda m: m is x[0], avoid=clr) is None, "a value of an earlier statistic stays in the record", n.where())
                        for i in [x_ for x_ in subterms(n.d.get("obj") or n.d.get("lhs")) if x_[0] == "idx" and x_[2][0] == "var"]:
                            ini = [m for m in g.nodes() if m.kind in ("asg", "init") and (m.d.get("lhs") or m.d.get("var")) == i[2] and m.d.get("rhs") is not None and m.nid not in x[3] and m.d.get("op", "=") == "="]
                            R.ob("current", "csv:reset:first", bool(ini) and all(const(m.d["rhs"]) == 0 for m in ini), "values of an earlier statistic stay in the record", n.where())
    f = fn(R, TXT + "implStartOutputEntries")
    g = CFG(P, f, inline=own(TXT))
    R.cfg_used(g)
    new = lambda n: n.kind == "call" and last(n.d["q"]) in ("operator=", "assign", "clear") and n.d["obj"] is not None and is_field(n.d["obj"], "m_outputBuffer") or n.kind == "asg" and is_field(n.d["lhs"], "m_outputBuffer")
    name = lambda n: n.kind == "call" and n.d["obj"] is not None and is_field(n.d["obj"], "m_outputBuffer") and any(has_call(expand(g.T, a), "getFullStatName") or has_call(expand(g.T, a), "getStatName") for a in n.d["args"] if is_term(a))
    always(R, "current", "txt:new", g, new, "text of an earlier record is output again")
    always(R, "current", "txt:name", g, name, "a record does not name its statistic")
    never(R, "current", "txt:kept", g, new, "the beginning of a record is dropped", frm=[n for n in g.nodes() if name(n)])
    for opt, hit in (("m_outputSimTime", lambda t: has_call(t, "getCurrentSimCycle") or has_field(t, "currentSimCycle")), ("m_outputRank", lambda t: has_call(t, "getRank") or has_field(t, "RankInfo::rank") or "getRank" in show(t))):
        for v in (True, False):
            gg = CFG(P, f, inline=own(TXT), assume=flags(v, v))
            ev = lambda n: n.kind == "call" and last(n.d["q"]) in PRINT + ("to_string", "operator+=", "append") and any(hit(a) or hit(expand(gg.T, a)) for a in n.d["args"] if is_term(a))
            if v: always(R, "current", f"txt:{opt}", gg, ev, "time or rank is left out of a record")
            else: never(R, "current", f"txt:{opt}:off", gg, ev, "time or rank is output although not asked for")
    f = fn(R, TXT + "implStopOutputEntries")
    g = CFG(P, f, inline=own(TXT))
    always(R, "current", "txt:written", g, lambda n: n.kind == "call" and last(n.d["q"]) in PRINT and any(has_field(a, "m_outputBuffer") for a in n.d["args"] if is_term(a)), "a record is not written")


def named(t, key): return has_field(t, {"component": "comp_name_", "name": "stat_name_", "subid": "stat_sub_id_", "type": "stat_type_name_"}[key]) or {"component": "m_component", "name": "m_statName", "subid": "m_statSubId", "type": "m_statTypeName"}[key] in show(t) or key == "component" and "omp" in show(t)


SPEC = {"int": ("di", 0), "unsigned int": ("u", 0), "long": ("di", 1), "unsigned long": ("u", 1), "float": ("feEgGaA", 0), "double": ("feEgGaA", 0)}


def formats(R):
    """Every outputField overload of every format writes the value it is given, with a conversion that fits its type, into the place of its own field."""
    P = R.prog
    for cls, nm in ((CSV, "csv"), (TXT, "txt"), (JSON, "json")):
        fs = R.need(P.find("SST::" + cls + "outputField", False), cls + "outputField")
        R.ob("formats", nm + ":types", {f.params[1][2].replace("const ", "").strip(" &") for f in fs} >= set(SPEC), "a type of data cannot be output", fs[0].where())
        for f in fs:
            ty = f.params[1][2].replace("const ", "").strip(" &")
            if ty not in SPEC: continue
            g0 = CFG(P, f, inline=own(cls, "outputField", "getRegisteredField"))
            R.cfg_used(g0)
            reg = lambda at, ctx=None: True if at[0] in ("nz", "pos") and "getRegisteredField" in show(at[1]) else None
            for inl in (True, False) if cls == TXT else (None,):
                dec = (lambda at, ctx=None: (reg(at) if reg(at) is not None else flags(0, 0, m_outputInlineHeader=inl)(at)) if at[0] != "==" or "getRegisteredField" not in show(at) else False)
                rs = runs(g0, [g0.entry], lambda n: False, dec)
                R.ob("formats", f"{nm}:{ty}:runs", bool(rs), "a value is not output", f.where())
                for r in rs:
                    # conversions written that take the value
                    hits, bad = [], None
                    for n, v in r.events:
                        if n.kind != "call" or last(n.d["q"]) not in PRINT + ("to_string",): continue
                        args = [x for x in n.d["args"] if is_term(x)]
                        pos = [i for i, x in enumerate(args) if param_idx(f, stripcast(v(x))) == 1]
                        if not pos: continue
                        if last(n.d["q"]) == "to_string": hits.append(n); continue
                        fi = next((i for i, x in enumerate(args) if x[0] == "str"), None)
                        if fi is None: continue
                        convs = re.findall(r"%[-+ #0]*[\d.*]*(hh|h|ll|l|z|j|t)?([a-zA-Z])", args[fi][1])
                        k = pos[0] - fi - 1
                        hits.append(n)
                        if k >= len(convs): bad = "no conversion"; continue
                        ln, cv = convs[k]
                        want, lg = SPEC[ty]
                        if cv not in want or (lg and ln not in ("l", "ll", "j", "z")) or (not lg and ln in ("hh", "h")) or (not lg and "int" in ty and ln in ("l", "ll", "j", "z")): bad = f"%{ln}{cv}"
                        if any(x[0] == "cast" and x[1:-1] and any(narrow(str(y), ty) for y in x[1:-1]) for x in subterms(v(args[pos[0]]))): bad = "a narrower type"
                    R.ob("formats", f"{nm}:{ty}:once", len(hits) == 1, f"a value is output {len(hits)} times", f.where())
                    R.ob("formats", f"{nm}:{ty}:conversion", bad is None, f"a value of type {ty} is output by {bad}", f.where())
                    if cls == CSV:
                        w = [n for n, v in r.events if (n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and has_field(n.d["obj"], "m_OutputBufferArray")) or n.kind == "asg" and has_field(n.d["lhs"], "m_OutputBufferArray")]
                        R.ob("formats", f"csv:{ty}:cell", len(w) == 1 and any(x[0] == "idx" and param_idx(f, stripcast(x[2])) == 0 for x in subterms(w[0].d.get("obj") or w[0].d.get("lhs"))) if w else False, "a value goes into the column of another field", f.where())
                    if cls == TXT:
                        ap = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("operator+=", "append") and is_field(n.d["obj"], "m_outputBuffer") and any(x[0] == "var" or x[0] == "call" and last(x[1]) == "format_string" for a in n.d["args"] if is_term(a) for x in subterms(a))]
                        R.ob("formats", f"txt:{ty}:appended", bool(ap), "a value is not in the record", f.where())
                        gr = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "getRegisteredField"]
                        R.ob("formats", f"txt:{ty}:field", all(param_idx(f, stripcast(n.d["args"][0])) == 0 for n in gr), "a value is output under the name of another field", f.where())


def stripcast(t):
    while t[0] == "cast": t = t[-1]
    return t


def narrow(c, ty): return ("long" in ty and "int" in c and "long" not in c) or (ty == "double" and "float" in c) or (ty in ("double", "float") and "int" in c)


def register(R):
    """A new field gets the next place and handle, a known one (same name and type) its own; name and type both tell fields apart."""
    P = R.prog
    f = fn(R, FO + "addFieldToLists")
    nmap, arr = (lambda t: has_field(t, "m_outputFieldNameMap")), (lambda t: has_field(t, "m_outputFieldInfoArray"))
    for known in (True, False):
        g = CFG(P, f, inline=NONE)
        R.cfg_used(g)
        key = has_key(nmap, known)
        rs = [r for r in runs(g, [g.entry], lambda n: False, lambda at, ctx=None: key(at)) if not r.fatal()]
        R.ob("register", f"known:{known}", bool(rs), "a field cannot be registered", f.where())
        for r in rs:
            add = [(n, v) for n, v in r.events if n.kind == "call" and last(n.d["q"]) in ("push_back", "emplace_back") and arr(n.d["obj"])]
            sto = [(n, v) for n, v in r.events if n.kind == "asg" and nmap(n.d["lhs"]) or n.kind == "call" and last(n.d["q"]) in ("emplace", "insert", "try_emplace", "insert_or_assign") and nmap(n.d["obj"])]
            rv = r.ret()
            if known:
                R.ob("register", "known:kept", not add and not sto, "a known field becomes another column", f.where())
                R.ob("register", "known:own", rv is not None and arr(rv) and any(x[0] == "idx" and (has_call(x[2], "find") or has_field(x[2], "second") or nmap(x[2])) or x[0] == "call" and last(x[1]) in ("at", "operator[]") and x[3] and (has_call(x[3][0], "find") or nmap(x[3][0])) for x in subterms(rv)), "a known field is given another column", f.where())
            else:
                R.ob("register", "new:added", len(add) == 1 and len(sto) == 1, "a new field gets no column", f.where())
                R.ob("register", "new:returned", rv is not None and strip(rv)[0] in ("new", "var") and bool(add) and strip(rv) == strip(add[0][1](add[0][0].d["args"][0])), "a new field is not the one returned", f.where())
                for n, v in sto:
                    x = n.d["rhs"] if n.kind == "asg" else n.d["args"][-1]
                    late = bool(add) and [m for m, _ in r.events].index(add[0][0]) < [m for m, _ in r.events].index(n)
                    val = fold(x, lambda t: (6 if late else 5) if t[0] == "call" and last(t[1]) == "size" and arr(t[2]) else None)
                    R.ob("register", "new:place", val == 5 or val is None and x[0] == "var", "a field is looked up at another field's place", n.where())
    f = fn(R, S + "StatisticFieldInfo::getFieldUniqueName")
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    every = [x for n in g.nodes() if n.kind in ("call", "init", "ret", "asg") for t in list(n.d.get("args") or ()) + [n.d.get("rhs"), n.d.get("val"), n.d.get("obj")] if is_term(t) for x in subterms(t)]
    R.ob("register", "unique:name", any(x[0] == "mem" and fmatch(x[2], "field_name_") or x[0] == "call" and last(x[1]) == "getFieldName" for x in every), "fields of different names share a column", f.where())
    R.ob("register", "unique:type", any(x[0] == "mem" and fmatch(x[2], "field_type_") or x[0] == "call" and last(x[1]) == "getFieldType" for x in every), "fields of different types share a column", f.where())
    f = fn(R, FO + "generateFieldHandle")
    g = CFG(P, f, inline=NONE)
    R.cfg_used(g)
    for has in (True, False):
        leaf = lambda t: (3 if has else -1) if lastm(t, "field_handle_") or t[0] == "call" and last(t[1]) == "getFieldHandle" else 7 if lastm(t, "m_highestFieldHandle") else None
        for r in runs(g, [g.entry], lambda n: False, valued(leaf)):
            sets = [fold(v(n.d["args"][0]), leaf) for n, v in r.events if n.kind == "call" and last(n.d["q"]) == "setFieldHandle"] + [fold(v(n.d["rhs"]), leaf) for n, v in r.events if n.kind == "asg" and lastm(n.d["lhs"], "field_handle_")]
            high = [x for k, x in r.env.items() if lastm(k, "m_highestFieldHandle")]
            hv = fold(high[0], leaf) if high else 7
            R.ob("register", f"handle:{has}", (not sets and hv == 7) if has else (len(sets) == 1 and sets[0] in (7, None) and hv == 8), "two fields get the same handle" if not has else "a field gets a second handle", f.where())
    fs = P.find("SST::" + FO + "registerField", False)
    for f in fs:
        g = CFG(P, f, inline=NONE)
        R.cfg_used(g)
        for n in root_rets(g):
            t = expand(g.T, n.d["val"])
            R.ob("register", "handle:own", has_call(t, "generateFieldHandle") and has_call(t, "addFieldToLists") and any(param_idx(f, x) == 0 for x in subterms(t)), "the handle returned is not the field's", n.where())


def lastm(t, nm): t = strip(t); return t[0] == "mem" and last(t[2]) == nm


STEPS = ("startOutputEntries", "stopOutputEntries", "startRegisterFields", "stopRegisterFields", "implStartOutputEntries", "implStopOutputEntries", "registerOutputFields", "outputStatisticFields")


def framing(R):
    """A record is opened, filled by its statistic and closed, in this order and once, under the output's lock; so is a registration."""
    P = R.prog
    for q, steps in (("output", ("startOutputEntries", "outputStatisticFields", "stopOutputEntries")), ("registerStatistic", ("startRegisterFields", "registerOutputFields", "stopRegisterFields"))):
        f = fn(R, FO + q)
        g = CFG(P, f, inline=own(FO, *STEPS))
        R.cfg_used(g)
        ev = [lambda n, s=s: n.kind == "call" and last(n.d["q"]) == s for s in steps]
        for e, s in zip(ev, steps):
            always(R, "framing", f"{q}:{s}", g, e, f"{s} is left out")
            never(R, "framing", f"{q}:{s}:once", g, e, f"{s} is done twice", frm=[n for n in g.nodes() if e(n)])
        never(R, "framing", q + ":opened", g, ev[1], "fields are output before their record is opened", avoid=ev[0])
        never(R, "framing", q + ":closed", g, ev[2], "a record is closed before its fields are output", avoid=ev[1])
        for n in g.nodes():
            if ev[1](n): R.ob("framing", q + ":statistic", param_idx(f, strip(n.d["obj"])) == 0, "another statistic is output", n.where())
            if ev[0](n): R.ob("framing", q + ":record", param_idx(f, strip(n.d["args"][0])) == 0, "the record is opened for another statistic", n.where())
    for q, impl in (("startOutputEntries", "implStartOutputEntries"), ("stopOutputEntries", "implStopOutputEntries")):
        g = CFG(P, fn(R, FO + q), inline=own(FO, *STEPS))
        always(R, "framing", q, g, lambda n: n.kind == "call" and last(n.d["q"]) == impl, "the record is not opened or closed")
    for q in ("startOutputEntries", "startRegisterFields"):
        g = CFG(P, fn(R, FO + q), inline=own(FO, *STEPS))
        always(R, "framing", q + ":name", g, lambda n: (n.kind == "call" and last(n.d["q"]) == "operator=" and has_field(n.d["obj"], "m_currentFieldStatName") and any(has_call(a, "getStatName") or "stat_name" in show(a).lower() or "statname" in show(a).lower() for a in n.d["args"])) or n.kind == "asg" and has_field(n.d["lhs"], "m_currentFieldStatName"), "fields are output under the name of another statistic")


def ranked(g, t):
    """made from the number of this rank"""
    for _ in range(4): t = expand(g.T, t)
    return any(w in show(x) for x in subterms(t) if x[0] == "mem" and last(x[2]) == "rank" for w in ("getRank", "my_rank"))


def files(R):
    """With several ranks the name of the file contains the rank; the file that cannot be opened ends the run; the end of the simulation closes the file."""
    P = R.prog
    for cls, nm in ((CSV, "csv"), (TXT, "txt"), (JSON, "json")):
        f = fn(R, cls + "openFile")
        g = CFG(P, f, inline=own(cls))
        R.cfg_used(g)
        ranks = lambda t: t[0] == "mem" and last(t[2]) == "rank" and any(w in show(t) for w in ("getNumRanks", "num_ranks"))
        op = lambda n: n.kind == "call" and last(n.d["q"]) in ("fopen", "gzopen")
        for many in (True, False):
            for gz in (True, False):
                d0 = flags(0, 0, m_useCompression=gz)
                def dec(at, ctx=None, many=many):
                    r = valued(lambda t: (2 if many else 1) if ranks(strip(t)) else None)(at)
                    if r is not None: return r
                    if at[0] in ("nz", "pos") and has_call(at[1], "outputsToFile"): return True
                    return d0(at)
                for r in runs(g, [g.entry], lambda n: False, dec):
                    o = [i for i, (n, v) in enumerate(r.events) if op(n)]
                    ins = [i for i, (n, v) in enumerate(r.events) if n.kind == "call" and last(n.d["q"]) in ("insert", "append", "operator+=", "operator+", "replace") and any(ranked(g, x) for a in n.d["args"] if is_term(a) for x in (v(a), a))]
                    if many: R.ob("files", nm + ":rank", bool(o) and bool(ins) and min(ins) < min(o), "several ranks write the same file", f.where())
                    else: R.ob("files", nm + ":plain", bool(o) and not ins, "the file is not the one asked for", f.where())
        for n in [n for n in g.nodes() if op(n)]:
            bad = lambda at, ctx=None: False if at[0] in ("nz", "pos") and any(has_field(at[1], x) for x in ("m_hFile", "m_gzFile")) else True if at[0] == "==" and any(has_field(x, y) for x in at[1:] for y in ("m_hFile", "m_gzFile")) else None
            gg = CFG(P, f, inline=own(cls), assume=bad)
            m = [x for x in gg.nodes() if op(x) and x.line == n.line]
            if m:
                p = gg.search(gg.after(m[0]), lambda x: x is gg.exit, avoid=is_fatal)
                R.ob("files", nm + ":error", p is None, "a file that cannot be opened is passed over", n.where())
        f = fn(R, cls + "endOfSimulation")
        g = CFG(P, f, inline=own(cls, "closeFile"))
        always(R, "files", nm + ":closed", g, lambda n: n.kind == "call" and last(n.d["q"]) in ("closeFile", "fclose", "gzclose"), "the file is not closed at the end")
        for gz in (True, False):
            f = fn(R, cls + "closeFile")
            asm = flags(0, 0, m_useCompression=gz)
            to = lambda at, ctx=None: True if at[0] in ("nz", "pos") and has_call(at[1], "outputsToFile") else asm(at)
            if cls == JSON and gz: continue
            g = CFG(P, f, inline=own(cls), assume=to)
            always(R, "files", f"{nm}:closes:{gz}", g, lambda n: n.kind == "call" and last(n.d["q"]) == ("gzclose" if gz else "fclose"), "the file is not closed")


def separators(R):
    """JSON: values of a record are separated by commas, none before the first; records of a component likewise, and a new component starts its own list."""
    P = R.prog
    comma = lambda n: n.kind == "call" and last(n.d["q"]) in PRINT + ("fputc", "putc") and any("," in x and "%" not in x and "}" not in x for a in n.d["args"] if is_term(a) for x in fmt(a))
    clears = lambda n, fld: n.kind == "asg" and is_field(n.d["lhs"], fld)
    for f in R.need(P.find("SST::" + JSON + "outputField", False), "outputField"):
        for v in (True, False):
            g = CFG(P, f, inline=own(JSON, "outputField"))
            R.cfg_used(g)
            for r in runs(g, [g.entry], lambda n: False, flags(0, 0, m_firstField=v)):
                ns = [n for n, _ in r.events]
                c = [i for i, n in enumerate(ns) if comma(n)]
                w = [i for i, n in enumerate(ns) if n.kind == "call" and last(n.d["q"]) in PRINT and any(param_idx(f, stripcast(x)) == 1 for a in n.d["args"] if is_term(a) for x in subterms(a))]
                R.ob("separators", f"value:{v}", len(c) == (0 if v else 1) and (not c or not w or c[0] < w[0]), "values are not separated by single commas", f.where())
                st = [x for k, x in r.env.items() if lastm(k, "m_firstField")]
                R.ob("separators", f"next:{v}", bool(st) and const(st[0]) == 0 or not v and not st, "the value that follows counts as the first", f.where())
    f = fn(R, JSON + "implStartOutputEntries")
    for same, first in itertools.product((True, False), repeat=2):
        g = CFG(P, f, inline=own(JSON))
        R.cfg_used(g)
        d0 = flags(0, 0, m_firstEntry=first)

        def dec(at, ctx=None):
            if at[0] == "==" and any(has_field(x, "m_currentComponentName") for x in at[1:]):
                return same if any(x[0] == "call" and last(x[1]) == "getCompName" or "omp" in show(x) and x[0] != "str" and not has_field(x, "m_currentComponentName") for x in at[1:]) else False
            return d0(at)
        for r in runs(g, [g.entry], lambda n: False, dec):
            ff = [x for k, x in r.env.items() if lastm(k, "m_firstField")]
            R.ob("separators", "record:first value", bool(ff) and const(ff[0]) == 1, "the first value of a record is preceded by a comma", f.where())
            fe = [x for k, x in r.env.items() if lastm(k, "m_firstEntry")]
            R.ob("separators", "record:next", bool(fe) and const(fe[0]) == 0 or same and not first and not fe, "the record that follows counts as the first of its component", f.where())
            named_ = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) in PRINT and any(has_call(x, "getCompName") for a in n.d["args"] if is_term(a) for x in (a, v(a)))]
            if not same: R.ob("separators", "component:new", len(named_) == 1, "the records of a component are listed under another one", f.where())
            if same:
                R.ob("separators", "component:same", not named_, "a component is listed again for each record", f.where())
                R.ob("separators", "record:comma", any(comma(n) for n, _ in r.events) == (not first), "records are not separated by single commas", f.where())
            nm = [n for n, v in r.events if n.kind == "call" and last(n.d["q"]) in PRINT and any(has_call(x, "getStatName") or has_field(x, "stat_name_") or has_field(x, "m_currentStatisticName") for a in n.d["args"] if is_term(a) for x in (a, v(a)))]
            R.ob("separators", "record:name", len(nm) == 1, "a record does not name its statistic", f.where())


CLAUSES = [separators, header, textheader, current, formats, register, framing, files]
