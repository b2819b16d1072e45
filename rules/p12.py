"""P12: completeness of serialised state."""
from sa.q import *
from rules.p11 import label, helper_inline, noctx, mode_assume, S
import re

PROP = dict(
    title="Serialised objects carry their whole state",
    statement="Every serialisable class saves and restores each of its data members, and each base class's, unless the member holds nothing that outlives the checkpoint "
              "(a lock, an open file, scratch space) or is rebuilt on restart by other means. A restored object is never left with an unset member, and it is restored as its "
              "own class. Nothing is left out for some objects and modes only.",
    over=["inputs", "histories"], text="all serialisable classes of the core, all values of their members",
    why="A forgotten member shows only when a checkpoint is taken while the member has a value other than its initial one and something depends on it afterwards, or when "
        "an event that carries it crosses a rank boundary.",
    files=["src/sst/core/*.h", "src/sst/core/*.cc", "src/sst/core/*/*.h", "src/sst/core/*/*.cc"],
    mech=[("serialize_order of every class", "src/sst/core/baseComponent.cc"), ("ImplementSerializable", "src/sst/core/serialization/serializable_base.h"),
          ("ComponentInfo::serialize_order", "src/sst/core/componentInfo.cc"), ("StatisticBase, statistics", "src/sst/core/statapi/statbase.h"), ("StandardMem requests", "src/sst/core/interfaces/stdMem.h"),
          ("SharedObjectData", "src/sst/core/shared/sharedObject.h")],
    technique="per-class coverage of data members by the unpacking pass of the serialisation function, with an enumerated list of transient members; path obligations for base classes")

TUS = "all"
LOAD = dict(extra=[VERIF + "/tool/witness/ser.cc", VERIF + "/tool/witness/handlers.cc", VERIF + "/tool/witness/data.cc", VERIF + "/tool/witness/shared.cc"], tests=False)

# classes whose objects are built anew on restart from other restored data
REBUILT = {
    "SST::CheckpointAction": "built by Simulation from the configuration",
    "SST::Exit": "built by Simulation; counts are taken from the restored components",
    "SST::SyncManager": "cannot be serialised",
    "SST::Config": "options are saved one by one (option table)",
    "SST::ConfigShared": "options are saved one by one (option table)",
    "SST::ConfigBase": "options are saved one by one (option table)",
}
# members that hold nothing that must outlive a checkpoint
TRANSIENT = {
    "SST::BaseComponent": {"port_modules_": "saved with the links", "explicitly_enabled_shared_stats_": "used while building", "explicitly_enabled_unique_stats_": "used while building", "enabled_all_stats_": "used while building"},
    "SST::Clock": {"handlers_": "registered again by the restored components", "groups_": "registered again", "groups_inactive_start_": "follows groups_", "sim_": "set by the constructor", "executing_": "within a tick", "empty_slots_": "within a tick"},
    "SST::Clock::Group": {"clock_": "set when the group is registered", "call_index_": "within a tick"},
    "SST::Component": {"clock_groups_": "saved in serialize_final"},
    "SST::ComponentInfo": {"params": "used while building", "port_modules_": "used while building"},
    "SST::ConfigComponent": {"graph": "set by the restored graph", "visited": "scratch of the partitioner"},
    "SST::ConfigGraph": {"cpt_orig_configgraph": "", "output": "set by the constructor", "link_rank_mask": "scratch of the partitioner", "nextComponentId": "used while building", "comps_by_name_": "used while building", "link_names_": "used while building"},
    "SST::Output": {"m_targetOutputRef": "set from the restored location"},
    "SST::Params": {"allowedKeys": "used while verifying", "verify_enabled": "used while verifying"},
    "SST::PortModule": {"id_": "set by the component"},
    "SST::RankSyncParallelSkip::comm_recv_pair": {"rbuf": "buffer", "activity_vec": "in flight within a sync", "local_size": "buffer", "recv_done": "within a sync", "req": "within a sync"},
    "SST::RankSyncParallelSkip::comm_send_pair": {"squeue": "registered again", "sbuf": "buffer", "remote_size": "buffer"},
    "SST::RankSyncSerialSkip::comm_pair": {"squeue": "registered again", "rbuf": "buffer", "local_size": "buffer", "remote_size": "buffer"},
    "SST::RealTimeManager": {"can_checkpoint_": "set again from the configuration", "can_initiate_interactive_": "set again", "signal_actions_": "registered again", "sig_alrm_": "registered again", "sig_usr_": "registered again", "sig_end_": "registered again"},
    "SST::Statistics::StatisticFieldsOutput": {"m_outputFieldInfoArray": "registered again", "m_outputFieldNameMap": "registered again", "m_highestFieldHandle": "registered again", "m_currentFieldStatName": "while outputting"},
    "SST::Statistics::StatisticGroup": {"stats": "registered again"},
    "SST::Statistics::StatisticProcessingEngine": {"start_time_map_": "registered again by the statistics", "stop_time_map_": "registered again by the statistics", "output_": "set by the constructor", "stat_default_groups_": "registered again"},
    "SST::Statistics::StatisticBase": {"stat_name_": "saved by serialize_impl<Statistic*>", "stat_sub_id_": "saved by serialize_impl<Statistic*>", "group_": "set when registered", "component_": "saved by serialize_impl<Statistic*>"},
    "SST::Statistics::StatisticOutput": {"m_lock": "lock"},
    "SST::Statistics::StatisticOutputHDF5": {"m_currentDataSet": "while outputting"},
    "SST::Shared::SharedObjectDataManager": {"locked": "restored shared objects ask for their data"},
}
# the same for all instances of a class template
TRANSIENT_T = [
    (r"^SST::Shared::Shared\w+<.*>::Data$", {"written": "complete before the first checkpoint", "change_set": "applied before the first checkpoint", "init": "not used after initialisation", "verify": "not used after initialisation"}),
    (r"^SST::Statistics::AccumulatorStatistic<", {k: "output handle, registered again" for k in ("h_sum", "h_sumsq", "h_count", "h_min", "h_max")}),
    (r"^SST::Statistics::HistogramStatistic<", {"m_Fields": "output handles, registered again"}),
    (r"^SST::Statistics::UniqueCountStatistic<", {"unique_count_field_": "output handle, registered again"}),
    (r"^SST::Statistics::StatisticOutput(CSV|JSON|HDF5|TextBase|Text|Txt|Console|CompressedCSV)\w*$", None),   # None: open files and rows under construction, by type
]
OUT_T = r"(_IO_FILE|gzFile|unsigned char \*|void \*|H5::|\bbool\b|ofstream|gzFile_s|std::vector<std::basic_string|basic_string|std::(unordered_)?map|std::set|StatisticInfo|\bint\b|unsigned)"
LOCKS = r"^(std::(recursive_|shared_|timed_)?mutex|SST::Core::ThreadSafe::\w*(Spinlock|Barrier|EmptyLock)|pthread_mutex_t|std::atomic_flag)"


def seropt(f): return last(f.q) == "serialize_order" and f.params and "serializer" in str(f.params[0][2])


def ser_classes(R):
    P = R.prog
    out = {}
    for f in P.funcs.values():
        if seropt(f) and not re.search(r"testElements|/tests/", f.file): out.setdefault(f.q.rsplit("::", 1)[0], f)
    if len(out) < 60: raise AnalysisError("serialisable classes not found")
    return out


def generic(c):
    """name of a class without template arguments"""
    d, s = 0, ""
    for ch in c:
        if ch == "<": d += 1
        if d == 0: s += ch
        if ch == ">": d -= 1
    return s


def readers(P):
    """member (class, name) -> functions that mention it"""
    out = {}
    for f in P.funcs.values():
        st = [f.d["body"], f.d.get("inits")]
        while st:
            x = st.pop()
            if isinstance(x, (list, tuple)):
                if len(x) > 2 and x[0] == "mem":
                    for y in x[1:]:
                        if isinstance(y, str): out.setdefault(y, set()).add(f)
                st.extend(x)
            elif isinstance(x, dict): st.extend(x.values())
    return out


def handled(g):
    """members of *this that the unpacking pass sets: by serialising them, by assignment, or by giving another function access"""
    got = set()

    def mem(t):
        for x in subterms(t):
            if x[0] == "mem": got.add(last(x[2]))
    for n in g.nodes():
        if n.kind == "call":
            for a in n.d["args"]:
                if is_term(a): mem(a)
            if n.d["obj"] is not None and is_term(n.d["obj"]) and last(n.d["q"]) not in ("mode",): mem(n.d["obj"])
        elif n.kind == "asg": mem(n.d["lhs"])
        elif n.kind == "init" and n.d.get("rhs") is not None and ("&" in str(n.d.get("type", "")) or "*" in str(n.d.get("type", ""))): mem(n.d["rhs"])
        elif n.kind in ("ctor", "new"):
            for a in n.d.get("args") or []:
                if is_term(a): mem(a)
    return got


def transient(c):
    t = dict(TRANSIENT.get(c, {}))
    for rx, d in TRANSIENT_T:
        if re.match(rx, c): return (t | d, False) if d is not None else (t, True)
    return t, False


def members(R):
    """Every data member of a serialisable class is restored by its serialisation function unless it is one of the transient
    members."""
    P = R.prog
    k = 0
    for c, f in sorted(ser_classes(R).items()):
        cl = P.classes.get(c)
        if cl is None or c in REBUILT or generic(c) in REBUILT: continue
        g = CFG(P, f, inline=lambda h, e, x: helper_inline(h, e, x) or h.d.get("cls") == f.d.get("cls") and last(h.q) != "serialize_order", assume=mode_assume("UNPACK"))
        R.cfg_used(g)
        got = handled(g)
        t, out = transient(c)
        fl = [(x[0], x[1]) for x in cl["fields"]]
        miss = [(n, ty) for n, ty in fl if n not in got and n not in t and not re.match(LOCKS, ty)]
        if out: miss = [(n, ty) for n, ty in miss if not re.search(OUT_T, ty)]
        # a transient member may have been renamed
        gone = len([n for n in TRANSIENT.get(c, {}) if n not in {x for x, _ in fl}])
        if miss and gone:
            rename = miss[:gone]
            miss = miss[gone:]
        for n, ty in fl:
            if n == "" or n in t: continue
            bad = (n, ty) in miss
            k += 1
            if bad and not used(P, c, n, f): bad = False
            R.ob("members", f"{short(c)}::{n}", not bad, f"{c}::{n} is not restored: {f.q} neither serialises nor sets it", f.where())
    if k < 300: raise AnalysisError(f"only {k} members found")


def short(c): return c if len(c) < 90 else c[:87] + "..."


def used(P, c, n, f):
    """is the member mentioned outside constructors, the destructor and the serialisation functions"""
    global _RD
    try: rd = _RD
    except NameError: rd = _RD = readers(P)
    fs = rd.get(f"{c}::{n}", set()) | rd.get(f"{generic(c)}::{n}", set())
    own = last(generic(c))
    return not fs or any(last(generic(h.q)) not in (own, "~" + own, "serialize_order") for h in fs)


def bases(R):
    """The serialisation function of a derived class runs that of its base class, in every mode and on every path."""
    P = R.prog
    SC = ser_classes(R)
    k = 0
    for c, f in sorted(SC.items()):
        cl = P.classes.get(c)
        if cl is None or c in REBUILT: continue
        need = []

        def up(x, seen):
            for b in (P.classes.get(x) or {}).get("bases", []):
                q = b[1] if b[1] in SC or b[1] in P.classes else b[0]
                if q in seen: continue
                seen.add(q)
                if (q in SC or generic(q) in SC) and substance(P, SC, q): need.append(q)
                up(q, seen)
        up(c, set())
        for b in need:
            for m in ("SIZER", "PACK", "UNPACK"):
                k += 1
                R.ob("bases", f"{short(c)}:{short(b)}:{m}", runs(P, SC, f, b, m), f"{c} does not serialise its base class {b} in {m} mode", f.where())
    if k < 60: raise AnalysisError(f"only {k} base classes found")


_GR, _RUN = {}, {}


def gof(P, f, m):
    k = (f.id, m)
    if k not in _GR: _GR[k] = CFG(P, f, inline=lambda h, e, x: helper_inline(h, e, x) and last(h.q) != "serialize_order", assume=mode_assume(m) if m else None)
    return _GR[k]


def runs(P, SC, f, b, m):
    """does every path of f run the serialisation function of class b on this"""
    k = (f.id, b, m)
    if k in _RUN: return _RUN[k]
    _RUN[k] = False
    g = gof(P, f, m)

    def ev(n):
        if n.kind != "call" or last(n.d["q"]) != "serialize_order" or n.d["obj"] is None or noctx(n.d["obj"])[0] != "this": return False
        if generic(n.d["q"].rsplit("::", 1)[0]) == generic(b): return True
        h = P.funcs.get(n.d.get("id"))
        return h is not None and h is not f and runs(P, SC, h, b, m)
    _RUN[k] = g.search([g.entry], lambda n: n.kind == "exit", avoid=lambda n: ev(n) or is_fatal(n)) is None
    return _RUN[k]


def substance(P, SC, c):
    """does the serialisation function of c itself write anything"""
    f = SC.get(c) or SC.get(generic(c))
    return f is not None and any((l := label(n)) is not None and not (l[0] == "c" and noctx(n.d["obj"])[0] == "this") for n in gof(P, f, None).nodes())


def own_class(R):
    """An object is recognised and rebuilt as its own class, not as another one."""
    P = R.prog
    k = 0
    for f in P.funcs.values():
        if last(f.q) not in ("cls_id", "serialization_name") or f.params: continue
        c = f.q.rsplit("::", 1)[0]
        if c.startswith(S) or "serializable_builder" in c: continue
        for q in raw_names(f):
            m = re.search(r"serializable_builder_impl<(.*)>::static_(?:cls_id|name)$", q)
            if not m: continue
            k += 1
            R.ob("own class", f"{short(c)}:{last(f.q)}", norm(m.group(1)) == norm(c), f"objects of {c} are restored as objects of {m.group(1)}", f.where())
    if k < 60: raise AnalysisError(f"only {k} class identifications found")


def raw_names(f):
    st = [f.d["body"]]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            if len(x) > 2 and x[0] == "call" and isinstance(x[2], str): yield x[2]
            st.extend(x)


def norm(c): return re.sub(r"\s|, void|\bclass |\bstruct ", "", c)


def unset(R):
    """The constructor that restoring uses leaves no member of scalar type unset that the serialisation function does not set."""
    P = R.prog
    k = 0
    for c, f in sorted(ser_classes(R).items()):
        cl = P.classes.get(c)
        if cl is None: continue
        t, out = transient(c)
        g = None
        for fl in cl["fields"]:
            n, ty, ln, init, size = fl[:5]
            if not size or init or n == "" or n not in t: continue
            ctors = [h for h in P.funcs.values() if h.q == c + "::" + last(generic(c)) and not h.params]
            if not ctors: continue
            k += 1
            gg = CFG(P, ctors[0])
            sets = lambda m: m.kind in ("asg", "init") and is_term(m.d.get("lhs") or ()) and n in {last(x[2]) for x in subterms(m.d["lhs"]) if x[0] == "mem"}
            R.ob("unset", f"{short(c)}::{n}", any(sets(m) for m in gg.nodes()), f"{c}::{n} is transient but the default constructor leaves it unset", ctors[0].where())


# classes that save some members only in cases of their own (restarted or not, null statistics, loops over the elements)
CASES = {"SST::BaseComponent", "SST::ComponentInfo", "SST::ConfigComponent", "SST::ConfigGraph", "SST::Output", "SST::Params", "SST::PollingLinkQueue", "SST::RNG::MersenneRNG", "SST::Statistics::StatisticBase"}


def unconditional(R):
    """No path through the unpacking pass leaves out a member that other paths restore, except in the classes that distinguish
    cases."""
    P = R.prog
    k = 0
    for c, f in sorted(ser_classes(R).items()):
        cl = P.classes.get(c)
        if cl is None or c in CASES or c in REBUILT or c.startswith("SST::Shared::"): continue
        g = CFG(P, f, inline=lambda h, e, x: helper_inline(h, e, x) or h.d.get("cls") == f.d.get("cls") and last(h.q) != "serialize_order", assume=mode_assume("UNPACK"))
        by = {}
        for n in g.nodes():
            for x in handled(One(n)): by.setdefault(x, set()).add(n.nid)
        heads = {h.nid for h, *_ in loop_heads(g)}
        for fl in cl["fields"]:
            s = by.get(fl[0])
            if not s: continue
            k += 1
            inloop = any(s & set(L) for h, body, leave, L in loop_heads(g))
            p = None if inloop else g.search([g.entry], lambda n: n.kind == "exit", avoid=lambda n: n.nid in s or is_fatal(n))
            R.ob("unconditional", f"{short(c)}::{fl[0]}", p is None, f"{c}::{fl[0]} is restored on some paths only", f.where())
    if k < 200: raise AnalysisError(f"only {k} members found")


class One:
    def __init__(self, n): self.n = n
    def nodes(self): return [self.n]


CLAUSES = [unconditional, members, bases, own_class]
