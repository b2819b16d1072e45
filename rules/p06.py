"""P06: cross-partition event exchange: every event sent across a partition is delivered exactly once, unchanged, at its time."""
from sa.q import *

PROP = dict(
    title="Every event sent between ranks or threads is delivered exactly once",
    statement="Every event put on a link whose other end is on another rank or thread is handed to that end exactly once, at its delivery time, however many or "
              "large the events are: senders and receivers agree on message tags, sizes and on the switch to a larger buffer, no buffer is read or reused before "
              "its transfer has completed, and every partner and every thread takes part. The same holds for data sent in the init and complete phases.",
    over=["inputs", "schedules"], text="all event populations and sizes, partitions, numbers of ranks and threads and orders of completion",
    why="The test suite runs its models on one rank; message-size switches, completion orders and the hand-off between master and slave threads depend on event "
        "volume and timing.",
    files=["src/sst/core/sync/rankSyncSerialSkip.cc", "src/sst/core/sync/rankSyncParallelSkip.cc", "src/sst/core/sync/syncQueue.cc", "src/sst/core/sync/syncManager.cc",
           "src/sst/core/sync/threadSyncSimpleSkip.cc", "src/sst/core/objectComms.h", "src/sst/core/threadsafe.h", "src/sst/core/simulation.cc"],
    mech=[("RankSyncSerialSkip::exchange, exchangeLinkUntimedData", "src/sst/core/sync/rankSyncSerialSkip.cc"), ("RankSyncParallelSkip::exchange_master, exchange_slave", "src/sst/core/sync/rankSyncParallelSkip.cc"),
          ("RankSyncQueue::getData", "src/sst/core/sync/syncQueue.cc"), ("ThreadSyncSimpleSkip::before, processLinkUntimedData", "src/sst/core/sync/threadSyncSimpleSkip.cc"),
          ("RankSync::exchangeLinkInfo", "src/sst/core/sync/syncManager.cc"), ("Comms::send, Comms::recv", "src/sst/core/objectComms.h")],
    technique="protocol pairing by abstract evaluation (tags, sizes, modes of matching sends and receives), path obligations, loop coverage")

TUS = ["sync/*.cc", "simulation.cc", "main.cc"]
ASSUMPTIONS = ["MPI delivers messages between two ranks with the same tag in order and completes a request only when its buffer may be reused",
               "the serializer reproduces the events it packed (P11)"]

SER, PAR = "RankSyncSerialSkip", "RankSyncParallelSkip"


def fn(R, q): return R.need(R.prog.find(q, False), q)[0]


def fin(t, *names): return any(fmatch(x, n) for n in names for x in list(fields_in(t)) + list(globs_in(t)))


def own(f):
    """expand helpers of the same class or file"""
    cls = f.sq.rsplit("::", 1)[0]
    a, b = inline_class(last(cls), "RankSync", "ThreadSync"), helpers(f)
    return lambda h, e, c: not ("v" in e[7] if e[0] == "call" else False) and (a(h, e, c) or b(h, e, c)) and last(h.sq) not in ("exchange_slave", "deserializeMessage", "sendUntimedData_sync")


def call(n, *names): return n.kind == "call" and (n.d["q"] in names or last(n.d["q"]) in names)


def bufcmp(at):
    """(is it the room test, value when the data do not fit): remote_size < hdr->buffer_size"""
    if at[0] != "<" or any(len(summands(x)) != 1 or x[0] == "bin" for x in at[1:]): return None
    if fin(at[1], "remote_size") and fin(at[2], "Header::buffer_size"): return True
    if fin(at[2], "remote_size") and fin(at[1], "Header::buffer_size"): return False
    return None


def room(big):
    def f(at, ctx=None):
        r = bufcmp(at)
        if r is True: return big
        if r is False: return None if big is None else (not big if False else None)
        return None
    return f


def is_hdr_size(t): return t[0] == "sizeof" and t[1].endswith("RankSyncQueue::Header")


def is_buf_size(t): return is_field(t, "Header::buffer_size")


def normtag(t):
    """tag with the destination thread (sender) and the own thread (receiver) replaced by the same name"""
    if not isinstance(t, tuple): return t
    if t[0] == "mem" and (fmatch(t[2], "RankInfo::thread") and fin(t, "to_rank", "comm_send_pair::to_rank", "pair::first") or last(t[2]) == "local_thread"): return ("thread",)
    if t[0] == "bin" and t[1] in ("*", "+"):
        a, b = normtag(t[2]), normtag(t[3])
        if repr(a) > repr(b): a, b = b, a
        if const(a) is not None and const(b) is not None: return ("lit", str(const(a) * const(b) if t[1] == "*" else const(a) + const(b)))
        return ("bin", t[1], a, b)
    c = const(t)
    if c is not None: return ("lit", str(c))
    return t


FUNCS = [(SER, "exchange"), (SER, "exchangeLinkUntimedData"), (PAR, "exchange_master"), (PAR, "exchangeLinkUntimedData")]


def tags(R):
    """In every exchange function: data that fit the receiver's buffer go out in one message, data that do not fit are announced by a
    message with only the header, marked, and follow in a second one with another tag; the receives use the same tags; a partner's
    known buffer size is updated to what the receiver will allocate, and both start out equal."""
    P = R.prog
    for cls, m in FUNCS:
        f = fn(R, f"SST::{cls}::{m}")
        who = f"{cls}::{m}"
        rec = {True: [], False: []}
        for big in (True, False):
            def dec(at, ctx=None, big=big):
                if at[0] == "<" and fin(at[1], "remote_size") and fin(at[2], "Header::buffer_size"): return big
                if at[0] == "<" and fin(at[2], "remote_size") and fin(at[1], "Header::buffer_size"): return not big
                return None
            g = CFG(P, f, inline=own(f))

            def on(n, e, v):
                if call(n, "MPI_Isend", "MPI_Send"):
                    a = n.d["args"]
                    b = v(a[0])
                    mode = [x for k, x in e.items() if k[0] == "mem" and fmatch(k[2], "Header::mode") and (v(k[1]) == b or k[1] == a[0])]
                    rec[big].append((v(a[1]), normtag(v(a[4])), v(a[3]), const(mode[0]) if mode else None, n, b))
            walk(g, dec, on=on, rel=slice_of(g, [a for n in g.nodes() if call(n, "MPI_Isend", "MPI_Send") for a in n.d["args"][:5]], lambda l: is_field(l, "Header::mode")))
            R.cfg_used(g)
        H = {t for c, t, d, mo, n, b in rec[False]}
        data = [x for x in rec[False] if is_buf_size(x[0])]
        R.ob("tags", who + ":fits", bool(data) and len(data) == len(rec[False]), "data that fit the receiver's buffer are not sent whole in one message", rec[False][0][4].where() if rec[False] else f.where())
        R.ob("tags", who + ":fits:tag", len(H) == 1, f"messages that fit go out with tags {', '.join(sorted(map(show, H)))}", f.where())
        for c, t, d, mo, n, b in rec[False]: R.ob("tags", who + ":fits:mode", mo is not None and mo != 1, "a message that holds all data is marked as an announcement or not marked at all", n.where())
        ann = [x for x in rec[True] if is_hdr_size(x[0])]
        dat = [x for x in rec[True] if is_buf_size(x[0])]
        R.ob("tags", who + ":large", bool(ann) and bool(dat) and len(ann) + len(dat) == len(rec[True]), "data that do not fit are not sent as an announcement followed by the data", f.where())
        for c, t, d, mo, n, b in ann:
            R.ob("tags", who + ":announce:tag", {t} == H, f"the announcement is sent with tag {show(t)}, other messages with {', '.join(map(show, H))}", n.where())
            R.ob("tags", who + ":announce:mode", mo == 1, "the announcement is not marked as such", n.where())
        D = {t for c, t, d, mo, n, b in dat}
        R.ob("tags", who + ":data:tag", len(D) == 1 and not (D & H), f"large data use tag {', '.join(map(show, D))}, which receives of announcements match", f.where())
        for x in rec[True] + rec[False]: R.ob("tags", who + ":dest", is_partner(x[2]), f"a message is sent to rank {show(x[2])}", x[4].where())
        # receives
        g = CFG(P, f, inline=own(f))
        ir, rr = [], []
        walk(g, lambda at, ctx=None: None, on=lambda n, e, v: (ir if call(n, "MPI_Irecv") else rr if call(n, "MPI_Recv") else []).append((n, tuple(v(x) for x in n.d["args"]))) if call(n, "MPI_Irecv", "MPI_Recv") else None,
             rel=slice_of(g, [a for n in g.nodes() if call(n, "MPI_Irecv", "MPI_Recv") for a in n.d["args"][1:5]]))
        R.ob("tags", who + ":receives", bool(ir) and bool(rr), "an exchange posts no receives", f.where())
        for n, a in ir:
            R.ob("tags", who + ":irecv:tag", {normtag(a[4])} == H, f"the receive is posted with tag {show(normtag(a[4]))}, messages are sent with {', '.join(map(show, H))}", n.where())
            R.ob("tags", who + ":irecv:buffer", is_field(a[0], "rbuf") and is_field(a[1], "local_size"), f"the receive is posted for {show(a[0])} with room for {show(a[1])}", n.where())
            R.ob("tags", who + ":irecv:source", is_partner(a[3]), f"the receive is posted for rank {show(a[3])}", n.where())
        for n, a in rr:
            R.ob("tags", who + ":recv:tag", {normtag(a[4])} == D, f"large data are received with tag {show(normtag(a[4]))}, sent with {', '.join(map(show, D))}", n.where())
            R.ob("tags", who + ":recv:source", is_partner(a[3]), f"large data are received from rank {show(a[3])}", n.where())
        # what follows the room test
        for big in (True, False):
            gb = CFG(P, f, inline=own(f), assume=lambda at, ctx=None, big=big: None if bufcmp(at) is None else (big == bufcmp(at)))
            cmpn = [n for n in g.nodes() if n.kind == "br" and any(c is not None and is_term(c) and bufcmp(norm_cond(c, True)[0]) is not None for _, c, _ in n.succ)]
            R.ob("tags", who + ":roomtest", bool(cmpn), "the sender does not compare the data with the receiver's buffer", f.where())
            mode = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "Header::mode")
            datas = lambda n: call(n, "MPI_Isend") and is_buf_size(n.d["args"][1])
            anns = lambda n: call(n, "MPI_Isend") and is_hdr_size(n.d["args"][1])
            gets = lambda n: call(n, "getData") or n is gb.exit or n.kind == "call" and last(n.d["q"]) == "try_remove" and fin(n.d["obj"], "send_queue")
            ms = [n for n in gb.nodes() if mode(n)]
            always(R, "tags", who + f":sent:{big}", gb, datas, "data can be left unsent", frm=ms, to=gets)
            if big:
                always(R, "tags", who + ":announced", gb, anns, "large data can go out unannounced", frm=ms, to=lambda n: gets(n) or datas(n))
                always(R, "tags", who + ":remembered", gb, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "remote_size") and is_buf_size(n.d["rhs"]), "the receiver's new buffer size is not remembered", frm=ms, to=gets)
            else:
                never(R, "tags", who + ":unchanged", gb, lambda n: n.kind == "asg" and is_field(n.d["lhs"], "remote_size"), "the receiver's buffer size is changed although the data fit")
            never(R, "tags", who + f":once:{big}", gb, datas, "data can be sent twice", frm=[n for n in gb.nodes() if datas(n)], avoid=gets)
    for cls in (SER, PAR):
        f = fn(R, f"SST::{cls}::registerLink")
        g = CFG(P, f, inline=own(f))
        R.cfg_used(g)
        s = {w: [n for n in g.nodes() if n.kind == "asg" and is_field(n.d["lhs"], w)] for w in ("remote_size", "local_size", "rbuf")}
        vals = {const(expand(g.T, n.d["rhs"])) for w in ("remote_size", "local_size") for n in s[w]} | {const(expand(g.T, n.d["rhs"][4])) if n.d["rhs"][0] == "new" and len(n.d["rhs"]) > 4 else None for n in s["rbuf"]}
        R.ob("tags", cls + ":initial", all(s.values()) and len(vals) == 1 and None not in vals, f"the sender's idea of the receiver's buffer, its recorded size and its real size differ at the start ({', '.join(map(str, vals))})", f.where())


def is_partner(t): return is_field(t, "pair::first") or fin(t, "RankInfo::rank") and fin(t, "to_rank") or is_field(t, "remote_rank")


def buffers(R):
    """A receive buffer is interpreted only after its receive has completed, a queue's buffer is released only after its sends have
    completed; a buffer that is too small for announced data is replaced by one of the announced size before the data are received,
    its recorded size is updated, and what is unpacked is the part after the header of
    the buffer that is then current."""
    P = R.prog
    for cls, m in FUNCS:
        f = fn(R, f"SST::{cls}::{m}")
        who = f"{cls}::{m}"
        g = CFG(P, f, inline=own(f), exact=True)
        waits = [n for n in g.nodes() if call(n, "MPI_Waitall", "MPI_Wait", "MPI_Test")]
        root = lambda t: {("mem", "req") if x[0] == "mem" else x for x in subterms(t) if x[0] == "var" or x[0] == "mem" and last(x[2]) == "req"}

        def done(reqs):
            """node predicate: waits for one of these requests"""
            return lambda n: call(n, "MPI_Waitall") and root(n.d["args"][1]) & reqs or call(n, "MPI_Wait") and root(n.d["args"][0]) & reqs

        def tested(reqs):
            flags = {x for n in waits if call(n, "MPI_Test") and {y for y in root(n.d["args"][0]) if y[0] == "mem"} & reqs for x in subterms(n.d["args"][1]) if x[0] == "var"}

            def e(a, s, c, p):
                if c is None or not is_term(c): return True
                at, pol = norm_cond(c, p)
                return not (at[0] in ("nz", "pos") and at[1] in flags and pol or at[0] == "==" and any(x in flags for x in at[1:]) and any(const(x) == 0 for x in at[1:]) and not pol)
            return e
        irecv = [n for n in g.nodes() if call(n, "MPI_Irecv")]
        isend = [n for n in g.nodes() if call(n, "MPI_Isend")]
        reqr = set().union(*[root(n.d["args"][6]) for n in irecv]) if irecv else set()
        reqs = set().union(*[root(n.d["args"][6]) for n in isend]) if isend else set()
        R.ob("buffers", who + ":requests", not ({x for x in reqr if is_reqarray(g, x)} & {x for x in reqs if is_reqarray(g, x)}), "sends and receives share request slots", f.where())
        rbufs = rvars(g)

        def reads(n):
            """reads the contents of a receive buffer"""
            if n.kind == "br": return any(c is not None and is_term(c) and any(x[0] == "mem" and fmatch(x[2], "Header::mode") and (x[1] in rbufs or fin(x[1], "rbuf")) for x in subterms(c)) for _, c, _ in n.succ)
            if not isinstance(n.d, dict): return False
            for k in ("rhs", "val"):
                t = n.d.get(k)
                if is_term(t) and any(x[0] == "mem" and fmatch(x[2], "Header::mode") and (x[1] in rbufs or fin(x[1], "rbuf")) for x in subterms(t)): return True
            if call(n, "start_unpacking", "deserializeMessage") or call(n, "try_insert", "insert") and n.d["obj"] is not None and fin(n.d["obj"], "deserialize_queue"): return True
            return False
        mem = lambda rs: {x for x in rs if x[0] == "mem"} | {x for x in rs if is_reqarray(g, x)}
        never(R, "buffers", who + ":received", g, reads, "a receive buffer is interpreted before its receive has completed", frm=irecv, avoid=done(mem(reqr)), edge=tested(mem(reqr)))
        clr = lambda n: call(n, "clear") and n.d["obj"] is not None and fin(n.d["obj"], "squeue") or call(n, "getData")
        never(R, "buffers", who + ":sent", g, lambda n: call(n, "clear") and n.d["obj"] is not None and fin(n.d["obj"], "squeue"), "a send queue is reset before its sends have completed", frm=isend, avoid=done(mem(reqs)))
        always(R, "buffers", who + ":sends_done", g, done(mem(reqs)), "an exchange can end before its sends have completed", frm=isend)
        # room
        ln = [n for n in g.nodes() if n.kind == "decl" or n.kind == "init"]
        for rs, k, mp in ((reqs, 2, ("comm_map", "comm_send_map")), (reqr, 1, ("comm_map", "comm_recv_map"))):
            for x in rs:
                if not is_reqarray(g, x): continue
                d = expand(g.T, x)
                ini = [n.d["rhs"] for n in g.nodes() if n.kind == "init" and n.d["var"] == x and n.d.get("rhs") is not None]
                size = (ini[0] if ini else d)
                R.ob("buffers", who + ":slots", size_factor(size, mp) >= k, f"{show(size)} has too few request slots for {k} per partner", f.where())
        # resize
        for small in (True, False):
            def dec(at, ctx=None, small=small):
                if at[0] == "==" and any(fin(x, "Header::mode") for x in at[1:]) and any(const(x) == 1 for x in at[1:]): return True
                if at[0] == "<" and fin(at[1], "local_size") and fin(at[2], "Header::buffer_size"): return small
                if at[0] == "<" and fin(at[2], "local_size") and fin(at[1], "Header::buffer_size"): return not small
                if at[0] in ("nz", "pos") and fin(at[1], "Header::mode"): return True
                return None
            got = []
            ge = CFG(P, f, inline=own(f))

            def on(n, e, v):
                if call(n, "MPI_Recv"):
                    rb = [x for k, x in e.items() if is_field(k, "rbuf")]
                    ls = [x for k, x in e.items() if is_field(k, "local_size")]
                    got.append((v(n.d["args"][0]), v(n.d["args"][1]), rb[0] if rb else None, ls[0] if ls else None, n))
            walk(ge, dec, on=on, rel=slice_of(ge, [a for n in ge.nodes() if call(n, "MPI_Recv") for a in n.d["args"][:2]], lambda l: is_field(l, "rbuf") or is_field(l, "local_size")))
            R.cfg_used(ge)
            R.ob("buffers", who + f":large:{small}", bool(got), "announced data are never received", f.where())
            for b, cnt, rb, ls, n in got:
                if small and rb is None: R.ob("buffers", who + ":grown", False, "data larger than the buffer are received into it", n.where()); continue
                if small: R.ob("buffers", who + ":grown", b == rb and rb[0] == "new" and len(rb) > 4 and hdr_size(rb[4]) and ls is not None and hdr_size(ls), f"announced data are received into {show(b)}, its recorded size is {show(ls) if ls else 'unchanged'}", n.where())
                R.ob("buffers", who + ":room", hdr_size(cnt) or is_field(cnt, "local_size") or ls is not None and cnt == ls, f"{show(cnt)} bytes are received", n.where())
        # announced data are received before they are unpacked
        ann = CFG(P, f, inline=own(f), assume=lambda at, ctx=None: True if at[0] == "==" and any(fin(x, "Header::mode") for x in at[1:]) and any(const(x) == 1 for x in at[1:]) else None)
        unp = lambda n: call(n, "start_unpacking", "deserializeMessage") or call(n, "try_insert", "insert") and n.d["obj"] is not None and fin(n.d["obj"], "deserialize_queue")
        tests = [n for n in g.nodes() if False]
        never(R, "buffers", who + ":followed", ann, unp, "announced data are unpacked before they are received", avoid=lambda n: call(n, "MPI_Recv"))
        present(R, "buffers", who + ":unpacks", ann, unp, "received data are not unpacked")
    # unpacking
    for q in (f"SST::{SER}::exchange", f"SST::{SER}::exchangeLinkUntimedData", f"SST::{PAR}::exchangeLinkUntimedData", f"SST::{PAR}::deserializeMessage"):
        f = fn(R, q)
        g = CFG(P, f, inline=own(f), terms=Terms(P, keep=True))
        got = []

        def on(n, e, v):
            if call(n, "start_unpacking"):
                rb = [x for k, x in e.items() if is_field(k, "rbuf")]
                got.append((v(n.d["args"][0]), v(n.d["args"][1]), rb, n))
        walk(g, lambda at, ctx=None: None, on=on, rel=slice_of(g, [a for n in g.nodes() if call(n, "start_unpacking") for a in n.d["args"]], lambda l: is_field(l, "rbuf")))
        R.cfg_used(g)
        R.ob("buffers", q + ":unpack", bool(got), "received data are not unpacked", f.where())
        for b, sz, rb, n in got:
            base = after_header(b)
            R.ob("buffers", q + ":start", base is not None and (base in rb if rb else is_field(base, "rbuf")), f"unpacking starts at {show(b)}, not behind the header of the current buffer", n.where())
            s = summands(sz)
            R.ob("buffers", q + ":length", len(s) == 2 and any(g_ == 1 and hdr_size(x) for g_, x in s) and any(g_ == -1 and is_hdr_size(x) for g_, x in s), f"{show(sz)} bytes are unpacked", n.where())


def hdr_size(t): return any(x[0] == "mem" and fmatch(x[2], "Header::buffer_size") for x in subterms(t)) and len(summands(t)) == 1


def after_header(t):
    """buffer whose part after the header t addresses"""
    if t[0] == "addr" and t[1][0] == "idx" and is_hdr_size(t[1][2]): return t[1][1]
    s = summands(t)
    if len(s) == 2 and all(g == 1 for g, _ in s) and any(is_hdr_size(x) for _, x in s): return [x for _, x in s if not is_hdr_size(x)][0]
    return None


def is_reqarray(g, x):
    if x[0] != "var": return False
    d = [n for n in g.nodes() if n.kind in ("init", "decl") and n.d["var"] == x]
    return any("ompi_request" in str(n.d.get("type")) or "MPI_Request" in str(n.d.get("type")) for n in d)


def size_factor(t, maps):
    """c for a size of c times (the number of entries of the map)"""
    best = 0
    for x in subterms(t):
        if x[0] == "bin" and x[1] == "*":
            c = [const(y) for y in x[2:] if const(y) is not None]
            if c and any(has_call(y, "size") and fin(y, *maps) for y in x[2:]): best = max(best, c[0])
        if x[0] == "call" and last(x[1]) == "size" and fin(x, *maps): best = max(best, 1)
        if x[0] == "bin" and x[1] == "+" and all(has_call(y, "size") and fin(y, *maps) for y in x[2:]): best = max(best, 2)
    return best


def rvars(g):
    """local pointers to the receive buffer, transitively"""
    out = set()
    ch = True
    while ch:
        ch = False
        for n in g.nodes():
            if n.kind not in ("init", "asg"): continue
            v = n.d.get("lhs") or n.d.get("var")
            if v[0] != "var" or v in out or n.d.get("rhs") is None: continue
            r = n.d["rhs"]
            if is_field(r, "rbuf") or r in out or r[0] in ("cast", "addr") and any(x in out for x in subterms(r)): out.add(v); ch = True
    return out


def partners(R):
    """Every partner takes part in every exchange: its queue is packed and sent, a receive is posted for it, its data are unpacked,
    and its queue reset; a partner is registered with the key, rank and thread it is looked up with, once."""
    P = R.prog
    for cls, m in ((SER, "exchange"), (SER, "exchangeLinkUntimedData"), (PAR, "exchangeLinkUntimedData")):
        f = fn(R, f"SST::{cls}::{m}")
        g = CFG(P, f, inline=own(f))
        sm, rm = ("comm_map", "comm_map") if cls == SER else ("comm_send_map", "comm_recv_map")
        for mp, nm, ev in ((sm, "packed", lambda n: call(n, "getData")), (sm, "sent", lambda n: call(n, "MPI_Isend") and is_buf_size(n.d["args"][1])), (rm, "posted", lambda n: call(n, "MPI_Irecv")),
                           (rm, "unpacked", lambda n: call(n, "start_unpacking")), (sm, "reset", lambda n: call(n, "clear") and n.d["obj"] is not None and fin(n.d["obj"], "squeue"))):
            for_each(R, "partners", f"{cls}::{m}:{nm}", g, lambda c, mp=mp: fin(c, mp), ev, f"not every partner's data are {nm}")
        early = lambda at, ctx=None: (False if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 0 else True if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else None)
        g0 = CFG(P, f, inline=own(f), assume=early)
        always(R, "partners", f"{cls}::{m}:runs", g0, lambda n: call(n, "MPI_Allreduce"), "an exchange can end without its work on the master thread")
    f = fn(R, f"SST::{PAR}::exchange_master")
    g = CFG(P, f, inline=own(f))
    for mp, nm, ev in (("comm_recv_map", "posted", lambda n: call(n, "MPI_Irecv")), ("comm_send_map", "reset", lambda n: call(n, "clear") and n.d["obj"] is not None and fin(n.d["obj"], "squeue")),
                       ("comm_send_map", "queued", lambda n: call(n, "try_insert", "insert") and fin(n.d["obj"], "serialize_queue"))):
        for_each(R, "partners", f"{PAR}::exchange_master:{nm}", g, lambda c, mp=mp: fin(c, mp), ev, f"not every partner's data are {nm}")
    # untimed counters
    for cls in (SER, PAR):
        f = fn(R, f"SST::{cls}::exchangeLinkUntimedData")
        g = CFG(P, f, inline=own(f))
        red = [n for n in g.nodes() if call(n, "MPI_Allreduce")]
        R.ob("partners", cls + ":untimed:reduce", len(red) >= 1 and all("ompi_mpi_op_sum" in repr(n.d["args"]) and any(param_idx(f, expand(g.T, x)) == 1 or any(param_idx(f, y) == 1 for y in subterms(expand(g.T, x))) for x in subterms(n.d["args"][0])) for n in red),
             "the number of messages in the init or complete phase is not summed over the ranks", f.where())
        outs = {x for n in red for x in subterms(n.d["args"][1]) if x[0] == "var"}
        st = [n for n in g.nodes() if (n.kind == "asg" and param_idx(f, n.d["lhs"]) == 1 and n.d["rhs"] in outs) or n.kind == "call" and last(n.d["q"]) in ("operator=", "store") and n.d["obj"] is not None and param_idx(f, n.d["obj"]) == 1 and n.d["args"][0] in outs]
        R.ob("partners", cls + ":untimed:result", bool(st), "the total number of messages is not reported back", f.where())
    # registration
    for cls in (SER, PAR):
        f = fn(R, f"SST::{cls}::registerLink")
        mp = "comm_map" if cls == SER else "comm_send_map"
        key = (lambda t: is_field(t, "RankInfo::rank") and any(param_idx(f, x) == 0 for x in subterms(t))) if cls == SER else (lambda t: param_idx(f, t) == 0)
        for known in (True, False):
            def dec(at, ctx=None, known=known):
                if at[0] == "==" and any(has_call(x, "count") for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return not known
                if at[0] in ("nz", "pos") and has_call(at[1], "count"): return known
                if at[0] == "==" and any(has_call(x, "find") for x in at[1:]) and any(has_call(x, "end") for x in at[1:]): return not known
                return None
            g = CFG(P, f, inline=own(f))
            rets = []
            made = []
            for n in g.nodes():
                if not isinstance(n.d, dict): continue
                for t in [n.d.get("lhs"), n.d.get("rhs"), n.d.get("obj")] + list(n.d.get("args") or ()):
                    if not is_term(t): continue
                    for x in subterms(t):
                        if x[0] == "idx" and any(is_field(x[1], z) for z in ("comm_map", "comm_send_map", "comm_recv_map", "link_maps")):
                            k = expand(g.T, x[2])
                            ok = key(k) if is_field(x[1], mp) else (is_field(k, "RankInfo::rank") and any(param_idx(f, y) == 0 for y in subterms(k))) if is_field(x[1], "link_maps") else recv_key(f, k)
                            R.ob("partners", cls + ":key", ok, f"{show(x[1])} is used with the key {show(k)}", n.where())
            walk(g, dec, on=lambda n, e, v: rets.append((n, v(n.d["val"]))) if n.kind == "ret" else made.append(n) if n.kind == "new" and n.d["type"].endswith("RankSyncQueue") else None)
            R.cfg_used(g)
            R.ob("partners", f"{cls}:queue:{known}", bool(made) != known, "a partner's queue is replaced although it exists" if known else "a new partner gets no queue", f.where())
            for n, v in rets: R.ob("partners", f"{cls}:returned:{known}", (is_field(v, "squeue") and fin(v, mp)) or not known and any(x[0] == "new" and x[1].endswith("RankSyncQueue") for x in subterms(v)), f"the link is given the queue {show(v)}", n.where())
            ga = CFG(P, f, inline=own(f), assume=dec)
            for what in (("send_count",) if cls == PAR else ()) + (("recv_count",) if cls == PAR else ()):
                inc = lambda n, what=what: n.kind == "asg" and n.d["op"] in ("++", "+=") and fin(n.d["lhs"], what)
                if known: never(R, "partners", f"{cls}:{what}:known", ga, inc, f"{what} counts a partner twice")
                else:
                    always(R, "partners", f"{cls}:{what}:new", ga, inc, f"{what} does not count a new partner")
                    never(R, "partners", f"{cls}:{what}:once", ga, inc, f"{what} counts a new partner twice", frm=[n for n in ga.nodes() if inc(n)])
            if not known and cls == PAR:
                for what, ok in (("to_rank", lambda t: param_idx(f, t) == 0), ("remote_rank", lambda t: is_field(t, "RankInfo::rank") and any(param_idx(f, x) == 0 for x in subterms(t))),
                                 ("local_thread", lambda t: is_field(t, "RankInfo::thread") and any(param_idx(f, x) == 1 for x in subterms(t)))):
                    ss = [n for n in ga.nodes() if n.kind == "asg" and is_field(n.d["lhs"], what) or n.kind == "call" and last(n.d["q"]) == "operator=" and n.d["obj"] is not None and is_field(n.d["obj"], what)]
                    R.ob("partners", f"{cls}:{what}", bool(ss) and all(ok(expand(ga.T, n.d["rhs"] if n.kind == "asg" else n.d["args"][0])) for n in ss), f"{what} of a new partner is {', '.join(show(n.d['rhs'] if n.kind == 'asg' else n.d['args'][0]) for n in ss) or 'not set'}", f.where())
                rc = [n for n in ga.nodes() if n.kind == "asg" and fin(n.d["lhs"], "recv_count") and n.d["op"] in ("++", "+=")]
                for n in rc: R.ob("partners", f"{cls}:recv_count:thread", any(is_field(x, "RankInfo::thread") and any(param_idx(f, y) == 1 for y in subterms(x)) for x in subterms(n.d["lhs"])), "receives are counted for another thread", n.where())
            push = lambda n: call(n, "emplace_back", "push_back") and n.d["obj"] is not None and fin(n.d["obj"], "link_maps")
            always(R, "partners", f"{cls}:link:{known}", ga, push, "a link between ranks is not recorded for the exchange of link information")
            never(R, "partners", f"{cls}:link_once:{known}", ga, push, "a link is recorded twice", frm=[n for n in ga.nodes() if push(n)])


def recv_key(f, k):
    """RankInfo(to_rank.rank, from_rank.thread)"""
    rk = [x for x in subterms(k) if is_field(x, "RankInfo::rank") and any(param_idx(f, y) == 0 for y in subterms(x))]
    th = [x for x in subterms(k) if is_field(x, "RankInfo::thread") and any(param_idx(f, y) == 1 for y in subterms(x))]
    return bool(rk) and bool(th) and not any(is_field(x, "RankInfo::thread") and any(param_idx(f, y) == 0 for y in subterms(x)) for x in subterms(k))


def delivery(R):
    """Every event taken out of a received message or a thread queue is put on its own delivery link exactly once with the delay that
    is left until its delivery time (without a time in the init and complete phases), after which the container is emptied."""
    P = R.prog
    timed = [(f"SST::{SER}::exchange", ("activities",)), (f"SST::{PAR}::exchange_slave", ("activity_vec",)), ("SST::ThreadSyncSimpleSkip::before", ("getVector", "activities", "queues"))]
    untimed = [(f"SST::{SER}::exchangeLinkUntimedData", ()), (f"SST::{PAR}::exchangeLinkUntimedData", ()), ("SST::ThreadSyncSimpleSkip::processLinkUntimedData", ())]
    for qs, tm in ((timed, True), (untimed, False)):
        for q, _ in qs:
            f = fn(R, q)
            g = CFG(P, f, inline=own(f))
            snd = (lambda n: n.kind == "call" and n.d["q"].endswith("Link::send")) if tm else (lambda n: call(n, "sendUntimedData_sync"))
            ns = [n for n in g.nodes() if snd(n)]
            R.ob("delivery", q + ":delivers", bool(ns), "received events are not delivered", f.where())
            for n in ns:
                a = [expand(g.T, x) for x in n.d["args"]]
                ev = a[1] if len(a) > 1 else a[0]
                link = expand(g.T, n.d["obj"]) if n.d["obj"] is not None and not (n.d["obj"] == ("this",)) and tm else (a[0] if len(a) > 1 else expand(g.T, n.d["obj"]))
                if not tm and len(a) == 1: ev = a[0]
                R.ob("delivery", q + ":link", link is not None and (has_call(link, "getDeliveryLink") or fin(link, "delivery_info")) and any(same_elem(x, ev) for x in subterms(link)), f"an event is put on {show(link)}", n.where())
                R.ob("delivery", q + ":event", ev[0] in ("idx", "deref", "var", "call", "mem"), f"what is delivered is {show(ev)}", n.where())
                if tm:
                    s = summands(a[0])
                    ok = len(s) == 2 and any(sg == 1 and (is_field(x, "Activity::delivery_time") or has_call(x, "getDeliveryTime")) and any(same_elem(y, ev) for y in subterms(x)) for sg, x in s) and any(sg == -1 and (has_call(x, "getCurrentSimCycle") or is_field(x, "Simulation::currentSimCycle")) for sg, x in s)
                    R.ob("delivery", q + ":delay", ok, f"an event is delivered after {show(a[0])}", n.where())
            for_each(R, "delivery", q + ":each", g, lambda c: has_call(c, "size") or has_call(c, "end"), snd, "not every event is delivered")
            # exactly once per element: from a delivery the next delivery is only reached through a loop condition
            heads = {h.nid for h, _, _, L in loop_heads(g) if any(n.nid in L for n in ns)}
            never(R, "delivery", q + ":once", g, snd, "an event is delivered twice", frm=ns, avoid=lambda n: n.nid in heads)
            inner = sorted([L for h, _, _, L in loop_heads(g) if any(n.nid in L for n in ns)], key=len)
            if inner:
                L = inner[0]
                out = [n for n in g.nodes() if n.nid in L]
                if q.startswith("SST::ThreadSync") or q.endswith("exchange_slave"):
                    clr = lambda n: call(n, "clear") or call(n, "resize") and const(n.d["args"][0]) == 0
                    never(R, "delivery", q + ":emptied", g, lambda n: n is g.exit or n.nid in {h.nid for h, _, _, M in loop_heads(g) if len(M) > len(L) and M >= L} , "a container keeps events that were delivered", frm=ns, avoid=clr,
                          edge=lambda a, s, c, p: True)
    for q, mp in (("SST::ThreadSyncSimpleSkip::before", "queues"), ("SST::ThreadSyncSimpleSkip::processLinkUntimedData", "queues")):
        f = fn(R, q)
        g = CFG(P, f, inline=own(f))
        clr = lambda n: call(n, "clear")
        for_each(R, "delivery", q + ":queues", g, lambda c: fin(c, "ThreadSyncSimpleSkip::queues") or fin(c, "ThreadSyncSimpleSkip::num_threads"), clr, "not every thread's queue is emptied")
    f = fn(R, "SST::ThreadSyncSimpleSkip::registerRemoteLink")
    g = CFG(P, f)
    R.cfg_used(g)
    for n in root_rets(g):
        v = n.d["val"]
        R.ob("delivery", "thread:queue", v[0] == "idx" and is_field(v[1], "ThreadSyncSimpleSkip::queues") and param_idx(f, v[2]) == 0, f"the sender is given the queue {show(v)}", n.where())
    ctor = [x for x in P.funcs.values() if x.sq == "SST::ThreadSyncSimpleSkip::ThreadSyncSimpleSkip" and x.params]
    g = CFG(P, R.need(ctor, "ThreadSyncSimpleSkip constructor")[0])
    for_each(R, "delivery", "thread:queues", g, lambda c: any(x[0] == "mem" and last(x[2]) == "num_threads" or x[0] in ("param", "var") and param_idx(g.fn, x) == 0 for x in subterms(c)), lambda n: call(n, "push_back", "emplace_back") and fin(n.d["obj"], "ThreadSyncSimpleSkip::queues"), "not every thread has a queue")


def same_elem(a, b): return a == b


def queue(R):
    """RankSyncQueue: every event inserted is kept; packing covers all of them, writes them behind the header into a buffer that has
    room for header and data, records the total size in the header, and only then deletes the events and empties the queue."""
    P = R.prog
    f = fn(R, "SST::RankSyncQueue::insert")
    g = CFG(P, f)
    pb = lambda n: call(n, "push_back", "emplace_back") and fin(n.d["obj"], "RankSyncQueue::activities") and param_idx(f, n.d["args"][0]) == 0
    always(R, "queue", "rank:insert", g, pb, "an event sent to another rank is not queued")
    never(R, "queue", "rank:insert_once", g, pb, "an event sent to another rank is queued twice", frm=[n for n in g.nodes() if pb(n)])
    f = R.need([x for x in P.funcs.values() if x.sq == "SST::ThreadSyncQueue::insert"], "ThreadSyncQueue::insert")[0]
    g = CFG(P, f)
    pt = lambda n: call(n, "push_back", "emplace_back") and fin(n.d["obj"], "ThreadSyncQueue::activities") and param_idx(f, n.d["args"][0]) == 0
    always(R, "queue", "thread:insert", g, pt, "an event sent to another thread is not queued")
    f = fn(R, "SST::RankSyncQueue::getData")
    g = CFG(P, f, inline=inline_class("RankSyncQueue"))
    ser = lambda n: n.kind == "call" and "sst_ser_object" in n.d["q"] and any(fin(x, "RankSyncQueue::activities") for x in n.d["args"] if is_term(x))
    pack = lambda n: call(n, "start_packing")
    size = lambda n: call(n, "start_sizing")
    delete = lambda n: n.kind == "delete" and fin(n.d["path"], "RankSyncQueue::activities")
    clear = lambda n: call(n, "clear") and fin(n.d["obj"], "RankSyncQueue::activities")
    packs = [n for n in g.nodes() if pack(n)]
    always(R, "queue", "pack", g, pack, "the queue's events are not packed")
    always(R, "queue", "pack:events", g, ser, "the queue's events are not packed", frm=packs)
    never(R, "queue", "sized", g, pack, "events are packed before their size is determined", avoid=ser)
    never(R, "queue", "sizing", g, ser, "events are serialised before sizing has started", avoid=size)
    for nm, ev in (("deleted", delete), ("emptied", clear)):
        ns = [n for n in g.nodes() if ev(n)]
        R.ob("queue", nm, bool(ns), f"packed events are not {nm}", f.where())
        never(R, "queue", nm + ":first", g, ser, f"events are {nm} before they are packed", frm=ns)
        never(R, "queue", nm + ":packed", g, ev, f"events are {nm} before they are packed", avoid=pack)
    for_each(R, "queue", "deleted:each", g, lambda c: fin(c, "RankSyncQueue::activities"), delete, "not every packed event is deleted")
    always(R, "queue", "emptied:always", g, clear, "packed events stay in the queue and are sent again")
    never(R, "queue", "emptied:last", g, delete, "events are dropped from the queue before they are deleted", frm=[n for n in g.nodes() if clear(n)])
    total = lambda t: sum_is(t, lambda x: has_call(x, "size") and "serializer" in repr(x), is_hdr_size)
    for small in (True, False):
        def dec(at, ctx=None, small=small):
            if at[0] == "<" and is_field(at[1], "buf_size") and total(at[2]): return small
            if at[0] == "<" and is_field(at[2], "buf_size") and total(at[1]): return not small
            return None
        got, rets = [], []

        def on(n, e, v):
            bf = [x for k, x in e.items() if is_field(k, "RankSyncQueue::buffer")]
            bs = [x for k, x in e.items() if is_field(k, "RankSyncQueue::buf_size")]
            hs = [x for k, x in e.items() if is_field(k, "Header::buffer_size")]
            if pack(n): got.append((v(n.d["args"][0]), v(n.d["args"][1]), bf, bs, n))
            if n.kind == "ret" and n.ctx is g.entry.ctx: rets.append((v(n.d["val"]), bf, hs, n))
        walk(g, dec, on=on)
        R.cfg_used(g)
        for b, sz, bf, bs, n in got:
            base = after_header(b)
            R.ob("queue", f"room:start:{small}", base is not None and (base in bf if bf else is_field(base, "RankSyncQueue::buffer")), f"packing starts at {show(b)}", n.where())
            R.ob("queue", f"room:size:{small}", has_call(sz, "size") and len(summands(sz)) == 1, f"room for {show(sz)} bytes is given to the packer", n.where())
            if small: R.ob("queue", "room:new", bool(bf) and bf[0][0] == "new" and len(bf[0]) > 4 and total(bf[0][4]) and bool(bs) and total(bs[0]), f"a buffer that is too small is replaced by {show(bf[0]) if bf else 'nothing'} and recorded as {show(bs[0]) if bs else 'unchanged'}", n.where())
            else: R.ob("queue", "room:kept", not bs or total(bs[0]), "the recorded size of the buffer is changed although it is kept", n.where())
        for v, bf, hs, n in rets:
            R.ob("queue", f"header:{small}", bool(hs) and total(hs[0]), f"the header records the size {show(hs[0]) if hs else 'of an earlier message'}", n.where())
            R.ob("queue", f"result:{small}", (v in bf if bf else is_field(v, "RankSyncQueue::buffer")), f"what is returned is {show(v)}", n.where())


def pipeline(R):
    """Master and slave threads of a parallel rank exchange: every queue is serialised by exactly one thread and sent, every received
    message is deserialised by one thread and its events delivered by the thread that owns the links; nobody stops before all of this
    is done, the queues between them have room for every entry, and the counters start and count accordingly."""
    P = R.prog
    fm, fs = fn(R, f"SST::{PAR}::exchange_master"), fn(R, f"SST::{PAR}::exchange_slave")
    gm, gs = CFG(P, fm, inline=own(fm)), CFG(P, fs, inline=own(fs))
    on_q = lambda n, op, q: n.kind == "call" and last(n.d["q"]) in op and n.d["obj"] is not None and fin(n.d["obj"], q)
    ins = ("try_insert", "insert")

    def taken(g, q):
        """first nodes after a successful try_remove from q"""
        out = []
        for n in g.nodes():
            if n.kind != "br": continue
            for s, c, p in n.succ:
                if c is None or not is_term(c): continue
                at, pol = norm_cond(c, p)
                if at[0] in ("nz", "pos") and pol and has_call(at[1], "try_remove") and fin(at[1], q): out.append((n, s))
        return out

    def after_take(g, who, q, ev, what, msg, also_head=True):
        ts = taken(g, q)
        R.ob("pipeline", f"{who}:{q}:takes", bool(ts), f"nothing takes entries out of {q}", g.fn.where())
        for b, s in ts:
            if ev(s): R.ob("pipeline", f"{who}:{q}:{what}", True, msg, b.where()); continue
            path = g.search([s], lambda n: (n is b or n is g.exit or n.kind == "call" and last(n.d["q"]) == "try_remove"), avoid=ev)
            R.cfg_used(g)
            R.ob("pipeline", f"{who}:{q}:{what}", path is None, msg, where=b.where(), path=path_str(path) if path else None)
            evs = [n for n in g.nodes() if ev(n)]
            first = [n for n in evs if g.search([s], lambda m, n=n: m is n, avoid=lambda m: m is b) is not None]
            p2 = g.search([x for n in first for x in g.after(n)], lambda m: m in first, avoid=lambda m: m is b or m.kind == "call" and last(m.d["q"]) == "try_remove")
            R.ob("pipeline", f"{who}:{q}:{what}:once", p2 is None, msg + " (twice)", where=b.where(), path=path_str(p2) if p2 else None)
    gd = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "sbuf") and has_call(n.d["rhs"], "getData")
    for g, who in ((gm, "master"), (gs, "slave")):
        after_take(g, who, "serialize_queue", gd, "serialised", "a queue can be taken without being serialised")
        after_take(g, who, "serialize_queue", lambda n: on_q(n, ins, "send_queue"), "forwarded", "a serialised queue is not handed to the master")
    after_take(gm, "master", "send_queue", lambda n: call(n, "MPI_Isend") and is_buf_size(n.d["args"][1]), "sent", "a serialised queue is taken but not sent")
    cnt = lambda g, nm: {n.d["var"] for n in g.nodes() if n.kind in ("init",) and n.d.get("rhs") is not None and fin(n.d["rhs"], nm)}
    msend = cnt(gm, "send_count")
    R.ob("pipeline", "master:send_count", bool(msend), "the master does not wait for every serialised queue", fm.where())
    dec = lambda vs: (lambda n: n.kind == "asg" and n.d["lhs"] in vs and n.d["op"] in ("--", "-=") or n.kind == "asg" and n.d["lhs"] in vs and n.d["op"] == "=" and (1, n.d["lhs"]) in summands(n.d["rhs"]))
    after_take(gm, "master", "send_queue", dec(msend), "counted", "a sent queue is not counted")
    others = [n for n in gm.nodes() if dec(msend)(n)]

    def gated(g, who, frm_pred, ev, msg):
        """ev nodes are reached only after a successful take"""
        p = g.search([g.entry], ev, edge=lambda a, s, c, p: not frm_pred(a, s, c, p))
        R.ob("pipeline", who, p is None, msg, where=p[-1].where() if p else g.fn.where(), path=path_str(p) if p else None)
    tk = lambda q: (lambda a, s, c, p: c is not None and is_term(c) and norm_cond(c, p)[0][0] in ("nz", "pos") and norm_cond(c, p)[1] and has_call(norm_cond(c, p)[0][1], "try_remove") and fin(norm_cond(c, p)[0][1], q))
    gated(gm, "master:count_gate", tk("send_queue"), dec(msend), "a queue is counted as sent without having been taken")
    # master leaves the send loop only with the counter at zero

    def zero(vs):
        def e(at, pol, node):
            if at[0] in ("nz", "pos") and at[1] in vs: return not pol
            if at[0] == "==" and any(x in vs for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return pol
            if at[0] == "<" and const(at[1]) == 0 and at[2] in vs: return not pol
            return False
        return e
    slave = lambda n: call(n, "exchange_slave")
    guarded(R, "pipeline", "master:all_sent", gm, lambda n: slave(n) or call(n, "MPI_Waitall", "MPI_Allreduce"), zero(msend), "the master goes on before every queue was sent")
    mrecv = {v for v in cnt(gm, "comm_recv_map")}
    guarded(R, "pipeline", "master:all_received", gm, lambda n: slave(n), zero(mrecv), "the master goes on before every message was received")
    dr = [n for n in gm.nodes() if dec(mrecv)(n)]
    put = lambda n: on_q(n, ins, "deserialize_queue")
    R.ob("pipeline", "master:receives", bool(dr), "received messages are not counted", fm.where())
    heads = {h.nid for h, _, _, L in loop_heads(gm) if any(n.nid in L for n in dr)}
    athead = lambda n: n.nid in heads or n is gm.exit
    always(R, "pipeline", "master:handed", gm, put, "a received message is counted but not handed on", frm=dr, to=athead)
    marks = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "recv_done") and const(n.d["rhs"]) == 1
    always(R, "pipeline", "master:marked", gm, marks, "a received message is not marked and can be handed on again", frm=[n for n in gm.nodes() if put(n)] and dr, to=athead)
    notdone = lambda at, pol, node: at[0] in ("nz", "pos") and is_field(at[1], "recv_done") and not pol
    guarded(R, "pipeline", "master:not_again", gm, lambda n: put(n) or n in dr, notdone, "a message that was already handed on is handed on again")
    unmark = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "recv_done") and const(n.d["rhs"]) == 0
    for_each(R, "pipeline", "master:unmarked", gm, lambda c: fin(c, "comm_recv_map"), unmark, "not every receive is marked as outstanding when it is posted")
    # counters before the slaves are released
    rel = lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait") and fin(n.d["obj"], "serializeReadyBarrier")
    remset = lambda n: (n.kind == "asg" and is_field(n.d["lhs"], "remaining_deser") and has_call(n.d["rhs"], "size") and fin(n.d["rhs"], "comm_recv_map")) or \
        (n.kind == "call" and last(n.d["q"]) in ("operator=", "store") and n.d["obj"] is not None and is_field(n.d["obj"], "remaining_deser") and has_call(n.d["args"][0], "size") and fin(n.d["args"][0], "comm_recv_map"))
    never(R, "pipeline", "master:remaining", gm, rel, "the slaves are released before the number of messages is known", avoid=remset)
    never(R, "pipeline", "master:queued_first", gm, lambda n: on_q(n, ins, "serialize_queue"), "queues are offered for serialisation after the slaves were released", frm=[n for n in gm.nodes() if rel(n)])
    always(R, "pipeline", "master:release", gm, rel, "the slaves are not released")
    always(R, "pipeline", "master:delivers", gm, slave, "the master does not deliver its own events")
    never(R, "pipeline", "master:delivers_last", gm, put, "messages are handed on after the master has stopped working on them", frm=[n for n in gm.nodes() if slave(n)])
    # slave
    myrecv = cnt(gs, "recv_count")
    R.ob("pipeline", "slave:count", bool(myrecv) and any(n.kind == "init" and n.d["var"] in myrecv and any(param_idx(fs, x) == 0 for x in subterms(n.d["rhs"])) for n in gs.nodes()), "a thread does not know how many messages it will deliver", fs.where())
    fin_w = lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait") and fin(n.d["obj"], "slaveExchangeDoneBarrier")
    guarded(R, "pipeline", "slave:all_delivered", gs, fin_w, zero(myrecv), "a thread stops before all its messages were delivered")

    def remzero(at, pol, node):
        rem = lambda t: fin(t, "remaining_deser")
        if at[0] in ("nz", "pos") and rem(at[1]): return not pol
        if at[0] == "==" and any(rem(x) for x in at[1:]) and any(const(x) == 0 for x in at[1:]): return pol
        if at[0] == "<" and const(at[1]) == 0 and rem(at[2]): return not pol
        return False
    guarded(R, "pipeline", "slave:all_deserialised", gs, fin_w, remzero, "a thread stops while messages still have to be deserialised")
    mine = [(b, s) for b, s in taken(gs, "link_send_queue")]
    for b, s in mine:
        c = [c for _, c, _ in b.succ if c is not None][0]
        idx = [x for x in subterms(expand(gs.T, c)) if x[0] == "idx" and is_field(x[1], "link_send_queue")]
        R.ob("pipeline", "slave:own_queue", bool(idx) and all(param_idx(fs, x[2]) == 0 for x in idx), "a thread delivers another thread's events", b.where())
    after_take(gs, "slave", "link_send_queue", dec(myrecv), "counted", "a delivered message is not counted")
    gated(gs, "slave:count_gate", tk("link_send_queue"), dec(myrecv), "a message is counted as delivered without having been taken")
    remdec = lambda n: n.kind == "asg" and is_field(n.d["lhs"], "remaining_deser") and n.d["op"] in ("--", "-=") or n.kind == "call" and last(n.d["q"]) in ("operator--", "fetch_sub", "operator-=") and fin(n.d["obj"], "remaining_deser")
    dm = lambda n: call(n, "deserializeMessage")
    after_take(gs, "slave", "deserialize_queue", remdec, "counted", "a deserialised message is not counted")
    after_take(gs, "slave", "deserialize_queue", dm, "deserialised", "a message is taken but not deserialised")
    fwd = lambda n: on_q(n, ins, "link_send_queue")
    after_take(gs, "slave", "deserialize_queue", fwd, "forwarded", "a deserialised message is not handed to the thread that owns its links")
    gated(gs, "slave:remaining_gate", tk("deserialize_queue"), remdec, "a message is counted as deserialised without having been taken")
    never(R, "pipeline", "slave:forward_order", gs, fwd, "a message is handed on before it was deserialised", avoid=dm)
    for n in gs.nodes():
        if fwd(n):
            idx = [x for x in subterms(expand(gs.T, n.d["obj"])) if x[0] == "idx" and is_field(x[1], "link_send_queue")]
            R.ob("pipeline", "slave:forward_to", bool(idx) and all(is_field(x[2], "local_thread") for x in idx), f"a deserialised message is handed to {show(n.d['obj'])}", n.where())
            R.ob("pipeline", "slave:forward_what", any(x in list(subterms(n.d["args"][0])) for m in gs.nodes() if dm(m) for x in [m.d["args"][0]]), "what is handed on is not the message that was deserialised", n.where())
    # capacity
    f = fn(R, f"SST::{PAR}::finalizeLinkConfigurations")
    g = CFG(P, f, inline=own(f))
    for q, mp in (("deserialize_queue", "comm_recv_map"), ("serialize_queue", "comm_send_map"), ("send_queue", "comm_send_map")):
        ini = lambda n, q=q: on_q(n, ("initialize",), q)
        always(R, "pipeline", "capacity:" + q, g, ini, f"{q} has no room")
        for n in g.nodes():
            if ini(n): R.ob("pipeline", "capacity:" + q + ":size", size_factor(n.d["args"][0], (mp,)) >= 1, f"{q} is given room for {show(n.d['args'][0])} entries", n.where())
    f = fn(R, f"SST::{PAR}::execute")
    for master in (True, False):
        asm = term_is(lambda t: param_idx(f, t) == 0, 0) if master else (lambda at, ctx=None: True if at[0] in ("nz", "pos") and param_idx(f, at[1]) == 0 else False if at[0] == "==" and any(param_idx(f, x) == 0 for x in at[1:]) and any(const(x) == 0 for x in at[1:]) else None)
        g = CFG(P, f, inline=lambda h, e, c: False, assume=asm)
        bar = lambda nm: (lambda n: n.kind == "call" and n.d["q"].endswith("Barrier::wait") and fin(n.d["obj"], nm))
        work = lambda n: call(n, "exchange_master" if master else "exchange_slave")
        who = "master" if master else "slave"
        always(R, "pipeline", f"execute:{who}", g, work, f"the {who} thread takes no part in the exchange")
        never(R, "pipeline", f"execute:{who}:other", g, lambda n: call(n, "exchange_slave" if master else "exchange_master"), "a thread plays the wrong part in the exchange")
        never(R, "pipeline", f"execute:{who}:end", g, lambda n: n is g.exit, "a thread can leave the exchange before the others are done", frm=[n for n in g.nodes() if work(n)], avoid=bar("allDoneBarrier"))
        if not master: never(R, "pipeline", "execute:slave:start", g, work, "a slave starts before the master has filled the queues", avoid=bar("serializeReadyBarrier"))
    f = fn(R, f"SST::{SER}::execute")
    g = CFG(P, f, inline=lambda h, e, c: False, assume=term_is(lambda t: param_idx(f, t) == 0, 0))
    always(R, "pipeline", "execute:serial", g, lambda n: call(n, "exchange"), "the exchange does not take place")


def info(R):
    """Ranks exchange link addresses pairwise without waiting for each other in a cycle, both sides sort their lists, lists that do not
    match are fatal, and every link is told the address of the other end; object messages are cut into the same pieces by sender and
    receiver."""
    P = R.prog
    for q in ("exchangeLinkInfo", "findSyncInterval"):
        f = fn(R, "SST::RankSync::" + q)
        g = CFG(P, f, inline=inline_class("RankSync"))
        snd, rcv = [n for n in g.nodes() if call(n, "send") and "Comms" in n.d["q"]], [n for n in g.nodes() if call(n, "recv") and "Comms" in n.d["q"]]
        R.ob("info", q + ":both", bool(snd) and bool(rcv), "partners do not exchange their lists", f.where())
        lower = upper = False
        for h, body, leave, L in loop_heads(g):
            s, r = [n for n in snd if n.nid in L], [n for n in rcv if n.nid in L]
            if not s and not r: continue
            cs = [norm_cond(c, True)[0] for _, c, _ in h.succ if c is not None and is_term(c)]
            low = any(at[0] == "<" and at[1][0] == "var" and param_idx(f, at[2]) == 0 for at in cs)
            up = any(at[0] == "<" and at[1][0] == "var" and fin(at[2], "RankSync::num_ranks_", "RankInfo::rank") for at in cs)
            if not (low or up): continue
            one, two = (r, s) if low else (s, r)
            inl = lambda a, x, c, p, L=L: x.nid in L
            for nm, first, second in (("first", one, two),):
                p = g.search(body, lambda n: n in second, avoid=lambda n: n in first, edge=inl)
                R.ob("info", f"{q}:order:{'lower' if low else 'higher'}", bool(first) and bool(second) and p is None, "two ranks can wait for each other's list", h.where())
                p = g.search([x for n in first for x in g.after(n) if x.nid in L], lambda n: n is h, avoid=lambda n: n in second, edge=inl)
                R.ob("info", f"{q}:complete:{'lower' if low else 'higher'}", p is None, "a rank does not answer its partner", h.where())
            lower, upper = lower or low, upper or up
            peers = {n.d["args"][0] for n in s + r}
            R.ob("info", f"{q}:peer", len(peers) == 1 and all(any(at[1] == x for at in cs) for x in peers), "the lists are exchanged with another rank", h.where())
            # start of the higher loop
            if up:
                v = next(iter(peers))
                st = [n.d["rhs"] for n in g.nodes() if n.kind == "init" and n.d["var"] == v]
                R.ob("info", f"{q}:range:higher", any(sum_is(x, lambda y: param_idx(f, y) == 0, lambda y: const(y) == 1) for x in st), "some ranks are left out of the exchange", h.where())
            else:
                v = next(iter(peers))
                st = [n.d["rhs"] for n in g.nodes() if n.kind == "init" and n.d["var"] == v]
                R.ob("info", f"{q}:range:lower", any(const(x) == 0 for x in st), "some ranks are left out of the exchange", h.where())
        R.ob("info", q + ":all", lower and upper, "not every pair of ranks exchanges its lists", f.where())
        if q == "exchangeLinkInfo":
            srt = lambda n: n.kind == "call" and n.d["q"] in ("std::sort", "std::stable_sort") and any(fin(x, "RankSync::link_maps") for x in n.d["args"] if is_term(x))
            never(R, "info", q + ":sorted", g, lambda n: n in snd, "links are exchanged without being sorted", avoid=srt)
            for n in snd: R.ob("info", q + ":sends", any(fin(x, "RankSync::link_maps") for x in n.d["args"]), "what is sent is not the list of links", n.where())
            setd = lambda n: call(n, "setDeliveryInfo") or n.kind == "asg" and is_field(n.d["lhs"], "Link::delivery_info")
            ns = [n for n in g.nodes() if setd(n)]
            R.ob("info", q + ":sets", bool(ns), "links are not told the address of the other end", f.where())
            for n in ns:
                obj = expand(g.T, n.d["obj"] if n.kind == "call" else n.d["lhs"], once=True)
                val = expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"], once=True)
                oi = [x[2] for x in subterms(obj) if x[0] == "idx" and x[1][0] == "idx"]
                vi = [x[2] for x in subterms(val) if x[0] == "idx"]
                R.ob("info", q + ":address", fin(obj, "Link::pair_link") and fin(obj, "RankSync::link_maps") and is_field(val, "pair::second") and not fin(val, "RankSync::link_maps") and bool(vi) and oi == vi, f"{show(obj)} is told {show(val)}", n.where())
            mism = lambda at, pol, node: at[0] == "==" and pol and all(is_field(x, "pair::first") for x in at[1:])
            guarded(R, "info", q + ":ids", g, setd, mism, "a link is told an address although the two lists do not name the same link")
            sizes = lambda at, pol, node: at[0] == "==" and pol and all(has_call(x, "size") for x in at[1:])
            guarded(R, "info", q + ":sizes", g, setd, sizes, "lists of different lengths are matched")
            for_each(R, "info", q + ":each", g, lambda c: any(has_call(c, z) for z in ("size", "end", "cend")) and not sizes(norm_cond(c, True)[0], True, None) and not fin(c, "RankSync::num_ranks_"), setd, "not every link is told the address of the other end", every=True)
    # pieces
    tr = {}
    for q in ("SST::Comms::send", "SST::Comms::recv"):
        fs = R.need(P.find(q, False), q)
        f = fs[0]
        for k in (0, 1, 2, 3):
            g = CFG(P, f)
            left = [k]
            trace = []

            def dec(at, ctx=None):
                if at[0] == "<" and any(is_frag(x) for x in at[1:]):
                    if left[0] > 0:
                        left[0] -= 1
                        return not is_frag(at[2])       # rem < frag is false, frag < rem true
                    return is_frag(at[2])
                return None

            def on(n, e, v):
                if call(n, "MPI_Send", "MPI_Recv"):
                    trace.append((v(n.d["args"][0]), lin(v(n.d["args"][1])), repr(n.d["args"][2])))
            walk1(g, dec, on)
            R.cfg_used(g)
            tr[(q, k)] = trace
            first = trace[0] if trace else None
            R.ob("info", f"{last(q)}:length:{k}", first is not None and "int64" in first[2] and first[1] == ((), 1), "the length of a message is not transferred first", f.where())
            off = []
            tot = {}
            for b, c, ty in trace[1:]:
                s = [x for _, x in summands(b)]
                o = lin(addsum([x for g_, x in summands(b) if not (has_call(x, "data") or has_call(x, "get") or x[0] in ("call", "new", "ctor") or is_ptr(x))]))
                off.append(o)
                R.ob("info", f"{last(q)}:piece:{k}", o == norm_lin(tot), f"a piece starts at {show(b)}, not where the previous one ended", f.where())
                for key, w in c[0]: tot[key] = tot.get(key, 0) + w
                tot[()] = tot.get((), 0) + c[1]
                R.ob("info", f"{last(q)}:bytes:{k}", "byte" in ty or "char" in ty, "a piece is not transferred as bytes", f.where())
            R.ob("info", f"{last(q)}:total:{k}", bool(trace[1:]) and norm_lin(tot)[1] == 0 and len(norm_lin(tot)[0]) == 1 and norm_lin(tot)[0][0][1] == 1, "the pieces do not add up to the length of the message", f.where())
    bd = {}
    for q in ("SST::Comms::send", "SST::Comms::recv"):
        g = CFG(P, R.need(P.find(q, False), q)[0])
        for at in {norm_cond(c, True)[0] for n in g.nodes() for _, c, _ in n.succ if c is not None and is_term(c)}:
            if at[0] == "<" and any(is_frag(x) for x in at[1:]): bd.setdefault(q, set()).add(tuple(const(x) for x in at[1:]))
    R.ob("info", "pieces:boundary", len(set(map(repr, (sorted(map(str, x)) for x in bd.values())))) == 1, "sender and receiver treat a message of exactly the piece size differently")
    for k in (0, 1, 2, 3):
        a, b = tr[("SST::Comms::send", k)], tr[("SST::Comms::recv", k)]
        sig = lambda t: [(len(c[0]), c[1], ty) for _, c, ty in t]
        R.ob("info", f"pieces:{k}", sig(a) == sig(b), "sender and receiver cut a message into different pieces")


def is_frag(t): return const(t) is not None and const(t) >= 1 << 16


def is_ptr(t): return t[0] == "var" and "buf" in t[3].lower()


def addsum(xs):
    if not xs: return ("lit", "0")
    t = xs[0]
    for x in xs[1:]: t = ("bin", "+", t, x)
    return t


def lin(t, sg=1):
    d = {}

    def add(t, sg):
        c = const(t)
        if c is not None: d[()] = d.get((), 0) + sg * c; return
        if t[0] == "bin" and t[1] in ("+", "-", "+=", "-="):
            add(t[2], sg); add(t[3], sg if t[1][0] == "+" else -sg); return
        if t[0] == "cast": add(t[-1], sg); return
        d[t] = d.get(t, 0) + sg
    add(t, sg)
    return norm_lin(d)


def norm_lin(d): return tuple(sorted(((k, v) for k, v in d.items() if k != () and v), key=repr)), d.get((), 0)


def walk1(g, decide, on):
    """like walk, for a single path (every branch decided in order); locals hold terms"""
    n, env = g.entry, {}
    for _ in range(5000):
        val = lambda t: subst(t, env)
        on(n, env, val)
        if n.kind in ("asg", "init"):
            v = n.d.get("lhs") or n.d.get("var")
            op = n.d.get("op", "=")
            if v[0] == "var":
                r = val(n.d["rhs"]) if n.d.get("rhs") is not None else None
                if op == "=" and r is not None: env[v] = r
                elif op in ("+=", "-="): env[v] = ("bin", op[0], env.get(v, v), r)
        elif n.kind == "call":
            for a in n.d["args"]:
                if a[0] == "addr" and a[1][0] == "var": env.pop(a[1], None)
        if n is g.exit or not n.succ: return
        nxt = None
        memo = {}
        for s, c, p in n.succ:
            if c is None or not is_term(c): nxt = nxt or s; continue
            t = val(c)
            if t not in memo: memo[t] = truthval(t, decide)
            r = memo[t]
            if r is None or r == p: nxt = nxt or s
        if nxt is None: return
        n = nxt


def links(R):
    """A link that crosses threads or ranks is split: its local end has the local latency and sends into the queue of the
    synchronisation registered for exactly the two partitions; the synchronisation's end adds no latency and counts in base units;
    both belong to the configured link's own port and component."""
    P = R.prog
    f = fn(R, "SST::Simulation::prepareLinks") if P.find("SST::Simulation::prepareLinks", False) else None
    if f is None:
        c = [x for x in P.funcs.values() if x.sq.startswith("SST::Simulation::") and raw_has(x, "setAsSyncLink")]
        f = R.need(c, "function that prepares links")[0]
    g = CFG(P, f)
    R.cfg_used(g)
    regs = [n for n in g.nodes() if call(n, "registerLink")]
    R.ob("links", "registered", bool(regs), "links between partitions are not registered with a synchronisation", f.where())
    asy = [n for n in g.nodes() if call(n, "setAsSyncLink")]
    R.ob("links", "sync_end", bool(asy), "the synchronisation's end of a link is not set up", f.where())
    base = [n for n in g.nodes() if call(n, "setDefaultTimeBase")]
    lat = [n for n in g.nodes() if call(n, "setLatency") or n.kind == "asg" and is_field(n.d["lhs"], "Link::latency")]
    for r in regs:
        a = r.d["args"]
        link = a[2]
        # ranks of the two ends
        i, j = [x[2] if x[0] == "idx" else None for x in a[:2]]
        opp = lambda k: opposite(g, i, j)
        R.ob("links", "ends", i is not None and j is not None and opp(0), f"a link is registered between {show(a[0])} and {show(a[1])}", r.where())
        sendq = [n for n in g.nodes() if n.kind == "asg" and is_field(n.d["lhs"], "Link::send_queue") and (has_call(expand(g.T, n.d["rhs"]), "registerLink"))]
        R.ob("links", "queue", bool(sendq) and all(endof(n.d["lhs"]) and endof(n.d["lhs"]) != endof(link) for n in sendq), "the local end does not send into the queue of the synchronisation", r.where())
        always(R, "links", "queue:always", g, lambda n: n in sendq, "a registered link can be left without a queue", frm=[r], to=lambda n: n is g.exit or n in regs)
        mine = lambda ns: [n for n in ns if endof(n.d["obj"] if n.kind == "call" else n.d["lhs"]) == endof(link) and same_pair(n, link)]
        for nm, ns, ok in (("no_latency", mine(lat), lambda v: const(v) == 0), ("base_units", mine(base), lambda v: any(const(x) == 1 for x in subterms(v)))):
            always_before(R, "links", nm, g, [n for n in ns if ok(expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"]))], r, "the synchronisation's end of a link " + ("adds latency" if nm == "no_latency" else "does not count in base units"))
            for n in ns: R.ob("links", nm + ":value", ok(expand(g.T, n.d["args"][0] if n.kind == "call" else n.d["rhs"])), f"the synchronisation's end is set to {show(n.d['args'][0] if n.kind == 'call' else n.d['rhs'])}", n.where())
        always(R, "links", "sync_end:always", g, lambda n: n in asy and endof(n.d["obj"]) == endof(link), "the synchronisation's end of a link can be left unset", frm=[r], to=lambda n: n is g.exit or n in regs)
    # every end: latency, port and component have the same index
    for n in g.nodes():
        if call(n, "insertLink"):
            port, lk, comp = n.d["args"][0], n.d["args"][1], n.d["obj"]
            cv = [x for x in subterms(comp) if x[0] == "var"]
            defs = [m for m in g.nodes() if m.kind in ("init", "asg") and (m.d.get("lhs") or m.d.get("var")) in cv and m.d.get("rhs") is not None]
            reach = [m for m in defs if g.search(g.after(m), lambda x: x is n, avoid=lambda x: x in defs) is not None]
            pi = [x[2] for x in subterms(port) if x[0] == "idx" and is_field(x[1], "ConfigLink::port_")]
            if not reach: R.ob("links", "port", pi == [x[2] for x in subterms(comp) if x[0] == "idx" and is_field(x[1], "ConfigLink::component_")], f"port {show(port)} is inserted into {show(comp)}", n.where())
            for m in reach:
                ci = [x[2] for x in subterms(m.d["rhs"]) if x[0] == "idx" and is_field(x[1], "ConfigLink::component_")]
                if ci: R.ob("links", "port", pi == ci, f"port {show(port)} is inserted into the links of component index {', '.join(map(show, ci))}", n.where())


def endof(t):
    for x in subterms(t):
        if x[0] == "call" and last(x[1]) in ("getLeft", "getRight"): return last(x[1])
        if x[0] == "mem" and last(x[2]) in ("left", "right"): return {"left": "getLeft", "right": "getRight"}[last(x[2])]
    return None


def same_pair(n, link):
    vs = lambda t: {x for x in subterms(t) if x[0] == "var"}
    return vs(n.d["obj"] if n.kind == "call" else n.d["lhs"]) & vs(link)


def always_before(R, clause, construct, g, evs, r, msg):
    p = g.search([g.entry], lambda n: n is r, avoid=lambda n: n in evs)
    R.ob(clause, construct, p is None, msg, where=r.where(), path=path_str(p) if p else None)


def opposite(g, i, j):
    if i == j: return False
    if const(i) is not None and const(j) is not None: return {const(i), const(j)} == {0, 1}
    # both locals are assigned opposite constants together
    ai = [n for n in g.nodes() if n.kind in ("asg", "init") and (n.d.get("lhs") or n.d.get("var")) == i and n.d.get("rhs") is not None]
    aj = [n for n in g.nodes() if n.kind in ("asg", "init") and (n.d.get("lhs") or n.d.get("var")) == j and n.d.get("rhs") is not None]
    if not ai or not aj: return j[0] == "bin" or i[0] == "bin"
    vi, vj = [const(n.d["rhs"]) for n in ai], [const(n.d["rhs"]) for n in aj]
    if None in vi or None in vj: return True
    if len(vi) == len(vj): return all(a + b == 1 for a, b in zip(vi, vj))
    return True


def registered(R):
    """SyncManager::registerLink: a link to another rank is registered with the rank synchronisation; one to another thread of this rank
    with this thread's synchronisation and with that of the other thread, as coming from this one; the queue it yields is returned. Both
    ends of every link are set up for their own place (the case table of P03)."""
    f = fn(R, "SST::SyncManager::registerLink")
    g = CFG(R.prog, f, inline=lambda *a: False)
    R.cfg_used(g)
    to, fr, lk = 0, 1, 2
    rk = lambda t, i: t[0] == "mem" and last(t[2]) == "rank" and param_idx(f, t[1]) == i
    for near in (True, False):
        def dec(at, ctx=None):
            if at[0] != "==": return None
            if {param_idx(f, at[1]), param_idx(f, at[2])} == {to, fr}: return False
            if rk(at[1], to) and rk(at[2], fr) or rk(at[1], fr) and rk(at[2], to): return near
            return None
        rs = [r for r in runs(g, [g.entry], lambda n: False, dec) if not r.fatal()]
        R.ob("registered", f"{near}:returns", bool(rs), "a link cannot be registered", f.where())
        for r in rs:
            ev = lambda q, own: [(n, v) for n, v in r.events if call(n, q) and own(show(v(n.d["obj"])) if n.d["obj"] is not None else "")]
            rank = ev("registerLink", lambda o: "rankSync_" in o)
            thr = ev("registerLink", lambda o: "threadSync_" in o)
            rem = ev("registerRemoteLink", lambda o: "threadSync_" in o)
            if near:
                ok = not rank and len(thr) == 1 and len(rem) == 1 and param_idx(f, thr[0][1](thr[0][0].d["args"][0])) == lk
                R.ob("registered", "threads", ok, "a link to another thread is not registered with both threads", f.where())
                for n, v in rem:
                    o = v(n.d["obj"])
                    of = {param_idx(f, x[1]) for x in subterms(o) if x[0] == "mem" and last(x[2]) == "thread"}
                    a = v(n.d["args"][0])
                    R.ob("registered", "thread:other", of == {to} and a[0] == "mem" and last(a[2]) == "thread" and param_idx(f, a[1]) == fr and param_idx(f, v(n.d["args"][1])) == lk, "a link to another thread is registered for other threads", n.where())
                R.ob("registered", "thread:queue", r.ret() is not None and has_call(r.ret(), "registerRemoteLink"), "a link to another thread sends into another queue", f.where())
            else:
                R.ob("registered", "ranks", not thr and not rem and len(rank) == 1 and [param_idx(f, v(x)) for n, v in rank for x in n.d["args"]] == [to, fr, lk] and r.ret() is not None and has_call(r.ret(), "registerLink"), "a link to another rank is not registered with the synchronisation of the ranks", f.where())


def wires(R):
    """the case table of P03 over the placements of a link's two ends."""
    from rules.p03 import wiring
    wiring(R)


TS = "SST::Core::ThreadSafe::"


def workqueues(R):
    """the lock-free queues the parallel synchronisation passes its work through: a slot is filled before it is published, emptied before it is given back, claimed by one thread
    only, and full and empty are told apart; evaluated on a queue of 4 slots at position 6"""
    P = R.prog
    pos = lambda nm: nm + "Ptr"

    def leaf(seq, nm):
        def f(t):
            if t[0] == "mem" and is_field(t, "sequence") or t[0] == "call" and last(t[1]) in ("load", "operator unsigned long") and t[2] is not None and is_field(t[2], "sequence"): return seq
            if t[0] in ("mem", "call") and (is_field(t, pos(nm)) or t[0] == "call" and last(t[1]) in ("load", "operator unsigned long") and t[2] is not None and is_field(t[2], pos(nm))): return 6
            if is_field(t, "dsize"): return 4
            return None
        return f
    weak = lambda a: any(is_term(x) and "memory_order_relaxed" in repr(x) for x in a)
    for name, nm, ready, other, after in (("try_insert", "w", 6, 3, 7), ("try_remove", "r", 7, 6, 10)):
        for f in R.need(P.find(TS + "BoundedQueue::" + name, False), "BoundedQueue::" + name):
            g = CFG(P, f, inline=helpers(f))
            cas = lambda x: x[0] == "call" and last(x[1]).startswith("compare_exchange")
            moved = lambda n: n.kind in ("asg", "call") and (n.kind == "asg" or last(n.d["q"]) == "operator=") and any(x[0] == "mem" and last(x[2]) == "data" and not x[2].endswith("BoundedQueue::data")
                                                                                                               for t in (n.d.get("lhs"), n.d.get("rhs"), n.d.get("obj")) + tuple(n.d.get("args") or ()) if is_term(t) for x in subterms(t))
            publ = lambda n: call(n, "store", "operator=") and n.d["obj"] is not None and is_field(n.d["obj"], "sequence")
            cn = "insert" if nm == "w" else "remove"
            for seq, ok in ((ready, True), (ready, False), (other, None), (ready + 1, None)):
                lf = leaf(seq, nm)
                base = valued(lf)

                def dec(at, ctx=None, ok=ok):
                    if any(cas(x) for x in subterms(at)): return bool(ok) if at[0] in ("nz", "pos") else None
                    return base(at)
                rs = runs(g, [g.entry], lambda n: False, dec)
                if ok:
                    R.ob("workqueues", f"{cn}:done", bool(rs), "nothing is passed through a queue that has room", f.where())
                for r in rs:
                    mv, pb = [i for i, (n, v) in enumerate(r.events) if moved(n)], [i for i, (n, v) in enumerate(r.events) if publ(n)]
                    rv = r.ret()
                    rc = None if rv is None else fold(rv, lf)
                    if not ok:
                        R.ob("workqueues", f"{cn}:untouched:{seq}:{ok}", not mv and not pb, "a slot is used that is not free, not filled, or taken by another thread", f.where())
                        R.ob("workqueues", f"{cn}:told:{seq}:{ok}", rc == 0, "success is reported although nothing was passed", f.where())
                        continue
                    R.ob("workqueues", f"{cn}:told", rc == 1, "failure is reported although the entry was passed", f.where())
                    R.ob("workqueues", f"{cn}:order", len(mv) == 1 and len(pb) == 1 and mv[0] < pb[0], "a slot is given on before its content has been " + ("stored" if nm == "w" else "taken"), f.where())
                    claim = [(n, v) for n, v in r.events if n.kind == "call" and last(n.d["q"]).startswith("compare_exchange")]
                    R.ob("workqueues", f"{cn}:claim", len(claim) == 1 and is_field(claim[0][0].d["obj"], pos(nm)) and [fold(claim[0][1](x), lf) for x in claim[0][0].d["args"][:2]] == [6, 7] and (not mv or r.events.index(claim[0]) < mv[0]),
                         "two threads can claim the same slot", f.where())
                    for n, v in r.events:
                        ts = [v(x) for x in (n.d.get("lhs"), n.d.get("rhs"), n.d.get("obj")) + tuple(n.d.get("args") or ()) if is_term(x)] if moved(n) or publ(n) else []
                        ix = {fold(x[2], lf) for t in ts for x in subterms(t) if x[0] == "idx" and is_field(x[1], "data")}
                        if ts: R.ob("workqueues", f"{cn}:slot", ix == {2}, f"position 6 of 4 slots uses slot {sorted(map(str, ix))}", n.where())
                        if publ(n):
                            R.ob("workqueues", f"{cn}:turn", fold(v(n.d["args"][0]), lf) == after, f"the slot is marked with a turn that is not the next one: {show(n.d['args'][0])}", n.where())
                            R.ob("workqueues", f"{cn}:release", not weak(n.d["args"]), "a slot is given on without release ordering", n.where())
                        if call(n, "load") and n.d["obj"] is not None and is_field(n.d["obj"], "sequence"): R.ob("workqueues", f"{cn}:acquire", not weak(n.d["args"]), "a slot is looked at without acquire ordering", n.where())
    for f in R.need(P.find(TS + "BoundedQueue::initialize", False), "BoundedQueue::initialize"):
        g = CFG(P, f, inline=helpers(f))
        lf = lambda t: 1 if param_idx(f, t) == 0 else 0 if is_field(t, "initialized") else None
        rs = runs(g, [g.entry], lambda n: False, valued(lf))
        R.ob("workqueues", "ready", bool(rs), "a queue is not set up", f.where())
        for r in rs:
            st = {last(show(n.d["obj"]).replace(".", "::")): fold(v(n.d["args"][0]), lf) for n, v in r.events if call(n, "store", "operator=") and n.d["obj"] is not None and n.d["args"]}
            asg = {last(n.d["lhs"][2]): v(n.d["rhs"]) for n, v in r.events if n.kind == "asg" and n.d["lhs"][0] == "mem"}
            R.ob("workqueues", "ready:turns", st.get("sequence") == 0 and st.get("rPtr") == 0 and st.get("wPtr") == 0, f"a new queue starts with turns and positions {st}", f.where())
            nw = asg.get("data")
            R.ob("workqueues", "ready:room", "dsize" in asg and fold(asg["dsize"], lf) == 1 and nw is not None and nw[0] == "new" and len(nw) > 4 and fold(nw[4], lambda t: 1 if is_field(t, "dsize") else lf(t)) == 1, "a queue has another number of slots than it is told", f.where())
        for n in g.nodes():
            if call(n, "store", "operator=") and n.d["obj"] is not None and is_field(n.d["obj"], "sequence"):
                ix = [x[2] for x in subterms(n.d["obj"]) if x[0] == "idx"]
                R.ob("workqueues", "ready:each", len(ix) == 1 and ix[0] == n.d["args"][0], "a slot starts with the turn of another one", n.where())
    for f in R.need(P.find(TS + "UnboundedQueue::insert", False), "UnboundedQueue::insert"):
        g = CFG(P, f, inline=helpers(f))
        for r in runs(g, [g.entry], lambda n: False):
            ev = []
            for n, v in r.events:
                if n.kind == "asg": lhs, rhs = n.d["lhs"], n.d["rhs"]
                elif call(n, "operator=", "store") and n.d["obj"] is not None: lhs, rhs = n.d["obj"], n.d["args"][0]
                else: continue
                if lhs[0] != "mem": continue
                ev.append((last(lhs[2]), v(lhs[1]), v(rhs), rhs))
            def at(k, b): return [i for i, (f_, base, rhs, raw) in enumerate(ev) if f_ == k and b(base, rhs, raw)]
            isnew = lambda t: t is not None and strip1(t)[0] == "new"
            dat = at("data", lambda b, x, raw: isnew(b) and param_idx(f, strip1(raw)) == 0)
            nxt = at("next", lambda b, x, raw: is_field(strip1(b), "UnboundedQueue::last") and isnew(x))
            lst = at("last", lambda b, x, raw: isnew(x))
            R.ob("workqueues", "list:insert", len(dat) == 1 and len(nxt) == 1 and len(lst) == 1 and dat[0] < nxt[0] < lst[0], "an entry is not linked in, or published before it is filled", f.where())
    for f in R.need(P.find(TS + "UnboundedQueue::try_remove", False), "UnboundedQueue::try_remove"):
        g = CFG(P, f, inline=helpers(f))
        isnext = lambda t: any(is_field(x, "Node::next") and is_field(strip1(x[1]), "UnboundedQueue::first") for x in subterms(t) if x[0] == "mem")
        for some in (True, False):
            def dec(at, ctx=None, some=some):
                if at[0] in ("nz", "pos") and isnext(at[1]): return some
                if at[0] == "==" and any(isnext(x) for x in at[1:]): return not some
                return None
            rs = runs(g, [g.entry], lambda n: False, dec)
            R.ob("workqueues", f"list:remove:{some}", bool(rs), "nothing is taken out", f.where())
            for r in rs:
                out = [n for n, v in r.events if n.kind == "asg" and any(param_idx(f, x) == 0 for x in subterms(n.d["lhs"]))]
                mov = [n for n, v in r.events if n.kind == "asg" and is_field(n.d["lhs"], "UnboundedQueue::first")]
                dl = [n for n, v in r.events if n.kind == "delete"]
                rv = r.ret()
                R.ob("workqueues", f"list:told:{some}", rv is not None and const(rv) == int(some), "what is reported is not what was done", f.where())
                if not some: R.ob("workqueues", "list:empty", not out and not mov and not dl, "an empty queue is changed", f.where())
                else:
                    R.ob("workqueues", "list:entry", len(out) == 1 and is_field(out[0].d["rhs"], "Node::data") and isnext(out[0].d["rhs"]), "the entry handed out is not the oldest one", f.where())
                    R.ob("workqueues", "list:step", len(mov) == 1 and isnext(mov[0].d["rhs"]) and not has_field(mov[0].d["rhs"], "Node::data"), "the queue does not move on to the next entry", f.where())
                    R.ob("workqueues", "list:freed", all(not isnext(n.d["path"]) for n in dl) and len(dl) <= 1, "the entry that stays in the queue is deleted", f.where())


def strip1(t):
    while t[0] in ("cast", "deref") or t[0] == "un" and t[1] in ("*", "&"): t = t[-1]
    return t


CLAUSES = [tags, buffers, partners, delivery, queue, pipeline, info, links, registered, wires, workqueues]
