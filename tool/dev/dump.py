#!/usr/bin/env python3
"""development aid: prints the control-flow graph of functions.  dump.py [-i NAME,NAME] [-t TU,TU] [-w witness] QNAME..."""
import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from sa.q import *
from sa import model


def txt(n):
    d = n.d
    if n.kind == "call":
        return "call %s%s(%s)%s" % ((show(d["obj"]) + " . ") if d["obj"] is not None else "", d["q"], ", ".join(show(a) for a in d["args"]), " {" if d.get("inlined") else "")
    if n.kind == "asg": return f"{show(d['lhs'])} {d['op']} {show(d['rhs'])}"
    if n.kind == "init": return f"init {show(d['var'])} = {show(d['rhs'])}  : {d['type'][:60]}"
    if n.kind == "br": return "br"
    return f"{n.kind} " + (str({k: (show(v) if is_term(v) else v) for k, v in d.items()}) if isinstance(d, dict) else str(d))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-i", default=""); ap.add_argument("-t", default="all"); ap.add_argument("-w", default=""); ap.add_argument("-a", action="store_true")
    ap.add_argument("q", nargs="+")
    a = ap.parse_args()
    os.makedirs("/tmp/sac", exist_ok=True); os.environ["SA_CACHE"] = "/tmp/sac"
    ex = [f"{model.VERIF}/tool/witness/{w}.cc" for w in a.w.split(",") if w]
    P = model.load("all" if a.t == "all" else a.t.split(","), extra=ex)
    pr = name_pred(a.q)
    inl = inline_named(*a.i.split(",")) if a.i else None
    if a.i == "*": inl = small_helpers(P)
    fs = [f for f in P.funcs.values() if pr(f.sq)]
    for f in fs:
        print("=====", f.q, f.where(), [p[1] for p in f.params])
        g = CFG(P, f, inline=inl)
        ids, order = {}, []
        def vis(n):
            st = [n]
            while st:
                x = st.pop()
                if x.nid in ids: continue
                ids[x.nid] = len(ids); order.append(x)
                for s, c, p in reversed(x.succ): st.append(s)
        vis(g.entry)
        for n in order:
            su = " ".join(("%d" % ids[s.nid]) + ("" if c is None else f"[{'' if p else '!'}{show(c) if is_term(c) else c}]") for s, c, p in n.succ)
            if n.kind == "br": print(f"  {ids[n.nid]:3} @{n.line} br -> {su}")
            else: print(f"  {ids[n.nid]:3} @{n.line} {txt(n)[:170]} -> {su}")
        if len(fs) > 1 and not a.a: pass


t = threading.Thread(target=main); t.start(); t.join()
