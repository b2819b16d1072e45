"""Obligations, violations, known findings and evidence of one check run."""
import json, os, re, sys, time, traceback
from .model import VERIF, REPO, AnalysisError
from . import model

KNOWN = VERIF + "/known_findings.json"


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.prog = None
        self.obl = []        # (clause, construct, ok, detail)
        self.viol = []       # dict
        self.errors = []
        self.funcs, self.paths, self.sites = set(), 0, 0
        self.clauses = {}
        self.notes = []
        self.assumptions = []

    # ---- facts analysed
    def used(self, *fns):
        for f in fns:
            if f is None: continue
            self.funcs.add(f if isinstance(f, str) else f.q)

    def cfg_used(self, cfg):
        for i in cfg.functions:
            f = self.prog.funcs.get(i)
            if f: self.funcs.add(f.q)
        self.paths += 1

    # ---- obligations
    def ob(self, clause, construct, ok, msg, where="", path=None):
        """one discharged or violated obligation.  `construct` identifies it independent of line numbers."""
        self.sites += 1
        key = f"{clause}:{construct}"
        self.obl.append((clause, construct, bool(ok)))
        if not ok:
            if any(v["key"] == key for v in self.viol): return False
            self.viol.append({"key": key, "clause": clause, "construct": construct, "where": where, "message": msg,
                              "path": path or []})
        return ok

    def need(self, x, what):
        if not x: raise AnalysisError(f"anchor not found: {what}")
        return x


def run_check(pid, tier, mod):
    R = Report(pid, tier)
    tus = mod.TUS if tier == "quick" else "all"
    kw = dict(getattr(mod, "LOAD", {}))
    try:
        R.prog = model.load(tus, **kw)
    except AnalysisError as e:
        print("ANALYSIS-ERROR:", e)
        return finish(R, mod, fatal=str(e))
    run_clauses(R, mod)
    if R.errors and tus != "all":
        # something the rules name is not in the selected translation units: look at the whole program before giving up
        for e in R.errors: print("retrying with all translation units:", e)
        R2 = Report(pid, tier)
        R2.t0 = R.t0
        try:
            R2.prog = model.load("all", **kw)
            run_clauses(R2, mod)
            R = R2
        except AnalysisError as e:
            R.errors.append(str(e))
    return finish(R, mod)


def run_clauses(R, mod):
    for c in mod.CLAUSES:
        n0 = len(R.obl)
        try:
            c(R)
        except AnalysisError as e:
            R.errors.append(f"{c.__name__}: {e}")
        except RecursionError:
            R.errors.append(f"{c.__name__}: recursion limit")
        except Exception as e:
            R.errors.append(f"{c.__name__}: internal: {e!r} " + traceback.format_exc(limit=6))
        else:
            if len(R.obl) == n0:
                R.errors.append(f"{c.__name__}: no obligation was generated, the anchors of this rule have vanished")
        R.clauses[c.__name__] = {"rule": (c.__doc__ or "").strip(), "obligations": len(R.obl) - n0}


def finish(R, mod, fatal=None):
    pid = R.pid
    ev = VERIF + "/evidence"
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(pid + ".replay"): os.unlink(ev + "/" + f)
    known = []
    if os.path.exists(KNOWN):
        known = [k for k in json.load(open(KNOWN)) if k["property"] == pid and k.get("status") == "known"]
    live, kn = [], []
    for v in R.viol:
        m = [k for k in known if k["key"] == v["key"]]
        (kn if m else live).append(v)
    for v in kn:
        print(f"KNOWN-FINDING: property={pid} {v['message']}")
    out = []
    for i, v in enumerate(live):
        rp = f"{ev}/{pid}.replay{i}.json"
        json.dump({"property": pid, "violation": v, "command": f"python3 {VERIF}/check.py {pid} --tier {R.tier}",
                   "rule": R.clauses.get(v["clause"], {}).get("rule", "")}, open(rp, "w"), indent=1)
        out.append(f"{v['where']}: {v['message']}")
        if i >= 15: continue
        print(f"{v['where']}: {v['clause']}: {v['message']}")
        for s in v["path"]: print("    via", s)
        print(f"VIOLATION property={pid} replay={rp}")
    if len(live) > 15: print(f"... and {len(live) - 15} more violations (see the replay files)")
    errs = ([fatal] if fatal else []) + R.errors
    for e in errs: print("ANALYSIS-ERROR:", e)
    okn = sum(1 for o in R.obl if o[2])
    expl = (f"Static analysis of the current source of {REPO}: {len(R.prog.tus) if R.prog else 0} translation units parsed with "
            f"clang (names, overloads and templates resolved), {len(R.funcs)} functions examined, {R.paths} interprocedural "
            f"control-flow graphs built, {len(R.obl)} obligations checked ({okn} discharged, {len(kn)} known findings, "
            f"{len(live)} violated). Nothing is executed.")
    if errs: expl += " INCOMPLETE: " + "; ".join(e[:300] for e in errs)
    d = {"property": pid, "tier": R.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
         "coverage": {"explanation": expl,
                      "rules": {k: v for k, v in R.clauses.items()},
                      "functions": sorted(R.funcs)[:400], "n_functions": len(R.funcs),
                      "obligations": len(R.obl), "discharged": okn,
                      "samples": [f"{c}: {k}" for c, k, ok in R.obl[:60]],
                      "translation_units": len(R.prog.tus) if R.prog else 0},
         "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + R.assumptions,
         "wall_s": round(time.time() - R.t0, 2), "violations": len(live)}
    json.dump(d, open(f"{ev}/{pid}.json", "w"), indent=1)
    print(f"{pid}: {len(R.obl)} obligations over {len(R.funcs)} functions, {len(live)} violations, {len(kn)} known, "
          f"{len(errs)} analysis errors, {time.time() - R.t0:.1f} s")
    if live: return 1
    if errs: return 2
    return 0
