#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the PROP records of rules/*.py and
rules/na.py.  Run after editing a rule."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
props, checks, design = [], [], []
LEVEL = ("Static decision over the current source: every obligation the rules generate is discharged on all control-flow paths of "
         "the functions analysed; trusts clang's parse, the repository call graph, and the assumptions listed in the evidence.")
for p in sorted(glob.glob(V + "/rules/p[0-9]*.py")):
    m = importlib.import_module("rules." + os.path.basename(p)[:-3])
    P = getattr(m, "PROP", None)
    if not P: print("no PROP in", p); continue
    pid = os.path.basename(p)[:-3].upper()
    assert len(P["title"]) <= 80, (pid, len(P["title"]))
    props.append({"id": pid, "title": P["title"], "statement": P["statement"],
                  "quantifier": {"over": P["over"], "text": P["text"]}, "why_tests_cant": P["why"],
                  "anchors": {"files": P["files"], "mechanism": [{"name": a, "where": b} for a, b in P["mech"]], "hook_needed": None}})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": P["technique"], "level": "other", "level_note": P.get("level_note", LEVEL)})
    d = [f"### {pid} {P['title']}", "", P["statement"], "", "*Decided by* " + P["technique"] + ". " + P.get("design", ""), ""]
    for c in m.CLAUSES:
        d.append(f"- **{c.__name__}**: " + re.sub(r"\s+", " ", (c.__doc__ or "").strip()))
    if getattr(m, "ASSUMPTIONS", None): d += ["", "Assumes: " + "; ".join(m.ASSUMPTIONS) + "."]
    d.append("")
    design.append("\n".join(d))
na = []
try:
    from rules.na import NA
    for P in NA:
        props.append({"id": P["id"], "title": P["title"], "statement": P["statement"], "quantifier": {"over": P["over"], "text": P["text"]},
                      "why_tests_cant": P["why"], "anchors": {"files": P["files"], "mechanism": [{"name": a, "where": b} for a, b in P["mech"]], "hook_needed": None}})
        na.append({"property": P["id"], "reason": P["reason"]})
        design.append(f"### {P['id']} {P['title']} (not applicable)\n\n{P['statement']}\n\nNot claimed: {P['reason']}\n")
except ImportError:
    pass
with open(V + "/properties.jsonl", "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of /repo's current source (clang front end tool/extract.cc, rules in rules/*.py); "
                    "no hooks are added to /repo."}, open(V + "/MANIFEST.json", "w"), indent=1)
dm = V + "/DESIGN.md"
if os.path.exists(dm):
    s = open(dm).read()
    a, b = "<!-- generated: properties -->\n", "<!-- end generated -->"
    if a in s:
        s = s[:s.index(a) + len(a)] + "\n".join(design) + s[s.index(b):]
        open(dm, "w").write(s)
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p, sp)
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(props), "properties,", len(checks), "checks")
