#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_intro.md, the property table, the modules' stated bounds, tools/coverage.json, seeded/ and known_findings.txt"""
import ast, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalogue import PROPS, NOT_APPLICABLE

COV = os.path.join(here, "coverage.json")
if "--collect" in sys.argv:
    c = json.load(open(COV)) if os.path.exists(COV) else {}
    for f in sorted(glob.glob(os.path.join(root, "evidence", "P*.json"))):
        e = json.load(open(f))
        n = e["coverage"]
        if e["tier"] == "quick" and n["cases_explored"] == n["cases_in_bounded_space"] and n["exhaustive"]:
            c[e["property"]] = dict(cases=n["cases_explored"], runs=n["traces_validated_against_impl"], steps=n["transitions"], states=n["states"], wall=round(e["wall_s"]))
    json.dump(c, open(COV, "w"), indent=0, sort_keys=True)
cov = json.load(open(COV)) if os.path.exists(COV) else {}


def bounds(pid):
    p = os.path.join(root, "mc", "props", pid.lower() + ".py")
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            return ast.literal_eval(n.value)
    return []


out = [open(os.path.join(here, "design_intro.md")).read().rstrip(), "", "## Properties", ""]
known = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.startswith(("finding:", "fixed:"))]
for p in sorted(PROPS, key=lambda q: q["id"]):
    out += [f"### {p['id']} – {p['title']}", "", p["statement"], "",
            f"- **Enumerated**: {p['text']}.", f"- **Deciding method**: {p['tech']}.",
            f"- **Bounds and tolerances**: {'; '.join(bounds(p['id']))}. {p['note']}",
            f"- **Why tests cannot settle it**: {p['why']}",
            "- **Anchors**: " + "; ".join(f"{a} ({b})" for a, b in p["mech"])]
    c = cov.get(p["id"])
    if c:
        out.append(f"- **Cost of the quick tier**: {c['cases']} cases, {c['runs']} executions of the real code, {c['steps']} compared steps, {c['states']} distinct states, {c['wall']} s on 8 cores; the thorough tier widens the grids, depths and pairings of the same space.")
    k = [l for l in known if f"property={p['id']} " in l and l.startswith("finding:")]
    n = len([l for l in known if f"property={p['id']} " in l and l.startswith("fixed:")])
    if k:
        out.append("- **Open findings**: " + " / ".join(l.split(" ", 3)[3] for l in k))
    if n:
        out.append(f"- **Defects repaired on the way**: {n} (see known_findings.txt)")
    out.append("")
out += ["## Not applicable", ""]
out += [f"- {a}: {b}" for a, b in NOT_APPLICABLE] or ["No property of the list had to be given up."]
out += ["", "## Planted bugs", "", "Each is caught by the check of its property (quick tier); `also` names other checks that were seen to catch it.", "", "| planted bug | check | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
out.append("")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
