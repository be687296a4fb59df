import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib")]
from registry import CHECKS, NOT_APPLICABLE
T = os.path.join(V, "tools")
o = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## Properties", ""]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cost = json.load(open(os.path.join(T, "cost.json"))) if os.path.exists(os.path.join(T, "cost.json")) else {}
for p in props:
    k = p["id"]
    o += ["### %s %s" % (k, p["title"]), "", p["statement"], ""]
    c = CHECKS.get(k)
    if not c:
        o += ["Not claimed: %s" % NOT_APPLICABLE.get(k, "no check yet."), ""]
        continue
    w = p.get("why_tests_cant", "")
    o += ["- Decided by: %s." % c["technique"].rstrip("."), "- What is run: %s" % c["note"], "- Cases: %s" % c["rule"],
          "- Bounds: quick: %s; thorough: %s." % (c.get("bounds_quick", c.get("bounds", "")).rstrip("."), c.get("bounds_thorough", c.get("bounds", "")).rstrip("."))]
    if w: o += ["- Beyond the tests: %s" % w]
    if k in cost: o += ["- Cost of the quick run: %s" % cost[k]]
    o += [""]
o += ["## Planted bugs", "", "Each was written from a property and the code, builds, passes the stable tests and has a demonstration (`seeded/<id>/`).", "",
      "| id | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(T, "caught.json"))) if os.path.exists(os.path.join(T, "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    cl = lambda s: " ".join(str(s).split()).replace("|", "/")
    o += ["| %s | %s | %s | %s | %s |" % (i, m["property"], cl(m["what_it_breaks"]), cl(m["needs"]), caught.get(i, "?"))]
o += [open(os.path.join(T, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
