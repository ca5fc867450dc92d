"""Writes DESIGN.md: head, one section per property from the check modules, seeded bugs and what caught them."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip() + "\n"]
REACH = json.load(open(os.path.join(ROOT, "tools", "reach.json")))
man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
for p in props:
    i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    f = os.path.join(ROOT, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        out.append("Not claimed yet.\n"); continue
    m = importlib.import_module("checks." + i.lower())
    out.append("* Oracle: " + m.__doc__.split(":", 1)[1].strip())
    out.append("* Workload: " + m.RULE)
    out.append("* Must be observed (else inconclusive): " + ", ".join("%s >= %d" % kv for kv in m.REQUIRE.items()))
    if getattr(m, "ASSUMPTIONS", None): out.append("* Assumptions and bounds: " + "; ".join(m.ASSUMPTIONS))
    q = getattr(m, "QF", 15); t = getattr(m, "TF", 8)
    out.append("* Cases: quick %s; thorough %s" % (", ".join("%s %d" % (w[0], w[2] * q) for w in m.WORKLOADS), ", ".join("%s %d" % (w[0], w[3] * t) for w in m.WORKLOADS)))
    if i in REACH: out.append("* Beyond the tests: " + REACH[i])
    out.append("")
out.append("## Planted bugs and the checks that catch them\n")
out.append("Each was written from the property's text and the code, in a scratch copy, and keeps the stable tests passing. \"caught\" is the property's own quick check with VERIF_SEED=1.\n")
out.append("| bug | property | needs | caught by |"); out.append("|---|---|---|---|")
res = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), res.get(b, "not run yet")))
notes = os.path.join(ROOT, "tools", "design_tail.md")
if os.path.exists(notes): out.append("\n" + open(notes).read().rstrip())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
