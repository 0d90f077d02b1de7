"""Regenerates DESIGN.md from tools/design/{head,tail}.md, the property list
and the checks (run by hand)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
COST = json.load(open(V + "/tools/design/cost.json"))


def fmt(b):
    return "; ".join("%s %s" % (k.replace("_", " "), v) for k, v in b.items())


def main():
    man = json.load(open(V + "/MANIFEST.json"))
    by = {c["property"]: c for c in man["checks"]}
    out = [open(V + "/tools/design/head.md").read().rstrip(), "",
           "## Per property", "",
           "What is specified is the statement in `properties.jsonl`; the "
           "lines below say what is enumerated, against which oracle, within "
           "which bounds and at which cost (quick tier, idle sandbox).", ""]
    for line in open(V + "/properties.jsonl"):
        p = json.loads(line)
        i = p["id"]
        out += ["### %s %s" % (i, p["title"]), ""]
        if i not in by:
            out += ["Not claimed: " + [n for n in man["not_applicable"]
                                       if n["property"] == i][0]["reason"], ""]
            continue
        m = importlib.import_module("checks." + i)
        bf = getattr(m, "bounds", lambda t: {"as": "stated in the strength"})
        q, t = fmt(bf("quick")), fmt(bf("thorough"))
        out += ["* Quantified over: %s." % p["quantifier"]["text"],
                "* Enumerated: %s." % m.RULE,
                "* Bounds: %s." % q]
        if t != q:
            out += ["* Bounds, thorough: %s." % t]
        out += ["* Oracle and assumptions: %s." % "; ".join(m.ASSUMPTIONS),
                "* Strength: %s" % by[i]["level_note"],
                "* Beyond the tests: %s." % p["why_tests_cant"].rstrip('.')]
        if i in COST:
            out += ["* Cost: about %s s." % COST[i]]
        out += [""]
    k = json.load(open(V + "/known_findings.json"))
    out += ["## Genuine defects found", "",
            "Repaired (one `fix:` commit each; the check reports the "
            "violation again if it returns):", ""]
    out += ["* " + f[len("fixed: property="):] for f in k["fixed"]]
    out += ["", "Recorded, not repaired (`known_findings.json`):", ""]
    out += ["* %s `%s`: %s" % (f["property"], f["key"], f["what"])
            for f in k["known"]]
    out += ["", "## Planted bugs (`seeded/`)", ""]
    res = json.load(open(V + "/tools/design/seeds.json"))
    out += ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % d))
        out += ["| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"),
                                           res.get(d, "not run"))]
    out += ["", open(V + "/tools/design/tail.md").read().rstrip(), ""]
    open(V + "/DESIGN.md", "w").write("\n".join(out))


main()
