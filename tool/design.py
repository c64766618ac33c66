#!/usr/bin/env python3
"""DESIGN.md from tool/design_head.md, the properties, what each check says of itself and the last evidence, and tool/design_tail.md."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
tech = {x["property"]: x for x in man["checks"]}
seeds = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m["what_it_breaks"], m["needs"]))
out = [open(V + "/tool/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
for p in props:
    i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), "", "*Property.* " + p["statement"], ""]
    if i in na:
        out += ["*Not applicable.* " + na[i], ""]
        continue
    src = open(V + "/checks/%s.py" % i.lower()).read()
    m = re.search(r'EXPLANATION = """(.*?)"""', src, re.S)
    out += ["*How it is decided.* " + " ".join(m.group(1).split()), ""]
    ev = V + "/evidence/%s.json" % i
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        out += ["*Rules (obligations on the current tree).*", ""]
        for r, d in c["rules"].items():
            out.append("- `%s` (%d): %s" % (r, d["ok"] + d["undecided"] + d["violation"], d["text"]))
        out += ["", "*Analysed.* %d obligations over %d function instances; undecided on the unchanged tree: %d." % (c["obligations"], c["functions_analysed"], c["undecided"])]
        if e.get("assumptions"):
            out += ["", "*Assumes.* " + "; ".join(e["assumptions"]) + "."]
    out += ["", "*Why tests cannot settle it.* %s." % p["why_tests_cant"].rstrip("."), "", "*Technique.* %s (level: %s)." % (tech[i]["technique"], tech[i]["level"])]
    for n, b, need in seeds.get(i, []):
        out += ["", "*Planted* `%s`: %s." % (n, b.rstrip("."))]
    out.append("")
tail = open(V + "/tool/design_tail.md").read()
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(seeds):
    for n, b, need in seeds[i]:
        rows.append("| `%s` | %s | %s | %s |" % (n, i, b.replace("|", "/"), need.replace("|", "/")))
known = [l.strip() for l in open(V + "/known_findings.txt") if l.strip() and not l.startswith("#")]
fx = ["- %s" % l for l in known if l.startswith("fixed:")]
kf = ["- %s" % l for l in known if not l.startswith("fixed:")]
tail = tail.replace("@SEEDS@", "\n".join(rows)).replace("@FIXED@", "\n".join(fx)).replace("@KNOWN@", "\n".join(kf)).replace("@NFIX@", str(len(fx)))
out.append(tail.rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
