#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 tool/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
REL = "value-graph equivalence (symbolic GVN + random interpretation)"
RELNOTE = ("Sound alarm: a difference is a definite counterexample of the identity between two terms built from the code of the current tree; "
           "agreement is established by value numbering or by independent random interpretations of the terms (Gulwani & Necula), probability of a missed difference negligible per sampled size. "
           "Decided over the reals; symbolic lengths are instantiated at small sizes; Eigen, the standard library and NLOpt are trusted to do what they document.")


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(V, "tool", "props_data.py")).read())


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="python3-vt check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"], thorough_cmd="python3-vt check.py %s thorough" % p["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PROPS if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]],
             notes="All checks are static: /repo's current sources are parsed and type-checked by a clang-based extractor (tool/extract.cpp), never compiled into a program or run. No hooks in /repo.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")


main()
