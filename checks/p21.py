"""The library is header-only: any number of translation units may include it, and each umbrella header stands alone."""
import glob
import os
import re
from ctx import REPO, VERIF, NL, TBB, tree
from link import check_units, place

EXPLANATION = """One translation unit that includes every header of the library (the list is read from the tree), and the witness programs of P19
which instantiate all of its templates, are type-checked and every definition placed in a header of the library is classified by the
linkage the compiler gives it: a strong external definition would be defined again by a second translation unit, and the program would not
link; a function or static data member that is used and nowhere defined would leave the link unresolved. Each umbrella header is type-checked
alone, and include guards are compared over all headers."""
EXPECT = {"no-strong-definition": 60, "defined-when-used": 3, "stands-alone": 11, "guarded-once": 60}
ASSUMPTIONS = ["libcmaes is not installed: opt/cmaes.hpp is only seen up to its feature guard"]


def run(ctx):
    ctx.rule("no-strong-definition", "no header of the library defines a function or variable with strong external linkage")
    ctx.rule("defined-when-used", "whatever the library declares and uses is defined in its headers")
    ctx.rule("stands-alone", "a translation unit that includes only this umbrella header type-checks")
    ctx.rule("guarded-once", "a header has an include guard of its own")
    root = REPO + "/src/limbo/"
    hs = [p for p in tree(root, [".hpp"])]
    core = [p for p in hs if "/experimental/" not in p]
    D = ["-I" + VERIF + "/drivers"]

    def allof(l):
        return "#include <limbo/limbo.hpp>\n" + "".join("#include <%s>\n" % p.replace(REPO + "/src/", "") for p in l) + "int user() { return 0; }\n"
    units = {"all-headers": (allof(hs), NL), "all-core-headers": (allof(core), []), "all-core-headers-tbb": (allof(core), NL + TBB),
             "combinations": (VERIF + "/drivers/combos.cpp", D + NL), "combinations-experimental": (VERIF + "/drivers/combos_exp.cpp", D + NL),
             "analysed-core": (VERIF + "/drivers/core.cpp", D + NL), "analysed-experimental": (VERIF + "/drivers/exp.cpp", D + NL)}
    umb = sorted(glob.glob(REPO + "/src/limbo/*.hpp"))
    for p in umb:
        units["alone:" + os.path.basename(p)] = ("#include <limbo/%s>\nint user() { return 0; }\n" % os.path.basename(p), NL)
    rep = check_units({k.replace(":", "_"): v for k, v in units.items()}, root)
    rep = {k: rep[k.replace(":", "_")] for k in units}
    hits, seen = {}, set()
    for u, r in rep.items():
        if u.startswith("alone:"):
            p = REPO + "/src/limbo/" + u[6:]
            if r["errors"]:
                e = r["errors"][0]
                at, path = place(e)
                ctx.bad("stands-alone", "%s:%s" % (at or (p, 1)), "including only <limbo/%s>: %s [%s]" % (u[6:], e["msg"], path), "stands-alone:" + u[6:])
            else:
                ctx.ok("stands-alone", p, "%d headers of the library read" % len(r["files"]))
            continue
        if r["errors"]:
            e = r["errors"][0]
            at, path = place(e)
            ctx.undecided("no-strong-definition", u, "the unit does not type-check: %s [%s]" % (e["msg"], path))
            continue
        seen |= set(os.path.realpath(f) for f in r["files"])
        for d in r["strong"]:
            hits.setdefault(d["file"], {})[(d["line"], d["q"])] = "%s %s is defined here with strong external linkage (not inline, not a template): two translation units including the header do not link" % (d["kind"], d["q"])
        for d in r["undefined"]:
            ctx.bad("defined-when-used", "%s:%s" % (d["file"], d["line"]), "%s %s is used (%s) but defined nowhere" % (d["kind"], d["q"], u), "defined-when-used:" + d["q"])
        if not r["undefined"]:
            ctx.ok("defined-when-used", u, "%d functions of the library seen" % r["functions"])
        ctx.count("functions seen in " + u, r["functions"])
        ctx.analysed |= set(r["classes"])
    for f in sorted(seen):
        for (l, q), m in hits.get(f, {}).items():
            ctx.bad("no-strong-definition", "%s:%s" % (f, l), m, "no-strong-definition:" + q)
        if f not in hits:
            ctx.ok("no-strong-definition", f, "no strong definition")
    guards = {}
    for p in hs:
        t = open(p, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
        ls = [l.strip() for l in t.split("\n") if l.strip()]
        m = re.match(r"#\s*ifndef\s+(\w+)|#\s*if\s+!\s*defined\s*\(?\s*(\w+)", ls[0]) if ls else None
        g = (m.group(1) or m.group(2)) if m else None
        if any(re.match(r"#\s*pragma\s+once", l) for l in ls[:3]):
            ctx.ok("guarded-once", p, "pragma once")
        elif not g or not re.match(r"#\s*define\s+%s\b" % g, ls[1]):
            ctx.check(None, "guarded-once", p, "no include guard recognised")
        else:
            guards.setdefault(g, []).append(p)
    for g, ps in guards.items():
        if len(ps) > 1:
            ctx.bad("guarded-once", ps[1], "guard %s is also that of %s: including one header empties the other" % (g, ps[0]), "guarded-once:" + g)
        else:
            ctx.ok("guarded-once", ps[0], g)
