"""Policies combine freely: every documented combination type-checks."""
import glob
import os
from ctx import REPO, VERIF, NL, TBB, CheckError
from link import check_units, place

EXPLANATION = """Type-level witnesses: drivers/combos.cpp and combos_exp.cpp instantiate, in full (every member, explicit instantiation
where the class allows it), every class template of the library and the combinations of kernels, means, hyper-parameter policies, models,
acquisitions, inner optimisers, initialisers, stopping criteria and statistics the documentation offers, under each supported
configuration (with and without NLOpt, with TBB). The shipped examples and tutorials are type-checked as well. The compiler front end is
the decision procedure: a combination that stops type-checking is reported at the construct in the repository with its chain of
instantiations. Nothing is compiled to code or run."""
EXPECT = {"combination": 300, "shipped-program": 7}
ASSUMPTIONS = ["clang 18 in C++14 mode stands for every supported compiler", "libcmaes is not installed: opt::Cmaes and the programs that name it are not analysed"]


def run(ctx):
    ctx.rule("combination", "the documented combination of policies type-checks, with all its members")
    ctx.rule("shipped-program", "the example or tutorial shipped with the library type-checks")
    D = ["-I" + VERIF + "/drivers"]
    units = {"core-nlopt": (VERIF + "/drivers/combos.cpp", D + NL), "core-plain": (VERIF + "/drivers/combos.cpp", D),
             "core-nlopt-tbb": (VERIF + "/drivers/combos.cpp", D + NL + TBB), "experimental-nlopt": (VERIF + "/drivers/combos_exp.cpp", D + NL)}
    if ctx.tier == "thorough":
        units["experimental-nlopt-tbb"] = (VERIF + "/drivers/combos_exp.cpp", D + NL + TBB)
        units["core-plain-tbb"] = (VERIF + "/drivers/combos.cpp", D + TBB)
        units["core-nlopt-17"] = (VERIF + "/drivers/combos.cpp", D + NL + ["-std=c++17"])
    progs = {}
    for p in sorted(glob.glob(REPO + "/src/examples/*.cpp") + glob.glob(REPO + "/src/tutorials/*.cpp") + glob.glob(REPO + "/src/examples/experimental/*.cpp")):
        progs[p.replace("/", "_")] = (p, NL)
    rep = check_units(dict(list(units.items()) + list(progs.items())), REPO + "/src/limbo/")
    for u, r in rep.items():
        rule = "combination" if u in units else "shipped-program"
        if u in progs and any("maes" in e["msg"] for e in r["errors"]):
            ctx.notes.append("needs libcmaes, not analysed: " + progs[u][0])
            continue
        for e in r["errors"]:
            at, path = place(e)
            if at is None and u.startswith("experimental"):
                raise CheckError("the witness program (%s) does not compile: %s (%s)" % (u, e["msg"], path))
            f, l = at or (e.get("file", "?"), e.get("line", 0))
            ctx.bad(rule, "%s:%s" % (f, l), "in configuration %s: %s [%s]" % (u, e["msg"], path), "%s:%s:%s" % (rule, f.replace(REPO + "/", ""), e["msg"][:120]))
        if r["errors"]:
            continue
        if u in progs:
            ctx.ok(rule, units.get(u, progs.get(u))[0], "type-checks (%d functions of the library instantiated)" % r["functions"])
        for c in r["classes"]:
            if u in units and "<" in c:
                ctx.ok(rule, u, c[:300])
                ctx.obs[-1]["key"] = u + " " + c
        ctx.count("functions instantiated in " + os.path.basename(u), r["functions"])
        ctx.analysed |= set(r["classes"])
