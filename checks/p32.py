"""An optimizer given an aggregator sees observations and predictions through it only."""
from base import *
from ir import walk

EXPLANATION = """In the drivers every optimizer, acquisition function, criterion and statistic is instantiated with a user's aggregator that is not the default
one. From every function that receives it the analysis follows the calls (model, kernels, inner optimizers and tools excepted: they work on
whole vectors), and decides on the type-checked program (i) by type: no default aggregator is made or passed, and no object of the aggregator's type is
made anew - the one given is the one used; (ii) by a flow-insensitive interprocedural taint analysis whose sources are what the user's function
returned, what the record holds and what the model predicts: no entry of such a vector is read and no such vector is reduced to a number except by
the aggregator; (iii) aggregated values are used: every class that decides calls the aggregator (or passes it on)."""
EXPECT = {"given-aggregator": 45, "only-view": 45, "used": 12}
ASSUMPTIONS = ["the constrained optimizer (cboptimizer.hpp) splits objectives from constraints entry by entry: the second rule is not applied to it; what it makes of them is decided by P17"]
UNITS = ("core", "exp")
OUT = ("limbo::model::", "limbo::kernel::", "limbo::mean::", "limbo::opt::", "limbo::tools::", "limbo::serialize::", "randutils::")
# reductions and entry reads of an Eigen vector to a number
SIZES = {"size", "rows", "cols", "innerSize", "outerSize", "data"}
NOTPRED = {"samples", "dim_in", "dim_out", "nb_samples", "kernel_function", "mean_function"}
MUT = {"push_back", "emplace_back", "insert", "assign", "operator=", "resize", "swap"}


def run(ctx):
    R = ctx.rule
    R("given-aggregator", "the aggregator used is the object given: no default aggregator, no fresh object of its type")
    R("only-view", "no entry of an observation or prediction is read, and none is reduced to a number, except by the aggregator")
    R("used", "the class obtains values by calling the aggregator it was given, or hands it on")
    for u in UNITS:
        attempt(ctx, "given-aggregator", u, lambda: unit(ctx, u))


class Flow:
    def __init__(s, P):
        s.P = P
        s.agg = {i for i, c in enumerate(P.classes) if c["q"] == "Agg"}
        s.first = {i for i, c in enumerate(P.classes) if c["q"] == "limbo::FirstElem"}
        if not s.agg or not s.first:
            raise Unsupported("the aggregators of the driver are not found")
        s.constrained = {f["f"] for f in P.fns if f["q"].startswith("limbo::experimental::bayes_opt::CBOptimizer::")}
        s.decl, s.field, s.ret, s.lam = set(), set(), set(), set()
        s.scope()
        n = -1
        while n != (len(s.decl), len(s.field), len(s.ret)):
            n = (len(s.decl), len(s.field), len(s.ret))
            for f in s.fns:
                s.cur = f
                s.stmt(f["body"])

    def rid(s, t):
        return s.P.typ(t).get("rid")

    def is_agg(s, t):
        return s.rid(t) in s.agg

    def eigen(s, t):
        return "Eigen::" in s.P.typ(t)["s"].split("<")[0]

    def number(s, t):
        return s.P.typ(t).get("b") in ("int", "float", "bool", "void", "enum") and not s.P.typ(t).get("ptr")

    def inside(s, f):
        q = f["q"]
        return bool(f.get("repo")) and f.get("body") is not None and not q.startswith(OUT) and not ("cls" in f and f["cls"] in s.first)

    def lambdas(s, f):
        out = []
        for x in walk(f["body"]):
            if x.get("k") == "lambda" and x.get("fn") is not None:
                g = s.P.fns[x["fn"]]
                if g.get("body") is not None:
                    out.append(g)
                    continue
                # a generic closure: its instances that refer to what this one captures
                caps = {c["d"] for c in x.get("caps", ())}
                for h in s.P.fns:
                    if h.get("lam") and h.get("body") is not None and h["n"] == "operator()" and h.get("f") == g.get("f") and h.get("l") == g.get("l"):
                        ds = {y.get("d") for y in walk(h["body"]) if y.get("k") == "ref"}
                        if not caps or caps & ds:
                            out.append(h)
        return out

    def scope(s):
        P = s.P
        roots = []
        for f in P.fns:
            if not s.inside(f):
                continue
            c = P.classes[f["cls"]] if "cls" in f else None
            if any(s.is_agg(p["t"]) for p in f["p"]) or (c and any(s.is_agg(x["t"]) for x in c.get("fields", ()))):
                roots.append(f)
        seen, todo = {}, list(roots)
        while todo:
            f = todo.pop()
            if f["id"] in seen:
                continue
            seen[f["id"]] = f
            todo += s.lambdas(f)
            for x in walk(f["body"]):
                g = x.get("fn")
                if x.get("k") in ("call", "ctor") and g is not None and s.inside(P.fns[g]):
                    todo.append(P.fns[g])
        s.fns = [seen[i] for i in sorted(seen)]
        s.ids = set(seen)

    def root(s, e):
        """what a write into e changes: ('d', decl) or ('f', field)"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "ref":
                return ("d", e.get("d"))
            if k == "mem":
                return ("f", e.get("d"))
            if k == "call" and e.get("m"):
                e = e["obj"]
            elif k == "call" and e.get("a") and e.get("op") in ("[]", "()"):
                e = e["a"][0]
            elif e.get("c"):
                e = e["c"][0]
            elif k == "call" and len(e.get("a", ())) >= 1 and s.name(e) in ("get", "move", "forward"):
                e = e["a"][0]
            else:
                return None
        return None

    def name(s, e):
        return s.P.fns[e["fn"]]["n"] if e.get("fn") is not None else ""

    def mark(s, e):
        if s.P.fns and isinstance(e, dict) and e.get("k") == "call" and s.name(e) == "tie":
            for x in e["a"]:
                s.mark(x)
            return
        if "t" in e and s.number(e["t"]):
            return
        r = s.root(e)
        if r:
            (s.decl if r[0] == "d" else s.field).add(r[1])

    def t(s, e):
        """is the value of e (part of) an observation or a prediction"""
        if not isinstance(e, dict):
            return False
        k = e.get("k")
        if k == "ref":
            return e.get("d") in s.decl
        if k == "mem":
            if e.get("n") == "_observations":
                return True
            return e.get("d") in s.field or (e.get("n") in ("first", "second") and any(s.t(x) for x in e.get("c", ())))
        if k == "lambda":
            return False
        if k in ("call", "ctor"):
            if e.get("t") is not None and s.number(e["t"]):
                return False
            if k == "call" and e.get("fn") is not None:
                f = s.P.fns[e["fn"]]
                if f["q"] == "Obj::operator()":
                    return True
                c = s.P.classes[f["cls"]]["q"] if "cls" in f else ""
                if c.startswith("limbo::model::") or c.endswith("Model"):
                    return f["n"] not in NOTPRED
                if f["n"] in ("observations", "best_observation"):
                    return True
                if f["id"] in s.ids:
                    return f["id"] in s.ret
            return s.t(e.get("obj")) or any(s.t(x) for x in e.get("a", ()))
        return any(s.t(x) for x in kids(e))

    def call(s, e):
        P = s.P
        args = e.get("a", [])
        ta = [s.t(a) for a in args]
        f = P.fns[e["fn"]] if e.get("fn") is not None else None
        if f is not None and f["id"] in s.ids:
            ps = f["p"]
            for p, a in zip(ps, ta):
                if a and not s.number(p["t"]):
                    s.decl.add(p["id"])
        if any(ta) or s.t(e.get("obj")):
            for a in args:   # the callables of an algorithm over observations receive them
                for x in walk(a):
                    if x.get("k") == "lambda" and x.get("fn") is not None:
                        for g in s.lambdas({"body": x}):
                            for p in g["p"]:
                                if not s.number(p["t"]):
                                    s.decl.add(p["id"])
        n = f["n"] if f is not None else ""
        if any(ta) and (e.get("op") in ("=", "+=", "-=", "<<", ",") or n in MUT) and e.get("obj") is not None:
            s.mark(e["obj"])
        elif any(ta) and e.get("op") == "=" and len(args) == 2:
            s.mark(args[0])

    def stmt(s, n):
        for x in walk(n):
            k = x.get("k")
            if k == "call":
                s.call(x)
            elif k == "ctor" and x.get("fn") is not None and x["fn"] in s.ids:
                s.call(x)
            elif k == "asg" and len(x.get("c", ())) == 2 and s.t(x["c"][1]):
                s.mark(x["c"][0])
            elif k == "decl":
                for v in x.get("v", ()):
                    if v.get("init") is not None and not s.number(v["t"]) and s.t(v["init"]):
                        s.decl.add(v["id"])
            elif k == "rfor":
                v = x.get("v") or {}
                if s.t(x.get("range")) and v.get("id") is not None:
                    s.decl.add(v["id"])
            elif k == "ret" and s.cur.get("rt") is not None and not s.number(s.cur["rt"]):
                if any(s.t(y) for y in kids(x)):
                    s.ret.add(s.cur["id"])

    def reads(s, f):
        """reads of entries of, and reductions of, tainted vectors"""
        out = []
        if f["f"] in s.constrained:
            return out
        for x in walk(f["body"]):
            if x.get("k") != "call" or x.get("t") is None or not s.number(x["t"]) or s.P.typ(x["t"]).get("b") != "float":
                continue
            o = x.get("obj")
            g = s.P.fns[x["fn"]] if x.get("fn") is not None else {"n": x.get("op") or "?", "q": "?"}
            if g["n"] in SIZES or g["q"] == "Agg::operator()":
                continue
            if o is not None and s.eigen(o.get("t", -1)) and s.t(o):
                out.append((x.get("l"), g["n"]))
        for x in walk(f["body"]):
            if (x.get("k") == "idx" or x.get("k") == "un" and x.get("op") == "*") and not s.P.typ(x.get("t")).get("ptr") and s.P.typ(x.get("t")).get("b") == "float" and any(s.t(y) for y in kids(x)):
                out.append((x.get("l"), "dereference"))
        return out


def kids(e):
    for k, v in e.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def unit(ctx, u):
    P = ctx.prog(u)
    F = Flow(P)
    uses = {}
    for f in F.fns:
        if f["q"] in ("Agg::Agg", "Agg::operator()"):
            continue
        wh = "%s %s%s" % (P.where(f), P.fdesc(f), "" if not f.get("lam") else " (lambda)")
        ctx.analysed.add(P.fdesc(f))
        bad = []
        for x in walk(f["body"]):
            if x.get("t") is None:
                continue
            r = F.rid(x["t"])
            if x.get("k") in ("ctor", "init", "tmp", "list") and r in F.first:
                bad.append("%s: makes a default aggregator%s" % (P.where(f, x.get("l")) if not x.get("dflt") else "default argument", ""))
            elif x.get("k") in ("ctor", "list") and r in F.agg and not x.get("a"):
                bad.append("makes another aggregator than the one given")
            if x.get("k") == "call" and x.get("fn") is not None:
                g = P.fns[x["fn"]]
                cn = P.classes[f["cls"]]["q"] if "cls" in f else f["q"]
                if g["q"] == "Agg::operator()" or any(F.is_agg(a.get("t")) for a in x.get("a", ()) if isinstance(a, dict)):
                    uses.setdefault(cn, []).append(f)
                if x.get("dflt") or any(F.rid(p["t"]) in F.first for p in g["p"]):
                    l = x.get("l")
                    bad.append("line %s: %s called with the default aggregator" % (l, g["n"]))
        ctx.check(not bad, "given-aggregator", wh, "; ".join(sorted(set(bad))) or "uses the aggregator given", "given-aggregator:" + f["q"])
        rd = F.reads(f)
        ctx.check(not rd, "only-view", wh, "; ".join("line %s: %s of an observation or prediction" % r for r in sorted(set(rd))) or "reads no entry", "only-view:" + f["q"])
    for cn in sorted(uses):
        ctx.ok("used", "%s %s" % (u, cn), "%d functions" % len(set(f["id"] for f in uses[cn])))
