"""Initialisation strategies: how many points, which ones, on whose behalf."""
from optbase import *

EXPLANATION = """Each initialisation strategy is a term over its configuration and the random draws: the sequence of points it has the optimizer evaluate.
Interpreted with random counts, grid sizes, dimensions and draws, that sequence must have the documented length, every point the
dimension of the function, lie where documented (the unit box when bounded, the points of the grid, all of them for the full grid, the rows of one Latin hypercube)
and be evaluated with the function that was given."""
EXPECT = {"count": 4, "points": 4, "function": 4, "untouched": 5}
ASSUMPTIONS = ["std::uniform_int_distribution and the library's own generators draw from the range they are given (P15)", "dimensions 1 to 3 and small counts are interpreted"]


def run(ctx):
    R = ctx.rule
    R("count", "the configured number of points is evaluated")
    R("points", "the points are the documented ones")
    R("range", "random points reach every part of what they are drawn from, independently")
    R("function", "the given function is evaluated, by the given optimizer")
    R("untouched", "nothing but evaluating through the optimizer touches the optimizer")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        for i, c in enumerate(P.classes):
            if not c["q"].startswith("limbo::init::"):
                continue
            ms = {}
            for m in P.methods(i, "operator()", inherited=False):
                if m.get("body") is not None and len(m["p"]) == 3 and "Obj" in P.typ(m["p"][0]["t"])["s"]:
                    ms.setdefault(i, m["id"])
            items += [(u, i, k) for k in ms.values()]
    ctx.pmap(one, items)


class Init(Opt):
    def hook(self, I, fn, obj, args, e, st):
        now = st.store[LOG]
        if fn["n"] == "eval_and_add":
            x = I.asT(args[1], st)
            f = args[0]
            fl = mk("addr", I.deref_chain(st, f).loc, ()) if isinstance(f, Ref) else mk("opaque", "fun")
            ob = mk("addr", I.deref_chain(st, obj).loc, ()) if isinstance(obj, Ref) else mk("opaque", "obj")
            self.push(st, mk("entry", "E", x, fl, ob))
            return mk("opaque", "void")
        if fn["q"] == "limbo::tools::random_lhs":
            self.push(st, mk("entry", "lhs"))
            return mk("call", "random_lhs", I.asT(args[0], st), I.asT(args[1], st), now)
        if fn["n"] == "operator()" and "_distribution" in fn["q"]:
            self.push(st, mk("entry", "rnd"))
            return mk("call", "draw", I.asT(obj, st), now)
        if fn["n"] in ("dim_in", "dim_out") and "Obj" in fn["q"]:
            return mk("call", fn["n"])
        return super().hook(I, fn, obj, args, e, st)


def one(ctx, item):
    u, c, fid = item
    P = ctx.prog(u)
    f = P.fns[fid]
    nm = P.classes[c]["q"].split("::")[-1]
    wh = "%s %s::operator() %s" % (P.where(f), nm, "" if u == "core" else "(experimental optimizers)")
    attempt(ctx, "count", wh, lambda: judge(ctx, P, c, f, nm, wh))


def kept(v, q):
    """the optimizer as it was, up to what the strategy's own recursion does to it beyond the depth analysed (which is what it does at the analysed depths)"""
    if not isinstance(v, T):
        return False
    if v.op == "modby":
        return isinstance(v.args[0], T) and v.args[0].op.startswith("m:%s::" % q) and kept(v.args[1], q)
    if v.op == "ite":
        return kept(v.args[1], q) and kept(v.args[2], q)
    if v.op == "fix":
        return all(kept(x, q) for x in v.args[3] + v.args[4])
    return v.op == "mu" or v.op == "init" and v.args[0] == (("bo",),)


def judge(ctx, P, c, f, nm, wh):
    s = Init(P, c)
    s.runfn(f, [Ref((("f",),)), Ref((("agg",),)), Ref((("bo",),))])
    ctx.analysed |= s.analysed
    log = s.st.store[LOG]
    F, B = mk("addr", (("f",),), ()), mk("addr", (("bo",),), ())
    tr = 60 if ctx.tier == "quick" else 400

    def over(env, t, k):
        if t.op == "call" and t.args[0] in ("dim_in", "Obj::dim_in"):
            return env.dim
        if t.op == "cfg":
            n = t.args[0].split("::")[-1]
            if n == "samples":
                return env.rnd("samples").randrange(0, 5)
            if n == "bins":
                return env.rnd("bins").choice((1, 2, 3, 4))
            if n == "bounded":
                return env.seed % 3 != 0 or nm in ("LHS", "RandomSamplingGrid")
        if t.op == "call" and t.args[0] == "random_lhs":
            n, d = env.integer(env.ev(t.args[2])), env.integer(env.ev(t.args[1]))
            r = env.rnd("lhs", len(env.ev(t.args[3])))
            return np.array([[r.random() for _ in range(d)] for _ in range(n)]).reshape(n, d)
        if t.op == "call" and t.args[0] == "draw":
            g = t.args[1]
            while g.op == "modby" and "uniform" in str(g.args[0]) and "::reset" in str(g.args[0]):
                g = g.args[1]   # a uniform distribution has no state to forget
            if g.op != "ctor" or "uniform_int" not in g.args[0] or len(g.args) != 3:
                raise fp.Undef("unknown generator " + show(g, 4)[:100])
            lo, hi = env.integer(env.ev(g.args[1])), env.integer(env.ev(g.args[2]))
            r = env.rnd("draw", fp.brief(env.ev(t.args[2])), len(env.ev(t.args[2])))
            return r.randint(lo, hi) if hi >= lo else lo
        return None
    env = mkenv(s, over=over, extremes=False)

    def cfg(e, n):
        return over(e, mk("cfg", "Params::" + n), None)

    def evs(e):
        out = [x for x in e.ev(log) if x[1] == "E"]
        for x in out:
            if isinstance(x[2], fp.Opq):
                raise fp.Undef("opaque point")
        return out

    seen = set()

    def count(e):
        want = {"RandomSampling": "samples", "LHS": "samples", "RandomSamplingGrid": "samples"}.get(nm)
        n = 0 if nm == "NoInit" else cfg(e, want) if want else (cfg(e, "bins") + 1) ** e.dim
        got = len(evs(e))
        return got == n, "evaluates %d points instead of %d (dimension %d)" % (got, n, e.dim)

    def points(e):
        nonlocal seen
        L = e.ev(log)
        xs = [np.asarray(x[2], dtype=float).ravel() for x in evs(e)]
        for x in xs:
            if x.size != e.dim:
                return False, "a point of %d coordinates for a function of %d" % (x.size, e.dim)
        if nm == "GridSampling" or nm == "RandomSamplingGrid":
            b = cfg(e, "bins")
            ks = [tuple(int(round(v * b)) for v in x) for x in xs]
            for k, x in zip(ks, xs):
                if any(abs(v * b - q) > 1e-9 for v, q in zip(x, k)) or any(not 0 <= q <= b for q in k):
                    return False, "%s is not a point of the grid of %d bins" % (fp.brief(x), b)
            if nm == "GridSampling" and len(set(ks)) != (b + 1) ** e.dim:
                return False, "%d different points of the %d of the grid" % (len(set(ks)), (b + 1) ** e.dim)
            if nm == "RandomSamplingGrid":
                for k in ks:
                    seen |= {"low"} if 0 in k else set()
                    seen |= {"high"} if b in k else set()
                    seen |= {"coordinates"} if len(set(k)) > 1 else set()
                seen |= {"points"} if len(set(ks)) > 1 else set()
        elif nm == "LHS":
            k = [i for i, x in enumerate(L) if x[1] == "lhs"]
            if len(k) != 1:
                return (not xs, "%d Latin hypercubes are drawn" % len(k))
            r = e.rnd("lhs", k[0])
            H = np.array([[r.random() for _ in range(e.dim)] for _ in range(cfg(e, "samples"))]).reshape(-1, e.dim)
            got = sorted(tuple(x) for x in xs)
            if got != sorted(tuple(x) for x in H):
                return False, "the points evaluated are not the rows of the hypercube"
        elif nm == "RandomSampling":
            if len(set(tuple(x) for x in xs)) != len(xs):
                return False, "the same draw is evaluated twice"
            if cfg(e, "bounded"):
                bad = [x for x in xs if np.any(x < 0) or np.any(x > 1)]
                if bad:
                    return False, "evaluates %s in a bounded optimisation" % fp.brief(bad[0])
            elif any(np.any(x < 0) or np.any(x > 1) for x in xs):
                seen.add("outside")
        return True, ""

    def fun(e):
        for x in evs(e):
            if x[3] != e.ev(F) or x[4] != e.ev(B):
                return False, "evaluates another function or through another optimizer"
        return True, ""
    if nm != "NoInit":
        v = attempt(ctx, "points", wh, lambda: holds(ctx, "points", wh, points, env, "points", trials=tr, need=20, key="points:" + nm))
        attempt(ctx, "function", wh, lambda: holds(ctx, "function", wh, fun, env, "function", trials=tr, need=20, key="function:" + nm))
    want = {"RandomSampling": {"outside": "points of an unbounded optimisation outside the unit box"},
            "RandomSamplingGrid": {"low": "coordinate 0", "high": "coordinate 1", "coordinates": "different coordinates of a point", "points": "different points"}}.get(nm, {})
    if nm != "NoInit" and v is not None and v.holds:   # what random points have to reach, over all the interpretations
        for k, d in want.items():
            ctx.check(k in seen, "range", wh + " " + k, "%s: %s" % (d, "drawn" if k in seen else "never drawn, whatever the generator returns"), "range:%s:%s" % (nm, k))
    attempt(ctx, "count", wh, lambda: holds(ctx, "count", wh, count, env, "number of points", trials=tr, need=20, key="count:" + nm))
    wr = [l for l in s.st.store if l and l[0] == ("bo",) and not (l == (("bo",),) and kept(s.st.store[l], P.classes[c]["q"]))]
    if wr:
        ctx.bad("untouched", wh, "writes %s of the optimizer" % (wr[:2],), key="untouched:" + nm)
    else:
        ctx.ok("untouched", wh, "no write into the optimizer")
