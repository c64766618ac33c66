"""Bounded searches stay in the unit box."""
from optbase import *

EXPLANATION = """The points at which an inner optimizer evaluates its objective, and the point it returns, are terms over the starting point, the
objective's answers and the configuration, loops included. They are interpreted with starting points inside, on and outside the
box, with large steps and every regime of the parameters; each must lie in [0, 1]^d whenever the search is bounded."""
EXPECT = {"evaluated": 6, "returned": 8, "size": 8}
ASSUMPTIONS = ["the objective returns finite values and gradients", "NLopt honours the bounds it is given and leaves the point alone when it fails",
               "loops are interpreted for small iteration counts (0 to 6), each iteration being the same recurrence"]


def run(ctx):
    R = ctx.rule
    R("evaluated", "in a bounded search the objective is only evaluated inside [0, 1]^d")
    R("returned", "a bounded search returns a point of [0, 1]^d")
    R("size", "the point returned has the dimension of the starting point")
    R("nlopt-bounds", "a bounded NLopt search is given the bounds 0 and 1 for every coordinate before it starts, and a start within them")
    P = ctx.prog("core")
    items = [(q, c, m["id"]) for q in OPTS for c in classes(P, "limbo::opt::" + q) for m in method(P, c)]
    ctx.pmap(one, items)


def one(ctx, item):
    q, c, fid = item
    P = ctx.prog("core")
    wh = "%s %s::operator() %s" % (P.where(P.fns[fid]), q, short_ta(P, c))
    attempt(ctx, "returned", wh, lambda: judge(ctx, P, c, P.fns[fid], q, wh))


def inbox(x):
    x = np.asarray(x)
    if x.dtype == object:
        raise fp.Undef("opaque point")
    x = x.astype(complex).ravel()
    return bool(np.all(np.abs(x.imag) == 0) and np.all(x.real >= 0) and np.all(x.real <= 1))


def judge(ctx, P, c, f, q, wh):
    s = Opt(P, c)
    r = s.I.asT(s.runfn(f, [Ref((("f",),)), INIT, BND]), s.st)
    ctx.analysed |= s.analysed
    log = s.st.store[LOG]
    tr = 60 if ctx.tier == "quick" else 400
    env = mkenv(s, bounded=True)

    def ev(e):
        for x in trace(e, log):
            if not inbox(x[2]):
                return False, "evaluates the objective at %s (start %s)" % (fp.brief(x[2]), fp.brief(e.ev(INIT)))
        return True, ""

    def ret(e):
        v = e.ev(r)
        if isinstance(v, fp.Opq):
            raise fp.Undef("opaque")
        if q == "ParallelRepeater" and fp.same(v, e.ev(INIT)):
            return True, ""
        return inbox(v), "returns %s (start %s)" % (fp.brief(v), fp.brief(e.ev(INIT)))

    def size(e):
        v = e.ev(r)
        if isinstance(v, fp.Opq):
            raise fp.Undef("opaque")
        return np.asarray(v).size == e.ev(INIT).size, "returns %d coordinates for %d" % (np.asarray(v).size, e.ev(INIT).size)
    if q not in ("NLOptBase", "RandomPoint"):
        attempt(ctx, "evaluated", wh, lambda: holds(ctx, "evaluated", wh, ev, env, "evaluations", trials=tr, need=20, key="evaluated:" + q))
    attempt(ctx, "returned", wh, lambda: holds(ctx, "returned", wh, ret, env, "result", trials=tr, need=20, key="returned:" + q))
    attempt(ctx, "size", wh, lambda: holds(ctx, "size", wh, size, env, "dimension", trials=tr, need=20, key="size:" + q))
    if q == "NLOptBase":
        def nb(e):
            seen = []
            for x in e.ev(log):
                if x[1] != "nl":
                    continue
                if x[2] == "optimize":
                    st = np.asarray(e.lst(x[3]))
                    d = e.ev(INIT).size
                    lo = [y for n, y in seen if n == "set_lower_bounds"]
                    hi = [y for n, y in seen if n == "set_upper_bounds"]
                    if not lo or not hi:
                        return False, "starts without bounds"
                    for y, w in ((lo[-1], 0), (hi[-1], 1)):
                        y = [y] * d if isinstance(y, (int, float)) else list(e.lst(y))
                        if len(y) != d or any(float(v) != w for v in y):
                            return False, "the bounds are %s, not %d for each of %d coordinates" % (fp.brief(y), w, d)
                    return inbox(st), "starts at %s" % fp.brief(st)
                seen.append((x[2], x[3] if len(x) > 3 else None))
            return False, "never optimises"
        attempt(ctx, "nlopt-bounds", wh, lambda: holds(ctx, "nlopt-bounds", wh, nb, mkenv(s, bounded=True, throws="never"), "bounds", trials=tr, need=20, key="nlopt-bounds"))
