"""Inner optimizers maximise, by their documented rule, and return the best point they should."""
import math

from optbase import *

EXPLANATION = """The sequence of points at which an inner optimizer evaluates its objective and the point it returns are terms; interpreted with
random objectives, starts and configurations they are compared, point by point, with the documented update rule (Rprop, Adam,
gradient ascent with and without momentum), with the grid, with the best of the repeats, with the stages of a chain, and with
what NLopt has to be told. The sub-optimizers of the meta-optimizers are free symbols."""
EXPECT = {"steps": 3, "result": 4, "repeats": 1, "stages": 2, "nlopt": 4, "nlopt-function": 2, "nlopt-setup": 4, "nlopt-created": 4, "nlopt-constraints": 4}
ASSUMPTIONS = ["loops are interpreted for small iteration counts (0 to 6), each iteration being the same recurrence"]


def run(ctx):
    R = ctx.rule
    R("steps", "the points evaluated follow the documented ascent rule, gradient requested")
    R("result", "the point returned is the one the rule prescribes: the best evaluated (Rprop, GridSearch), the last iterate (Adam, gradient ascent)")
    R("grid", "GridSearch evaluates exactly points of the grid, all of them")
    R("repeats", "ParallelRepeater runs its optimizer the configured number of times from starts within epsilon of the given one and returns a result of maximal value")
    R("stages", "Chained runs its optimizers in order, each from the result of the one before, on the same function and bounds, and returns the last result")
    R("nlopt", "NLopt is told to maximise the given function from the given start, without bounds when unbounded, and its result is returned")
    R("nlopt-created", "every call into NLopt by a new optimizer is on an object created for the dimension of the start")
    R("nlopt-constraints", "a constraint added is passed on to NLopt as such, with its function and tolerance")
    R("nlopt-function", "the function NLopt calls returns the objective's value, and its gradient when asked")
    R("nlopt-setup", "iterations and tolerances are passed on to NLopt")
    P = ctx.prog("core")
    items = [("op", q, c, m["id"]) for q in OPTS for c in classes(P, "limbo::opt::" + q) for m in method(P, c)]
    items += [("fun", None, f["cls"], f["id"]) for f in P.fns if f and f.get("body") and f["q"].endswith("NLOptBase::nlopt_func") and "cls" in f]
    items += [("init", q, c, m["id"]) for q in ("NLOptGrad", "NLOptNoGrad") for c in classes(P, "limbo::opt::" + q) for m in P.methods(c, "initialize", inherited=False) if m.get("body")]
    ctx.pmap(one, items)


def one(ctx, item):
    kind, q, c, fid = item
    P = ctx.prog("core")
    f = P.fns[fid]
    wh = "%s %s::%s %s" % (P.where(f), P.classes[c]["q"].split("::")[-1], f["n"], short_ta(P, c))
    if kind == "fun":
        return attempt(ctx, "nlopt-function", wh, lambda: nlfun(ctx, P, c, f, wh))
    if kind == "init":
        return attempt(ctx, "nlopt-setup", wh, lambda: nlinit(ctx, P, c, f, q, wh))
    rule = {"ParallelRepeater": "repeats", "Chained": "stages", "NLOptBase": "nlopt"}.get(q, "result")
    attempt(ctx, rule, wh, lambda: judge(ctx, P, c, f, q, wh, rule))


def clamp(x, b):
    return np.clip(x, 0, 1) if b else x


def ref_rprop(F, x, b, cfg):
    d = len(x)
    delta, old = np.full((d, 1), 0.1), np.zeros((d, 1))
    x = clamp(x, b)
    best, bx, tr = -math.inf, x, []
    for _ in range(cfg("iterations")):
        v, g = F(x)
        tr.append(x)
        if v > best:
            best, bx = v, x
        s = old * g
        g, delta, x = g.copy(), delta.copy(), x.copy()
        for j in range(d):
            if s[j, 0] > 0:
                delta[j] = min(delta[j, 0] * 1.2, 50)
            elif s[j, 0] < 0:
                delta[j] = max(delta[j, 0] * 0.5, 1e-6)
                g[j] = 0
            x[j] += np.sign(g[j, 0]) * delta[j, 0]
        x = clamp(x, b)
        old = g
        if np.linalg.norm(g) < cfg("eps_stop"):
            break
    return tr, bx


def ref_adam(F, x, b, cfg):
    m = v = np.zeros((len(x), 1))
    b1, b2 = cfg("b1"), cfg("b2")
    x = clamp(x, b)
    tr = []
    for t in range(1, cfg("iterations") + 1):
        _, g = F(x)
        tr.append(x)
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g * g
        n = clamp(x + cfg("alpha") * (m / (1 - b1 ** t)) / (np.sqrt(v / (1 - b2 ** t)) + 1e-8), b)
        st = np.linalg.norm(n - x)
        x = n
        if st < cfg("eps_stop"):
            break
    return tr, x


def ref_ga(F, x, b, cfg):
    v = np.zeros((len(x), 1))
    x = clamp(x, b)
    tr = []
    for _ in range(cfg("iterations")):
        q = clamp(x + cfg("gamma") * v, b) if cfg("nesterov") else x
        _, g = F(q)
        tr.append(q)
        v = cfg("gamma") * v + cfg("alpha") * g
        n = clamp(x + v, b)
        st = np.linalg.norm(n - x)
        x = n
        if st < cfg("eps_stop"):
            break
    return tr, x


REFS = {"Rprop": (ref_rprop, "opt_rprop"), "Adam": (ref_adam, "opt_adam"), "GradientAscent": (ref_ga, "opt_gradient_ascent")}


def arr(v):
    v = np.asarray(v)
    if v.dtype == object:
        raise fp.Undef("opaque point")
    return v.reshape(-1, 1)


def near(a, b):
    a, b = arr(a), arr(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < 1e-7 * (1 + np.abs(b))))


def judge(ctx, P, c, f, q, wh, rule):
    s = Opt(P, c)
    tr = 60 if ctx.tier == "quick" else 400
    if q == "ParallelRepeater":
        s.stage = {i for n in OPTS if n != q for i in classes(P, "limbo::opt::" + n)}
    if q == "Chained":
        s.stage = {i for n in OPTS if n != q for i in classes(P, "limbo::opt::" + n)}
    r = s.I.asT(s.runfn(f, [Ref((("f",),)), INIT, BND]), s.st)
    ctx.analysed |= s.analysed
    log = s.st.store[LOG]

    def H(rl, pred, what, env, need=15):
        attempt(ctx, rl, wh, lambda: holds(ctx, rl, wh, pred, env, what, trials=tr, need=need, key="%s:%s" % (rl, q)))
    if q in REFS:
        ref, sec = REFS[q]
        env = mkenv(s)

        def want(e):
            return ref(lambda x: value(x, coef(e)), e.ev(INIT), e.truth(e.ev(BND)), lambda n: cfgv(e, "Params::%s::%s" % (sec, n)))

        def steps(e):
            got = trace(e, log)
            w, _ = want(e)
            if len(got) != len(w):
                return False, "%d evaluations where the rule makes %d" % (len(got), len(w))
            for i, (g, x) in enumerate(zip(got, w)):
                if not near(g[2], x):
                    return False, "evaluation %d is at %s, the rule's is at %s" % (i + 1, fp.brief(g[2]), fp.brief(x))
                if not e.truth(g[3]):
                    return False, "evaluation %d does not ask for the gradient" % (i + 1)
            return True, ""
        H("steps", steps, "evaluations", env)
        H("result", lambda e: (near(e.ev(r), want(e)[1]), "returns %s where the rule gives %s" % (fp.brief(e.ev(r)), fp.brief(want(e)[1]))), "result", env)
    elif q == "GridSearch":
        env = mkenv(s, bounded=True)

        def grid(e):
            n = cfgv(e, "Params::opt_gridsearch::bins")
            d = e.ev(INIT).size
            seen = set()
            for g in trace(e, log):
                k = arr(g[2]).ravel() * n
                if len(k) != d or np.any(np.abs(k - np.round(k)) > 1e-9 * n):
                    return False, "evaluates %s, not a point of the grid" % fp.brief(g[2])
                seen.add(tuple(int(z) for z in np.round(k)))
            return len(seen) == (n + 1) ** d and all(0 <= z <= n for k in seen for z in k), "evaluates %d different points of a grid of %d" % (len(seen), (n + 1) ** d)

        def res(e):
            n = cfgv(e, "Params::opt_gridsearch::bins")
            d = e.ev(INIT).size
            import itertools
            m = max(value(np.array(k) / n, coef(e))[0] for k in itertools.product(range(n + 1), repeat=d))
            v = value(arr(e.ev(r)), coef(e))[0]
            return abs(v - m) < 1e-9, "returns a point of value %.6g, the best of the grid is %.6g" % (v, m)
        H("grid", grid, "evaluations", env)
        H("result", res, "result", env)
    elif q == "RandomPoint":
        env = mkenv(s, bounded=True)
        H("result", lambda e: (arr(e.ev(r)).shape == e.ev(INIT).shape, "wrong dimension"), "result", env)
    elif q == "ParallelRepeater":
        env = mkenv(s, extremes=False)

        def rep(e):
            st = [x[1:] for x in e.ev(log) if x[1] == "stage"]
            n, eps = cfgv(e, "Params::opt_parallelrepeater::repeats"), cfgv(e, "Params::opt_parallelrepeater::epsilon")
            if len(st) != n:
                return False, "%d runs instead of %d" % (len(st), n)
            i = e.ev(INIT)
            for x in st:
                if np.max(np.abs(arr(x[2]) - i)) > eps + 1e-12:
                    return False, "a run starts %s away from the given start, more than epsilon = %s" % (np.max(np.abs(arr(x[2]) - i)), eps)
                if e.truth(x[3]) != e.truth(e.ev(BND)):
                    return False, "a run is %sbounded" % ("" if e.truth(x[3]) else "not ")
            if n > 1 and all(near(x[2], st[0][2]) for x in st):
                return False, "all runs start at the same point"
            vs = [value(arr(x[4]), coef(e))[0] for x in st]
            return any(near(e.ev(r), x[4]) and v == max(vs) for x, v in zip(st, vs)), "returns %s, the best run gave %s" % (fp.brief(e.ev(r)), fp.brief(st[int(np.argmax(vs))][4]))
        H("repeats", rep, "runs", env)
    elif q == "Chained":
        env = mkenv(s)
        order = chain(P, c)

        def stg(e):
            st = [x[1:] for x in e.ev(log) if x[1] == "stage"]
            if len(st) != len(order):
                return False, "%d stages run instead of %d" % (len(st), len(order))
            cur = e.ev(INIT)
            for k, x in enumerate(st):
                if not P.classes[x[1]]["q"].endswith("::" + order[k]):
                    return False, "stage %d is %s, not %s" % (k + 1, P.classes[x[1]]["q"], order[k])
                if not near(x[2], cur):
                    return False, "stage %d does not start from the result of the one before" % (k + 1)
                if e.truth(x[3]) != e.truth(e.ev(BND)):
                    return False, "stage %d is given other bounds" % (k + 1)
                cur = x[4]
            return near(e.ev(r), cur), "does not return the result of the last stage"
        H("stages", stg, "stages", env)
    elif q == "NLOptBase":
        env = mkenv(s, throws="never")

        def nl(e):
            seen = {}
            i = e.ev(INIT)
            for x in e.ev(log):
                if x[1] != "nl":
                    continue
                if x[2] != "optimize":
                    seen[x[2]] = x[3:]
                    if x[2] in ("set_max_objective", "set_min_objective"):
                        seen["last"] = x[2]
                    continue
                if seen.get("last") != "set_max_objective":
                    return False, "does not ask for a maximum"
                b = e.truth(e.ev(BND))
                if not near(np.array([float(z) for z in e.lst(x[3])]), clamp(i, b)):
                    return False, "starts at %s instead of %s" % (fp.brief(x[3]), fp.brief(clamp(i, b)))
                if not b:
                    for nme, w in (("set_lower_bounds", -math.inf), ("set_upper_bounds", math.inf)):
                        y = seen.get(nme)
                        if y is not None and y[0] != w and not (isinstance(y[0], list) and all(z == w for z in y[0])):
                            return False, "an unbounded search is given bounds"
                        if y is None:
                            return False, "an unbounded search keeps the bounds of an earlier call"
                return True, ""
            return False, "never optimises"
        H("nlopt", nl, "what NLopt is told", env)
        attempt(ctx, "nlopt-created", wh, lambda: created(ctx, P, c, f, wh))
        for n in ("add_inequality_constraint", "add_equality_constraint"):
            for m in P.methods(c, n):
                if m.get("body"):
                    attempt(ctx, "nlopt-constraints", wh, lambda: constraint(ctx, P, c, m))
        data = [t for t in subt(log) if t.op == "entry" and t.args[:2] == ("nl", "set_max_objective")]
        for t in set(data):
            d = t.args[-1]
            ctx.check(True if d == mk("addr", (("f",),), ()) else False if isinstance(d, T) and d.op == "addr" and d.args[0] != (("f",),) else None, "nlopt", wh + " function data", "NLopt is given the address of the objective: %s" % (d,), "nlopt:data")
        fails = [t for t in subt(r) if t.op == "call" and t.args[0] == "nl:result"]
        ctx.check(True if len(set(fails)) >= 1 else None, "nlopt", wh + " result", "the result is NLopt's")

        def res(e):
            ok = [t for t in fails if not e.truth(e.ev(mk("call", "nl:fails", t.args[2])))]
            if not ok:
                raise fp.Undef("fails")
            return near(np.array([float(z) for z in np.asarray(e.ev(r)).ravel()]), np.array(e.ev(ok[0]))), "returns %s, NLopt's result is %s" % (fp.brief(e.ev(r)), fp.brief(e.ev(ok[0])))
        H("nlopt", res, "result", env)


def fresh(P, c):
    s = Opt(P, c)
    s.nlobj = []
    s.I.default_members(s.st, s.this, c, {"k": "default"})
    return s


def resolve(e, t):
    while isinstance(t, T) and t.op == "ite":
        t = t.args[1] if e.truth(e.ev(t.args[0])) else t.args[2]
    return t


def handle(e, t):
    """(algorithm, dimension) of an NLopt object; None: never created; raises when not known"""
    t = resolve(e, t)
    if not isinstance(t, T):
        raise fp.Undef("object not known")
    if t.op == "obj" or (t.op == "ctor" and len(t.args) < 3):
        return None
    if t.op == "ctor":
        return t.args[1], t.args[2]
    if t.op == "modby" and isinstance(t.args[0], T) and t.args[0].op == "o:nlopt::opt::operator=":
        return handle(e, t.args[0].args[-1])
    raise fp.Undef("object not known")


def derived(P, c):
    """the optimizers a user names, derived from an NLOptBase"""
    return [i for q in ("NLOptGrad", "NLOptNoGrad") for i in classes(P, "limbo::opt::" + q) if c in P.classes[i].get("bases", ())]


def created(ctx, P, c, f, wh):
    for d in derived(P, c):
        s = fresh(P, d)
        if any(t.op == "uninit" for t in s.st.store.values() if isinstance(t, T)):
            continue
        s.runfn(f, [Ref((("f",),)), INIT, BND])
        ctx.analysed |= s.analysed

        def pred(e):
            if not any(n == "optimize" for n, _, _ in s.nlobj):
                raise fp.Undef("no search seen")
            for n, t, _ in s.nlobj:
                h = handle(e, t)
                if h is None:
                    return False, "%s is called on an NLopt object that was never created" % n
                if e.integer(e.ev(h[1])) != len(e.ev(INIT)):
                    return False, "the NLopt object has %s dimensions, the start has %s" % (e.integer(e.ev(h[1])), len(e.ev(INIT)))
            return True, ""
        holds(ctx, "nlopt-created", wh + " on a new " + P.classes[d]["q"].split("::")[-1], pred, mkenv(s, throws="never"), "the NLopt object", trials=20, key="nlopt-created")


def constraint(ctx, P, c, m):
    wh = "%s NLOptBase::%s" % (P.where(m), m["n"])
    TOL, DIM = mk("sym", "tol"), mk("sym", "dim")
    for d in derived(P, c):
        s = fresh(P, d)
        if any(t.op == "uninit" for t in s.st.store.values() if isinstance(t, T)):
            continue
        s.kinds[TOL], s.kinds[DIM] = "num", "int"
        s.call("initialize", DIM)
        n0 = len(s.nlobj)
        s.runfn(m, [Ref((("f",),)), TOL])
        calls = s.nlobj[n0:]
        ent = [t for t in subt(s.st.store[LOG]) if t.op == "entry" and t.args[0] == "nl" and t.args[1].startswith("add_")]
        ctx.analysed |= s.analysed

        def pred(e):
            got = [x for x in e.ev(s.st.store[LOG]) if x[1] == "nl" and x[2].startswith("add_")]
            if [x[2] for x in got] != [m["n"]]:
                return False, "NLopt is told %s" % ([x[2] for x in got] or "nothing")
            if any(handle(e, t) is None for _, t, _ in calls):
                return False, "the constraint is added to an NLopt object that was never created"
            return near(np.array([float(got[0][-1])]), np.array([float(e.ev(TOL))])), "tolerance %s instead of %s" % (got[0][-1], e.ev(TOL))
        holds(ctx, "nlopt-constraints", wh + " on " + P.classes[d]["q"].split("::")[-1], pred, mkenv(s), "the constraint", trials=20, key="nlopt-constraints:" + m["n"])
        for t in ent:
            d_ = t.args[3] if len(t.args) > 3 else None
            ctx.check(True if d_ == mk("addr", (("f",),), ()) else False if isinstance(d_, T) and d_.op == "addr" else None, "nlopt-constraints", wh + " function data", "NLopt is given the address of the constraint: %s" % (d_,), "nlopt-constraints:data:" + m["n"])


def chain(P, c):
    """names of the optimizers of a Chained, in order"""
    import re
    ta = P.classes[c].get("ta") or []
    return re.findall(r"limbo::opt::(\w+)", " ".join(ta))


def subt(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            yield from subt(x, seen)
    elif isinstance(t, T) and t not in seen:
        seen.add(t)
        yield t
        yield from subt(t.args, seen)


def nlfun(ctx, P, c, f, wh):
    if "ScalarFun" not in str([P.typ(p["t"])["s"] for p in f["p"]]) and not any("ScalarFun" in str(a) for a in (f.get("ta") or ["ScalarFun"])):
        return
    s = Opt(P, c)
    X, G = (("x",),), (("g",),)
    r = s.I.asT(s.runfn(f, [Ref(X), Ref(G), mk("addr", (("f",),), ())]), s.st)
    ctx.analysed |= s.analysed
    g = s.I.asT(Ref(G), s.st)

    def env(seed, n):
        e = mkenv(s)(seed)
        rr = rng(seed, "nlx")
        d = e.dim
        e.assign[mk("init", X)] = [rr.uniform(-1, 1) for _ in range(d)]
        e.assign[mk("init", G)] = [0.125] * (d if n else 0)
        return e

    def pred(e):
        x = np.array(e.assign[mk("init", X)])
        v, gr = value(x, coef(e))
        if abs(complex(e.scalar(e.ev(r))) - v) > 1e-9:
            return False, "returns %s where the objective is %s" % (fp.brief(e.ev(r)), v)
        if e.assign[mk("init", G)]:
            return near(np.array([float(z) for z in np.asarray(e.ev(g)).ravel()]), gr), "gradient %s where the objective's is %s" % (fp.brief(e.ev(g)), fp.brief(gr))
        return True, ""
    for n in (0, 1):
        attempt(ctx, "nlopt-function", wh, lambda: holds(ctx, "nlopt-function", "%s %s gradient" % (wh, "with" if n else "without"), pred, lambda sd: env(sd, n), "value", trials=40, key="nlopt-function"))


def nlinit(ctx, P, c, f, q, wh):
    s = Opt(P, c)
    s.runfn(f, [mk("sym", "dim")])
    ctx.analysed |= s.analysed
    s.kinds[mk("sym", "dim")] = "int"
    log = s.st.store[LOG]
    sec = {"NLOptGrad": "opt_nloptgrad", "NLOptNoGrad": "opt_nloptnograd"}[q]

    def over(env, t, k):
        if t.op == "cfg":
            return rng(env.seed, t.args[0]).uniform(0.1, 5)

    def pred(e):
        last = {}
        for x in e.ev(log):
            if x[1] == "nl":
                last[x[2]] = x[3:]
        for nme, par in (("set_maxeval", "iterations"), ("set_ftol_rel", "fun_tolerance"), ("set_xtol_rel", "xrel_tolerance")):
            w = rng(e.seed, "Params::%s::%s" % (sec, par)).uniform(0.1, 5)
            if nme not in last:
                return False, "%s is not called" % nme
            if abs(last[nme][0] - w) > 1e-12 and not (nme == "set_maxeval" and last[nme][0] == int(w)):
                return False, "%s gets another value than %s::%s" % (nme, sec, par)
        return True, ""
    holds(ctx, "nlopt-setup", wh, pred, mkenv(s, over=over), "settings", trials=20, key="nlopt-setup:" + q)
