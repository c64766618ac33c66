"""Hyper-parameter optimisation: the right objective, its gradient, the right start, the result installed and the model refitted."""
from gpbase import *

EXPLANATION = """optimize_hyperparams() of every optimising GP instantiation is analysed with the numerical optimiser left arbitrary (its result is an
unconstrained symbolic vector). The objective object it receives is then applied, at an arbitrary parameter vector, in the state captured
at the call: its value must be the model's (log-likelihood or leave-one-out) score under exactly those parameters, its gradient the
complex-step derivative of that value, and the model itself must be untouched by evaluations. After the call every observable must equal
that of a model given the optimiser's result by hand and recomputed. Decided by value number and random interpretation."""
EXPECT = {"objective-value": 5, "objective-gradient": 5, "start-point": 5, "result-installed": 50, "objective-is-pure": 5}
ASSUMPTIONS = ["decided over the reals", "Eigen's decompositions and solves compute what they document"]
PV = mk("sym", "hp_point")
RES = mk("sym", "opt_result")

# (the documented role of each optimiser policy: which parameters, which score)
ROLES = {"KernelLFOpt": ("k", "compute_log_lik", "get_log_lik"), "MeanLFOpt": ("m", "compute_log_lik", "get_log_lik"),
         "KernelMeanLFOpt": ("km", "compute_log_lik", "get_log_lik"), "KernelLooOpt": ("k", "compute_log_loo_cv", "get_log_loo_cv")}


def is_optimizer_call(fn):
    return fn["q"].startswith("limbo::opt::") and fn["n"] == "operator()" and len(fn["p"]) == 3


def hook_for(s, cap):
    def hook(I, fn, obj, args, e, st):
        if is_optimizer_call(fn) and not cap.get("inside"):
            cap.setdefault("calls", []).append(dict(f=args[0], init=I.asT(args[1], st), bounded=I.asT(args[2], st), st=st.copy(), fn=fn, ftype=fn["p"][0]["t"], caller=I.fr.fn))
            return RES
        return None
    return hook


def run(ctx):
    ctx.rule("objective-value", "the objective at p is the model's score once p is set and the model recomputed")
    ctx.rule("objective-gradient", "the objective's gradient at p is the derivative of its value")
    ctx.rule("objective-is-pure", "evaluating the objective leaves the model as it was")
    ctx.rule("start-point", "the search starts from the model's current parameters and is unbounded (log-space)")
    ctx.rule("result-installed", "after the search every observable is that of the model given the search's result and recomputed")
    P = ctx.prog("core")
    todo = []
    for c in gps(P):
        ta = P.classes[c].get("ta") or []
        for r in ROLES:
            if any(("::" + r + "<") in t for t in ta):
                todo.append((c, r))
    ctx.pmap(one, todo)


def params_of(s):
    k = s.I.asT(s.sub(s.kernel(), "h_params"), s.st)
    m = s.I.asT(s.sub(s.mean(), "h_params"), s.st)
    nk = s.I.asT(s.sub(s.kernel(), "h_params_size"), s.st)
    nm = s.I.asT(s.sub(s.mean(), "h_params_size"), s.st)
    return k, m, nk, nm


def one(ctx, item):
    c, role = item
    P = ctx.prog("core")
    which, score, getter = ROLES[role]
    tr = 8 if ctx.tier == "quick" else 40
    tag = role + " " + short_ta(P, c)

    def body():
        cap = {}
        s = GPS(P, c)
        s.kinds.update({PV: "vec", RES: "vec"})
        s.ctor()
        s.call("compute", S, O, TRUE)
        s.set_kernel()
        s.set_mean()
        s.call("recompute", TRUE, TRUE)
        k, m, nk, nm = params_of(s)
        tot = {"k": nk, "m": nm, "km": None}[which]
        if tot is None:
            from terms import add
            tot = add(nk, nm)
        s.sizes[RES] = s.sizes[PV] = tot
        I0 = s.I.hook
        s.I.hook = hook_for(s, cap)
        s.call("optimize_hyperparams")
        s.I.hook = I0
        calls = cap.get("calls", [])
        if len(calls) != 1:
            ctx.undecided("start-point", tag, "%d optimiser calls found" % len(calls))
            return
        k0 = calls[0]
        f = k0["caller"]
        wh = "%s (%s)" % (P.where(f), tag)
        e = s.env()

        def go(r, a, b, w):
            attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w, trials=tr, key=r + ":" + role))
        want0 = {"k": lambda v: v.ev(k), "m": lambda v: v.ev(m), "km": lambda v: np.vstack([v.ev(k).reshape(-1, 1), v.ev(m).reshape(-1, 1)])}[which]
        go("start-point", k0["init"], want0, "initial point of the search vs the current parameters")
        ctx.check(k0["bounded"] is FALSE, "start-point", wh, "the search over log-parameters is unbounded", "start-point:bounded:" + role)

        # the objective, in the state captured at the call
        oc = s.P.typ(k0["ftype"]).get("rid")
        ops = [x for x in P.methods(oc, "operator()") if x.get("body")]
        def at(g):
            st2 = k0["st"].copy()
            r, _ = s.I.run(ops[0], this=k0["f"], args=[PV, g], st=st2)
            return s.I.asT(r, st2), st2
        from interp import get
        v1, st1 = at(TRUE)
        v0, st0 = at(FALSE)
        # the specification: a twin model given the parameters by hand
        t = GPS(P, c)
        t.kinds, t.sizes = s.kinds, s.sizes
        t.ctor()
        t.call("compute", S, O, TRUE)
        t.set_kernel()
        t.set_mean()
        t.call("recompute", TRUE, TRUE)

        def give(t, p):
            def setk(sub):
                t.sub(t.kernel(), "set_h_params", sub)

            def setm(sub):
                t.sub(t.mean(), "set_h_params", sub)
            if which == "k":
                setk(p)
            elif which == "m":
                setm(p)
            else:
                setk(mk("sel", p, ("head", nk)))
                setm(mk("sel", p, ("tail", nm)))
            t.call("recompute", TRUE, TRUE)
        give(t, PV)
        ref = t.get(score)
        e = s.env(t)
        go("objective-value", get(v1, 0), ref, "value returned with the gradient vs " + score)
        go("objective-value", get(v0, 0), ref, "value returned without the gradient vs " + score)

        def grad(v):
            g = v.ev(get(v1, 1))
            if isinstance(g, tuple) and g and g[0] == "opt":
                g = g[1]
            return g
        go("objective-gradient", grad, lambda v: v.deriv(ref, PV).T, "gradient vs derivative of the value")
        # purity
        bad = []
        for key in set(st1.store) | set(k0["st"].store):
            if key[:1] == ("gp",) and st1.store.get(key) is not k0["st"].store.get(key):
                bad.append(key)
        n = 0
        for key in bad:
            ro = s.I.readloc(k0["st"], key)
            rn = s.I.readloc(st1, key)
            if isinstance(ro, T) and isinstance(rn, T):
                n += 1
                go("objective-is-pure", ro, rn, "field %s before and after an evaluation" % ".".join(map(str, key[1:])))
        if n == 0:
            ctx.ok("objective-is-pure", wh, "no field of the model is written by an evaluation")
        # installation
        t2 = GPS(P, c)
        t2.kinds, t2.sizes = s.kinds, s.sizes
        t2.ctor()
        t2.call("compute", S, O, TRUE)
        t2.set_kernel()
        t2.set_mean()
        t2.call("recompute", TRUE, TRUE)
        give(t2, RES)
        sc = t2.get(score)
        got = s.get(getter)
        import p06
        e = s.env(t2)
        go("result-installed", got, sc, "the stored score")
        da, db = p06.observe(s), p06.observe(t2)
        for q in da:
            go("result-installed", da[q], db[q], q)
        a, b = params_of(s), params_of(t2)
        for x, y, w in zip(a, b, ("kernel parameters", "mean parameters")):
            go("result-installed", x, y, w)
        ctx.analysed |= s.analysed | t.analysed
    attempt(ctx, "objective-value", tag, body)
