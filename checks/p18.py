"""Stopping criteria and their combination."""
from bobase import *

EXPLANATION = """The answer of each stopping criterion is a term over the optimizer's counters, record and model and the aggregator. It is
compared, over random interpretations that include the boundary cases, with the documented condition; the function handed to
the inner optimizer is compared with the aggregated mean of the optimizer's current model."""
EXPECT = {"max-iterations": 2, "max-predicted": 1, "any": 2, "pure": 4}
ASSUMPTIONS = ["what the inner optimizer returns is taken as the maximiser (whether it is one is the optimizer's matter)"]
QS = (("core", "limbo::bayes_opt::BOptimizer"), ("exp", "limbo::bayes_opt::BOptimizer"), ("exp", "limbo::experimental::bayes_opt::CBOptimizer"),
      ("exp", "limbo::experimental::bayes_opt::Ehvi"), ("exp", "limbo::experimental::bayes_opt::Nsbo"), ("exp", "limbo::bayes_opt::experimental::IMGPO"))


def run(ctx):
    R = ctx.rule
    R("max-iterations", "MaxIterations is true exactly when the iterations of the current call have reached the configured number")
    R("max-predicted", "MaxPredictedValue is true exactly when there are observations and the best aggregated one is above ratio times the aggregated mean predicted at the optimizer's answer")
    R("predicted-search", "MaxPredictedValue searches, once and within the bounds, the aggregated mean of the current model")
    R("any", "the optimizer stops exactly when at least one of its criteria is true")
    R("pure", "asking whether to stop changes neither record, model nor counters")
    items = []
    for u, q in QS:
        P = ctx.prog(u)
        for c in classes(P, q):
            items += [("any", u, c, m["id"]) for m in P.methods(c, "_stop") if m.get("body") and m["p"] and P.typ(m["p"][0]["t"]).get("rid") in (c, None)]
    for u in ("core", "exp"):
        P = ctx.prog(u)
        for f in P.fns:
            if f and f.get("body") and "cls" in f and f["n"] == "operator()" and P.classes[f["cls"]]["q"].startswith("limbo::stop::Max"):
                items.append((P.classes[f["cls"]]["q"].split("::")[-1], u, P.typ(f["p"][0]["t"]).get("rid"), f["id"]))
    ctx.pmap(one, items)


def one(ctx, item):
    kind, u, c, fid = item
    P = ctx.prog(u)
    f = P.fns[fid]
    cn = P.classes[c]["q"].split("::")[-1] if c is not None else "?"
    wh = "%s %s for %s %s" % (P.where(f), kind if kind != "any" else "%s::_stop" % cn, cn, short_ta(P, c))
    rule = {"any": "any", "MaxIterations": "max-iterations", "MaxPredictedValue": "max-predicted"}.get(kind)
    if rule is None:
        ctx.undecided("max-iterations", wh, "a stopping criterion the check does not know: %s" % kind)
        return
    attempt(ctx, rule, wh, lambda: judge(ctx, P, c, f, kind, rule, cn, wh))


def judge(ctx, P, c, f, kind, rule, cn, wh):
    b = BO(P, c, keep=() if kind == "any" else ("stop",))
    bo = b.this
    if kind != "any":
        b.this = Ref((("stop", kind),))
    r = b.I.asT(b.runfn(f, [bo, Ref((("arg", 1),))]), b.st)
    ctx.analysed |= b.analysed
    log = b.st.store[LOG]
    S, O = b.loc["samples"], b.loc["observations"]
    tr = 60 if ctx.tier == "quick" else 400

    def rat(env):
        return rng(env.seed, "ratio").choice((0.5, 0.9, 1.0))

    def over(env, t, k):
        if t.op == "cfg" and t.args[0].endswith("stop_maxiterations::iterations"):
            return (env.seed // 4) % 5
        if t.op == "cfg" and t.args[0].endswith("stop_maxpredictedvalue::ratio"):
            return rat(env)
        if t.op == "init" and t.args[0] == b.loc.get("current_iteration"):
            return env.seed % 6
        if t.op == "init" and t.args[0] in (S, O):
            rr = rng(env.seed, "rec" + str(t.args[0] == S))
            return [rvec(rr, 2) for _ in range(env.seed % 4)]
        if t.op == "call" and t.args[0] in ("Agg::operator()",):
            y = np.asarray(env.ev(t.args[-1])).ravel()
            if y.dtype == object:
                raise fp.Undef("opaque argument")
            return float(np.cos(3 * y[0]) + 0.5 * y[-1])
        if t.op == "call" and t.args[0] in ("model.mu",):
            x = np.asarray(env.ev(t.args[-1])).ravel()
            return np.array([[np.sin(5 * x.sum())], [np.cos(x.sum())]])
        return None
    b.kinds[mk("sym", "px")] = "vec"
    mkenv = b.env(over=over)
    if kind == "MaxIterations":
        it = mk("init", b.loc["current_iteration"])

        def pred(env):
            n = (env.seed // 4) % 5
            want = env.ev(it) >= n
            return env.truth(env.ev(r)) == want, "answers %s after %s of %s iterations" % (not want, env.ev(it), n)
        holds(ctx, rule, wh, pred, mkenv, "answer", trials=tr, need=20, key="%s:%s" % (rule, kind))
    elif kind == "MaxPredictedValue":
        first = "FirstElem" in P.typ(f["p"][1]["t"])["s"]

        def score(env, y):
            y = np.asarray(y).ravel()
            return float(y[0]) if first else float(np.cos(3 * y[0]) + 0.5 * y[-1])

        def runs(env):
            return [e[1:] for e in env.ev(log) if e[1] == "opt"]

        def pred(env):
            o = env.ev(mk("init", O))
            got = env.truth(env.ev(r))
            if not o:
                return not got, "stops without any observation"
            es = runs(env)
            if len(es) != 1:
                return False, "%d searches of the model's maximum" % len(es)
            x = es[0][-1]
            val = rat(env) * score(env, env.ev(mk("call", "model.mu", mk("init", b.loc["model"]), lit(env, x))))
            best = max(score(env, y) for y in o)
            return got == (best > val), "answers %s with best observation %.3g and threshold %.3g" % (got, best, val)
        holds(ctx, rule, wh, pred, mkenv, "answer", trials=tr, need=20, key="%s:%s" % (rule, kind))

        def search(env):
            o = env.ev(mk("init", O))
            es = runs(env)
            if not o:
                return True, ""
            if len(es) != 1:
                return False, "%d searches of the model's maximum" % len(es)
            if es[0][2] == "?":
                raise fp.Undef("closure not resolved")
            if es[0][2] != "current":
                return False, "the function searched is not the current model's"
            if not env.truth(es[0][4]):
                return False, "the search is not bounded"
            return True, ""
        attempt(ctx, "predicted-search", wh, lambda: holds(ctx, "predicted-search", wh, search, mkenv, "search", trials=tr, need=10, key="predicted-search"))
        px = mk("sym", "px")
        for t in optcalls(log):
            mu = mk("call", "model.mu", mk("init", b.loc["model"]), px)

            def same(env):
                env.assign[px] = rvec(rng(env.seed, "px"), 2)
                v = env.ev(t.args[1])
                v = v[0] if isinstance(v, tuple) else v
                want = score(env, env.ev(mu))
                return fp.same(v, want), "searches %s where the aggregated mean is %s" % (fp.brief(v), want)
            attempt(ctx, "predicted-search", wh, lambda: holds(ctx, "predicted-search", wh, same, mkenv, "function searched", trials=tr, need=10, key="predicted-function"))
    else:
        names = b.stops()

        def pred(env):
            es = [e[1:] for e in env.ev(log) if e[1] == "stop"]
            got = env.truth(env.ev(r))
            if not set(n for n in names) >= set(e[1] for e in es):
                raise fp.Undef("unknown criteria")
            vs = [env.truth(e[2]) for e in es]
            if got and not any(vs):
                return False, "stops although no criterion that was asked is true"
            if not got and any(vs):
                return False, "goes on although a criterion is true"
            if not got and len(es) < len(names):
                return False, "goes on having asked only %d of %d criteria" % (len(es), len(names))
            return True, ""
        holds(ctx, rule, wh, pred, mkenv, "answer", trials=tr, need=20, key="%s:%s" % (rule, cn))
    ch = [n for n in ("samples", "observations", "model", "models", "current_iteration", "total_iterations")
          if n in b.loc and any(l[:len(b.loc[n])] == b.loc[n] and b.I.asT(Ref(l), b.st) is not mk("init", l) for l in list(b.st.store) if isinstance(l, tuple))]
    ctx.check(not ch, "pure", wh, "changes nothing of the optimizer" if not ch else "changes %s" % ", ".join(ch), "pure:%s" % kind)


def sub(t, f, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if f(t):
        yield t
    for a in t.args:
        if isinstance(a, T):
            yield from sub(a, f, seen)
        elif isinstance(a, tuple):
            for x in flat(a):
                yield from sub(x, f, seen)


def flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield from flat(x)
        elif isinstance(x, T):
            yield x


def optcalls(log):
    return list(sub(log, lambda x: x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("opt:")))


def lit(env, v):
    t = mk("sym", "lit%d" % id(v))
    env.assign[t] = v
    return t
