"""best_observation and best_sample."""
from bobase import *

EXPLANATION = """The value each best_* accessor returns is a term over the record and the aggregator. It is interpreted over random records (with ties,
negative values, one or several entries, and for the constrained optimizer with feasible and infeasible ones) and compared with the
definition: an observation of maximal aggregated value and the sample of that same observation."""
EXPECT = {"best-observation": 8, "best-sample": 8, "consistent": 8, "const": 8}
ASSUMPTIONS = ["at least one observation has been made (the accessors return references)"]
QS = (("core", "limbo::bayes_opt::BOptimizer"), ("exp", "limbo::bayes_opt::BOptimizer"), ("exp", "limbo::experimental::bayes_opt::CBOptimizer"),
      ("exp", "limbo::bayes_opt::experimental::IMGPO"))


def run(ctx):
    R = ctx.rule
    R("best-observation", "best_observation returns an observation of the record whose aggregated value is maximal (among the feasible ones, if there are any)")
    R("best-sample", "best_sample returns a sample of the record whose observation has that maximal aggregated value")
    R("consistent", "best_sample and best_observation belong to the same evaluation")
    R("const", "neither changes the record")
    items = []
    for u, q in QS:
        P = ctx.prog(u)
        for c in classes(P, q):
            for k, m in enumerate([m for m in P.methods(c, "best_observation") if m.get("body")]):
                items.append((u, c, k))
    ctx.pmap(one, items)


def one(ctx, item):
    u, c, k = item
    P = ctx.prog(u)
    cn = P.classes[c]["q"].split("::")[-1]
    ms = {n: [m for m in P.methods(c, n) if m.get("body")][k] for n in ("best_observation", "best_sample")}
    cb = cn == "CBOptimizer"
    agg = P.typ(ms["best_observation"]["p"][0]["t"])["s"]
    first = "FirstElem" in agg
    val, bs = {}, {}
    whs = {n: "%s %s::%s(%s) %s" % (P.where(m), cn, n, "FirstElem" if first else "aggregator", short_ta(P, c)) for n, m in ms.items()}

    def build():
        for n, m in ms.items():
            b = BO(P, c)
            r = b.runfn(m, [Ref((("arg", 0),))])
            val[n] = b.I.asT(r, b.st)
            bs[n] = b
            ctx.analysed |= b.analysed
    attempt(ctx, "best-observation", whs["best_observation"], build)
    if len(val) != 2:
        return
    b = bs["best_observation"]
    S, O = b.loc["samples"], b.loc["observations"]
    NC = [f["n"] for f in P.all_fields(c) if f["n"] == "_nb_constraints"]

    def over(env, t, kk):
        if t.op == "init" and t.args[0] in (S, O):
            r = rng(env.seed, "rec")
            n = 1 + env.seed % 5
            d = (2 + ncons(env)) if cb else 2
            s = [rvec(r, 2) for _ in range(n)]
            o = [rvec(r, d) for _ in range(n)]
            for i in range(1, n):
                if r.random() < 0.4:   # ties
                    o[i] = o[r.randrange(i)].copy()
                    if r.random() < 0.5:
                        o[i][-1, 0] = r.uniform(-1, 1)
            return s if t.args[0] == S else o
        if t.op == "call" and t.args[0] == "model.dim_out":
            return 2
        if t.op == "init" and len(t.args[0]) == 2 and t.args[0][1] == "_nb_constraints":
            return ncons(env)
        if t.op == "call" and t.args[0] == "Agg::operator()":
            return aggv(env.ev(t.args[-1]))
        return None

    def ncons(env):
        return (env.seed // 5) % 3

    def aggv(y):
        y = np.asarray(y).ravel()
        return round(float(np.cos(3 * y[0]) + (0.5 * y[1] if len(y) > 1 else 0)), 9)

    def score(y):
        y = np.asarray(y).ravel()
        return float(y[0]) if first else aggv(y[:2] if cb else y)

    def best(env):
        o = env.ev(mk("init", O))
        idx = list(range(len(o)))
        if cb:
            nc = ncons(env)
            fe = [i for i in idx if nc == 0 or float(np.prod(np.asarray(o[i]).ravel()[2:2 + nc])) > 0]
            idx = fe or idx
        m = max(score(o[i]) for i in idx)
        return [i for i in idx if score(o[i]) == m], o

    def obj(y):
        return np.asarray(y).ravel()[:2].reshape(-1, 1) if cb else y
    mkenv = b.env(over=over)
    tr = 60 if ctx.tier == "quick" else 400

    def r_obs(env):
        I_, o = best(env)
        v = env.ev(val["best_observation"])
        return any(fp.same(v, obj(o[i])) for i in I_), "returns %s where the best observations are %s" % (fp.brief(v), [fp.brief(obj(o[i])) for i in I_][:3])

    def r_smp(env):
        I_, o = best(env)
        s = env.ev(mk("init", S))
        v = env.ev(val["best_sample"])
        return any(fp.same(v, s[i]) for i in I_), "returns a sample whose observation is not the best one"

    def r_con(env):
        I_, o = best(env)
        s = env.ev(mk("init", S))
        v, w = env.ev(val["best_observation"]), env.ev(val["best_sample"])
        return any(fp.same(w, s[i]) and fp.same(v, obj(o[i])) for i in range(len(s))), "the sample and the observation returned belong to different evaluations"
    for rl, f, n in (("best-observation", r_obs, "best_observation"), ("best-sample", r_smp, "best_sample"), ("consistent", r_con, "best_sample")):
        attempt(ctx, rl, whs[n], lambda: holds(ctx, rl, whs[n], f, mkenv, rl, trials=tr, need=10, key="%s:%s" % (rl, cn)))
    for n in ms:
        ch = [l for l in (S, O) if l in bs[n].st.store and bs[n].I.asT(Ref(l), bs[n].st) is not mk("init", l)]
        ctx.check(not ch, "const", whs[n], "the record is left alone" if not ch else "changes %s" % ch, "const:%s" % cn)
