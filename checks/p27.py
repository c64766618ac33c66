"""ParEGO's model is a plain GP on a random normalised Tchebycheff scalarisation of the objectives."""
from gpbase import *
import p06
from p22 import inbounds

EXPLANATION = """Every GPParego instantiation is analysed as a composition of its own public calls over symbolic data, everything inlined: the weights
are draws of the library's generator, the scalarised observations a map over the observations. Some interpretations make the first observations
multiples of unit vectors, which shows the weights; the others must then be scalarised by the documented formula with those very weights.
Every fitted quantity is compared with that of a plain GP fitted on the given samples and the scalarised observations."""
EXPECT = {"scalarised": 5, "fitted": 20, "no-abort": 4}
ASSUMPTIONS = ["decided over the reals; a draw lies in its documented range", "random interpretation: 2 to 4 objectives, up to 7 points"]
S2, O2 = mk("sym", "S2"), mk("sym", "O2")
RHO = mk("cfg", "Params::model_gp_parego::rho")
PQ = "limbo::experimental::model::GPParego"


def objs(seed, r, m, n, units):
    out = [rvec(r, m) for _ in range(n)]
    if units:
        for k in range(m):
            out[k] = np.zeros((m, 1))
            out[k][k, 0] = 1.0 + k
    return out


def data(seed):
    r = rng(seed, "parego")
    m, d = 2 + seed % 3, 1 + (seed // 2) % 3
    n = m + r.randrange(1, 4)
    m2 = 2 + (seed // 3) % 3
    return {S: rlist(r, n, d), O: objs(seed, r, m, n, True), X: rvec(r, d), S1: rvec(r, d), O1: rvec(r, m), S2: rlist(r, 3, d), O2: objs(seed, r, m2, 3, False),
            mk("sym", "din"): d, mk("sym", "dout"): m, KCFG: (0, 1, 2)[seed % 3], RHO: r.uniform(0, 0.5)}


def steps():
    def fresh(s):
        s.ctor()

    def sized(s):
        s.ctor(mk("sym", "din"), mk("sym", "dout"))

    def fit(s):
        s.call("compute", S, O)

    def other(s):
        s.call("compute", S2, O2)
        s.call("compute_inv_kernel")

    def add(s):
        s.call("add_sample", S1, O1)

    def hp(s):
        s.set_kernel()

    def rec(s):
        s.call("recompute", TRUE, TRUE)
    yield "fit of a new model", "compute", [fresh, fit], False
    yield "fit of a model built with its dimensions", "compute", [sized, fit], False
    yield "refit of a model that holds other data", "compute", [fresh, other, fit], False
    yield "a point added to a fitted model", "add_sample", [fresh, fit, add], True
    yield "a point added after a refit", "add_sample", [fresh, other, fit, add], True
    yield "recompute with new kernel parameters", "compute", [fresh, fit, hp, rec], False


LOG = (("G", "draws"),)


def draws(I, fn, obj, args, e, st):
    """a vector of draws is a fresh unknown in [0, 1]"""
    if fn["q"] != "limbo::tools::random_vector":
        return None
    now = st.store.get(LOG) or mk("empty")
    n = I.asT(args[0], st)
    I.record_write(LOG)
    st.store[LOG] = mk("push", now, n)
    return mk("call", "draw", n, I.asT(args[1], st) if len(args) > 1 else TRUE, now)


def drawn(shape):
    def f(env, t, k):
        if t.op == "call" and t.args[0] == "draw":
            n = env.integer(env.ev(t.args[1]))
            r = rng(env.seed, ("draw", env.digest((n, len(env.ev(t.args[3]))))))
            return rvec(r, n, 0.05, 1) if env.truth(env.ev(t.args[2])) else rvec(r, n, -5, 5)
        return shape(env, t, k)
    return f


def run(ctx):
    ctx.rule("scalarised", "the model holds every given sample in its order, each with max_k(w_k y_k) + rho sum_k(w_k y_k) for one vector of weights w, none negative, summing to one")
    ctx.rule("fitted", "every fitted quantity and prediction is that of a plain GP on those samples and scalarised observations")
    ctx.rule("no-abort", "no permitted call sequence ends in a failed assertion or an access outside the data")
    P = ctx.prog("exp")
    ctx.pmap(one, [(c, i) for c in classes(P, PQ) if has_body(P, c, "compute") for i in range(len(list(steps())))])


def one(ctx, item):
    c, i = item
    P = ctx.prog("exp")
    title, anchor, hs, added = list(steps())[i]
    f = [m for m in P.methods(c, anchor, inherited=False) if m.get("body")][0]
    wh = "%s (%s) %s" % (P.where(f), anchor, short_ta(P, c))
    tr = 14 if ctx.tier == "quick" else 60
    base = [b for b in P.classes[c].get("bases", ()) if P.classes[b]["q"] == GPQ][0]

    def body():
        s, g = GPS(P, c, hook=draws), GPS(P, base, hook=draws)
        for x in (s, g):
            x.st.store[LOG] = mk("empty")
            x.shape = drawn(x.shape)
            x.assign = data
            x.kinds = {**x.kinds, S2: ("list", "vec"), O2: ("list", "vec")}
        for h in hs:
            h(s)
        n = len(s.events)
        obs = p06.observe(s, lik=False)
        samp, om = obs["samples"], obs["observations_matrix"]
        g.ctor()
        g.call("compute", S, O, TRUE)
        if any(h.__name__ == "hp" for h in hs):
            g.set_kernel()
            g.call("recompute", TRUE, TRUE)
        gobs = p06.observe(g, lik=False)
        s.sizes.update(g.sizes)
        g.sizes.update(s.sizes)
        ctx.analysed |= s.analysed
        env = s.env(g)

        def scal(e):
            xs, ys = list(e.ev(samp)), np.real(np.asarray(e.ev(om), dtype=complex))
            wx, wy = list(e.ev(S)), [y.reshape(-1) for y in e.ev(O)]
            if added:
                wx, wy = wx + [e.ev(S1)], wy + [e.ev(O1).reshape(-1)]
            if len(xs) != len(wx) or not all(fp.same(a, b) for a, b in zip(xs, wx)):
                return False, "other samples"
            if ys.shape != (len(wx), 1):
                return False, "observations of shape %s" % (ys.shape,)
            rho, m = float(e.ev(RHO)), len(wy[0])
            w = np.array([ys[k, 0] / ((1 + rho) * (1.0 + k)) for k in range(m)])
            if np.any(w < -1e-9) or abs(np.sum(w) - 1) > 1e-7:
                return False, "the weights are %s" % np.round(w, 3)
            for y, got in zip(wy, ys[:, 0]):
                want = np.max(w * y) + rho * np.sum(w * y)
                if abs(got - want) > 1e-7:
                    return False, "%.4f instead of %.4f" % (got, want)
            return True
        attempt(ctx, "scalarised", wh, lambda: holds(ctx, "scalarised", wh, scal, env, title, trials=60 if ctx.tier == "quick" else 400, key="scalarised:" + anchor))
        for n_ in gobs:
            def same_(e, n_=n_):
                e2 = e.clone({S: list(e.ev(samp)), O: [r.reshape(-1, 1) for r in np.asarray(e.ev(om))]})
                e2.shape = e.shape
                return fp.same(e.ev(obs[n_]), e2.ev(gobs[n_]))
            attempt(ctx, "fitted", wh, lambda: holds(ctx, "fitted", wh + " -> " + n_, same_, env, title, trials=tr, key="fitted:%s:%s" % (anchor, n_)))
        attempt(ctx, "no-abort", wh, lambda: no_abort(ctx, "no-abort", wh, s, env, title, ncalls=n))
        attempt(ctx, "no-abort", wh, lambda: inbounds(ctx, wh, samp, env, title, tr))
    attempt(ctx, "scalarised", wh, body)
