"""GP: the fitted state is a function of (data, hyper-parameters), whatever the call history."""
from gpbase import *

EXPLANATION = """Every GP instantiation of the driver is analysed as a composition of its own public calls over symbolic data
(sample lists of unspecified length, symbolic points and hyper-parameter vectors). Two histories that must end in the same
fitted model are turned into value-graph terms of every public observable (data accessors, mean vector, centred observations,
Cholesky factor, alpha, prediction, likelihoods and their gradients) and the terms are compared: by value number, and where the
normal forms differ by random interpretation of the terms (Gulwani & Necula). A difference is a definite counterexample of the
identity; an opaque operation in a differing term leaves the obligation undecided."""
EXPECT = {"incremental-equals-batch": 80, "refit-equals-fresh": 80}
ASSUMPTIONS = ["Eigen's decompositions and triangular solves compute what they document", "identities are decided over the reals; rounding is out of scope",
               "random interpretation: 9 or more independent interpretations per identity, sizes 1-5 for the symbolic lengths"]

DATA = ["samples", "observations", "observations_matrix", "mean_observation", "nb_samples", "dim_in", "dim_out"]
FIT = ["mean_vector", "obs_mean", "matrixL", "alpha"]
LIK = ["compute_log_lik", "compute_log_loo_cv", "compute_kernel_grad_log_lik", "compute_mean_grad_log_lik", "compute_kernel_grad_log_loo_cv"]


def observe(s, names=DATA + FIT, pred=True, lik=True):
    d = {}
    for n in names:
        d[n] = s.get(n)
    if pred:
        d["mu"] = s.get("mu", X)
        d["sigma"] = s.get("sigma", X)
    if lik:
        for n in LIK:
            d[n] = s.get(n)
    return d


def histories():
    """(rule, title, anchor method, history A, history B, n)"""
    PS, PO = mk("push", S, S1), mk("push", O, O1)
    one_s, one_o = mk("list", S1), mk("list", O1)

    def fresh(s):
        s.ctor()

    def sized(s):
        s.ctor(mk("sym", "din"), mk("sym", "dout"))

    def fit(s):
        s.call("compute", S, O, TRUE)

    def hp(s):
        s.set_kernel()
        s.set_mean()

    def inv(s):
        s.call("compute_inv_kernel")

    def add(s):
        s.call("add_sample", S1, O1)

    def rec(a=TRUE, b=TRUE):
        return lambda s: s.call("recompute", a, b)

    def ext(s):
        s.call("compute", PS, PO, TRUE)

    R1, R2 = "incremental-equals-batch", "refit-equals-fresh"
    yield R1, "fit then add a point == fit on everything", "add_sample", [fresh, fit, add], [fresh, ext]
    yield R1, "first point added to an empty model == fit on that point", "add_sample", [fresh, add], [fresh, lambda s: s.call("compute", one_s, one_o, TRUE)]
    yield R1, "fit, inverse kernel computed, then add a point == fit on everything", "add_sample", [fresh, fit, inv, add], [fresh, ext]
    yield R1, "fit, new hyper-parameters, refit, add a point == the same hyper-parameters on everything", "add_sample", [fresh, fit, hp, rec(), add], [fresh, ext, hp, rec()]
    yield R2, "hyper-parameters set before the fit == set after it and recomputed", "recompute", [sized, hp, fit], [fresh, fit, hp, rec()]
    yield R2, "fit, inverse kernel computed, new hyper-parameters, recompute == without the stale inverse", "recompute", [fresh, fit, inv, hp, rec()], [fresh, fit, hp, rec()]
    yield R2, "refitting other data of the same dimensions forgets the old data", "compute", [fresh, ext, inv, fit], [fresh, fit]
    yield R2, "fit without the kernel then recompute == full fit", "recompute", [fresh, lambda s: s.call("compute", S, O, FALSE), rec()], [fresh, fit]
    yield R2, "mean parameters changed: recompute of the mean part == full recompute", "recompute", [fresh, fit, inv, lambda s: s.set_mean(), rec(TRUE, FALSE)], [fresh, fit, lambda s: s.set_mean(), rec()]
    yield R2, "kernel parameters changed: recompute of the kernel part == full recompute", "recompute", [fresh, fit, inv, lambda s: s.set_kernel(), rec(FALSE, TRUE)], [fresh, fit, lambda s: s.set_kernel(), rec()]


def run(ctx):
    ctx.rule("incremental-equals-batch", "adding points one at a time leaves every observable of the model as if it had been fitted on all points at once")
    ctx.rule("refit-equals-fresh", "every observable of a (re)fitted model is a function of its data and hyper-parameters only, never of earlier calls")
    P = ctx.prog("core")
    ctx.pmap(one_history, [(c, i) for c in gps(P) for i in range(len(list(histories())))])


def one_history(ctx, item):
    c, i = item
    P = ctx.prog("core")
    rule, title, anchor, ha, hb = list(histories())[i]
    f = [m for m in P.methods(c, anchor) if m.get("body")][0]
    wh = "%s (%s) %s" % (P.where(f), anchor, short_ta(P, c))

    def one():
        a, b = GPS(P, c), GPS(P, c)
        for h in ha:
            h(a)
        for h in hb:
            h(b)
        na, nb = len(a.events), len(b.events)
        da, db = observe(a), observe(b)
        ctx.analysed |= a.analysed | b.analysed
        env = a.env(b)
        b.sizes.update(a.sizes)
        a.sizes.update(b.sizes)
        for s, k in ((a, na), (b, nb)):
            attempt(ctx, rule, wh, lambda: no_abort(ctx, rule, wh, s, env, title, ncalls=k))
        for n in da:
            attempt(ctx, rule, wh, lambda: eq(ctx, rule, wh + " -> " + n, da[n], db[n], env, title, trials=10 if ctx.tier == "quick" else 40,
                                              key="%s:%s:%s" % (rule, anchor, n)))
    attempt(ctx, rule, wh, one)
