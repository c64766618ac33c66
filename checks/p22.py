"""SparsifiedGP: a bounded subset of the data, thinned where it is densest, with the GP fitted on it."""
from gpbase import *
import p06

EXPLANATION = """Every SparsifiedGP instantiation is analysed as a composition of its own public calls over symbolic data, everything inlined: the
thinning loop becomes a recurrence over the distance matrix and the two lists, the densest-point search a fold, the nearest-neighbour
selection a partial sort. The data the model ends up with is compared with the definition (drop a point whose nearest neighbours are
closest, one at a time, until the bound holds; the bound and the dimensions vary over the interpretations, exact ties and duplicate points included),
and every fitted quantity with that of a plain GP fitted on the very data the sparse model reports."""
EXPECT = {"thinned": 12, "fitted-on-kept": 40, "no-abort": 4}
ASSUMPTIONS = ["decided over the reals; Eigen and the standard algorithms do what they document", "random interpretation: up to 7 points, 1-3 dimensions, bounds 1-5"]
SQ = "limbo::model::SparsifiedGP"
S2, O2 = mk("sym", "S2"), mk("sym", "O2")
MAXP = mk("cfg", "Params::model_sparse_gp::max_points")
PS, PO = mk("push", S, S1), mk("push", O, O1)


def data(seed):
    r = rng(seed, "sparse")
    mx = (2, 3, 1, 4, 5)[seed % 5]
    d = 1 + (seed // 2) % 3
    n = (mx + 2, mx + 1, mx, max(1, mx - 1), mx + 3, mx + 2, mx + 3)[seed % 7]
    out = {S: rlist(r, n, d), O: rlist(r, n, 2), X: rvec(r, d), S1: rvec(r, d), O1: rvec(r, 2), S2: rlist(r, 3, d), O2: rlist(r, 3, 2),
           MAXP: mx, mk("sym", "din"): d, mk("sym", "dout"): 2}
    if seed % 3 == 0 and n > 2:   # coordinates on a coarse grid: ties and duplicates
        out[S] = [np.round(v * 2) / 2 for v in out[S]]
        out[S][1] = out[S][0].copy()
        if seed % 2:
            out[S1] = np.round(out[S1] * 2) / 2
    return out


def thin(pairs, mx):
    """every list the greedy rule can end with (ties may go either way)"""
    todo, done, seen = [tuple(range(len(pairs)))], [], set()
    P_ = [p[0].reshape(-1) for p in pairs]
    while todo:
        ix = todo.pop()
        if ix in seen:
            continue
        seen.add(ix)
        if len(ix) <= mx:
            done.append(ix)
            continue
        D = min(len(P_[0]), len(ix) - 1)
        score = {i: sum(sorted(float(np.linalg.norm(P_[i] - P_[j])) for j in ix if j != i)[:D]) for i in ix}
        lo = min(score.values())
        todo += [tuple(j for j in ix if j != i) for i in ix if score[i] <= lo + 1e-9]
        if len(seen) > 300:
            raise fp.Undef("too many ties")
    return [[pairs[i] for i in ix] for ix in done]


def steps():
    def fresh(s):
        s.ctor()

    def sized(s):
        s.ctor(mk("sym", "din"), mk("sym", "dout"))

    def fit(s):
        s.call("compute", S, O, TRUE)

    def other(s):
        s.call("compute", S2, O2, TRUE)
        s.call("compute_inv_kernel")

    def add(s):
        s.call("add_sample", S1, O1)

    def hp(s):
        s.set_kernel()

    def rec(s):
        s.call("recompute", TRUE, TRUE)

    def all_(e):
        return thin(list(zip(e.ev(S), e.ev(O))), e.ev(MAXP))

    def after(base):
        def f(e):
            return [t for b in base(e) for t in thin(b + [(e.ev(S1), e.ev(O1))], e.ev(MAXP))]
        return f

    def none(e):
        return [[]]
    yield "fit of a new model", "compute", [fresh, fit], all_
    yield "fit of a model built with its dimensions", "compute", [sized, fit], all_
    yield "refit of a model that holds other data", "compute", [fresh, other, fit], all_
    yield "first point added", "add_sample", [fresh, add], after(none)
    yield "a point added to a fitted model", "add_sample", [fresh, fit, add], after(all_)
    yield "recompute with new kernel parameters", "compute", [fresh, fit, hp, rec], all_


def run(ctx):
    ctx.rule("thinned", "the model keeps given (sample, observation) pairs in their order, all of them while they are no more than the bound, and otherwise drops a densest point at a time until the bound holds")
    ctx.rule("fitted-on-kept", "every fitted quantity and prediction is that of a plain GP fitted on the kept pairs")
    ctx.rule("no-abort", "no permitted call sequence ends in a failed assertion or an access outside the data")
    P = ctx.prog("core")
    ctx.pmap(one, [(c, i) for c in classes(P, SQ) if has_body(P, c, "compute") for i in range(len(list(steps())))])


def one(ctx, item):
    c, i = item
    P = ctx.prog("core")
    title, anchor, hs, oracle = list(steps())[i]
    f = [m for m in P.methods(c, anchor) if m.get("body")][0]
    wh = "%s (%s) %s" % (P.where(f), anchor, short_ta(P, c))
    tr = 14 if ctx.tier == "quick" else 40
    tt = 150 if ctx.tier == "quick" else 600
    base = [b for b in P.classes[c].get("bases", ()) if P.classes[b]["q"] == GPQ][0]

    def body():
        s, g = GPS(P, c), GPS(P, base)
        for x in (s, g):
            x.assign = data
            x.kinds = {**x.kinds, S2: ("list", "vec"), O2: ("list", "vec")}
        for h in hs:
            h(s)
        n = len(s.events)
        obs = p06.observe(s, lik=False)
        samp, om = obs["samples"], obs["observations_matrix"]
        g.ctor()
        g.call("compute", S, O, TRUE)
        if any(h.__name__ == "hp" for h in hs):
            g.set_kernel()
            g.call("recompute", TRUE, TRUE)
        gobs = p06.observe(g, lik=False)
        s.sizes.update(g.sizes)
        g.sizes.update(s.sizes)
        ctx.analysed |= s.analysed
        env = s.env(g)

        def kept(e):
            return list(e.ev(samp)), [r.reshape(-1, 1) for r in np.asarray(e.ev(om))]

        def thinned(e):
            ks, ko = kept(e)
            want = oracle(e)
            ok = any(len(w) == len(ks) and len(ks) == len(ko) and all(fp.same(a, x) and fp.same(b, y) for a, b, (x, y) in zip(ks, ko, w)) for w in want)
            return ok, "%d points kept with a bound of %s" % (len(ks), e.ev(MAXP))

        def bound(e):
            ks, ko = kept(e)
            return len(ks) == len(ko) and len(ks) <= e.ev(MAXP)
        attempt(ctx, "thinned", wh, lambda: holds(ctx, "thinned", wh, bound, env, title + ": no more points than the bound", trials=tt, key="thinned:bound:" + anchor))
        attempt(ctx, "thinned", wh, lambda: holds(ctx, "thinned", wh, thinned, env, title + ": the pairs kept", trials=tt, key="thinned:pairs:" + anchor))
        for n_ in gobs:
            def same_(e, n_=n_):
                ks, ko = kept(e)
                e2 = e.clone({S: ks, O: ko})
                e2.shape = e.shape
                return fp.same(e.ev(obs[n_]), e2.ev(gobs[n_]))
            attempt(ctx, "fitted-on-kept", wh, lambda: holds(ctx, "fitted-on-kept", wh + " -> " + n_, same_, env, title, trials=tr, key="fitted-on-kept:%s:%s" % (anchor, n_)))
        attempt(ctx, "no-abort", wh, lambda: no_abort(ctx, "no-abort", wh, s, env, title, ncalls=n))
        attempt(ctx, "no-abort", wh, lambda: inbounds(ctx, wh, samp, env, title, tr))
    attempt(ctx, "thinned", wh, body)


def inbounds(ctx, wh, samp, env, title, tr):
    def pred(e):
        try:
            e.ev(samp)
            return True
        except fp.Misfit as ex:
            return False, "access outside the data: %s" % ex
    holds(ctx, "no-abort", wh, pred, env, title + ": every range stays inside its container", trials=tr, key="no-abort:range")
