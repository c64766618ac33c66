"""Prediction is the exact Gaussian posterior; accessors tell the data; the empty model is the prior."""
from kbase import *
import proof

EXPLANATION = """For every GP instantiation, after a fit on symbolic data (and after a change of all hyper-parameters and a recompute), the
value-graph terms of the predictions and accessors are compared with the textbook posterior written over the model's own kernel
and mean functions (whose terms are obtained from the same source): by value number and random interpretation. Non-negativity of the
returned variance is proved by sign analysis of its term with the linear solve left arbitrary (so it holds whatever rounding does to it)."""
EXPECT = {"posterior": 24, "query-agrees": 12, "prior-when-empty": 18, "variance-nonnegative": 6, "accessors": 40}
ASSUMPTIONS = ["the configured noise is not negative", "identities are decided over the reals; rounding is out of scope", "Eigen's decompositions and solves compute what they document"]


def fitted(P, c, hp, **kw):
    s = GPS(P, c, **kw)
    s.kinds.update({A: "vec", B: "vec", II: "int", JJ: "int"})
    s.ctor()
    s.call("compute", S, O, TRUE)
    if hp:
        s.set_kernel()
        s.set_mean()
        s.call("recompute", TRUE, TRUE)
    return s


class Oracle:
    """Gram matrices and prior means of the model's own functions, in one interpretation"""

    def __init__(self, s):
        k = s.kernel()
        self.kij = s.I.asT(s.sub(k, "operator()", A, B, II, JJ), s.st)
        self.kab = s.I.asT(s.sub(k, "operator()", A, B, const(-1), const(-2)), s.st)
        self.nz = s.I.asT(s.sub(k, "noise"), s.st)
        self.m = s.I.asT(s.sub(s.mean(), "operator()", A, s.this), s.st)

    def k(self, v, a, b):
        return v.clone({A: a, B: b}).ev(self.kab)

    def K(self, v, pts):
        return np.array([[v.clone({A: a, B: b, II: i, JJ: j}).ev(self.kij) for j, b in enumerate(pts)] for i, a in enumerate(pts)])

    def M(self, v, pts):
        return np.array([np.asarray(v.clone({A: a}).ev(self.m)).ravel() for a in pts])

    def kx(self, v, pts, x):
        return np.array([[self.k(v, a, x)] for a in pts])

    def mu(self, v):
        pts, Y = v.ev(S), np.array([o.ravel() for o in v.ev(O)])
        x = v.ev(X)
        w = np.linalg.solve(self.K(v, pts), Y - self.M(v, pts))
        return (self.kx(v, pts, x).T @ w).T + self.M(v, [x]).T

    def var(self, v):
        pts, x = v.ev(S), v.ev(X)
        kx = self.kx(v, pts, x)
        r = self.k(v, x, x) - (kx.T @ np.linalg.solve(self.K(v, pts), kx))[0, 0]
        return max(0.0, r) + v.ev(self.nz)


def run(ctx):
    ctx.rule("posterior", "mu and sigma are the posterior mean and the posterior variance plus noise")
    ctx.rule("query-agrees", "the combined query returns exactly (mu, sigma)")
    ctx.rule("prior-when-empty", "without samples the prediction is the prior mean and the prior variance plus noise")
    ctx.rule("variance-nonnegative", "the returned variance is never below the noise, and is the noise where rounding makes the posterior variance negative")
    ctx.rule("accessors", "the data and fit accessors return the data given and the quantities they name")
    P = ctx.prog("core")
    ctx.pmap(one_gp, gps(P))


def one_gp(ctx, c):
    P = ctx.prog("core")
    tr = 10 if ctx.tier == "quick" else 60
    f = {n: [m for m in P.methods(c, n) if m.get("body")][0] for n in ("mu", "sigma", "query", "compute", "samples")}

    def go(r, n, a, b, e, w):
        wh = "%s (%s) %s" % (P.where(f.get(n, f["samples"])), n, short_ta(P, c))
        attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w, trials=tr, key=r + ":" + n))
    for hp in (False, True):
        w = "after a fit" + (" and a hyper-parameter change" if hp else "")

        def one():
            s = fitted(P, c, hp)
            o = Oracle(s)
            e = s.env()
            mu, sg = s.get("mu", X), s.get("sigma", X)
            go("posterior", "mu", mu, o.mu, e, w)
            go("posterior", "sigma", sg, o.var, e, w)
            q = s.get("query", X)
            from terms import mk
            from interp import get
            go("query-agrees", "query", get(q, 0), mu, e, "first component vs mu, " + w)
            go("query-agrees", "query", get(q, 1), sg, e, "second component vs sigma, " + w)
            go("accessors", "samples", s.get("samples"), S, e, w)
            go("accessors", "observations", s.get("observations"), lambda v: [x for x in v.ev(O)], e, w)
            YO = lambda v: np.array([x.ravel() for x in v.ev(O)])
            go("accessors", "observations_matrix", s.get("observations_matrix"), YO, e, w)
            go("accessors", "nb_samples", s.get("nb_samples"), lambda v: len(v.ev(S)), e, w)
            go("accessors", "mean_observation", s.get("mean_observation"), lambda v: YO(v).mean(axis=0).reshape(-1, 1), e, w)
            go("accessors", "max_observation", s.get("max_observation"), lambda v: np.array([[YO(v).max()]]), e, w)
            go("accessors", "mean_vector", s.get("mean_vector"), lambda v: o.M(v, v.ev(S)), e, w)
            go("accessors", "obs_mean", s.get("obs_mean"), lambda v: YO(v) - o.M(v, v.ev(S)), e, w)
            go("accessors", "alpha", s.get("alpha"), lambda v: np.linalg.solve(o.K(v, v.ev(S)), YO(v) - o.M(v, v.ev(S))), e, w)
            L = s.get("matrixL")
            go("accessors", "matrixL", lambda v: v.ev(L) @ v.ev(L).T, lambda v: o.K(v, v.ev(S)), e, w)
            go("accessors", "dim_in", s.get("dim_in"), lambda v: v.ev(S)[0].size, e, w)
            go("accessors", "dim_out", s.get("dim_out"), lambda v: v.ev(O)[0].size, e, w)
            nz = o.nz
            wh = "%s (sigma) %s" % (P.where(f["sigma"]), short_ta(P, c))
            for n, t in (("sigma", sg), ("query", get(q, 1))):
                v = proof.nonneg(proof.minus(t, nz))
                d = "the variance returned by %s minus the noise" % n
                up = refute_nonneg(t, nz, e, above=True)
                if up:
                    ctx.bad("variance-nonnegative", wh, d + ": " + up, "variance-nonnegative:" + n)
                elif v:
                    ctx.ok("variance-nonnegative", wh, d + ": proved by the sign of its term")
                else:
                    bad = refute_nonneg(t, nz, e)
                    ctx.check(False if bad else None, "variance-nonnegative", wh, d + (": " + bad if bad else " not proved"), "variance-nonnegative:" + n)
            ctx.analysed |= s.analysed
        attempt(ctx, "posterior", "%s %s" % (P.where(f["mu"]), short_ta(P, c)), one)
    for how in ("default", "sized"):
        def empty():
            s = GPS(P, c)
            s.kinds.update({A: "vec", B: "vec", II: "int", JJ: "int"})
            if how == "sized":
                s.ctor(mk("sym", "din"), mk("sym", "dout"))
            else:
                return
            s.set_kernel()
            s.set_mean()
            o = Oracle(s)
            e = s.env()
            from interp import get
            pm = lambda v: o.M(v, [v.ev(X)]).T
            pv = lambda v: o.k(v, v.ev(X), v.ev(X)) + v.ev(o.nz)
            q = s.get("query", X)
            go("prior-when-empty", "mu", s.get("mu", X), pm, e, "no samples")
            go("prior-when-empty", "sigma", s.get("sigma", X), pv, e, "no samples")
            go("prior-when-empty", "query", get(q, 0), pm, e, "mean, no samples")
            go("prior-when-empty", "query", get(q, 1), pv, e, "variance, no samples")
        attempt(ctx, "prior-when-empty", "%s %s" % (P.where(f["mu"]), short_ta(P, c)), empty)


def refute_nonneg(t, nz, mkenv, above=False):
    """an interpretation of the linear solve (arbitrary rounding) that makes the variance fall below the noise; or, where the
    posterior variance comes out negative, one that makes the answer larger than the noise alone"""
    solves = set()

    def rec(x, seen=set()):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    rec(y)
            return
        if x in solves or x.id in seen:
            return
        if x.op in ("trisolve", "solve") or x.op.startswith("E.solve"):
            solves.add(x)
            return
        for y in x.args:
            rec(y)
    rec(t)
    if not solves:
        return None
    for seed in range(1, 12):
        e = mkenv(seed)
        try:
            base = {x: np.asarray(e.ev(x)) for x in solves}
            f = e.clone({x: y * 50.0 for x, y in base.items()})
            a, b = f.ev(t), f.ev(nz)
            if above:
                # a solution which is not small, magnified until the posterior variance is negative whatever the kernel
                g = e.clone({x: y * 1e8 for x, y in base.items()})
                if min(np.abs(y).max() for y in base.values()) < 1e-3:
                    continue
                a, b = g.ev(t), g.ev(nz)
                if a > b + 1e-6 and not e.blind:
                    return "is %.3g where rounding makes the posterior variance negative" % (a - b)
                continue
            if a < b - 1e-9 and not e.blind:
                return "is %.3g below the noise when the linear solve is inaccurate" % (a - b)
        except Exception:
            continue
    return None
