"""The sparse pseudo-input Gaussian process: likelihood, gradient, posterior, data."""
from gpbase import *
from interp import get, size
from p23 import is_optimizer_call

EXPLANATION = """The sparse pseudo-input model (experimental) is analysed with the numerical optimiser left arbitrary: each call to it returns an
unconstrained symbolic vector. The objective handed to it is applied at an arbitrary parameter vector, in the state captured at the call,
and compared with the dense form of the log marginal likelihood of the FITC approximation (Snelson and Ghahramani 2005) written out
directly from its n x n covariance; its gradient is compared with the complex-step derivative of the value it returns. Predictions after
compute, add_sample, optimize_hyperparams and recompute are compared with the FITC posterior at the parameters the optimiser returned last,
and the accessors with the data. Decided by random interpretation of the terms."""
EXPECT = {"likelihood-value": 4, "likelihood-gradient": 2, "posterior": 80, "prior": 10, "data": 70, "start-point": 4}
ASSUMPTIONS = ["decided over the reals", "Eigen's decompositions and solves compute what they document", "one output dimension",
               "the search vector is laid out as test_likelihood() documents it: pseudo-inputs column by column, log inverse squared length-scales, log amplitude, log noise"]
Q = "limbo::model::SPGP"
PV = mk("sym", "sp_point")
LX = mk("sym", "two_points")
PCT, MINM, JIT = (mk("cfg", "Params::model_spgp::" + n) for n in ("samples_percent", "min_m", "jitter"))
SIG2 = mk("cfg", "Params::kernel_squared_exp_ard::sigma_sq")
MC = mk("cfg", "Params::mean_constant::constant")


class SP(GPS):
    def __init__(self, P, c, n=None, din=2):
        super().__init__(P, c, n=n, din=din, dout=1)
        self.data = "Data" in short_ta(P, c)
        self.slope = "SlopeMean" in short_ta(P, c)
        self.calls = []
        self.kinds.update({PV: "vec", LX: "mat"})
        base = self.shape

        def shape(env, t, k):
            if t is PCT:
                return (10, 40, 50, 75)[env.seed % 4]
            if t is MINM:
                return 1 + (env.seed // 4) % 2
            if t is LX:
                r = rng(env.seed, "LX")
                return np.array([[r.uniform(-1, 1) for _ in range(din)] for _ in range(2)])
            return base(env, t, k)
        self.shape = shape
        a0 = self.assign

        def assign(seed):
            a = a0(seed)
            r = rng(seed, "spgp")
            N = n if n is not None else 2 + (seed // 8) % 3
            a[S], a[O] = rlist(r, N, din), rlist(r, N, 1)
            return a
        self.assign = assign
        self.I.hook = self.hook

    def hook(self, I, fn, obj, args, e, st):
        if not is_optimizer_call(fn):
            return None
        r = mk("sym", "sp_result%d" % len(self.calls))
        self.kinds[r] = "vec"
        k = dict(f=args[0], init=I.asT(args[1], st), bounded=I.asT(args[2], st), st=st.copy(), ftype=fn["p"][0]["t"], caller=I.fr.fn, res=r)
        self.sizes[r] = size(k["init"])
        self.calls.append(k)
        return r

    def compute(self, kind="vector"):
        f = [m for m in self.P.methods(self.cid, "compute") if m.get("body") and all(kind in self.P.typ(p["t"])["s"] for p in m["p"])]
        return self.runfn(f[0], [S, O])


def num_m(v, n):
    """the documented number of pseudo-inputs: a percentage of the samples, at least min_m"""
    return int(max(v.ev(MINM), int(v.ev(PCT) * n / 100.0)))


def unzip(w, m, d):
    w = np.asarray(w).ravel()
    if len(w) != (m + 1) * d + 2:
        raise fp.Misfit("parameter vector of length %d for %d pseudo-inputs in %d dimensions" % (len(w), m, d))
    return w[:m * d].reshape(d, m).T, np.exp(w[m * d:(m + 1) * d]), np.exp(w[(m + 1) * d]), np.exp(w[(m + 1) * d + 1])


def kern(A, B, b, c):
    return c * np.exp(-0.5 * (((A[:, None, :] - B[None, :, :]) ** 2) * b).sum(2))


def xy(v, added=False):
    s, o = list(v.ev(S)), list(v.ev(O))
    if added == "only":
        s, o = [v.ev(S1)], [v.ev(O1)]
    elif added:
        s, o = s + [v.ev(S1)], o + [v.ev(O1)]
    return np.array([np.asarray(x).ravel() for x in s]), np.array([np.asarray(x).ravel() for x in o])


def mean_of(s, v, Y, A):
    """the mean function at the rows of A"""
    if s.slope:
        return (A ** 2).sum(1).reshape(-1, 1)
    return np.tile(Y.mean(0) if s.data else [s.mean_value(v)], (len(A), 1))


def nlml(s, v, w, X, Y, c_=None):
    """-log N(y; 0, Qnn + diag(c - diag Qnn) + sig I)"""
    n, d = X.shape
    m = num_m(v, n)
    xb, b, c, sig = unzip(w, m, d)
    y = Y - mean_of(s, v, Y, X)
    J = v.ev(JIT)
    Kmm, Kmn = kern(xb, xb, b, c) + J * np.eye(m), kern(xb, X, b, c)
    q = Kmn.T @ np.linalg.solve(Kmm, Kmn)
    C = q + np.diag(c - np.diag(q)) + sig * np.eye(n)
    sign, ld = np.linalg.slogdet(C)
    return 0.5 * ld + 0.5 * (y.T @ np.linalg.solve(C, y)).item() + 0.5 * n * np.log(2 * np.pi)


def posterior(s, v, w, X, Y, x):
    n, d = X.shape
    m = num_m(v, n)
    xb, b, c, sig = unzip(w, m, d)
    y = Y - mean_of(s, v, Y, X)
    Kmm, Kmn, Kms = kern(xb, xb, b, c) + v.ev(JIT) * np.eye(m), kern(xb, X, b, c), kern(xb, x, b, c)
    lam = c - (Kmn * np.linalg.solve(Kmm, Kmn)).sum(0) + sig
    A = Kmm + (Kmn / lam) @ Kmn.T
    mu = mean_of(s, v, Y, x) + Kms.T @ np.linalg.solve(A, (Kmn / lam) @ y)
    s2 = c - (Kms * np.linalg.solve(Kmm, Kms)).sum(0) + (Kms * np.linalg.solve(A, Kms)).sum(0) + sig
    return mu, s2.reshape(-1, 1)


def run(ctx):
    ctx.rule("likelihood-value", "the objective handed to the optimiser is the log marginal likelihood of the FITC approximation")
    ctx.rule("likelihood-gradient", "its gradient is the derivative of that value")
    ctx.rule("start-point", "the search starts from pseudo-inputs that are training samples, unbounded (log space)")
    ctx.rule("posterior", "mu, sigma, query and predict are the FITC posterior at the parameters the optimiser returned last")
    ctx.rule("prior", "with no data, mu is the mean function and sigma the prior variance")
    ctx.rule("data", "samples, number of samples and pseudo-samples, dimensions, mean and maximum observation are those of the data given")
    P = ctx.prog("exp")
    cs = [c for c in classes(P, Q) if has_body(P, c, "_likelihood_wp")]
    todo = [(c, part, d) for c in cs for part in ("objective", "compute", "add", "first", "optimize", "recompute", "prior", "matrix") for d in ((2,) if ctx.tier == "quick" else (1, 2, 3))]
    ctx.pmap(one, todo)


def one(ctx, item):
    c, part, din = item
    P = ctx.prog("exp")
    tr = 8 if ctx.tier == "quick" else 32
    tag = short_ta(P, c) + (" %d-D" % din)
    attempt(ctx, {"objective": "likelihood-value", "prior": "prior"}.get(part, "posterior"), tag + " " + part, lambda: PARTS[part](ctx, P, c, din, tr, tag))


def setup(P, c, din):
    s = SP(P, c, din=din)
    s.mean_value = lambda v: v.ev(MC)
    return s


def objective(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    s.compute()
    if len(s.calls) != 1:
        ctx.undecided("likelihood-value", tag, "%d optimiser calls found" % len(s.calls))
        return
    k = s.calls[0]
    wh = "%s (%s)" % (P.where(k["caller"]), tag)
    s.sizes[PV] = s.sizes[k["res"]]
    oc = P.typ(k["ftype"]).get("rid")
    op = [x for x in P.methods(oc, "operator()") if x.get("body")][0]

    def at(g):
        st2 = k["st"].copy()
        r, _ = s.I.run(op, this=k["f"], args=[PV, g], st=st2)
        s.analysed |= s.I.inlined
        return s.I.asT(r, st2)
    v1, v0 = at(TRUE), at(FALSE)
    e = s.env()

    def go(r, a, b, w, key=None):
        attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w, trials=tr, key=key or r))

    def spec(v):
        return -nlml(s, v, v.ev(PV), *xy(v))
    go("likelihood-value", get(v1, 0), spec, "value returned with the gradient vs the FITC log marginal likelihood")
    go("likelihood-value", get(v0, 0), spec, "value returned without the gradient vs the FITC log marginal likelihood")

    def grad(v):
        g = v.ev(get(v1, 1))
        if isinstance(g, tuple) and g and g[0] == "opt":
            g = g[1]
        return np.asarray(g).reshape(-1, 1)
    go("likelihood-gradient", grad, lambda v: v.deriv(get(v0, 0), PV).reshape(-1, 1), "gradient vs the derivative of the value")
    ctx.check(k["bounded"] is FALSE, "start-point", wh, "the search over log-parameters is unbounded", "start-point:bounded")

    def start(v):
        X, Y = xy(v)
        w = np.asarray(v.ev(k["init"])).ravel()
        m = num_m(v, len(X))
        if len(w) != (m + 1) * din + 2:
            return False
        xb = w[:m * din].reshape(din, m).T
        return all(np.min(np.abs(X - r).max(1)) < 1e-9 for r in xb)
    attempt(ctx, "start-point", wh, lambda: holds(ctx, "start-point", wh, start, e, "each initial pseudo-input is a training sample", trials=tr * 2, key="start-point:samples"))
    ctx.analysed |= s.analysed


def check_post(ctx, P, s, tag, tr, added, what):
    e = s.env()
    R = s.calls[-1]["res"]

    def spec(i, batch):
        def f(v):
            x = np.asarray(v.ev(LX)) if batch else np.asarray(v.ev(X)).reshape(1, -1)
            X_, Y_ = xy(v, added)
            return posterior(s, v, v.ev(R), X_, Y_, x)[i]
        return f

    def go(name, a, b, key):
        f = s.method(name)
        wh = "%s (%s, %s)" % (P.where(f), tag, what)
        attempt(ctx, "posterior", wh, lambda: eq(ctx, "posterior", wh, a(), b, e, "%s after %s" % (name, what), trials=tr, key=key))

    def col(t):
        return lambda v: np.asarray(v.ev(t)).reshape(-1, 1)

    def lst(t):
        return lambda v: np.vstack([np.asarray(q).reshape(1, -1) for q in v.ev(t)])
    go("query", lambda: col(get(s.get("query", X), 0)), spec(0, False), "query:mu:" + what)
    go("query", lambda: col(get(s.get("query", X), 1)), spec(1, False), "query:sigma:" + what)
    go("sigma", lambda: col(s.get("sigma", X)), spec(1, False), "sigma:" + what)
    go("mu", lambda: s.get("mu", mk("transp", X)), spec(0, False), "mu:" + what)
    go("mu", lambda: s.get("mu", LX), spec(0, True), "mu:batch:" + what)
    go("mu_mult", lambda: lst(s.get("mu_mult", LX)), spec(0, True), "mu_mult:" + what)
    go("sigma_mult", lambda: s.get("sigma_mult", LX), spec(1, True), "sigma_mult:" + what)
    go("predict", lambda: get(s.get("predict", LX), 0), spec(0, True), "predict:mu:" + what)
    go("predict", lambda: get(s.get("predict", LX), 1), spec(1, True), "predict:sigma:" + what)
    check_data(ctx, P, s, tag, tr, added, what, R)


def check_data(ctx, P, s, tag, tr, added, what, R):
    e = s.env()

    def lst(t):
        return lambda v: np.vstack([np.asarray(q).reshape(1, -1) for q in v.ev(t)])

    def go(name, a, b):
        f = s.method(name)
        wh = "%s (%s, %s)" % (P.where(f), tag, what)
        attempt(ctx, "data", wh, lambda: eq(ctx, "data", wh, a(), b, e, "%s after %s" % (name, what), trials=tr, key=name + ":" + what))
    go("samples", lambda: lst(s.get("samples")), lambda v: xy(v, added)[0])
    go("nb_samples", lambda: s.get("nb_samples"), lambda v: len(xy(v, added)[0]))
    go("nb_pseudo_samples", lambda: s.get("nb_pseudo_samples"), lambda v: num_m(v, len(xy(v, added)[0])))
    go("dim_in", lambda: s.get("dim_in"), lambda v: xy(v, added)[0].shape[1])
    go("dim_out", lambda: s.get("dim_out"), lambda v: 1)
    go("mean_observation", lambda: s.get("mean_observation"), lambda v: xy(v, added)[1].mean(0).reshape(-1, 1))
    go("max_observation", lambda: s.get("max_observation"), lambda v: xy(v, added)[1].max(0).reshape(-1, 1))

    def pseudo(v):
        X_, _ = xy(v, added)
        m = num_m(v, len(X_))
        return unzip(v.ev(R), m, X_.shape[1])[0]
    go("pseudo_samples", lambda: lst(s.get("pseudo_samples")), pseudo)
    ctx.analysed |= s.analysed


def compute(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    s.compute()
    check_post(ctx, P, s, tag, tr, False, "compute")


def matrix(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    f = [m for m in P.methods(c, "compute") if m.get("body") and "vector" not in P.typ(m["p"][0]["t"])["s"] and "vector" not in P.typ(m["p"][1]["t"])["s"]]
    SM, OM = mk("sym", "SM"), mk("sym", "OM")
    s.kinds.update({SM: "mat", OM: "mat"})
    a0 = s.assign

    def assign(seed):
        a = a0(seed)
        a[SM] = np.hstack(list(a[S])).T
        a[OM] = np.hstack(list(a[O])).T
        return a
    s.assign = assign
    s.runfn(f[0], [SM, OM])
    check_post(ctx, P, s, tag, tr, False, "compute from matrices")


def add(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    s.compute()
    s.call("add_sample", S1, O1)
    check_post(ctx, P, s, tag, tr, True, "add_sample")


def first(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor(din, 1)
    s.call("add_sample", S1, O1)
    s.call("add_sample", S1, O1)
    check_post_twice(ctx, P, s, tag, tr)


def check_post_twice(ctx, P, s, tag, tr):
    # an empty model given the same point twice: the data are two copies of it
    a0 = s.assign

    def assign(seed):
        a = a0(seed)
        a[S], a[O] = (a[S1],), (a[O1],)
        return a
    s.assign = assign
    check_post(ctx, P, s, tag, tr, True, "add_sample on an empty model")


def optimize(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    s.compute()
    n = len(s.calls)
    s.call("optimize_hyperparams")
    if len(s.calls) <= n:
        ctx.undecided("posterior", tag, "optimize_hyperparams makes no optimiser call")
        return
    check_post(ctx, P, s, tag, tr, False, "optimize_hyperparams")


def recompute(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor()
    s.compute()
    if not s.data and not s.slope:
        s.set_mean()
        s.mean_value = lambda v: float(np.asarray(v.ev(MP)).ravel()[0])
    s.call("recompute", TRUE)
    check_post(ctx, P, s, tag, tr, False, "recompute")


def prior(ctx, P, c, din, tr, tag):
    s = setup(P, c, din)
    s.ctor(din, 1)
    e = s.env()

    def M(v, t=X):
        A = np.asarray(v.ev(t))
        A = A.reshape(1, -1) if t is X else A
        return mean_of(s, v, np.zeros((1, 1)), A)

    def go(name, a, b, w):
        f = s.method(name)
        wh = "%s (%s)" % (P.where(f), tag)
        attempt(ctx, "prior", wh, lambda: eq(ctx, "prior", wh, a(), b, e, w, trials=tr, key=w))
    go("query", lambda: (lambda t: lambda v: np.asarray(v.ev(t)).reshape(-1, 1))(get(s.get("query", X), 0)), lambda v: M(v), "query:mu with no data")
    go("query", lambda: get(s.get("query", X), 1), lambda v: v.ev(SIG2), "query:sigma with no data")
    go("sigma", lambda: s.get("sigma", X), lambda v: v.ev(SIG2), "sigma with no data")
    go("mu", lambda: s.get("mu", LX), lambda v: M(v, LX), "mu with no data")
    go("sigma_mult", lambda: s.get("sigma_mult", LX), lambda v: np.array([[v.ev(SIG2)]] * 2), "sigma_mult with no data")
    go("nb_samples", lambda: s.get("nb_samples"), lambda v: 0, "nb_samples with no data")
    ctx.analysed |= s.analysed


PARTS = dict(objective=objective, compute=compute, add=add, first=first, optimize=optimize, recompute=recompute, prior=prior, matrix=matrix)
