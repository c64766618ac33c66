"""Analytic gradients are the derivatives of the functions they belong to; likelihoods are the likelihoods."""
from kbase import *
from p07 import Oracle, fitted

EXPLANATION = """The term of every analytic gradient (kernels and means with respect to their parameters, log-likelihood and leave-one-out score
with respect to kernel and mean parameters) is compared with the exact derivative of the term of the function it belongs to,
taken by the complex-step rule through the whole composition set-parameters / recompute / evaluate, in random interpretations. The
likelihood values themselves are compared with their textbook definitions (for leave-one-out: every point predicted from the others)."""
EXPECT = {"kernel-gradient": 4, "mean-gradient": 3, "likelihood-value": 12, "likelihood-gradient": 15}
ASSUMPTIONS = ["identities are decided over the reals; rounding is out of scope", "Eigen's decompositions and solves compute what they document",
               "the likelihood value is compared for one output dimension (the generalisation to several is the code's own), gradients for one and two"]


def run(ctx):
    ctx.rule("kernel-gradient", "the kernel's gradient is the derivative of the (noisy) kernel value with respect to its parameters, in the order of the parameter vector")
    ctx.rule("mean-gradient", "the mean function's gradient is the derivative of the mean value with respect to its parameters")
    ctx.rule("likelihood-value", "the log-likelihood and the leave-one-out score are the Gaussian ones of the model's data")
    ctx.rule("likelihood-gradient", "their gradients are their derivatives with respect to the parameters they name")
    P = ctx.prog("core")
    tr = 12 if ctx.tier == "quick" else 60
    ks = kernels(P)
    for c in ks:
        name = P.classes[c]["q"].split("::")[-1]
        f = [m for m in P.methods(c, "gradient") if m.get("body")][0]
        wh = "%s (%s)" % (P.where(f), name)

        def one():
            s = KS(P, c)
            g = s.get("grad", A, B, II, JJ)
            k = s.get("operator()", A, B, II, JJ)
            attempt(ctx, "kernel-gradient", wh, lambda: eq(ctx, "kernel-gradient", wh, lambda v: v.ev(g), lambda v: v.deriv(k, KP).T, s.env(), "gradient vs derivative of the value", trials=2 * tr, key="kernel-gradient:" + name))
            ctx.analysed |= s.analysed
        attempt(ctx, "kernel-gradient", wh, one)
    ctx.pmap(one_gp, [(c, d) for c in gps(P) for d in (1, 2)])


def one_gp(ctx, item):
    c, dout = item
    P = ctx.prog("core")
    tr = 8 if ctx.tier == "quick" else 40
    f = lambda n: [m for m in P.methods(c, n) if m.get("body")][0]

    def go(r, n, a, b, e, w):
        wh = "%s (%s) %s" % (P.where(f(n)), n, short_ta(P, c))
        attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w + ", %d output dimension(s)" % dout, trials=tr, key=r + ":" + n))

    def one():
        s = fitted(P, c, True, dout=dout)
        e = s.env()
        o = Oracle(s)
        ll, loo = s.get("compute_log_lik"), s.get("compute_log_loo_cv")
        gk, gl = s.get("compute_kernel_grad_log_lik"), s.get("compute_kernel_grad_log_loo_cv")
        st0 = s.st.copy()
        gm = s.get("compute_mean_grad_log_lik")   # not to be called for a mean without parameters: its facts hold for nothing else
        s.st.become(st0)
        Y = lambda v: np.array([x.ravel() for x in v.ev(O)])
        if dout == 1:
            def lik(v):
                pts = v.ev(S)
                K, y = o.K(v, pts), Y(v) - o.M(v, pts)
                return -0.5 * (y.T @ np.linalg.solve(K, y))[0, 0] - 0.5 * np.linalg.slogdet(K)[1] - 0.5 * len(pts) * np.log(2 * np.pi)

            def cv(v):
                pts = v.ev(S)
                K, y = o.K(v, pts), Y(v) - o.M(v, pts)
                r = 0.0
                for i in range(len(pts)):
                    q = [j for j in range(len(pts)) if j != i]
                    w = np.linalg.solve(K[np.ix_(q, q)], K[q, i])
                    m, s2 = w @ y[q, 0], K[i, i] - w @ K[q, i]
                    r += -0.5 * np.log(s2) - (y[i, 0] - m) ** 2 / (2 * s2) - 0.5 * np.log(2 * np.pi)
                return r
            go("likelihood-value", "compute_log_lik", ll, lik, e, "log-likelihood")
            go("likelihood-value", "compute_log_loo_cv", loo, cv, e, "leave-one-out log predictive probability")
        go("likelihood-value", "get_log_lik", s.get("get_log_lik"), ll, e, "the stored value is the last computed")
        go("likelihood-value", "get_log_loo_cv", s.get("get_log_loo_cv"), loo, e, "the stored value is the last computed")
        go("likelihood-gradient", "compute_kernel_grad_log_lik", gk, lambda v: v.deriv(ll, KP).T, e, "gradient of the log-likelihood wrt kernel parameters vs its derivative")
        mfd = P.typ([x for x in P.all_fields(c) if P.typ(x["t"]).get("b") == "rec" and P.cls(P.typ(x["t"])["rid"])["q"].startswith("limbo::mean::")][0]["t"])["rid"]
        go("likelihood-gradient", "compute_mean_grad_log_lik", gm, lambda v: v.deriv(ll, MP).T if v.ev(s.sizes[MP]) > 0 else v.ev(gm), e, "gradient of the log-likelihood wrt mean parameters vs its derivative")
        go("likelihood-gradient", "compute_kernel_grad_log_loo_cv", gl, lambda v: v.deriv(loo, KP).T, e, "gradient of the leave-one-out score wrt kernel parameters vs its derivative")
        m = s.mean()
        mv = s.I.asT(s.sub(m, "operator()", X, s.this), s.st)
        mg = s.I.asT(s.sub(m, "grad", X, s.this), s.st)
        mf = [x for x in P.methods(mfd, "grad") if x.get("body")]
        if mf:
            wh = "%s (grad) %s" % (P.where(mf[0]), short_ta(P, c))
            attempt(ctx, "mean-gradient", wh, lambda: eq(ctx, "mean-gradient", wh, lambda v: v.ev(mg), lambda v: v.deriv(mv, MP) if v.ev(s.sizes[MP]) > 0 else v.ev(mg), e,
                                                         "gradient of the mean wrt its parameters vs its derivative", trials=tr, key="mean-gradient:" + P.cls(mfd)["q"]))
        ctx.analysed |= s.analysed
    attempt(ctx, "likelihood-gradient", "%s %s" % (P.where(f("compute_log_lik")), short_ta(P, c)), one)
