"""Kernels are valid covariance functions and the noise sits on the diagonal only."""
from kbase import *

EXPLANATION = """Every kernel class of the driver: the value-graph term of k(a,b) (through the call operator a model uses) is compared with
the terms of k(b,a), of k at shifted points, of k(a,a), with the index-carrying overload, and with the documented covariance formula
as a function of the log-parameters, by value number and random interpretation. The Gram matrix of symbolic points is evaluated in
each interpretation for negative eigenvalues."""
EXPECT = {"symmetric": 4, "stationary": 4, "noise-on-diagonal": 4, "documented-formula": 4, "positive-semidefinite": 4}
ASSUMPTIONS = ["identities are decided over the reals; rounding is out of scope", "input dimension 2, Lambda with 0, 1 or 2 columns; the terms themselves are for any dimension"]


def run(ctx):
    ctx.rule("symmetric", "k(a,b) = k(b,a)")
    ctx.rule("stationary", "k depends on a-b only and k(a,a) is the signal variance")
    ctx.rule("noise-on-diagonal", "indexed evaluation adds the noise (and jitter) exactly when the two indices are equal")
    ctx.rule("documented-formula", "the covariance is the one its documentation states, with the parameters in the documented order and in log-space")
    ctx.rule("positive-semidefinite", "no Gram matrix has a negative eigenvalue")
    P = ctx.prog("core")
    tr = 16 if ctx.tier == "quick" else 80
    for c in kernels(P):
        name = P.classes[c]["q"].split("::")[-1]
        f = [m for m in P.methods(c, "kernel") if m.get("body")][0]
        wh = "%s (%s)" % (P.where(f), name)
        for par in (False, True):
            tag = "with any parameters set" if par else "as constructed"

            def one():
                s = KS(P, c, par)
                k = lambda a, b: s.get("operator()", a, b, const(-1), const(-2))
                kab, kba, kaa, kbb = k(A, B), k(B, A), k(A, A), k(B, B)
                e = s.env()
                go = lambda r, a, b, w, **kw: attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w + ", " + tag, trials=tr, key=r + ":" + name))
                go("symmetric", kab, kba, "k(a,b) vs k(b,a)")
                from terms import add
                go("stationary", kab, lambda v: v.clone({A: v.ev(A) + v.ev(C), B: v.ev(B) + v.ev(C)}).ev(kab), "k(a,b) vs k(a+c,b+c)")
                go("stationary", kaa, lambda v: v.clone({A: v.ev(B)}).ev(kaa), "k(a,a) vs k(b,b)")

                nz = s.get("noise")
                kij = s.get("operator()", A, B, II, JJ)
                go("noise-on-diagonal", kij, lambda v: v.ev(kab) + (v.ev(nz) + 1e-8 if v.ev(II) == v.ev(JJ) else 0.0), "k(a,b,i,j) vs k(a,b) + [i=j](noise + jitter)")
                fo = k_formula(name)
                if fo is not None and par:
                    go("documented-formula", kab, lambda v: fo((v.ev(A) - v.ev(B)).ravel(), v.ev(KP).ravel(), v.ev(KCFG), 2), "k(a,b) vs the documented formula")
                    go("noise-on-diagonal", nz, lambda v: np.exp(2 * v.ev(KP).ravel()[-1]) if v.ev(mk("cfg", "Params::kernel::optimize_noise")) else v.ev(mk("cfg", "Params::kernel::noise")), "the noise is the last parameter when it is optimised, else the configured one")

                def mineig(v):
                    r = rng(v.seed, "gram")
                    pts = [rvec(r, 2, -2, 2) for _ in range(6)]
                    G = np.array([[v.clone({A: a, B: b}).ev(kab) for b in pts] for a in pts])
                    return 0.0 if np.linalg.eigvalsh((G + G.T) / 2)[0] > -1e-9 else -1.0
                go("positive-semidefinite", mineig, lambda v: 0.0, "smallest eigenvalue sign of a Gram matrix")
                ctx.analysed |= s.analysed
            attempt(ctx, "symmetric", wh, one)
