"""Kernel and mean-function sessions."""
from gpbase import *

A, B, C = mk("sym", "a"), mk("sym", "b"), mk("sym", "c")
II, JJ = mk("sym", "i"), mk("sym", "j")
DIN = mk("sym", "din")


def kernels(P):
    out = []
    for c, d in enumerate(P.classes):
        if any(P.derived_from(b, "limbo::kernel::BaseKernel") for b in d.get("bases", ())):
            have = {m["n"] for m in P.methods(c) if m.get("body")}
            if {"operator()", "grad", "h_params", "set_h_params"} <= have and any(m["n"] == "kernel" and m.get("body") for m in P.methods(c)):
                out.append(c)
    return out


class KS(GPS):
    """a kernel under analysis"""

    def __init__(self, P, cid, params=True):
        super().__init__(P, cid)
        self.kinds.update({A: "vec", B: "vec", C: "vec", II: "int", JJ: "int"})

        def asg(seed):
            r = rng(seed, "k")
            i = seed % 4
            return {A: rvec(r, 2), B: rvec(r, 2), C: rvec(r, 2), KCFG: (0, 1, 2)[seed % 3], DIN: 2, II: i, JJ: i if seed % 2 else (i + 1) % 4,
                    mk("cfg", "Params::kernel::optimize_noise"): bool((seed // 2) % 2)}
        self.assign = asg
        self.ctor(DIN)
        if params:
            self.sizes[KP] = self.get("h_params_size")
            self.call("set_h_params", KP)


NAMED = "(called with two points)"


def k_formula(name):
    """the documented covariance as a function of d = a-b, log-parameters p, k"""
    def iso(f):
        def g(d, p, k, din):
            l, s2 = np.exp(p[0]), np.exp(2 * p[1])
            r = np.sqrt(np.sum(d * d))
            return s2 * f(r / l)
        return g

    def ard(d, p, k, din):
        M = np.diag(np.exp(-2 * p[:din]))
        if k > 0:
            L = p[din:din + din * k].reshape(k, din).T
            M = M + L @ L.T
        return np.exp(2 * p[din + din * k]) * np.exp(-0.5 * d @ M @ d)
    s3, s5 = np.sqrt(3), np.sqrt(5)
    return {"Exp": iso(lambda x: np.exp(-0.5 * x * x)),
            "MaternThreeHalves": iso(lambda x: (1 + s3 * x) * np.exp(-s3 * x)),
            "MaternFiveHalves": iso(lambda x: (1 + s5 * x + 5 * x * x / 3) * np.exp(-s5 * x)),
            "SquaredExpARD": ard}.get(name)
