"""GP sessions: symbolic data, well-shaped random interpretations."""
import numpy as np
from base import *

S, O, X, S1, O1, KP, MP = (mk("sym", n) for n in ("S", "O", "x", "s1", "o1", "kp", "mp"))
KINDS = {S: ("list", "vec"), O: ("list", "vec"), X: "vec", S1: "vec", O1: "vec", KP: "vec", MP: "vec"}
GPQ = "limbo::model::GP"


def gp_assign(n=4, din=2, dout=2):
    def f(seed):
        r = rng(seed, "gp")
        N = n if n is not None else 1 + seed % 4
        return {S: rlist(r, N, din), O: rlist(r, N, dout), X: rvec(r, din), S1: rvec(r, din), O1: rvec(r, dout),
                KCFG: (0, 1, 2)[seed % 3], mk("sym", "din"): din, mk("sym", "dout"): dout}
    return f


class GPS(Session):
    def __init__(self, P, cid, n=4, din=2, dout=2, **kw):
        super().__init__(P, cid, "gp", kinds=KINDS, assign=gp_assign(n, din, dout), **kw)
        self.sizes = {}

        def shape(env, t, k):
            sz = self.sizes.get(t)
            if sz is not None:
                m = env.integer(env.ev(sz))
                r = rng(env.seed, show(t))
                return np.array([[r.uniform(-0.6, 0.6)] for _ in range(m)]).reshape(m, 1)
            return None
        self.shape = shape

    def kernel(self):
        return self.call("kernel_function")

    def mean(self):
        return self.call("mean_function")

    def set_kernel(self, p=KP):
        k = self.kernel()
        self.sizes[p] = self.I.asT(self.sub(k, "h_params_size"), self.st)
        self.sub(k, "set_h_params", p)

    def set_mean(self, p=MP):
        m = self.mean()
        self.sizes[p] = self.I.asT(self.sub(m, "h_params_size"), self.st)
        self.sub(m, "set_h_params", p)


def gps(P):
    """the fully instantiated GP classes"""
    def ok(c):
        have = {(m["n"], len(m["p"])) for m in P.methods(c) if m.get("body")}
        return {("GP", 0), ("GP", 2), ("compute", 3), ("add_sample", 2), ("query", 1), ("observations", 0), ("compute_kernel_grad_log_loo_cv", 0)} <= have
    return [c for c in classes(P, GPQ) if ok(c)]
