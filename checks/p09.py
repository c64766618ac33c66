"""Hyper-parameter vectors: one layout, shared by getter, setter, size and gradient."""
from kbase import *

EXPLANATION = """For every kernel and mean class: the setter, the getter, the size and the gradient are analysed as one composition.
get(set(p)) = p, set(get()) changes nothing observable, the size is the length of the vector and the number of gradient columns."""
EXPECT = {"get-after-set": 6, "set-of-get-is-identity": 6, "sizes-agree": 6}
ASSUMPTIONS = ["decided over the reals"]


def means(P):
    out = []
    for c, d in enumerate(P.classes):
        if d["q"].startswith("limbo::mean::") and d["q"] != "limbo::mean::BaseMean":
            have = {m["n"] for m in P.methods(c) if m.get("body")}
            nm = d["q"].split("::")[-1]
            if {"h_params", "set_h_params", "h_params_size", "operator()"} <= have and any(m.get("ctor") and len(m["p"]) == 1 and m.get("body") for m in P.methods(c, nm, False)):
                out.append(c)
    return out


class MS(GPS):
    def __init__(self, P, cid, params=True):
        super().__init__(P, cid)
        a0 = self.assign
        self.ctor(mk("sym", "dout"))
        if params:
            self.sizes[MP] = self.get("h_params_size")
            self.call("set_h_params", MP)


def run(ctx):
    ctx.rule("get-after-set", "reading the parameters back returns what was set")
    ctx.rule("set-of-get-is-identity", "setting the parameters to their current values changes no value the function returns")
    ctx.rule("sizes-agree", "the advertised size is the length of the parameter vector and of every gradient")
    P = ctx.prog("core")
    tr = 12 if ctx.tier == "quick" else 60
    for c in kernels(P):
        name = P.classes[c]["q"].split("::")[-1]
        f = [m for m in P.methods(c, "set_h_params") if m.get("body")][0]
        wh = "%s (%s)" % (P.where(f), name)
        go = lambda r, a, b, e, w: attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w, trials=tr, key=r + ":" + name))

        def k1():
            s = KS(P, c)
            go("get-after-set", s.get("h_params"), KP, s.env(), "h_params after set_h_params(p) vs p")
            n = s.get("h_params_size")
            hp, g = s.get("h_params"), s.get("grad", A, B, II, JJ)
            e = s.env()
            go("sizes-agree", n, lambda v: v.ev(hp).size, e, "size vs length of the vector")
            go("sizes-agree", n, lambda v: v.ev(g).size, e, "size vs length of the gradient")
            s2 = KS(P, c, False)
            hp2, n2 = s2.get("h_params"), s2.get("h_params_size")
            go("sizes-agree", n2, lambda v: v.ev(hp2).size, s2.env(), "size vs length of the vector, as constructed")
            ctx.analysed |= s.analysed
        attempt(ctx, "get-after-set", wh, k1)
        for par in (False, True):
            def k2():
                s = KS(P, c, par)
                before = [s.get("operator()", A, B, II, JJ), s.get("grad", A, B, II, JJ), s.get("noise")]
                s.call("set_h_params", s.get("h_params"))
                after = [s.get("operator()", A, B, II, JJ), s.get("grad", A, B, II, JJ), s.get("noise")]
                for x, y, w in zip(before, after, ("value", "gradient", "noise")):
                    go("set-of-get-is-identity", x, y, s.env(), "%s before and after set_h_params(h_params()), %s" % (w, "parameters set" if par else "as constructed"))
            attempt(ctx, "set-of-get-is-identity", wh, k2)
    gp = gps(P)[0]
    for c in means(P):
        name = P.classes[c]["q"].split("::")[-1] + short_ta(P, c)
        f = [m for m in P.methods(c, "set_h_params") if m.get("body")][0]
        wh = "%s (%s)" % (P.where(f), name)
        go = lambda r, a, b, e, w: attempt(ctx, r, wh, lambda: eq(ctx, r, wh, a, b, e, w, trials=tr, key=r + ":" + name))
        if not _has_params(P, c):
            continue

        def m1():
            s = MS(P, c)
            hp, n = s.get("h_params"), s.get("h_params_size")
            go("get-after-set", hp, MP, s.env(), "h_params after set_h_params(p) vs p")
            go("sizes-agree", n, lambda v: v.ev(hp).size, s.env(), "size vs length of the vector")
            s2 = MS(P, c, False)
            hp2, n2 = s2.get("h_params"), s2.get("h_params_size")
            go("sizes-agree", n2, lambda v: v.ev(hp2).size, s2.env(), "size vs length of the vector, as constructed")
            s2.call("set_h_params", hp2)
            go("set-of-get-is-identity", hp2, s2.get("h_params"), s2.env(), "parameters before and after set_h_params(h_params())")
            ctx.analysed |= s.analysed
        attempt(ctx, "get-after-set", wh, m1)
    for c in gps(P):
        mq = P.cls(P.typ([f for f in P.all_fields(c) if "ean" in f["n"] and P.typ(f["t"]).get("b") == "rec" and P.cls(P.typ(f["t"])["rid"])["q"].startswith("limbo::mean::")][0]["t"])["rid"])
        f = [m for m in P.methods(c, "mean_function") if m.get("body")][0]
        wh = "%s %s" % (mq["q"], short_ta(P, c))

        def m3():
            s = GPS(P, c)
            s.ctor()
            s.call("compute", S, O, TRUE)
            s.set_mean()
            m = s.mean()
            n = s.I.asT(s.sub(m, "h_params_size"), s.st)
            g = s.I.asT(s.sub(m, "grad", X, s.this), s.st)
            e = s.env()
            attempt(ctx, "sizes-agree", wh, lambda: eq(ctx, "sizes-agree", wh, n, lambda v: v.ev(g).shape[1], e, "size vs gradient columns of the mean", trials=tr, key="sizes-agree:meangrad:" + mq["q"]))
            b = s.I.asT(s.sub(m, "operator()", X, s.this), s.st)
            s.sub(m, "set_h_params", s.I.asT(s.sub(m, "h_params"), s.st))
            a = s.I.asT(s.sub(m, "operator()", X, s.this), s.st)
            attempt(ctx, "set-of-get-is-identity", wh, lambda: eq(ctx, "set-of-get-is-identity", wh, b, a, e, "mean value before and after set_h_params(h_params())", trials=tr, key="set-of-get:mean:" + mq["q"]))
        if _has_params(P, P.classes.index(mq)):
            attempt(ctx, "sizes-agree", wh, m3)


def _has_params(P, c):
    f = [m for m in P.methods(c, "h_params_size") if m.get("body")]
    if not f:
        return False
    own = [m for m in f if m.get("cls") == c]
    return bool(own)
