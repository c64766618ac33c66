"""MultiGP: one independent model per output, fitted on the residuals of the shared mean function."""
from gpbase import *
import p11

EXPLANATION = """Every MultiGP instantiation of the driver is analysed as a composition of its own public calls. The models of the single outputs are
kept as abstract states (data, data the kernel was computed on, kernel parameters, data the weights were computed on): the calls MultiGP makes
on them are uninterpreted operations in the value graph, interpreted by the contract of the single-output model (itself decided by
another property). The list of states after a history, and the answers of the accessors and queries, are compared with the definition: model i holds
the samples and the i-th components of the observations minus the mean function evaluated on the final data."""
EXPECT = {"fit": 60, "incremental": 20, "query": 20, "recompute": 20, "hyperparameters": 6, "save-load": 20}
ASSUMPTIONS = ["the single-output model honours the contract decided for GP (fit, incremental fit and refit are functions of data and parameters)",
               "decided over the reals", "random interpretation: sizes 1-4 for the symbolic lengths and dimensions"]
S2, O2 = mk("sym", "S2"), mk("sym", "O2")
MGQ = "limbo::model::MultiGP"
PS, PO = mk("push", S, S1), mk("push", O, O1)
NEW = ("gp", [], [], "nokernel", 0.0, "noalpha")


def h(*xs):
    return xs


class MG(Session):
    def __init__(self, P, cid, dout=None):
        super().__init__(P, cid, "mgp", kinds={**KINDS, S2: ("list", "vec"), O2: ("list", "vec")}, assign=self.data, opaque=self.opq, hook=self.hk)
        self.sub_ = self.subcls()
        self.fam = set()
        q = [self.sub_]
        while q:
            c = q.pop()
            self.fam.add(c)
            q += P.classes[c].get("bases", ())
        self.store = None
        self.sizes = {}
        self.hps = []
        self.shape = self.shp

    def subcls(self):
        """the class of the single-output models: the element class of what gp_models() returns"""
        for m in self.P.methods(self.cid, "gp_models"):
            el = (self.P.classes[self.P.typ(m["rt"])["rid"]].get("ta") or [""])[0]
            for t in self.P.types:
                if t.get("rid") is not None and t["s"] == el and not t.get("ref") and not t.get("ptr"):
                    return t["rid"]
        raise LookupError("no model list")

    def data(self, seed):
        r = rng(seed, "mgp")
        n, d, o = 1 + seed % 3, 1 + (seed // 2) % 3, 1 + (seed // 3) % 3
        d2, o2 = (d, o) if seed % 2 else (1 + (seed // 5) % 3, 1 + (seed // 7) % 3)
        self.dims = (n, d, o)
        return {S: rlist(r, n, d), O: rlist(r, n, o), X: rvec(r, d), S1: rvec(r, d), O1: rvec(r, o), S2: rlist(r, 2, d2), O2: rlist(r, 2, o2),
                mk("sym", "din"): d, mk("sym", "dout"): o}

    def opq(self, fn):
        return "cls" in fn and fn["cls"] in getattr(self, "fam", ())

    def hk(self, I, fn, obj, args, e, st):
        if self.store is not None:
            r = None if self.opq(fn) else self.store.hook(I, fn, obj, args, e, st)
            if r is not None:
                return r
        if not self.opq(fn):
            if fn["n"] == "operator()" and args and isinstance(args[0], Ref) and "Opt" in fn["q"] and self.isgp(I, fn):
                o = I.deref_chain(st, args[0])
                I.write(st, o, mk("call", "gp.hp", I.asT(o, st)), e, "hp")
                if not I.silent:
                    self.hps.append((fn, e))
                return mk("opaque", "void")
            return None
        ts = tuple(I.asT(a, st) for a in args) if fn["n"] not in ("load", "save") else ()
        if fn.get("ctor"):
            if fn.get("copy") or fn.get("move") or len(args) == 1:
                return None
            if obj is None:
                return mk("call", "gp.new", *ts)
            I.write(st, obj, mk("call", "gp.new", *ts), e, "new")
            return mk("opaque", "void")
        if fn["n"].startswith("operator=") or fn["n"].startswith("~"):
            return None
        o = I.deref_chain(st, obj) if isinstance(obj, Ref) else obj
        cur = I.asT(o, st)
        n = fn["n"]
        if n in ("load", "save") and self.store is not None:
            return self.archive(I, fn, o, cur, args, e, st)
        if fn.get("const"):
            return mk("call", "gp." + n, cur, *ts)
        I.write(st, o, mk("call", "gp." + n, cur, *ts), e, "gp." + n)
        return mk("opaque", "void")

    def archive(self, I, fn, o, cur, args, e, st):
        d = I.asT(args[0], st)
        key = mk("pair", d, mk("str", "<model>"))
        if I.silent:
            if fn["n"] == "load":
                I.write(st, o, self.store.find(key) or mk("opaque", "unsaved"), e, "load")
            return mk("opaque", "void")
        if fn["n"] == "save":
            self.store.m.append((key, cur, st.facts, e.get("l")))
        else:
            v = self.store.find(key)
            if v is None:
                self.store.missing.append((key, e.get("l"), I.fr.fn))
                v = mk("opaque", "unsaved")
            rec = I.asT(args[1], st) if len(args) > 1 else TRUE
            I.write(st, o, mk("call", "gp.loaded", v, rec), e, "load")
        return mk("opaque", "void")

    def isgp(self, I, fn):
        return self.P.typ(fn["p"][0]["t"]).get("rid") in self.fam

    # ------------------------------------------------------------ interpretation of the abstract operations
    def shp(self, env, t, k):
        sz = self.sizes.get(t)
        if sz is not None:
            m = env.integer(env.ev(sz))
            return rvec(rng(env.seed, show(t)), m)
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("gp."):
            return self.gpop(env, t.args[0][3:], [env.ev(a) for a in t.args[1:]])
        return None

    def gpop(self, env, n, a):
        if n == "new":
            return NEW
        s = a[0] if isinstance(a[0], tuple) and len(a[0]) == 6 and a[0][0] == "gp" else NEW if is_blank(a[0]) else None
        if s is None:
            raise fp.Undef("not a model state")
        _, Xs, Ys, K, hp, A = s
        if n == "compute":
            full = env.truth(a[3])
            X_, Y_ = list(a[1]), list(a[2])
            if full:
                K = ("K", X_, hp)
                A = ("A", Y_, K)
            return ("gp", X_, Y_, K, hp, A)
        if n == "add_sample":
            X_, Y_ = list(Xs) + [a[1]], list(Ys) + [a[2]]
            K = ("K", X_, hp) if not Xs or isinstance(K, tuple) and len(K[1]) == len(Xs) and same(K[1], Xs) and same(K[2], hp) else ("Kmixed", K, X_, hp)
            return ("gp", X_, Y_, K, hp, ("A", Y_, K))
        if n == "recompute":
            if not Xs:
                return s
            full = env.truth(a[2]) if len(a) > 2 else True
            if full:
                K = ("K", list(Xs), hp)
            return ("gp", Xs, Ys, K, hp, ("A", list(Ys), K))
        if n == "hp":
            return ("gp", Xs, Ys, K, rng(env.seed, ("hp", env.digest((Xs, Ys, hp)))).uniform(-1, 1), A)
        if n == "loaded":
            return ("gp", Xs, Ys, ("K", list(Xs), hp), hp, ("A", list(Ys), ("K", list(Xs), hp))) if env.truth(a[1]) else s
        if n == "samples":
            return list(Xs)
        if n in ("observations_matrix",):
            return np.array([y.reshape(-1) for y in Ys])
        if n == "nb_samples":
            return len(Xs)
        if n in ("mu", "sigma", "query"):
            x = np.asarray(a[1], dtype=float)

            def mu():
                if not Xs:
                    return np.zeros((1, 1))
                return np.array([[rng(env.seed, ("mu", env.digest((x, Xs, hp, A)))).uniform(-1, 1)]])

            def sg():
                return rng(env.seed, ("sg", env.digest((x, hp) + ((Xs, K) if Xs else ())))).uniform(0.1, 1)
            return mu() if n == "mu" else sg() if n == "sigma" else (mu(), sg())
        raise fp.Undef("operation %s" % n)

    # ------------------------------------------------------------ what a user sees
    def models(self):
        return self.get("gp_models", pred=lambda m: m.get("const"))

    def mean_term(self):
        """the mean function at X, on the model's current data"""
        m = self.mean()
        s = Session.__new__(Session)
        s.__dict__.update(self.__dict__)
        s.cid, s.this = self.meancid(), m
        return self.I.asT(s.call("operator()", X, self.this), self.st)

    def mean(self):
        return self.call("mean_function", pred=lambda m: not m.get("const"))

    def meancid(self):
        return self.P.typ([m for m in self.P.methods(self.cid, "mean_function") if m.get("body")][0]["rt"])["rid"]

    def set_mean(self, p=MP):
        m = self.mean()
        if not isinstance(m, Ref):   # a mean function without state has no parameters
            return
        self.sizes[p] = self.I.asT(self.sub(m, "h_params_size"), self.st)
        self.sub(m, "set_h_params", p)


def is_blank(v):
    return isinstance(v, fp.Opq) or v is None or isinstance(v, dict) and not v


def same(a, b):
    return fp.same(a, b)


def eqm(got, want):
    return len(got) == len(want) and all(fp.same(g, w) for g, w in zip(got, want))


# histories: (name, steps, data after, kernel parameters are those in use, group)
def steps():
    def fresh(s):
        s.ctor()

    def sized(s):
        s.ctor(mk("sym", "din"), mk("sym", "dout"))

    def other(s):
        s.ctor()
        s.call("compute", S2, O2, TRUE)

    def any_(s):
        pass

    def fit(s):
        s.call("compute", S, O, TRUE)

    def add(s):
        s.call("add_sample", S1, O1)

    def mp(s):
        s.set_mean()

    def hp(s):
        if tunes(s.P, s.cid):   # the default optimizer is a refusal to optimize
            s.call("optimize_hyperparams")

    def rec(a, b):
        return lambda s: s.call("recompute", a, b)
    F, T_ = FALSE, TRUE
    one = (mk("list", S1), mk("list", O1))
    yield "fit", "fitting a new model", "compute", [fresh, fit], (S, O)
    yield "fit", "fitting a model built with its dimensions", "compute", [sized, fit], (S, O)
    yield "fit", "refitting a model that holds other data", "compute", [other, fit], (S, O)
    yield "fit", "refitting after hyper-parameter optimization", "compute", [fresh, fit, hp, fit], (S, O)
    yield "fit", "refitting a model that has grown", "compute", [fresh, lambda s: s.call("compute", PS, PO, TRUE), fit], (S, O)
    yield "incremental", "first point added to a new model", "add_sample", [fresh, add], one
    yield "incremental", "first point added to a model built with its dimensions", "add_sample", [sized, add], one
    yield "incremental", "a point added to a fitted model", "add_sample", [fresh, fit, add], (PS, PO)
    yield "incremental", "a point added after hyper-parameter optimization and recompute", "add_sample", [fresh, fit, hp, rec(T_, T_), add], (PS, PO)
    yield "recompute", "full recompute of a fitted model", "recompute", [fresh, fit, rec(T_, T_)], (S, O)
    yield "recompute", "new mean parameters, full recompute", "recompute", [fresh, fit, mp, rec(T_, T_)], (S, O)
    yield "recompute", "new mean parameters, recompute of the mean part", "recompute", [fresh, fit, mp, rec(T_, F)], (S, O)
    yield "recompute", "new kernel parameters, recompute of the kernel part", "recompute", [fresh, fit, hp, rec(F, T_)], (S, O)
    yield "recompute", "new kernel and mean parameters, full recompute", "recompute", [fresh, fit, hp, mp, rec(T_, T_)], (S, O)
    yield "recompute", "fit without the kernel, then full recompute", "recompute", [fresh, lambda s: s.call("compute", S, O, FALSE), rec(T_, T_)], (S, O)
    yield "recompute", "recompute after points were added and parameters changed", "recompute", [fresh, fit, add, hp, rec(T_, T_)], (PS, PO)


def run(ctx):
    ctx.rule("fit", "after compute, model i holds the samples and the i-th output minus the shared mean, and is fully fitted on them; sizes, samples and observations are those given")
    ctx.rule("incremental", "adding points one at a time gives the models compute() gives on all points")
    ctx.rule("query", "query agrees with mu and sigma: the prediction of output i is model i's plus the i-th component of the mean function, its variance is model i's")
    ctx.rule("recompute", "recompute re-centres the observations with the current mean function and refits every model as far as asked")
    ctx.rule("hyperparameters", "hyper-parameter optimization optimizes every single-output model exactly once and leaves its data alone")
    ctx.rule("save-load", "a loaded MultiGP equals the saved one in every observable, whatever it held before")
    P = ctx.prog("core")
    items = []
    for c in classes(P, MGQ):
        if not has_body(P, c, "compute") or not has_body(P, c, "gp_models"):
            continue
        items += [("hist", c, i) for i in range(len(list(steps())))]
        items += [("hp", c, 0)] * tunes(P, c) + [("arch", c, (rc, pre, ar)) for rc in (True, False) for pre in ("empty", "used") for ar in ("TextArchive", "BinaryArchive")]
    ctx.pmap(one, items)


def tunes(P, c):
    return "ParallelLFOpt" in str((P.classes[c].get("ta") or [""])[-1])


def meancls(P, c):
    return str((P.classes[c].get("ta") or ["", "", "", "?"])[3]).split("::")[-1].split("<")[0]


def one(ctx, item):
    k, c, i = item
    P = ctx.prog("core")
    {"hist": hist, "hp": hp_, "arch": arch}[k](ctx, P, c, i)


def mkenvs(*ss):
    kinds, sizes = {}, {}
    for s in ss:
        kinds.update(s.kinds)
        kinds.update(s.I.kinds)
        sizes.update(s.sizes)
    for s in ss:
        s.sizes = sizes
    a = ss[0]

    def mkenv(seed):
        return fp.Env(seed, a.P, None, kinds=kinds, roots={a.root: a.cid}, assign=a.data(seed), shape=a.shp)
    return mkenv


def hist(ctx, P, c, i):
    rule, title, anchor, hs, (SS, OO) = list(steps())[i]
    f = [m for m in P.methods(c, anchor) if m.get("body")][0]
    wh = "%s (%s) %s" % (P.where(f), anchor, short_ta(P, c))
    tr = 10 if ctx.tier == "quick" else 40

    def body():
        s = MG(P, c)
        for st in hs:
            st(s)
        mods = s.models()
        mean = s.mean_term()
        acc = {n: s.get(n) for n in ("samples", "observations", "observations_matrix", "mean_observation", "nb_samples", "dim_in", "dim_out")}
        qs = {n: s.get(n, X) for n in ("mu", "sigma", "query")}
        ctx.analysed |= s.analysed
        env = mkenvs(s)
        no_abort(ctx, rule, wh, s, env, title)

        def H(r, w, pred, what, key):
            attempt(ctx, r, wh, lambda: holds(ctx, r, wh + " -> " + w, pred, env, "%s: %s" % (title, what), trials=tr, need=4, key=key))

        def residuals(e):
            Sv, Ov = list(e.ev(SS)), list(e.ev(OO))
            ms = []
            for x in Sv:
                e2 = e.clone({X: x})
                e2.shape = e.shape
                ms.append(np.asarray(e2.ev(mean)).reshape(-1))
            return Sv, Ov, ms

        def states(e):
            Sv, Ov, ms = residuals(e)
            g = e.ev(mods)
            d = len(np.asarray(Ov[0]).reshape(-1))
            return [x if isinstance(x, tuple) and len(x) == 6 else NEW if is_blank(x) else x for x in g], Sv, Ov, ms, d

        def count(e):
            g, Sv, Ov, ms, d = states(e)
            return len(g) == d

        def samp(e):
            g, Sv, Ov, ms, d = states(e)
            return all(eqm(x[1], Sv) for x in g)

        def resid(e):
            g, Sv, Ov, ms, d = states(e)
            for k, x in enumerate(g):
                want = [np.array([[np.asarray(o).reshape(-1)[k] - m[k]]]) for o, m in zip(Ov, ms)]
                if not eqm([np.asarray(y).reshape(1, 1) for y in x[2]], want):
                    return False
            return True

        def kern(e):
            g, Sv, Ov, ms, d = states(e)
            return all(isinstance(x[3], tuple) and x[3][0] == "K" and eqm(x[3][1], x[1]) and abs(x[3][2] - x[4]) < 1e-9 for x in g)

        def alpha(e):
            g, Sv, Ov, ms, d = states(e)
            return all(isinstance(x[5], tuple) and eqm(x[5][1], x[2]) and fp.same(x[5][2], x[3]) for x in g)
        ck = "%s:%s:" % (rule, anchor)
        mc = ":" + meancls(P, c)
        H(rule, "number of models", count, "one model per output", ck + "count")
        H(rule, "samples of the models", samp, "every model holds all samples", ck + "samples")
        H(rule, "observations of the models", resid, "model i holds the i-th outputs minus the mean function", ck + "residuals" + mc)
        H(rule, "kernels of the models", kern, "every kernel is computed on the model's samples with its current parameters", ck + "kernel")
        H(rule, "weights of the models", alpha, "every model's weights belong to its data and kernel", ck + "weights")

        def accs(n, want):
            H(rule, n, lambda e: fp.same(e.ev(acc[n]), want(e)), "%s() reports the data" % n, ck + n)
        accs("samples", lambda e: list(e.ev(SS)))
        accs("observations", lambda e: list(e.ev(OO)))
        accs("observations_matrix", lambda e: np.array([np.asarray(o).reshape(-1) for o in e.ev(OO)]))
        accs("mean_observation", lambda e: sum(np.asarray(o) for o in e.ev(OO)) / len(e.ev(OO)))
        accs("nb_samples", lambda e: len(e.ev(SS)))
        accs("dim_in", lambda e: len(np.asarray(e.ev(SS)[0]).reshape(-1)))
        accs("dim_out", lambda e: len(np.asarray(e.ev(OO)[0]).reshape(-1)))

        def want(e):
            g = [x if isinstance(x, tuple) else NEW for x in e.ev(mods)]
            m = np.asarray(e.ev(mean)).reshape(-1)
            x = e.ev(X)
            mu = np.array([[np.asarray(s.gpop(e, "mu", [a, x])).reshape(-1)[0] + m[j]] for j, a in enumerate(g)])
            sg = np.array([[s.gpop(e, "sigma", [a, x])] for a in g])
            return mu, sg
        for n, w in (("mu", lambda e: want(e)[0]), ("sigma", lambda e: want(e)[1]), ("query", lambda e: tuple(want(e)))):
            fm = [m for m in P.methods(c, n) if m.get("body")][0]
            attempt(ctx, "query", wh, lambda: holds(ctx, "query", "%s (%s) %s" % (P.where(fm), n, short_ta(P, c)), lambda e: fp.same(e.ev(qs[n]), w(e)), env,
                                                    "%s: %s(x)" % (title, n), trials=tr, key="query:%s" % n))
    attempt(ctx, rule, wh, body)


def hp_(ctx, P, c, _):
    f = [m for m in P.methods(c, "optimize_hyperparams") if m.get("body")][0]
    wh = "%s (optimize_hyperparams) %s" % (P.where(f), short_ta(P, c))

    def body():
        s = MG(P, c)
        s.ctor()
        s.call("compute", S, O, TRUE)
        before, m0 = s.models(), s.mean_term()
        s.call("optimize_hyperparams")
        after, m1 = s.models(), s.mean_term()
        ctx.analysed |= s.analysed
        env = mkenvs(s)
        holds(ctx, "hyperparameters", wh, lambda e: [x[4] for x in e.ev(after)] == [s.gpop(e, "hp", [x])[4] for x in e.ev(before)], env,
              "every single-output model is optimized exactly once", trials=12, key="hyperparameters:once")
        holds(ctx, "hyperparameters", wh, lambda e: all(fp.same(list(x[1:3]), list(y[1:3])) for x, y in zip(e.ev(after), e.ev(before))) and fp.same(e.ev(m0), e.ev(m1)), env,
              "the data and the mean function are left alone", trials=12, key="hyperparameters:data")
    attempt(ctx, "hyperparameters", wh, body)


def arch(ctx, P, c, i):
    rc, pre, ar = i
    w = "%s, recompute=%s, into a model that is %s" % (ar, rc, pre)
    tr = 8 if ctx.tier == "quick" else 30

    def body():
        sv, ld = p11.pick(P, c, "save", ar, 1), p11.pick(P, c, "load", ar, 2)
        wh = "%s (save) / %s (load) %s" % (P.where(sv), P.where(ld), short_ta(P, c))
        a = MG(P, c)
        a.ctor()
        a.call("compute", S, O, TRUE)
        if tunes(P, c):
            a.call("optimize_hyperparams")
        a.set_mean()
        a.call("recompute", TRUE, TRUE)
        AR = Ref(("archive",))
        a.store = store = p11.Store()
        a.runfn(sv, [AR])
        a.store = None
        b = MG(P, c)
        b.kinds, b.sizes = a.kinds, a.sizes
        b.ctor()
        if pre == "used":
            b.call("compute", S2, O2, TRUE)
        b.store = store
        b.runfn(ld, [AR, TRUE if rc else FALSE])
        b.store = None
        ctx.analysed |= a.analysed | b.analysed
        if store.dup:
            ctx.bad("save-load", wh, "saved twice under one name: %s" % show(store.dup[0][0], 8), "save-load:names")
        if store.missing:
            k, l, fn = store.missing[0]
            ctx.bad("save-load", "%s:%s" % (P.rel(fn), l), "load reads %s, which save never writes" % show(k, 8), "save-load:missing")
            return
        e = mkenvs(a, b)

        def obs(s):
            d = {n: s.get(n) for n in ("samples", "observations", "mean_observation", "nb_samples", "dim_in", "dim_out")}
            d.update({n: s.get(n, X) for n in ("mu", "sigma")})
            d["mean function"] = s.mean_term()
            d["models"] = s.models()
            return d
        for tag in ("", " after a further sample"):
            if tag:
                a.call("add_sample", S1, O1)
                b.call("add_sample", S1, O1)
            da, db = obs(a), obs(b)
            for n in da:
                attempt(ctx, "save-load", wh, lambda: eq(ctx, "save-load", wh + " -> " + n + tag, da[n], db[n], e, w, trials=tr, key="save-load:%s" % n))
    attempt(ctx, "save-load", ar, body)
