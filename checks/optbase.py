"""Inner optimizers as value graphs: every evaluation of the objective and every call into NLopt is appended to a ghost trace."""
from bobase import *

OPTS = ("Rprop", "Adam", "GradientAscent", "GridSearch", "RandomPoint", "ParallelRepeater", "Chained", "NLOptBase")
INIT, BND = mk("sym", "init"), mk("sym", "bounded")


class Opt(Session):
    def __init__(self, P, cid, keep=True):
        super().__init__(P, cid, "opt")
        self.I.hook = self.hook
        self.st.store[LOG] = mk("sym", "log")
        self.kinds[INIT] = "vec"
        self.kinds[BND] = "bool"
        self.nlobj = None     # when a list: (call, the NLopt object it is made on)
        self.stage = None     # class ids kept as uninterpreted optimizers

    def push(self, st, ent):
        self.I.record_write(LOG)
        st.store[LOG] = mk("push", st.store[LOG], ent)

    def hook(self, I, fn, obj, args, e, st):
        q = fn["q"]
        now = st.store[LOG]
        if q == "limbo::tools::random_vector":
            n, b = I.asT(args[0], st), I.asT(args[1], st) if len(args) > 1 else TRUE
            self.push(st, mk("entry", "rnd"))
            return mk("call", "random_vector", n, b, now)
        if "cls" not in fn or fn.get("ctor"):
            return None
        c = self.P.classes[fn["cls"]]["q"]
        if c == "ScalarFun" and fn["n"] == "operator()":
            x, g = I.asT(args[0], st), I.asT(args[1], st)
            self.push(st, mk("entry", "F", x, g))
            return mk("call", "F", x, g)
        if self.stage and fn["cls"] in self.stage and fn["n"] == "operator()":
            x, b = I.asT(args[1], st), I.asT(args[2], st)
            f = args[0]
            fl = mk("addr", I.deref_chain(st, f).loc, ()) if isinstance(f, Ref) else I.asT(f, st)
            r = mk("call", "stage", mk("c", self.P.classes[fn["cls"]]["q"] + str(self.P.classes[fn["cls"]].get("ta"))) if False else fn["cls"], x, b, now)
            self.push(st, mk("entry", "stage", fn["cls"], x, b, r, fl))
            return r
        if c == "nlopt::opt" and fn["n"] != "operator=":
            if self.nlobj is not None:
                try:
                    self.nlobj.append((fn["n"], I.asT(obj, st), e))
                except Exception:
                    self.nlobj.append((fn["n"], None, e))
            ts = []
            for a in args:
                try:
                    t = I.asT(a, st)
                    ts.append(mk("str", str(t.args[0])) if t.op == "fn" else t)
                except Exception:
                    ts.append(mk("opaque", "arg"))
            if fn["n"] == "optimize":
                x = ts[0]
                self.push(st, mk("entry", "nl", "optimize", x))
                I.write(st, args[0], ite(mk("call", "nl:fails", now), x, mk("call", "nl:result", x, now)), e, "nlopt")
                I.write(st, args[1], mk("call", "nl:max", now), e, "nlopt")
                return mk("call", "nl:code", now)
            if fn["n"].startswith("set_") or fn["n"].startswith("add_"):
                self.push(st, mk("entry", "nl", fn["n"], *ts))
                return mk("opaque", "void")
        return None


def method(P, c):
    return [m for m in P.methods(c, "operator()", inherited=False) if m.get("body") and "ScalarFun" in P.typ(m["p"][0]["t"])["s"]]


def value(x, a):
    """a smooth objective and its gradient, different in every interpretation"""
    x = np.asarray(x, dtype=float).ravel()
    w = np.array([a * (i + 1.3) for i in range(len(x))])
    return float(np.sum(np.sin(w * x + a) * 2) + 0.3 * np.prod(np.cos(x + a))), grad_(x, a, w)


def grad_(x, a, w):
    g = 2 * w * np.cos(w * x + a)
    for i in range(len(x)):
        p = -np.sin(x[i] + a)
        for j in range(len(x)):
            if j != i:
                p *= np.cos(x[j] + a)
        g[i] += 0.3 * p
    return g.reshape(-1, 1)


def coef(env):
    return rng(env.seed, "obj").uniform(0.5, 4)


def cfgv(env, n):
    """values of the optimizers' parameters; several regimes"""
    r = rng(env.seed, "cfg" + n)
    if n.endswith("::iterations"):
        return r.randrange(0, 7)
    if n.endswith("::bins"):
        return r.choice((1, 2, 3, 5, 6, 7, 9, 10)[:8 if env.dim < 3 else 3])
    if n.endswith("::repeats"):
        return r.randrange(1, 5)
    if n.endswith("::epsilon"):
        return r.choice((1e-2, 0.3, 0.7))
    if n.endswith("::nesterov"):
        return r.random() < 0.5
    if n.endswith("::eps_stop"):
        return r.choice((0.0, 0.0, 1e-2, 0.2))
    if n.endswith("::alpha"):
        return r.choice((1e-2, 0.1, 0.6))
    if n.endswith(("::gamma", "::b1", "::b2")):
        return r.choice((0.0, 0.5, 0.9, 0.99))
    if n.endswith("tolerance"):
        return r.choice((1e-3, 1e-5))
    return None


def mkenv(s, bounded=None, extra=None, over=None, throws=True, extremes=True):
    kinds = dict(s.kinds)
    kinds.update(s.I.kinds)

    def shape(env, t, k):
        if over is not None:
            v = over(env, t, k)
            if v is not None:
                return v
        if t.op == "cfg":
            return cfgv(env, t.args[0])
        if t.op == "call" and t.args[0] == "F":
            x = env.ev(t.args[1])
            if isinstance(x, list) and all(isinstance(z, (int, float)) for z in x):
                x = np.array(x, dtype=float).reshape(-1, 1)
            if not isinstance(x, np.ndarray) or x.dtype == object:
                raise fp.Undef("opaque point")
            v, g = value(x, coef(env))
            return (v, ("opt", g)) if env.truth(env.ev(t.args[2])) else (v, ("none",))
        if t.op == "call" and t.args[0] == "random_vector":
            n = env.integer(env.ev(t.args[1]))
            r = env.rnd("rv", fp.brief(env.ev(t.args[3])), len(env.ev(t.args[3])))
            lo, hi = (0, 1) if env.truth(env.ev(t.args[2])) else (-3, 3)
            v = rvec(r, n, lo, hi)
            if extremes and r.random() < 0.3:
                v[r.randrange(n), 0] = r.choice((lo, hi))
            return v
        if t.op == "call" and t.args[0] == "stage":
            x = env.ev(t.args[2])
            r = env.rnd("stage", str(t.args[1]), fp.brief(x))
            return rvec(r, x.size)
        if t.op == "call" and t.args[0] == "nl:fails":
            return env.rnd("nlfails").random() < 0.4
        if t.op == "call" and t.args[0] == "nl:result":
            x = env.ev(t.args[1])
            log = env.ev(t.args[2])
            lb, ub = bounds(env, log)
            r = env.rnd("nlres")
            return [float(r.uniform(max(lb, -5), min(ub, 5))) for _ in env.lst(x)]
        return None

    def kindfn(t):
        if t.op == "call" and t.args[0] in ("random_vector", "stage"):
            return "vec"
        if t.op == "call" and t.args[0] == "nl:result":
            return ("list", "num")
        if t.op == "call" and t.args[0] == "nl:max":
            return "num"
        return None

    def mke(seed):
        env = fp.Env(seed, s.P, None, kinds=kinds, roots={"opt": s.cid}, kindfn=kindfn, shape=shape, dim=1 + seed % 3)
        env.throws = throws
        r = rng(seed, "init")
        d = 1 + seed % 3
        x = rvec(r, d, 0, 1)
        if seed % 4 == 1:
            x = rvec(r, d, -2, 3)
        elif seed % 4 == 2:
            x[r.randrange(d), 0] = r.choice((0.0, 1.0))
        env.assign[INIT] = x
        env.assign[BND] = (seed % 5 != 0) if bounded is None else bounded
        env.assign[mk("sym", "log")] = []
        env.assign.update(extra or {})
        return env
    return mke


def bounds(env, log):
    """the bounds NLopt was last given"""
    lb, ub = -float("inf"), float("inf")
    for e in log:
        if e[1] == "nl" and e[2] in ("set_lower_bounds", "set_upper_bounds"):
            v = e[3]
            v = v if isinstance(v, (int, float)) else None if isinstance(v, fp.Opq) else [float(q) for q in env.lst(v)]
            if v is None:
                raise fp.Undef("opaque bounds")
            vs = v if isinstance(v, list) else [v]
            if e[2] == "set_lower_bounds":
                lb = max(vs) if vs else lb
                lb = min(vs) if vs else lb
            else:
                ub = max(vs) if vs else ub
    return lb, ub


def trace(env, t):
    """the evaluations of the objective"""
    return [e for e in env.ev(t) if e[1] == "F"]
