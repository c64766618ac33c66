"""Bayesian optimizers as compositions of named components.

The components an optimizer is parametrised with (model, acquisition optimizer, initialisation, stop criteria, statistics, the user's
function and aggregator) are kept as uninterpreted operations.  Every use is appended to a ghost trace that is part of the
value graph, so order, guards and arguments of the component calls are terms like any other value: helper functions,
statement forms and loop forms disappear."""
from base import *
import loops
from terms import AND, NOT, OR, contains, ite, subst

LOG = (("G", "log"),)
WORLD = (("G", "world"),)
MUT = {"compute", "add_sample", "optimize_hyperparams", "recompute"}


def role(P, fn):
    q = fn["q"]
    if "cls" not in fn:
        return None
    c = P.classes[fn["cls"]]["q"]
    if c == "Obj" and fn["n"] == "operator()":
        return "eval"
    if fn["n"] == "operator()":
        for ns, r in (("limbo::stop::", "stop"), ("limbo::init::", "init"), ("limbo::opt::", "opt")):
            if c.startswith(ns) and "ChainCriteria" not in c:
                return r
        if "::stat::" in c:
            return "stat"
    if "::model::" in c and "Opt" not in c.split("::")[-1]:
        return "model"
    return None


def now_(st):
    return st.store[LOG]


class BO(Session):
    def __init__(self, P, cid, keep=()):
        super().__init__(P, cid, "bo")
        self.keep = set(keep)
        self.calls = []   # (kind, fn, node, facts, silent)
        self.I.hook = self.hook
        self.loc = {}
        for n in ("samples", "observations", "current_iteration", "total_iterations", "model", "models", "stats_enabled", "res_dir"):
            try:
                s = Session(P, cid, "bo")
                r = s.call(n)
                if isinstance(r, Ref):
                    r = s.I.deref_chain(s.st, r)
                    self.loc[n] = r.loc
                elif isinstance(r, T) and r.op == "init":
                    self.loc[n] = r.args[0]
            except LookupError:
                pass
        self.st.store[LOG] = mk("sym", "log")
        self.eval_pre = []   # (samples, observations, facts, node, fn) at each user evaluation

    def push(self, st, ent):
        I = self.I
        I.record_write(LOG)
        st.store[LOG] = mk("push", st.store[LOG], ent)

    def rd(self, st, n):
        return self.I.asT(Ref(self.loc[n]), st) if n in self.loc else None

    def hook(self, I, fn, obj, args, e, st):
        if fn["q"] == "limbo::tools::random_vector":
            return mk("call", "random_vector", I.asT(args[0], st), I.asT(args[1], st), st.store[LOG])
        if fn["q"] == "limbo::tools::random_lhs":
            return mk("call", "random_lhs", I.asT(args[0], st), I.asT(args[1], st), st.store[LOG])
        if "init" in self.keep and any(fr.fn is fn for fr in I.frames):
            # recursive exploration: by induction the inner call extends the record in lockstep
            now = st.store[LOG]
            for n in ("samples", "observations"):
                I.write(st, Ref(self.loc[n]), mk("call", "init:" + n, self.rd(st, n), now), e, "init")
            self.push(st, mk("entry", "rec"))
            return mk("opaque", "void")
        if fn["n"] == "pareto_set" and "pareto" in fn["q"]:
            return mk("call", "pareto_set", I.asT(args[0], st), now_(st))
        if fn["q"] == "limbo::tools::par::max":
            v = I.asT(args[0], st)
            res = mk("call", "par_max", v, now_(st))
            self.push(st, mk("entry", "opt", "par::max", "?", v, TRUE, mk("get", res, 0)))
            return res
        r = role(self.P, fn)
        if r is None or r in self.keep or fn.get("ctor"):
            return None
        now = st.store[LOG]
        cls = self.P.classes[fn["cls"]]["q"].split("::")[-1]
        if r == "eval":
            x = I.asT(args[0], st)
            if not I.silent:
                self.eval_pre.append((self.rd(st, "samples"), self.rd(st, "observations"), st.facts, e, I.fr.fn, x))
            y = mk("call", "Obj", x, now)
            self.push(st, mk("entry", "eval", x, y))
            return y
        if r == "stop":
            v = mk("call", "stop:" + cls, now)
            self.push(st, mk("entry", "stop", cls, v))
            return v
        if r == "stat":
            self.push(st, mk("entry", "stat", cls, I.asT(args[0], st) if not isinstance(args[0], Ref) else mk("addr", I.deref_chain(st, args[0]).loc, ()),
                             *[self.rd(st, n) for n in ("samples", "observations", "current_iteration", "total_iterations") if n in self.loc]))
            return mk("opaque", "void")
        if r == "init":
            self.push(st, mk("entry", "init", cls, *[self.rd(st, n) for n in ("samples", "observations", "total_iterations", "current_iteration") if n in self.loc]))
            for n in ("samples", "observations"):
                I.write(st, Ref(self.loc[n]), mk("call", "init:" + n, self.rd(st, n), now), e, "init")
            return mk("opaque", "void")
        if r == "opt":
            f = args[0]
            probe = [mk("sym", "px"), mk("sym", "pg")]
            I.silent += 1
            try:
                s2 = st.copy()
                v = I.asT(I.invoke_callable(f, probe, I.pseudo(e, "probe"), s2), s2)
            except Exception as ex:
                v = mk("opaque", "closure")
            finally:
                I.silent -= 1
            cur = [m for m in (self.rd(st, "model"), self.rd(st, "models")) if m is not None]
            uses = "?" if v.op == "opaque" else "current" if any(contains(v, lambda x: x is m) for m in cur) else "other"
            res = mk("call", "opt:" + cls, v, I.asT(args[1], st), I.asT(args[2], st), now)
            self.push(st, mk("entry", "opt", cls, uses, I.asT(args[1], st), I.asT(args[2], st), res))
            return res
        if r == "model":
            if not isinstance(obj, Ref):
                return None
            o = I.deref_chain(st, obj)
            cur = I.asT(o, st)
            ts = tuple(I.asT(a, st) for a in args)
            if fn.get("const"):
                return mk("call", "model." + fn["n"], cur, *ts)
            self.push(st, mk("entry", "model", fn["n"], mk("addr", o.loc, o.sels), *ts))
            I.write(st, o, mk("call", "model." + fn["n"], cur, *ts), e, "model." + fn["n"])
            return mk("opaque", "void")


    def at_head(self, e, t):
        """a term of the loop body, over an arbitrary state at the head of the iteration"""
        m = {mu: (mk("sym", "log") if l == LOG else mk("init", l)) for l, mu in e.d["mus"].items()}
        for l, i in m.items():
            v = e.d["v0"].get(i.args[0]) if i.op == "init" else None
            if v is not None and v.op == "c" and i not in self.kinds and isinstance(i.args[0][0], tuple):
                self.kinds[i] = "num"   # a local counter
        return subst(t, m)

    def env(self, extra=None, poison=False, over=None):
        """interpretations; with poison, what the user's function returns has a non-finite entry"""
        P, cid = self.P, self.cid
        locs = self.loc

        def kindfn(t):
            if t.op == "call" and isinstance(t.args[0], str):
                n = t.args[0]
                if n == "Obj" or n.startswith("opt:") or n == "random_vector":
                    return "vec"
                if n.startswith("init:"):
                    return ("list", "vec")
                if n.startswith("stop:"):
                    return "bool"
                if n in ("model.sigma", "model.mu"):
                    return "num" if n.endswith("sigma") else "vec"
                if n == "model.query":
                    return ("tuple", "vec", "num")
                if n == "pareto_set":
                    return ("list", ("tuple", "vec", "vec", "vec"))
                if n == "par_max":
                    return ("tuple", "vec", "num")
                if n.split("::")[-1] in ("dim_in", "dim_out", "nb_constraints"):
                    return "int"
            return None

        def shape(env, t, k):
            if over is not None:
                v = over(env, t, k)
                if v is not None:
                    return v
            if (t.op == "init" and t.args[0] in (locs.get("samples"), locs.get("observations"))) or (t.op == "call" and t.args[0] in ("init:samples", "init:observations")):
                n = env.seed % 3 if t.op == "init" else (env.seed // 3) % 3
                r = env.rnd("rec", show(t, 20))
                base = list(env.ev(t.args[1])) if t.op == "call" else []
                return base + [rvec(r, env.dim) for _ in range(n)]
            if t.op == "init" and t.args[0] in (locs.get("total_iterations"), locs.get("current_iteration")):
                return (env.seed // 2) % 4 if t.args[0] == locs["total_iterations"] else (env.seed // 3) % 5
            if t.op == "call" and t.args[0] == "random_lhs":
                r = env.rnd("lhs", show(t, 20))
                return np.array([[r.random() for _ in range(env.dim)] for _ in range(env.integer(env.ev(t.args[2])))])
            if t.op == "call" and t.args[0] in ("model.sigma", "model.query"):
                r = env.rnd("var", *[fp.brief(env.ev(x)) for x in t.args[1:]])
                v = r.uniform(0.05, 2)
                return v if t.args[0] == "model.sigma" else (rvec(r, env.dim), v)
            if poison and t.op == "call" and t.args[0] == "Obj":
                r = env.rnd("poison", show(t, 20))
                v = rvec(r, env.dim)
                v[r.randrange(env.dim), 0] = r.choice((float("nan"), float("inf"), float("-inf")))
                return v
            if t.op == "cfg" and t.args[0].endswith("hp_period"):
                return (-1, 0, 1, 2, 3)[env.seed % 5]
            if t.op == "cfg" and k is None and t.args[0].split("::")[-1] in ("bounded", "stats_enabled", "hp_opt"):
                return env.rnd("cfg", show(t, 20)).random() < 0.5
            return None

        def mkenv(seed):
            e = fp.Env(seed, P, None, kinds=dict(self.kinds, **{}), roots={"bo": cid}, kindfn=kindfn, shape=shape, dim=2)
            e.assign[mk("sym", "log")] = []
            e.assign.update(extra or {})
            return e
        return mkenv

    def stops(self):
        return self.fusion("limbo::stop::")

    def stats(self):
        return self.fusion("::stat::")

    def fusion(self, ns):
        import models
        out = []
        for f in self.P.all_fields(self.cid):
            t = self.P.typ(f["t"])
            if t.get("rec", "").startswith("boost::fusion::vector") and ns in t["s"]:
                out += [x.split("<")[0].split("::")[-1] for x in models.fusion_elems(self.I, t)]
        return out


def main_loop(b):
    """the loop event that performs user evaluations, with the entry-to-loop context"""
    out = []
    for f, evs in b.events:
        for e, path in walk_ev(evs):
            if e.k == "loop" and LOG in e.d.get("mod", []):
                out.append((e, path))
    return out
