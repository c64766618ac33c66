"""Files and streams as a ghost trace: directories made, files opened and every value sent to a stream, in order."""
import re

from bobase import *
from terms import neg, sub

OUTF = {"std::basic_ofstream", "std::basic_fstream"}
STAT = mk("sym", "stat")


def isfile(s):
    return bool(re.search(r"\b(basic_)?o?fstream\b", s)) and "ifstream" not in s


class IO(Session):
    """a session whose hook records directory creation, file opening and output"""

    def __init__(self, P, cid, root="obj", **kw):
        super().__init__(P, cid, root, **kw)
        self.I.hook = self.hook
        self.st.store[LOG] = mk("sym", "log")
        self.nfile = 0

    def push(self, st, *ent):
        self.I.record_write(LOG)
        st.store[LOG] = mk("push", st.store[LOG], mk("entry", *ent))

    def hook(self, I, fn, obj, args, e, st):
        return self.io(I, fn, obj, args, e, st)

    def stream(self, I, o, st):
        """which stream: the file it was opened on, a global stream, or whatever was there before"""
        if isinstance(o, Ref):
            o = I.deref_chain(st, o)
            v = st.store.get(o.loc) if not o.sels else None
            if isinstance(v, T) and v.op == "call" and v.args[0] == "ofstream":
                return v.args[1]
            if isinstance(v, T) and v.op not in ("init", "opaque") and not self.ptrfile(o):
                return mk("call", "streamof", v)
            return mk("str", "@" + "/".join(map(str, o.loc)) if not isinstance(o.loc[0], tuple) or o.loc[0][0] != "P" else "@existing") if not self.ptrfile(o) else self.ptrfile(o)
        t = I.asT(o, st)
        while t.op in ("written", "modby"):
            t = t.args[0 if t.op == "written" else 1]
        return t.args[1] if t.op == "call" and t.args[0] == "ofstream" else t

    def ptrfile(self, o):
        """the file behind a pointer: opened here, or before"""
        if isinstance(o.loc[0], tuple) and o.loc[0][0] == "P":
            v = o.loc[0][1]
            return mk("call", "file", v)
        return None

    def io(self, I, fn, obj, args, e, st):
        q, n = fn["q"], fn["n"]
        if q == "std::make_shared" and isfile(str((fn.get("ta") or [""])[0])) or q == "std::make_unique" and isfile(str((fn.get("ta") or [""])[0])):
            p = I.asT(args[0], st) if args else mk("str", "")
            self.push(st, "open", p)
            self.nfile += 1
            return mk("call", "newfile", p, const(self.nfile), st.store[LOG])
        if "cls" in fn:
            c = self.P.classes[fn["cls"]]["q"]
            if c in OUTF and fn.get("ctor"):
                if not args:
                    return mk("call", "ofstream", mk("str", ""))
                p = I.asT(args[0], st)
                self.push(st, "open", p)
                return mk("call", "ofstream", p)
            if c in OUTF and isinstance(obj, Ref):
                if n == "open":
                    p = I.asT(args[0], st)
                    self.push(st, "open", p)
                    I.write(st, obj, mk("call", "ofstream", p), e, "open")
                    return mk("opaque", "void")
                if n in ("close",):
                    return mk("opaque", "void")
                if n in ("good", "is_open", "operator bool"):
                    return TRUE
                if n in ("fail", "bad"):
                    return FALSE
            if c in ("std::basic_ios", "std::ios_base") and n in ("good", "operator bool"):
                return TRUE
            if c in ("std::basic_ios",) and n in ("fail", "bad", "operator!"):
                return FALSE
            if c == "std::basic_ostream" and n in ("flush", "precision", "setf", "width"):
                return obj
            if c in ("std::ios_base",) and n in ("precision", "setf", "unsetf", "width"):
                return mk("opaque", "void")
        if n == "operator<<" and (q.startswith("std::operator") or q.startswith("Eigen::operator") or q == "std::basic_ostream::operator<<"):
            o = obj if obj is not None and "cls" in fn else args[0]
            v = args[-1]
            rt = self.P.typ(fn["rt"])["s"]
            if "ostream" not in rt:
                return None
            t = I.asT(v, st)
            s = self.stream(I, o, st)
            if t.op == "fn":
                nm = str(t.args[0])
                if "endl" in nm:
                    self.push(st, "out", s, mk("str", "\n"))
                return o
            vt = self.P.typ(fn["p"][-1]["t"])["s"]
            if vt.replace("const ", "") == "char":
                from terms import is_num
                t = mk("str", chr(int(t.args[0]))) if is_num(t) else mk("opaque", "character")
            if re.search(r"_Set(precision|w|fill|iosflags)|_Resetiosflags", vt):
                return o
            self.push(st, "out", s, t)
            return o
        if q.startswith("boost::filesystem::") and n in ("create_directory", "create_directories") or q in ("mkdir", "std::filesystem::create_directory", "std::filesystem::create_directories"):
            p = I.asT(args[0], st)
            self.push(st, "mkdir", p.args[-1] if p.op == "ctor" else p)
            return TRUE
        return None


def brief_(v):
    return str(v)[:60]


def lines(toks):
    """token lines: words and numbers; numbers compare by value"""
    out, cur, word = [], [], ""
    glue = False

    def flush():
        nonlocal word
        if word:
            try:
                cur.append(float(word))
            except ValueError:
                cur.append(word)
            word = ""
    for t in toks:
        if isinstance(t, float):
            if word or glue:
                # text directly followed by a number, or two numbers without a separator, run together
                word += repr(t)
                glue = False
                continue
            cur.append(t)
            glue = True
            continue
        for i, c in enumerate(t):
            if c.isspace():
                flush()
                glue = False
                if c == "\n":
                    out.append(cur)
                    cur = []
            else:
                if glue:
                    cur.append("<run together>")
                    glue = False
                word += c
    flush()
    if cur:
        out.append(cur + ["<no newline>"])
    return out


def same_line(a, b):
    return len(a) == len(b) and all((isinstance(x, float) and isinstance(y, float) and (abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) or x != x and y != y)) or x == y for x, y in zip(a, b))


# ---- the statistics classes
FILES = {"Samples": "samples.dat", "Observations": "observations.dat", "AggregatedObservations": "aggregated_observations.dat", "BestObservations": "best_observations.dat",
         "BestAggregatedObservations": "best_aggregated_observations.dat", "BestSamples": "best_samples.dat", "GPAcquisitions": "gp_acquisitions.dat", "GPKernelHParams": "gp_kernel_hparams.dat",
         "GPMeanHParams": "gp_mean_hparams.dat", "GPLikelihood": "gp_likelihood.dat", "GPPredictionDifferences": "gp_prediction_differences.dat", "GP": "gp_%d.dat", "HyperVolume": "hypervolume.dat",
         "ParetoFront": "pareto_front_%d.dat", "ConsoleSummary": None}
RES = "RESDIR"


def stat_methods(P):
    """(class, operator()) of every statistic, once per optimizer it is used with"""
    out = []
    for i, c in enumerate(P.classes):
        if "::stat::" in c["q"] and "StatBase" not in c["q"]:
            for m in P.methods(i, "operator()", inherited=False):
                if m.get("body") and len(m["p"]) == 2:
                    out.append((i, m["id"]))
    return out


class Stat(IO):
    """a statistic called on an optimizer in an arbitrary state"""

    def __init__(self, P, cid, fid, fresh=None):
        super().__init__(P, cid, "stat", opaque=lambda fn: fn.get("ctor") and "cls" in fn and "::acqui::" in P.classes[fn["cls"]]["q"])
        self.f = P.fns[fid]
        self.bo = Ref(("bo",))
        self.bocls = P.typ(self.f["p"][0]["t"]).get("rid")
        self.loc = {}
        for n in ("samples", "observations", "current_iteration", "total_iterations", "res_dir", "model", "models"):
            try:
                s = Session(P, self.bocls, "bo")
                r = s.call(n)
                r = s.I.deref_chain(s.st, r) if isinstance(r, Ref) else r
                self.loc[n] = r.loc if isinstance(r, Ref) else r.args[0]
            except (LookupError, AttributeError):
                pass
        self.logf = [(("stat", f["n"])) for f in P.all_fields(cid) if "ofstream" in P.typ(f["t"])["s"] or "shared_ptr" in P.typ(f["t"])["s"]]
        if fresh:
            for l in self.logf:
                self.st.store[l] = mk("null")
        self.I.rootcls = {"stat": cid, "bo": self.bocls, ("agg",): P.typ(self.f["p"][1]["t"]).get("rid")}
        self.runfn(self.f, [self.bo, Ref((("agg",),))])
        self.log = self.st.store[LOG]

    def hook(self, I, fn, obj, args, e, st):
        r = self.io(I, fn, obj, args, e, st)
        if r is not None:
            return r
        q, n = fn["q"], fn["n"]
        if n in ("pareto_set",) and "pareto" in q:
            return mk("call", "pareto_set", I.asT(args[0], st))
        if n in ("update_pareto_data", "update_pareto_model") and "cls" in fn:
            return mk("opaque", "void")
        if "cls" not in fn:
            return None
        c = self.P.classes[fn["cls"]]["q"]
        if "::acqui::" in c and isinstance(obj, Ref):
            if fn.get("ctor"):
                if fn.get("copy") or fn.get("move"):
                    return None
                I.write(st, obj, mk("call", "acq", *[self.modelkey(a, st) for a in args]), e, "acq")
                return obj
            if n == "operator()":
                return mk("call", "acq()", I.asT(obj, st), I.asT(args[0], st))
        if n == "h_params" and fn.get("const") and isinstance(obj, Ref) and ("::kernel::" in c or "::mean::" in c):
            o = I.deref_chain(st, obj)
            return mk("call", "hp", mk("str", "/".join(map(str, o.loc))))
        if role(self.P, fn) == "model" and not fn.get("ctor") and n not in ("kernel_function", "mean_function") and isinstance(obj, Ref):
            o = I.deref_chain(st, obj)
            if fn.get("const"):
                return mk("call", "model." + n.replace("compute_log_lik", "get_log_lik"), self.modelkey(o, st), *[I.asT(a, st) for a in args])
            I.write(st, o, mk("call", "model!" + n, I.asT(o, st)), e, "model")
            return mk("opaque", "void")
        if c == "Agg" and n == "operator()":
            return mk("call", "agg", I.asT(args[0], st))
        return None

    def modelkey(self, a, st):
        """which model, as a label as long as it is the optimizer's own, unchanged"""
        if isinstance(a, Ref):
            o = self.I.deref_chain(st, a)
            if "model" in self.loc and o.loc == self.loc["model"] and not o.sels and not any(k[:len(o.loc)] == o.loc for k in st.store):
                return mk("str", "model")
        return self.I.asT(a, st)

    def mkenv(self, enabled=True, empty=False, fresh=None, it=None):
        """interpretations: record, counters, model answers"""
        P, loc = self.P, self.loc
        LT, LC = loc.get("total_iterations"), loc.get("current_iteration")
        constrained = any(f["n"] == "_nb_constraints" for f in P.all_fields(self.bocls))

        def kindfn(t):
            if t.op == "call" and isinstance(t.args[0], str):
                n = t.args[0]
                if n in ("agg",) or n.startswith("Calculate"):
                    return "num"
                if n.startswith("Filter"):
                    return "int"
                if n in ("model.mu", "hp"):
                    return "vec"
                if n in ("model.sigma", "model.get_log_lik", "model.compute_log_lik", "model.get_log_loo_cv"):
                    return "num"
                if n in ("model.dim_in", "model.dim_out"):
                    return "int"
                if n == "model.query":
                    return ("tuple", "vec", "num")
            return None

        def shape(env, t, k):
            if t.op == "cfg":
                n = t.args[0].split("::")[-1]
                if n == "stats_enabled":
                    return enabled
                if n == "bins":
                    return env.rnd("bins").choice((1, 2, 3))
            if t.op == "init":
                l = t.args[0]
                if l[-1] == "_nb_constraints":   # constrained optimisation: an observation is the objectives, then the constraints
                    return env.seed % 3
                if l[-1] == "_dim_out":
                    return 2
                if l == loc.get("res_dir"):
                    return RES
                if l in (loc.get("samples"), loc.get("observations")):
                    r = env.rnd("rec", l[-1])
                    n = 0 if empty else 1 + env.rnd("n").randrange(4)
                    d = env.dim if l == loc.get("samples") else 2 + (env.seed % 3 if constrained else 0)
                    return [rvec(r, d) for _ in range(n)]
                if l == LT:
                    return self.iter_(env, fresh)[0] if it is None else it
                if l == LC:
                    return self.iter_(env, fresh)[1]
            if t.op == "call" and isinstance(t.args[0], str):
                n = t.args[0]
                if n == "agg":
                    y = np.asarray(env.ev(t.args[1])).ravel()
                    return round(float(np.cos(3 * y[0]) + 0.5 * y[-1]), 9)
                if n == "acq()":
                    return (env.rnd("acq", env.digest(env.ev(t.args[1])), env.digest(env.ev(t.args[2]))).uniform(-1, 1), ("none",))
                if n == "model.dim_in":
                    return env.dim
                if n == "model.dim_out":
                    return 2
                if n == "ofstream":
                    return ("ofs", env.ev(t.args[1]))
                if n == "streamof":
                    v = env.ev(t.args[1])
                    return v[1] if isinstance(v, tuple) and v[0] == "ofs" else None
                if n == "newfile":
                    return "@new"
                if n == "file":
                    v = env.ev(t.args[1])
                    return "@new" if v == "@new" else "@existing"
                if n == "acq":
                    return ("acq",) + tuple(env.digest(env.ev(x)) for x in t.args[1:])
                if n == "pareto_set":
                    r = env.rnd("pareto")
                    v = list(env.lst(env.ev(t.args[1])))
                    return [v[i] for i in sorted(r.sample(range(len(v)), 1 + r.randrange(len(v))))] if v else []
            return None

        def f(seed):
            e = fp.Env(seed, P, None, kinds={**self.kinds, **self.I.kinds}, roots={"stat": self.cid, "bo": self.bocls}, kindfn=kindfn, shape=shape, dim=1 + seed % 2)
            e.assign[mk("sym", "log")] = []
            for l in self.logf:
                e.assign[mk("init", l)] = "@existing"
            return e
        return f

    def iter_(self, env, fresh):
        r = env.rnd("it")
        tot = 0 if fresh else 1 + r.randrange(12)
        return tot, min(tot, r.randrange(4)) if not fresh else 0


def outputs(env, log):
    """(paths opened, {stream: tokens}) of a trace"""
    opened, out, last = [], {}, None

    def entries(t):
        ch = []
        while t.op == "push":
            ch.append(t.args[1])
            t = t.args[0]
        return t, ch[::-1]
    for x in env.ev(log):
        if isinstance(x, fp.Opq):
            raise fp.Undef("opaque effect")
        if x[1] == "open":
            opened.append(x[2])
            last = x[2]
        elif x[1] == "mkdir":
            opened.append(x[2])
        elif x[1] == "out":
            s = x[2]
            if s == "@new":
                s = last
            if not isinstance(s, str):
                raise fp.Undef("unknown stream")
            out.setdefault(s, []).extend(toks(x[3]))
    return opened, out


def toks(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, (bool, np.bool_, int, float, np.integer, np.floating)):
        return [float(v)]
    if isinstance(v, np.ndarray) and v.dtype != object:
        v = np.atleast_2d(v)
        out = []
        for i, row in enumerate(v):
            if i:
                out.append("\n")
            for j, x in enumerate(row):
                out += ([" "] if j else []) + [float(np.real(x))]
        return out
    raise fp.Undef("a value of unknown text is written (%s)" % brief_(v))
