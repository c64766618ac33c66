"""What the statistics write."""
from statbase import *
from terms import subterms

EXPLANATION = """Every value a statistic sends to a stream is recorded, in order, in the value graph of its operator(), for an arbitrary optimizer. The
trace is interpreted over random records, iteration counters, configurations and model answers, split in lines, and compared with
what the statistic documents: a header and one line per earlier evaluation the first time, then one line per iteration."""
EXPECT = {"first": 60, "next": 40, "every-iteration": 30}
ASSUMPTIONS = ["a statistic is called after at least one evaluation, as BOptimizer does", "hypervolume values and Pareto sets are whatever the routines computing them return"]


def run(ctx):
    R = ctx.rule
    R("first", "at iteration 0 a statistic writes its header, then its line for every evaluation made so far, and nothing else")
    R("next", "at a later iteration it appends exactly the line of that iteration")
    R("every-iteration", "statistics with a file per iteration write the same content whatever the iteration")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        items += [(u, c, m) for c, m in stat_methods(P)]
    ctx.pmap(one, items)


def short(x):
    return str([[round(y, 4) if isinstance(y, float) else y for y in l] for l in x])[:160]


class Oracle:
    def __init__(self, s):
        self.s, P = s, s.P
        self.name = P.classes[s.cid]["q"].split("::")[-1]
        self.first = "FirstElem" in P.typ(s.f["p"][1]["t"])["s"]
        t0 = State()
        self.S, self.O = (s.I.asT(Ref(s.loc[n]), t0) for n in ("samples", "observations"))
        self.tot, self.cur = (s.I.asT(Ref(s.loc[n]), t0) for n in ("total_iterations", "current_iteration"))
        self.acc = {}
        for n in ("pareto_data", "pareto_model"):
            try:
                x = Session(P, s.bocls, "bo")
                self.acc[n] = x.I.asT(x.call(n), x.st)
            except LookupError:
                pass
        if self.name in ("GPKernelHParams", "GPMeanHParams"):
            x = Session(P, s.bocls, "bo")
            m = x.call("model")
            x2 = Session(P, P.typ(x.method("model")["rt"])["rid"], "m")
            k = x2.call("kernel_function" if self.name == "GPKernelHParams" else "mean_function")
            m, k = x.I.deref_chain(x.st, m), x2.I.deref_chain(x2.st, k)
            self.hp = mk("call", "hp", mk("str", "/".join(map(str, m.loc + k.loc[1:]))))

    def agg(self, y):
        y = np.asarray(y).ravel()
        return float(y[0]) if self.first else round(float(np.cos(3 * y[0]) + 0.5 * y[-1]), 9)

    def lines(self, env):
        """(file, header?, lines, in any order?)"""
        ev = env.ev
        S, O = list(env.lst(env.ev(self.S))), list(env.lst(env.ev(self.O)))
        it, cur = env.integer(ev(self.tot)), env.integer(ev(self.cur))
        f, n = FILES[self.name], self.name
        row = lambda *xs: [float(y) for x in xs for y in np.asarray(x, dtype=float).ravel()]
        M = mk("str", "model")
        q = lambda x: mk("call", "model.query", M, x)
        last = lambda v: at_last(v)
        hdr = it == 0
        if n in ("Samples", "Observations", "AggregatedObservations"):
            v = S if n == "Samples" else O if n == "Observations" else [self.agg(y) for y in O]
            return f, hdr, ([row(-1, x) for x in v[:-1]] if it == 0 else []) + [row(it, v[-1])], False
        if n in ("BestObservations", "BestAggregatedObservations", "BestSamples"):
            i = max(range(len(O)), key=lambda i: self.agg(O[i]))
            return f, hdr, [row(it, {"BestObservations": O, "BestSamples": S}[n][i] if n != "BestAggregatedObservations" else self.agg(O[i]))], False
        x = at_last(self.S)
        if n == "GPAcquisitions":
            mu, sg = ev(q(x))
            return f, hdr, [row(it, self.agg(mu), sg, ev(mk("call", "acq()", mk("call", "acq", M, self.cur), x))[0])], False
        if n == "GPLikelihood":
            return f, hdr, [row(it, ev(mk("call", "model.get_log_lik", M)))], False
        if n == "GPPredictionDifferences":
            a, b = self.agg(ev(mk("call", "model.mu", M, x))), self.agg(O[-1])
            return f, hdr, [row(it, a, b, abs(a - b))], False
        if n in ("GPKernelHParams", "GPMeanHParams"):
            return f, hdr, [row(it, ev(self.hp))], False
        if n == "GP":
            b, d, out = env.integer(ev(self.bins())), env.dim, []
            import itertools
            for g in itertools.product(range(b + 1), repeat=d):
                p = np.array([[i / b] for i in g])
                t = mk("sym", "gridpoint%s" % (g,))
                env.assign[t] = p
                mu, sg = ev(q(t))
                out.append(row(p, mu, sg, ev(mk("call", "acq()", mk("call", "acq", M, self.cur), t))[0]))
            return f % it, True, out, True
        if n == "ParetoFront":
            w = [(S[i], O[i]) for i in range(len(S))]
            r = env.rnd("pareto")
            w = [w[i] for i in sorted(r.sample(range(len(w)), 1 + r.randrange(len(w))))]
            return f % cur, False, [row(a, b) for a, b in w], True
        raise LookupError("no oracle for %s" % n)

    def bins(self):
        from terms import subterms
        out = {t for t in subterms(self.s.log) if t.op == "cfg" and t.args[0].split("::")[-1] == "bins"}
        return out.pop()


def at_last(t):
    return interp.at(t, sub(interp.size(t), const(1)))


def one(ctx, item):
    u, c, fid = item
    P = ctx.prog(u)
    f = P.fns[fid]
    n = P.classes[c]["q"].split("::")[-1]
    wh = "%s %s on %s, %s" % (P.where(f), n, short_ta(P, P.typ(f["p"][0]["t"]).get("rid")), P.typ(f["p"][1]["t"])["s"].replace("const ", "").replace(" &", ""))
    attempt(ctx, "first", wh, lambda: judge(ctx, P, c, fid, n, wh))


def feasible(e, O):
    """the objective parts of the feasible observations of a constrained optimisation, or of all of them when none is (P17)"""
    k = O[0].size - 2 if O else 0
    if k <= 0:
        return O
    f = [y for y in O if float(np.prod(np.asarray(y).ravel()[2:])) > 0]
    return [np.asarray(y).ravel()[:2].reshape(-1, 1) for y in (f or O)]


def judge(ctx, P, c, fid, n, wh):
    tr = 24 if ctx.tier == "quick" else 120
    per = n in ("GP", "ParetoFront", "ParetoBenchmark", "ConsoleSummary", "HyperVolume")
    for fresh in (True, False):
        s = Stat(P, c, fid, fresh=fresh)
        ctx.analysed |= s.analysed
        o = Oracle(s)
        hvcalls = [t for t in subterms(s.log) if t.op == "call" and t.args[0] in ("CalculateHypervolume", "FilterNondominatedSet") and len(t.args) >= 4] if n == "HyperVolume" else []
        for it in ((0,) if fresh else (None, 0)):
            rule = "first" if it == 0 and not per else "every-iteration" if per else "next"
            if per and not fresh and it == 0:
                continue

            def test(e):
                if hvcalls:
                    O = list(e.lst(e.ev(o.O)))
                    for t in hvcalls:
                        try:
                            a = [e.integer(e.ev(x)) for x in t.args[2:4]]
                        except fp.Misfit as ex:
                            return False, "what %s is told is undefined (%s) with %d observations" % (t.args[0], ex, len(O))
                        if a[1] != O[0].size:
                            return False, "%s is told of %s objectives where there are %d" % (t.args[0], a[1], O[0].size)
                        if t.args[0] == "FilterNondominatedSet" and a[0] != len(O):
                            return False, "%s is told of %s points where there are %d" % (t.args[0], a[0], len(O))
                opened, out = outputs(e, s.log)
                if n == "ConsoleSummary":
                    got = [x for k in sorted(out) for x in out[k]]
                    nl = [x for x in got if isinstance(x, str) and "\n" in x]
                    got = [x for x in got if isinstance(x, float)]
                    S, O = list(e.lst(e.ev(o.S))), list(e.lst(e.ev(o.O)))
                    want = [float(e.integer(e.ev(o.tot)))] + [float(x) for x in np.asarray(S[-1]).ravel()] + [o.agg(O[-1]), max(o.agg(y) for y in feasible(e, O))]
                    return same_line(got, want), "prints %s, not iteration, point, value, best = %s" % (short([got]), short([want]))
                if n == "HyperVolume":
                    ls = [l for k in out for l in lines(out[k])]
                    cur = float(e.integer(e.ev(o.cur)))
                    return len(ls) == 1 and len(ls[0]) == 2 and ls[0][0] == cur, "writes %s at iteration %g" % (short(ls), cur)
                if n == "ParetoBenchmark":
                    return bench(o, e, out)
                name, hdr, want, anyorder = o.lines(e)
                if len(out) > 1:
                    return False, "writes to %s" % sorted(out)
                got = [l for k in out for l in lines(out[k])]
                if hdr:
                    if not got or not got[0] or not str(got[0][0]).startswith("#"):
                        return False, "no header: %s" % short(got)
                    got = got[1:]
                if anyorder:
                    key = lambda l: [round(x, 7) if isinstance(x, float) else 0.0 for x in l]
                    got, want = sorted(got, key=key), sorted(want, key=key)
                return len(got) == len(want) and all(same_line(a, b) for a, b in zip(got, want)), "writes %s instead of %s" % (short(got), short(want))
            st = "a file already open, iteration %s" % ("0" if it == 0 else "> 0") if not fresh else "first call"
            attempt(ctx, rule, wh, lambda: holds(ctx, rule, wh + " (%s)" % st, test, s.mkenv(fresh=fresh, it=it), "lines", trials=tr, need=8, key="%s:%s" % (rule, n)))


def bench(o, e, out):
    row = lambda *xs: [float(y) for x in xs for y in np.asarray(x, dtype=float).ravel()]
    S, O = list(e.lst(e.ev(o.S))), list(e.lst(e.ev(o.O)))
    D, M = list(e.lst(e.ev(o.acc["pareto_data"]))), list(e.lst(e.ev(o.acc["pareto_model"])))
    want = {"obs_": [row(b, a) for a, b in zip(S, O)], "pareto_data_": [row(x[1]) for x in D], "pareto_model_real_": None, "pareto_model_": [row(x[1], x[2]) for x in M]}
    for k, w in want.items():
        if w is None:
            continue
        fl = [x for x in out if x.split("/")[-1].startswith(k) and not x.split("/")[-1].startswith(k + "real")]
        if w and len(fl) != 1:
            return False, "%s files for %s" % (len(fl), k)
        got = [l for x in fl for l in lines(out[x])]
        if len(got) != len(w) or not all(same_line(a, b) for a, b in zip(got, w)):
            return False, "%s: writes %s instead of %s" % (k, short(got), short(w))
    return True, ""
