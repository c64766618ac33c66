"""Multi-objective tools keep exactly the non-dominated points."""
from base import *
from p28 import MG, NEW, eqm

EXPLANATION = """pareto_set is analysed, with and without TBB, as a value-graph term over a symbolic list of (point, objectives, spread) tuples: the dominance
test becomes a fold over the objectives, the filter a fold over the points, the final sort an ordering by its comparator. Its random
interpretations (coarse grids, so that ties, duplicates and dominated points abound, two to four objectives) are compared with the definition of
the non-dominated set. The Pareto data and the models of the multi-objective optimizers are compared with the definitions over their record; the
models are abstract states as for MultiGP."""
EXPECT = {"non-dominated": 4, "pareto-data": 2, "per-objective": 2}
ASSUMPTIONS = ["objectives are finite", "random interpretation: up to 9 points and 4 objectives"]
V = mk("sym", "v")


def run(ctx):
    ctx.rule("non-dominated", "pareto_set returns every point that no other point dominates (at least as good everywhere, better somewhere; larger is better), each as often as it was given, unchanged, best first objective first")
    ctx.rule("pareto-data", "the optimizer's Pareto data are the non-dominated pairs of its record")
    ctx.rule("per-objective", "the optimizer's models are one per objective, each fitted on every sample and that component of every observation")
    ctx.need("exp", "expT")
    items = [(u, n) for u in ("exp", "expT") for n in ("pareto_1", "pareto_2")]
    for u in ("exp", "expT"):
        P = ctx.prog(u)
        items += [(u, c) for c in range(len(P.classes)) if P.classes[c]["q"].startswith("limbo::experimental::bayes_opt::") and has_body(P, c, "optimize") and has_body(P, c, "update_pareto_data")]
    ctx.pmap(one, items)


def points(seed):
    q = rng(seed, "pareto")
    n, m = q.randrange(1, 9), 2 + seed % 3
    lv = 2 + seed % 4

    def val():
        return float(q.randrange(lv)) if seed % 5 else q.uniform(-1, 1)
    out = [tuple(np.array([[val()] for _ in range(k)]) for k in (2, m, m)) for _ in range(n)]
    if seed % 3 == 0 and n > 1:
        out[-1] = out[0]
    return out


def dominates(a, b):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    return bool(np.all(a >= b) and np.any(a > b))


def front(pts, k):
    return [p for p in pts if not any(dominates(q[k], p[k]) for q in pts)]


def flat(p):
    return tuple(tuple(float(np.real(x)) for x in np.asarray(y).reshape(-1)) for y in p)


def agree(got, want, k):
    if isinstance(got, fp.Opq):
        raise fp.Undef("result")
    g, w = [flat(p) for p in got], [flat(p) for p in want]
    if sorted(g) != sorted(w):
        return False, "%d points kept instead of %d" % (len(g), len(w)) if len(g) != len(w) else "other points kept"
    return [p[k] for p in g] == sorted((p[k] for p in w), reverse=True), "the points are not in decreasing order of their objectives"


def one(ctx, item):
    u, n = item
    P = ctx.prog(u)
    tb = " (TBB)" if u == "expT" else ""
    tr = 60 if ctx.tier == "quick" else 600
    if isinstance(n, str):
        k = int(n[-1])
        f = [f for f in P.fns if f["n"] == n and f.get("body")][0]
        wh = "src/limbo/experimental/tools/pareto.hpp: pareto_set<%d>%s" % (k, tb)

        def body():
            I = Interp(P)
            r, st = I.run(f, None, [V], State())
            t = I.asT(r, st)
            ctx.analysed |= I.inlined
            kinds = {V: fp.kind_of(P, f["p"][0]["t"]), **I.kinds}

            def mkenv(seed):
                e = fp.Env(seed, P, None, kinds=kinds)
                e.assign[V] = points(seed)
                return e

            def pred(e):
                return agree(list(e.ev(t)), front(e.ev(V), k), k)
            holds(ctx, "non-dominated", wh, pred, mkenv, "result", trials=tr, key="non-dominated:%d:%s" % (k, u))
        attempt(ctx, "non-dominated", wh, body)
        return
    c = n
    q = P.classes[c]["q"].replace("limbo::", "")
    m = [m for m in P.methods(c, "update_pareto_data") if m.get("body")][0]
    wh = "%s (%s)%s" % (P.where(m), q, tb)

    def record(seed):
        pts = points(seed)
        return {SAM[0]: [p[0] for p in pts], SAM[1]: [p[1] for p in pts]}
    SAM = [None, None]

    def data():
        s = Session(P, c)
        SAM[:] = [s.get("samples"), s.get("observations")]
        s.assign = record
        s.call("update_pareto_data")
        t = s.get("pareto_data")
        ctx.analysed |= s.analysed

        def pred(e):
            pts = list(zip(e.ev(SAM[0]), e.ev(SAM[1])))
            return agree([tuple(p)[:2] for p in e.ev(t)], front(pts, 1), 1)
        holds(ctx, "pareto-data", wh, pred, s.env(), "pareto_data()", trials=tr, key="pareto-data:" + u)
    attempt(ctx, "pareto-data", wh, data)

    ms = [m for m in P.methods(c, "update_pareto_model") if m.get("body")]
    if not ms:
        return
    wm = "%s (%s)%s" % (P.where(ms[0]), q, tb)

    def models():
        s = MO(P, c)
        SAM[:] = [s.get("samples"), s.get("observations")]
        s.assign = record
        s.runfn(ms[0])
        t = s.get("models")
        sa, ob = s.get("samples"), s.get("observations")
        ctx.analysed |= s.analysed

        def pred(e):
            X, Y = e.ev(SAM[0]), e.ev(SAM[1])
            got = list(e.ev(t))
            if len(got) != len(Y[0]):
                return False, "%d models for %d objectives" % (len(got), len(Y[0]))
            for i, g in enumerate(got):
                want = s.gpop(e, "compute", [NEW, X, [y[i:i + 1].reshape(1, 1) for y in Y], True])
                if not (isinstance(g, tuple) and len(g) == 6):
                    raise fp.Undef("model %d" % i)
                if not (fp.same(list(g[1]), list(want[1])) and fp.same(list(g[2]), list(want[2])) and fp.same(g[5], want[5])):
                    return False, "model %d is not fitted on the record" % i
            return fp.same(e.ev(sa), X) and fp.same(e.ev(ob), Y)
        holds(ctx, "per-objective", wm, pred, s.env(), "models()", trials=tr, key="per-objective:" + u)
    attempt(ctx, "per-objective", wm, models)


class MO(MG):
    def __init__(self, P, cid):
        super().__init__(P, cid)
        self.root = "mgp"

    def subcls(self):
        for m in self.P.methods(self.cid, "models"):
            el = (self.P.classes[self.P.typ(m["rt"])["rid"]].get("ta") or [""])[0]
            for t in self.P.types:
                if t.get("rid") is not None and t["s"] == el and not t.get("ref") and not t.get("ptr"):
                    return t["rid"]
        raise LookupError("no model list")
