"""Acquisition functions: formula, freshness of the incumbent, purity."""
import math

from bobase import *

EXPLANATION = """The value of each acquisition function is a term over what the model it was built on answers (mean, variance, samples) and the
aggregator, including the state kept in the object between calls. The term is compared, over random interpretations of the model,
with the documented formula: right after construction, on a second call at another point, and after the model received a sample."""
EXPECT = {"formula": 6, "second-call": 6, "after-new-sample": 2, "no-gradient": 3, "dims": 8, "pure": 6}
ASSUMPTIONS = ["joint and separate queries of a model agree (P07)", "the model is not changed between two calls without its number of samples changing"]
A = "limbo::acqui::"
E_ = "limbo::experimental::acqui::"
KINDS = {"limbo::acqui::UCB": "UCB", "limbo::acqui::GP_UCB": "GP_UCB", "limbo::acqui::EI": "EI", "limbo::experimental::acqui::ECI": "ECI",
         "limbo::acqui::experimental::UCB_IMGPO": "UCB_IMGPO", "limbo::acqui::Ehvi": "Ehvi"}
PX, PX0 = mk("sym", "px"), mk("sym", "px0")


def run(ctx):
    R = ctx.rule
    R("formula", "a freshly built acquisition function has the documented value at every point")
    R("second-call", "so it has on later calls, at other points")
    R("after-new-sample", "after the model received a sample, the incumbent is recomputed")
    R("iteration0", "GP_UCB is defined in the first iteration as well")
    R("no-gradient", "no gradient is returned, as none is computed")
    R("dims", "dim_in and dim_out are the model's")
    R("pure", "evaluating an acquisition function does not touch the model")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        for q, k in KINDS.items():
            for c in classes(P, q):
                for m in P.methods(c, "operator()"):
                    if m.get("body"):
                        items.append((k, u, c, m["id"], "FirstElem" in P.typ(m["p"][1]["t"])["s"]))
    ctx.pmap(one, items)


def one(ctx, item):
    kind, u, c, fid, first = item
    P = ctx.prog(u)
    f = P.fns[fid]
    wh = "%s %s(%s) %s" % (P.where(f), kind, "FirstElem" if first else "aggregator", short_ta(P, c))
    attempt(ctx, "formula", wh, lambda: judge(ctx, P, c, f, kind, first, wh))


class Acq(Session):
    def __init__(self, P, cid):
        super().__init__(P, cid, "acq")
        self.I.hook = self.hook

    def hook(self, I, fn, obj, args, e, st):
        if role(self.P, fn) == "model" and not fn.get("ctor"):
            if not isinstance(obj, Ref):
                return None
            o = I.deref_chain(st, obj)
            cur = I.asT(o, st)
            ts = tuple(I.asT(a, st) for a in args)
            if fn.get("const"):
                return mk("call", "model." + fn["n"], cur, *ts)
            I.write(st, o, mk("call", "model!" + fn["n"], cur, *ts), e, "model." + fn["n"])
            return mk("opaque", "void")
        return None


def judge(ctx, P, c, f, kind, first, wh):
    nctor = {"UCB": 2, "GP_UCB": 2, "EI": 2, "ECI": 3, "UCB_IMGPO": 2, "Ehvi": 3}[kind]
    M, C = Ref((("m", 0),)), Ref((("m", 1),))
    IT = mk("sym", "it")

    def fresh():
        s = Acq(P, c)
        a = [M, IT]
        if kind == "ECI":
            a = [M, C, IT]
        if kind == "Ehvi":
            a = [M, Ref((("pop",),)), mk("sym", "ref")]
        s.kinds[IT] = "int"
        s.kinds[mk("sym", "ref")] = "vec"
        s.ctor(*a, n=nctor)
        return s

    def val(s, x):
        n = len(f["p"])
        return s.I.asT(s.runfn(f, [x, Ref((("arg", 1),)), FALSE][:n]), s.st)
    mid = {M.loc: 0, C.loc: 1}
    NEW = mk("sym", "m'")

    def which(t):
        if t is NEW:
            return 2
        while t.op in ("at", "init"):
            if t.op == "init":
                return mid.get(t.args[0], "?")
            t = t.args[0]
        return "?"

    def comp(t):
        return t.args[1] if t.op == "at" else None

    def mu(env, w, k, x):
        x = np.asarray(x).ravel()
        a = env.rnd("mu%s%s" % (w, k)).uniform(1, 3)
        return np.array([[math.sin(a * x.sum() + a)], [math.cos(2 * a * x[0])]])

    def s2(env, w, k, x):
        x = np.asarray(x).ravel()
        if (env.seed // 4) % 4 == w:
            return 0.0
        return abs(math.sin(env.rnd("s%s%s" % (w, k)).uniform(1, 3) * x.sum() + 1)) + 0.1

    def smp(env, w):
        n = 0 if env.seed % 5 == 0 and w != 2 else 1 + env.seed % 4
        r = rng(env.seed, "smp")
        xs = [rvec(r, 2) for _ in range(6)]
        return xs[:n] if w != 2 else xs[:n + 1]

    def agg(y):
        y = np.asarray(y).ravel()
        return float(y[0]) if first else float(math.cos(3 * y[0]) + 0.5 * y[1])

    def over(env, t, k):
        if t.op == "cfg":
            n = t.args[0].split("::")[-1]
            if n in ("delta", "nu"):
                return 0.05 + 0.1 * env.rnd("cfg" + n).random()
            return 0.1 + env.rnd("cfg" + n).random()
        if t.op == "call" and isinstance(t.args[0], str):
            n = t.args[0]
            if n == "Agg::operator()":
                y = np.asarray(env.ev(t.args[-1])).ravel()
                if y.dtype == object:
                    raise fp.Undef("opaque argument")
                return agg(y)
            if n.startswith("model."):
                w = which(t.args[1])
                if w == "?":
                    raise fp.Undef("unknown model")
                kk = None if comp(t.args[1]) is None else env.integer(env.ev(comp(t.args[1])))
                a = [env.ev(z) for z in t.args[2:]]
                n = n[6:]
                if n == "query":
                    return (mu(env, w, kk, a[0]), s2(env, w, kk, a[0]))
                if n == "mu":
                    return mu(env, w, kk, a[0])
                if n == "sigma":
                    return s2(env, w, kk, a[0])
                if n == "samples":
                    return smp(env, w)
                if n == "nb_samples":
                    return len(smp(env, w))
                if n == "dim_in":
                    return 2 + env.seed % 3
                if n == "dim_out":
                    return 5 + env.seed % 3
        return None

    def cfg(env, suffix):
        n = suffix.split("::")[-1]
        if n in ("delta", "nu"):
            return 0.05 + 0.1 * env.rnd("cfg" + n).random()
        return 0.1 + env.rnd("cfg" + n).random()

    def kindfn(t):
        return "num" if t.op == "cfg" else None

    def mkenv(s, it0=False):
        kinds = dict(s.kinds)
        kinds.update(s.I.kinds)
        kinds[PX] = kinds[PX0] = "vec"

        def mke(seed):
            e = fp.Env(seed, P, None, kinds=kinds, roots={"acq": c}, shape=over, kindfn=kindfn, dim=2)
            e.assign[PX] = rvec(rng(seed, "px"), 2)
            e.assign[PX0] = rvec(rng(seed, "px0"), 2)
            e.assign[IT] = 0 if it0 else 1 + seed % 7
            e.assign[mk("sym", "ref")] = rvec(rng(seed, "ref"), 3)
            return e
        return mke

    def oracle(env, w=0, x=None):
        x = env.ev(PX) if x is None else x
        m, v = agg(mu(env, w, None, x)), s2(env, w, None, x)
        sd = math.sqrt(v)
        it = env.ev(IT)
        if kind == "UCB":
            return m + cfg(env, "acqui_ucb::alpha") * sd
        if kind == "GP_UCB":
            d = 2 + env.seed % 3
            return m + math.sqrt(2 * math.log(it ** (d / 2.0 + 2) * math.pi ** 2 / (3 * cfg(env, "acqui_gpucb::delta")))) * sd
        if kind == "UCB_IMGPO":
            return m + (math.sqrt(2 * math.log(math.pi ** 2 * it ** 2 / (12 * cfg(env, "acqui_ucb_imgpo::nu")))) + 0.2) * sd
        if kind in ("EI", "ECI"):
            xs = smp(env, w)
            if not xs or sd == 0:
                return 0.0
            X = m - max(agg(mu(env, w, None, y)) for y in xs) - cfg(env, "jitter")
            Z = X / sd
            e = X * 0.5 * math.erfc(-Z / math.sqrt(2)) + sd * math.exp(-0.5 * Z * Z) / math.sqrt(2 * math.pi)
            if kind == "ECI":
                vc = s2(env, 1, None, x)
                if vc == 0 or not smp(env, 1):
                    raise fp.Undef("no constraint prediction")
                e *= 0.5 * math.erfc(-(agg(mu(env, 1, None, x)) - 1) / math.sqrt(vc) / math.sqrt(2))
            return e
    tr = 80 if ctx.tier == "quick" else 500

    def compare(rule, s, v, w=0, it0=False):
        def pred(env):
            g = env.ev(v)
            if isinstance(g, tuple):
                g = g[0]
            want = oracle(env, w)
            return close(env, g, want), "is %s, documented value %s" % (fp.brief(g), want)
        attempt(ctx, rule, wh, lambda: holds(ctx, rule, wh, pred, mkenv(s), rule, trials=tr, need=15, key="%s:%s" % (rule, kind)))

    s = fresh()
    v = val(s, PX)
    ctx.analysed |= s.analysed
    if kind == "Ehvi":
        calls = list(find(v, lambda t: t.op == "call" and isinstance(t.args[0], str) and t.args[0].endswith("ehvi2d")))
        if len(calls) != 1 or v is not calls[0]:
            raise Unsupported("value is not the expected hypervolume improvement")
        t = calls[0]

        def pred(env):
            a = [env.ev(z) for z in t.args[1:]]
            ref = env.ev(mk("sym", "ref")).ravel()
            x = env.ev(PX)
            for i in range(2):
                w = [ref[i], agg(mu(env, 0, i, x)), math.sqrt(s2(env, 0, i, x))]
                for nme, arr, ww in zip(("reference point", "mean", "standard deviation"), a[1:], w):
                    if not close(env, elem(env, arr, i), ww):
                        return False, "%s %d passed is %s, not %s" % (nme, i, fp.brief(elem(env, arr, i)), ww)
            return True, ""
        attempt(ctx, "formula", wh, lambda: holds(ctx, "formula", wh, pred, mkenv(s), "arguments of the hypervolume computation", trials=tr, need=15, key="formula:Ehvi"))
    else:
        compare("formula", s, v)
        if P.typ(f["rt"])["s"] != "double" if "rt" in f else kind != "UCB_IMGPO":
            def grad(env):
                g = env.ev(v)
                if not isinstance(g, tuple):
                    raise fp.Undef("scalar")
                return not env.truth(env.ev(mk("isset", mk("get", v, 1)))), "claims a gradient"
            attempt(ctx, "no-gradient", wh, lambda: holds(ctx, "no-gradient", wh, grad, mkenv(s), "gradient", trials=10, key="no-gradient:%s" % kind))
        s2_ = fresh()
        val(s2_, PX0)
        compare("second-call", s2_, val(s2_, PX))
        if kind in ("EI", "ECI"):
            s3 = fresh()
            val(s3, PX0)
            s3.I.write(s3.st, M, NEW, None, "changed")
            compare("after-new-sample", s3, val(s3, PX), w=2)
        if kind == "GP_UCB":
            def fin(env):
                g = env.ev(v)
                g = g[0] if isinstance(g, tuple) else g
                g = complex(g)
                return g.imag == 0 and math.isfinite(g.real), "is %s at iteration 0" % g
            attempt(ctx, "iteration0", wh, lambda: holds(ctx, "iteration0", wh, fin, mkenv(s, True), "value", trials=tr, need=5, key="iteration0"))
    if kind != "Ehvi":
        for n, off in (("dim_in", 2), ("dim_out", 5)):
            def d(n=n, off=off):
                g = s.get(n)
                holds(ctx, "dims", wh + " " + n, lambda env: (env.ev(g) == off + env.seed % 3, "%s is %s, the model's %s" % (n, env.ev(g), off + env.seed % 3)), mkenv(s), n, trials=10, key="dims:%s:%s" % (kind, n))
            if has_body(P, c, n):
                attempt(ctx, "dims", wh + " " + n, d)
    ch = [l for l in s.st.store if isinstance(l, tuple) and l and l[0] in (("m", 0), ("m", 1)) and s.I.asT(Ref(l), s.st) is not mk("init", l)]
    ctx.check(not ch, "pure", wh, "the model is left alone" if not ch else "writes into the model (%s)" % (ch[0],), "pure:%s" % kind)


def close(env, g, want):
    try:
        g = env.scalar(g)
    except fp.Undef:
        raise
    g = complex(g)
    return abs(g - want) <= 1e-7 * (1 + abs(want))


def elem(env, a, i):
    if isinstance(a, list):
        return a[i]
    return np.asarray(a).ravel()[i]


def find(t, p, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            yield from find(x, p, seen)
    elif isinstance(t, T) and t not in seen:
        seen.add(t)
        if p(t):
            yield t
        yield from find(t.args, p, seen)
