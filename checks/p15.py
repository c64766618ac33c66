"""Random numbers: what is drawn, how often, and what a seed determines."""
from optbase import *

EXPLANATION = """The state of a generator (engine, distribution) and each draw are terms: a draw is an uninterpreted function of both states, seeding an
engine overwrites its state, resetting a distribution forgets what it saved. Two histories that end in the same seed must give
the same draws as terms. The vectors and Latin hypercubes are terms over the draws and permutations and are interpreted for
small sizes: number of draws, their distribution, one coordinate per draw, one point per stratum and column."""
EXPECT = {"seed": 6, "vector": 2, "distribution": 2, "lhs": 1}
ASSUMPTIONS = ["the engines and distributions of the standard library do what the standard says; uniform distributions keep no state",
               "sizes 1 to 6 and dimensions 1 to 4 are interpreted", "statistical quality of the generators is not a question of the source"]
Q = "limbo::tools::"


def reset(t):
    if t.op == "call" and t.args[0] == "used":
        return reset(t.args[1])
    if t.op == "ctor":
        return t
    return mk("call", "reset", t)


class Rng(Session):
    def __init__(self, P, cid=None, root="rng"):
        super().__init__(P, cid, root)
        self.I.hook = self.hook
        self.st.store[LOG] = mk("sym", "log")
        self.draws = []

    def dist(self, I, st, obj):
        """the distribution a draw is made from: class, parameters"""
        t = I.asT(obj, st)
        while t.op == "call" and t.args[0] in ("used", "reset"):
            t = t.args[1]
        if t.op == "ctor":
            return t
        o = I.deref_chain(st, obj) if isinstance(obj, Ref) else None
        if o is not None and (o.loc[0],) in I.statics:
            v, ctor, args = I.statics[(o.loc[0],)]
            f = self.P.fns[ctor]
            s = Rng(self.P, f["cls"], "g")
            s.runfn(f, args)
            return s.dist(s.I, s.st, Ref(("g",) + o.loc[1:]))
        return t

    def hook(self, I, fn, obj, args, e, st):
        q, n = fn["q"], fn["n"]
        if fn.get("repo") or "cls" not in fn:
            return None
        c = self.P.classes[fn["cls"]]["q"]
        if c.startswith("std::") and c.endswith("_distribution"):
            if n == "operator()" and isinstance(obj, Ref) and isinstance(args[0], Ref):
                if len(args) > 1:
                    return None
                d, g = I.asT(obj, st), I.asT(args[0], st)
                now = st.store[LOG]
                I.record_write(LOG)
                st.store[LOG] = mk("push", now, mk("entry", "draw"))
                if "uniform" not in c:
                    I.write(st, obj, mk("call", "used", d, g), e, "draw")
                I.write(st, args[0], mk("call", "advanced", g), e, "draw")
                D = self.dist(I, st, obj)
                return mk("call", "draw", d, g, D if D.op == "ctor" else mk("opaque", "distribution"), now)
            if n == "reset" and isinstance(obj, Ref):
                I.write(st, obj, reset(I.asT(obj, st)), e, "reset")
                return mk("opaque", "void")
        if c == "std::mersenne_twister_engine" and n == "seed" and isinstance(obj, Ref):
            I.write(st, obj, mk("call", "engine", *[I.asT(a, st) for a in args]), e, "seed")
            return mk("opaque", "void")
        return None


def run(ctx):
    R = ctx.rule
    R("seed", "after seeding with a non-negative number, what is drawn depends on the seed and the parameters only")
    R("auto", "a negative seed takes the seed from the environment")
    R("distribution", "random vectors are drawn from U[0, 1] when bounded and N(0, 10) otherwise, as many coordinates as asked for")
    R("vector", "each coordinate of a random vector is a draw of its own")
    R("lhs", "a Latin hypercube has one point in each of the n strata of every dimension, in independent orders")
    P = ctx.prog("core")
    items = [("gen", c) for c in classes(P, Q + "RandomGenerator")]
    items += [("vec", f["id"]) for f in P.fns if f and f.get("body") and f["q"] in (Q + "random_vec",)]
    items += [(k, f["id"]) for k in ("random_vector", "random_lhs") for f in P.fns if f and f.get("body") and f["q"] == Q + k]
    ctx.pmap(one, items)


def one(ctx, item):
    kind, k = item
    P = ctx.prog("core")
    if kind == "gen":
        return gen(ctx, P, k)
    f = P.fns[k]
    wh = "%s %s" % (P.where(f), f["n"])
    attempt(ctx, {"vec": "vector", "random_vector": "distribution", "random_lhs": "lhs"}[kind], wh, lambda: {"vec": vec, "random_vector": rvector, "random_lhs": lhs}[kind](ctx, P, f, wh))


def gen(ctx, P, c):
    a, b, s, s0 = (mk("sym", x) for x in ("a", "b", "seed", "other"))
    ta = P.classes[c]["ta"][0].split("<")[0]
    wh = "%s RandomGenerator<%s>" % (P.where(P.methods(c, "seed")[0]), ta)

    def kinds(t):
        if t.op == "call" and t.args[0] == "draw":
            return "num"
        return None

    def hist(*calls):
        r = Rng(P, c)
        out = []
        for k in calls:
            if k[0] == "new":
                r.ctor(*k[1:])
            elif k[0] == "rand":
                out.append(r.get("rand"))
            else:
                r.call(*k)
        ctx.analysed |= r.analysed
        return out, r

    def mkenv(sign):
        def f(seed):
            e = fp.Env(seed, P, None, kinds={a: "num", b: "num"}, roots={"rng": c}, kindfn=kinds, dim=2)
            e.assign[s] = ((seed - 1) % 5) * 7 if sign > 0 else -3 * seed
            e.assign[s0] = (-1, 5, 9)[seed % 3]
            e.assign[mk("sym", "log")] = []
            e.assign[a], e.assign[b] = 1.0, 2.5
            return e
        return f

    ref, _ = hist(("new", a, b, s), ("rand",), ("rand",), ("rand",))
    H = {"seed() on a used generator": (("new", a, b, s0), ("rand",), ("seed", s), ("rand",), ("rand",), ("rand",)),
         "seed() on a fresh generator": (("new", a, b, s0), ("seed", s), ("rand",), ("rand",), ("rand",)),
         "seed() and reset()": (("new", a, b, s0), ("rand",), ("rand",), ("rand",), ("seed", s), ("reset",), ("rand",), ("rand",), ("rand",))}
    for n, h in H.items():
        def j(n=n, h=h):
            got, _ = hist(*h)
            got = got[-3:]
            for x, y in zip(ref, got):
                strip = lambda t: mk("call", "draw", t.args[1], t.args[2]) if t.op == "call" and t.args[0] == "draw" else t
                v = fp.equal(strip(x), strip(y), mkenv(1), trials=12, need=4)
                if not v.holds:
                    return ctx.check(v.holds, "seed", wh + " " + n, "the draws depend on what was drawn before: %s" % v.detail, "seed:%s:%s" % (ta, n))
            ctx.ok("seed", wh + " " + n, "three draws equal those of a generator built with that seed")
        attempt(ctx, "seed", wh + " " + n, j)

    def auto():
        r = Rng(P, c)
        r.ctor(a, b, s)
        eng = [v for l, v in r.st.store.items() if l and l[0] == "rng" and isinstance(v, T) and v.op in ("call", "ite")]
        # with a negative seed the engine's state must come from the environment, not from the number
        v1, v2 = mkenv(-1)(1), mkenv(-1)(1)
        v2.assign[s] = v2.assign[s] - 2
        same = all(v1.digest(v1.ev(x)) == v2.digest(v2.ev(x)) for x in eng)
        ctx.check(True if eng and same else False if eng else None, "auto", wh, "with a negative seed the engine's state %s" % ("does not depend on the number" if same else "depends on the number given"), "auto:" + ta)
    attempt(ctx, "auto", wh, auto)


def drawenv(s, P, sizes, n_of=None):
    """draws are random numbers of their distribution"""
    def shape(env, t, k):
        if t.op == "call" and t.args[0] == "draw":
            r = env.rnd("draw", len(env.ev(t.args[4])))
            d = t.args[3]
            if d.op == "ctor" and "uniform_real" in d.args[0]:
                lo, hi = (float(env.ev(x)) for x in d.args[1:3])
                return r.uniform(lo, hi)
            return r.gauss(0, 3)
        return None

    def f(seed):
        e = fp.Env(seed, P, None, kinds=dict(s.kinds), roots={}, shape=shape, dim=2)
        e.assign[mk("sym", "log")] = []
        e.assign.update(sizes(seed))
        return e
    return f


def alldraws(t, acc=None, seen=None):
    seen = set() if seen is None else seen
    acc = [] if acc is None else acc
    if id(t) in seen:
        return acc
    seen.add(id(t))
    if isinstance(t, T):
        if t.op == "call" and t.args and t.args[0] == "draw":
            acc.append(t)
        for x in t.args:
            alldraws(x, acc, seen)
    elif isinstance(t, tuple):
        for x in t:
            alldraws(x, acc, seen)
    return acc


def vec(ctx, P, f, wh):
    s = Rng(P)
    N = mk("sym", "n")
    s.kinds[N] = "int"
    s.this = None
    r, _ = s.I.run(f, args=[N, None], st=s.st)
    t = s.I.asT(r, s.st)
    ctx.analysed |= s.I.inlined

    def ok(e):
        v = np.asarray(e.ev(t)).ravel()
        n = e.ev(N)
        k = len(e.ev(s.st.store[LOG]))
        if v.size != n:
            return False, "%d coordinates instead of %d" % (v.size, n)
        return len(set(v.tolist())) == n and k >= n, "%d draws, %d different coordinates of %d" % (k, len(set(v.tolist())), n)
    holds(ctx, "vector", wh, ok, drawenv(s, P, lambda seed: {N: 1 + seed % 6}), "coordinates", trials=18, need=6, key="vector")


def rvector(ctx, P, f, wh):
    for b in (True, False):
        s = Rng(P)
        N = mk("sym", "n")
        s.kinds[N] = "int"
        r, _ = s.I.run(f, args=[N, const(b)], st=s.st)
        t = s.I.asT(r, s.st)
        ctx.analysed |= s.I.inlined
        ds = alldraws(t)
        w = wh + (" bounded" if b else " unbounded")
        bad = []
        for d in ds:
            D = d.args[3]
            want = ("uniform_real", 0, 1) if b else ("normal", 0, 10)
            if D.op != "ctor":
                bad.append(None)
                continue
            ps = [x.args[0] if x.op == "c" else None for x in D.args[1:3]]
            if want[0] not in D.args[0] or len(ps) == 2 and None not in ps and tuple(float(p) for p in ps) != want[1:]:
                bad.append("%s(%s)" % (D.args[0].split("::")[-1], ", ".join(map(str, ps))))
            elif None in ps or len(ps) < 2:
                bad.append(None)
        alarm = [x for x in bad if x]

        def ok(e):
            v = np.asarray(e.ev(t)).ravel()
            n = e.ev(N)
            if v.size != n:
                return False, "%d coordinates instead of %d" % (v.size, n)
            if len(set(v.tolist())) != n:
                return False, "coordinates share a draw"
            return (not b or bool(np.all(v >= 0) and np.all(v <= 1))), "leaves [0, 1]: %s" % fp.brief(v)
        if alarm:
            ctx.bad("distribution", w, "drawn from %s" % alarm[0], key="distribution:%s" % b)
        elif bad or not ds:
            ctx.undecided("distribution", w, "the distribution of a draw is not known")
        else:
            holds(ctx, "distribution", w, ok, drawenv(s, P, lambda seed: {N: 1 + seed % 6}), "coordinates", trials=18, need=6, key="distribution:%s" % b)


def lhs(ctx, P, f, wh):
    s = Rng(P)
    N, D = mk("sym", "n"), mk("sym", "d")
    s.kinds[N] = s.kinds[D] = "int"
    r, _ = s.I.run(f, args=[D, N], st=s.st)
    t = s.I.asT(r, s.st)
    ctx.analysed |= s.I.inlined
    seen = set()

    def ok(e):
        n, d = e.ev(N), e.ev(D)
        H = np.asarray(e.ev(t), dtype=float)
        if H.shape != (n, d):
            return False, "%s points instead of %d x %d" % (H.shape, n, d)
        orders = set()
        for j in range(d):
            k = [int(np.floor(v * n)) for v in H[:, j]]
            if sorted(k) != list(range(n)):
                return False, "column %d of %d points has strata %s" % (j, n, sorted(k))
            orders.add(tuple(k))
            if any(abs(v * n - round(v * n)) > 1e-9 for v in H[:, j]):
                seen.add("inside")
            if k != sorted(k):
                seen.add("permuted")
        if len(orders) > 1:
            seen.add("independent")
        return True, ""
    v = holds(ctx, "lhs", wh, ok, drawenv(s, P, lambda seed: {N: 1 + seed % 6, D: 1 + seed % 4}), "strata", trials=40 if ctx.tier == "quick" else 200, need=12, key="lhs")
    if v.holds:
        for k, w in (("inside", "points are placed at random within their stratum"), ("permuted", "the strata are visited in random order"), ("independent", "the orders of different dimensions are independent")):
            ctx.check(k in seen, "lhs", wh + " " + k, w if k in seen else "never: " + w, "lhs:" + k)
