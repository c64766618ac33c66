"""What enters the record: finite observations only, in lockstep, and failures leave it untouched."""
from bobase import *

EXPLANATION = """Every way into the record of samples and observations (add_new_sample, eval_and_add, the initialisation strategies and the loops of
the optimizers) is turned into value-graph terms. The terms are interpreted with the user's function returning vectors with a NaN or
an infinity somewhere, and with ordinary ones: in the first case the only way out must be the exception, with the record as
before; in the second the pair is appended. The record at the moment the user's function is called is compared with the one before."""
EXPECT = {"reject": 8, "accept": 8, "evaluate": 8, "loop-intake": 8, "before-evaluation": 8}
ASSUMPTIONS = ["the user's function is the only source of observations besides add_new_sample"]
UNITS = (("core", ["limbo::bayes_opt::BOptimizer"]),
         ("exp", ["limbo::bayes_opt::BOptimizer", "limbo::experimental::bayes_opt::CBOptimizer", "limbo::experimental::bayes_opt::Ehvi",
                  "limbo::experimental::bayes_opt::Nsbo", "limbo::bayes_opt::experimental::IMGPO"]))
ERR = "limbo::EvaluationError"


def run(ctx):
    R = ctx.rule
    R("reject", "an observation with a NaN or infinite entry raises EvaluationError and leaves samples and observations as they were")
    R("accept", "a finite observation is appended together with its sample, once, at the end")
    R("evaluate", "eval_and_add calls the user's function once, on the sample it records")
    R("loop-intake", "no iteration of an optimizer or initialisation completes when the user's function returned a non-finite value; the error leaves the loop")
    R("init-record", "initialisation records exactly the points it evaluates, in lockstep")
    R("before-evaluation", "when the user's function is called, the record is complete and in lockstep: a function that throws leaves nothing half recorded")
    R("test", "is_nan_or_inf is true exactly for a value with a NaN or infinite entry")
    items = []
    for u, qs in UNITS:
        P = ctx.prog(u)
        for q in qs:
            items += [("intake", u, c, None) for c in classes(P, q)]
            for c in classes(P, q):
                items += [("loop", u, c, k) for k, m in enumerate([m for m in P.methods(c, "optimize", inherited=False) if m.get("body")])]
                items += [("init", u, c, k) for k, m in enumerate([m for m in P.methods(c, "_init") if m.get("body")])]
    items += [("math", "core", f["id"], None) for f in ctx.prog("core").fns if f and f.get("q") == "limbo::tools::is_nan_or_inf" and f.get("body")]
    ctx.pmap(one, items)


def args(m):
    return [Ref((("arg", i),)) for i in range(len(m["p"]))]


def poisoned(r, n):
    v = rvec(r, n)
    v[r.randrange(n), 0] = r.choice((float("nan"), float("inf"), float("-inf")))
    return v


def one(ctx, item):
    kind, u, c, k = item
    P = ctx.prog(u)
    if kind == "math":
        return math_(ctx, P, c)
    cn = P.classes[c]["q"].split("::")[-1]
    if kind == "intake":
        for n in ("add_new_sample", "eval_and_add"):
            for m in [m for m in P.methods(c, n) if m.get("body")]:
                attempt(ctx, "reject", "%s %s::%s %s" % (P.where(m), cn, n, short_ta(P, c)), lambda: intake(ctx, P, c, m, n, cn))
        return
    if kind == "loop" and cn == "IMGPO":
        return
    m = [m for m in P.methods(c, "optimize" if kind == "loop" else "_init", inherited=kind == "init") if m.get("body")][k]
    wh = "%s %s::%s %s" % (P.where(m), cn, m["n"], short_ta(P, c))
    attempt(ctx, "loop-intake", wh, lambda: loop(ctx, P, c, m, cn, wh, kind))


def feasible(env, facts):
    return all(env.truth(env.ev(f)) for f in facts)


def intake(ctx, P, c, m, n, cn):
    wh = "%s %s::%s %s" % (P.where(m), cn, n, short_ta(P, c))
    b = BO(P, c)
    b.runfn(m, args(m))
    ctx.analysed |= b.analysed
    iv = [i for i, p in enumerate(m["p"]) if P.typ(p["t"])["s"].find("Matrix") >= 0]
    S0, O0 = mk("init", b.loc["samples"]), mk("init", b.loc["observations"])
    x = mk("init", (("arg", iv[0]),))
    y = mk("init", (("arg", iv[1]),)) if n == "add_new_sample" else None
    thr = [(s, d) for k, s, d in b.I.exits if k == "throw"]
    fin = b.st
    done = not fin.dead

    def mkenv(poison):
        base = b.env(poison=poison)

        def f(seed):
            e = base(seed)
            r = rng(seed, "p01")
            e.assign[x] = rvec(r, 2)
            if y is not None:
                e.assign[y] = poisoned(r, 1 + seed % 3) if poison else rvec(r, 1 + seed % 3)
            return e
        return f

    def rec(env, st):
        return env.ev(b.rd(st, "samples")), env.ev(b.rd(st, "observations"))

    def reject(env):
        hit = [(s, d) for s, d in thr if feasible(env, s.facts)]
        if not hit:
            if done and feasible(env, fin.facts):
                return False, "a non-finite observation is accepted"
            return None
        s, d = hit[0]
        if d["tt"] != ERR:
            return False, "%s is thrown instead of EvaluationError" % d["tt"]
        s1, o1 = rec(env, s)
        if not fp.same(s1, env.ev(S0)) or not fp.same(o1, env.ev(O0)):
            return False, "the record has changed when the error is raised (%d samples, %d observations, before: %d)" % (len(s1), len(o1), len(env.ev(S0)))
        return True

    def accept(env):
        if any(feasible(env, s.facts) for s, d in thr):
            return False, "a finite observation is refused"
        s1, o1 = rec(env, fin)
        if not fp.same(s1, env.ev(S0) + [env.ev(x)]):
            return False, "the samples are not the previous ones followed by the new one"
        yy = env.ev(y) if y is not None else [q for q in env.ev(fin.store[LOG]) if q[1] == "eval"][-1][3]
        if not fp.same(o1, env.ev(O0) + [yy]):
            return False, "the observations are not the previous ones followed by the new one"
        return True
    holds(ctx, "reject", wh, reject, mkenv(True), "non-finite observation", trials=24, key="reject:%s::%s" % (cn, n))
    holds(ctx, "accept", wh, accept, mkenv(False), "finite observation", trials=24, key="accept:%s::%s" % (cn, n))
    if n == "eval_and_add":
        def ev1(env):
            t = [q for q in env.ev(fin.store[LOG]) if q[1] == "eval"]
            return len(t) == 1 and fp.same(t[0][2], env.ev(x)), "%d evaluations" % len(t)
        holds(ctx, "evaluate", wh, ev1, mkenv(False), "evaluation", trials=12, key="evaluate:%s" % cn)
        pre(ctx, b, wh, cn)


def allmus(b):
    out = {}
    for f, evs in b.events:
        for e, _ in walk_ev(evs):
            if e.k == "loop":
                for l, m in (e.d.get("mus") or {}).items():
                    out[m] = mk("sym", "log") if l == LOG else mk("init", l)
    return out


def pre(ctx, b, wh, cn):
    """state of the record at each call of the user's function"""
    M = allmus(b)
    for s, o, facts, node, fn, x in b.eval_pre:
        w = "%s %s" % (b.P.where(fn, node.get("l")), wh.split(" ", 1)[1])
        s, o = subst(s, M), subst(o, M)
        fs = [subst(f, M) for f in facts]

        def lock(env):
            if not feasible(env, fs):
                return None
            a, c = env.ev(s), env.ev(o)
            return len(a) == len(c), "%d samples and %d observations when the user's function is called" % (len(a), len(c))
        attempt(ctx, "before-evaluation", w, lambda: holds(ctx, "before-evaluation", w, lock, b.env(), "record before the evaluation", trials=80, key="before:%s" % cn))


def loop(ctx, P, c, m, cn, wh, kind):
    b = BO(P, c, keep=("init",) if kind == "init" else ())
    b.runfn(m, args(m))
    ctx.analysed |= b.analysed
    ls = [(e, p) for e, p in main_loop(b)]
    inner = [e for e, p in ls if not any(e in [q for q in pp] for e2, pp in ls if e2 is not e)]
    ini = ""
    if kind == "init":
        ini = [x.split("<")[0].split("::")[-1] for x in [P.classes[f["cls"]]["q"] for f in (P.fns[i] for i in b.analysed) if "cls" in f] if x.startswith("limbo::init::")]
        ini = sorted(set(ini))[0] if ini else "?"
        wh = wh.replace("::_init", "::_init with " + ini)
    if not inner:
        if kind == "init" and not b.eval_pre:
            ctx.ok("init-record", wh, "no evaluation")
            return
        return ctx.undecided("loop-intake", wh, "no loop found")
    for e in inner:
        H = lambda t: b.at_head(e, t)
        facts = [H(f) for f in e.d["endfacts"] if f not in e.d["loopbase"]]
        log1 = H(e.d["nv"][LOG])
        if not contains(log1, lambda x: x.op == "entry" and x.args[0] == "eval"):
            continue
        lw = "%s:%s %s" % (P.rel(e.fn) if hasattr(P, "rel") else "", e.line(), wh.split(" ", 1)[1])
        oth = [(s, d) for k, s, d in (e.d.get("oth") or []) if k == "throw"]

        def bad(env):
            t = env.ev(log1)
            if not any(q[1] == "eval" for q in t):
                return None
            hit = [(s, d) for s, d in oth if feasible(env, [H(f) for f in s.facts if f not in e.d["loopbase"]])]
            if not hit:
                if feasible(env, facts):
                    return False, "the iteration completes although the user's function returned a non-finite value"
                return None
            if hit[0][1]["tt"] != ERR:
                return False, "%s leaves the loop instead of EvaluationError" % hit[0][1]["tt"]
            s1, o1 = env.ev(H(b.rd(hit[0][0], "samples"))), env.ev(H(b.rd(hit[0][0], "observations")))
            s0, o0 = env.ev(mk("init", b.loc["samples"])), env.ev(mk("init", b.loc["observations"]))
            if not fp.same(s1, s0) or not fp.same(o1, o0):
                return False, "the record has changed when the error leaves the loop"
            return True
        holds(ctx, "loop-intake", lw, bad, b.env(poison=True), "non-finite value in an iteration", trials=160, key="loop:%s:%s%s" % (cn, m["n"], ini))

        if kind == "init":
            def good(env):
                if not feasible(env, facts):
                    return None
                t = [q for q in env.ev(log1) if q[1] == "eval"]
                s0, o0 = env.ev(mk("init", b.loc["samples"])), env.ev(mk("init", b.loc["observations"]))
                s1, o1 = (env.ev(H(e.d["nv"].get(b.loc[n], mk("init", b.loc[n])))) for n in ("samples", "observations"))
                if any(q[1] == "rec" for q in env.ev(log1)):
                    return len(s1) == len(o1), "samples and observations out of step"
                if not fp.same(s1, s0 + [q[2] for q in t]) or not fp.same(o1, o0 + [q[3] for q in t]):
                    return False, "%d evaluations, %d samples, %d observations" % (len(t), len(s1) - len(s0), len(o1) - len(o0))
                return True
            holds(ctx, "init-record", lw, good, b.env(), "pairs recorded by one iteration", trials=24, key="init-record:%s" % ini)
    pre(ctx, b, wh, cn)


def math_(ctx, P, fid):
    f = P.fns[fid]
    wh = "%s is_nan_or_inf(%s)" % (P.where(f), P.typ(f["p"][0]["t"])["s"][:40])

    def go():
        I = Interp(P)
        st = State()
        x = mk("init", (("arg", 0),))
        r, _ = I.run(f, args=[Ref((("arg", 0),))] if "Matrix" in P.typ(f["p"][0]["t"])["s"] else [x], st=st)
        r = I.asT(r, st)
        vec = "Matrix" in P.typ(f["p"][0]["t"])["s"]
        if P.typ(f["p"][0]["t"]).get("b") not in ("float", None) and not vec:
            return ctx.undecided("test", wh, "not a floating-point overload")

        def mkenv(seed):
            e = fp.Env(seed, P, f)
            g = rng(seed, "m")
            p = seed % 2 == 0
            if vec:
                v = poisoned(g, 1 + seed % 4) if p else rvec(g, 1 + seed % 4)
            else:
                v = g.choice((float("nan"), float("inf"), float("-inf"))) if p else g.uniform(-3, 3)
            e.assign[x] = v
            e.want = p
            return e
        holds(ctx, "test", wh, lambda env: (env.truth(env.ev(r)) == env.want, "answers %s for %s" % (env.ev(r), fp.brief(env.ev(x)))), mkenv, "non-finite test", trials=30, key="test")
    attempt(ctx, "test", wh, go)
