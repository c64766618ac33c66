"""The optimisation loop: stop criteria, evaluation budget, bookkeeping, model updates."""
from bobase import *

EXPLANATION = """optimize() of every optimizer instantiation is turned into value-graph terms with its components kept uninterpreted and their uses
recorded in a ghost trace (order, guards, arguments). The state relation of one iteration of the evaluation loop, started from an
arbitrary state, and the state at loop entry are then compared with the documented protocol: stop criteria consulted and negative before every
evaluation, one evaluation per iteration of the point the acquisition optimizer returned, record, model, counters and
statistics in step."""
EXPECT = {"stop-before-eval": 6, "one-eval-per-iteration": 6, "record": 6, "model": 6, "counters": 6, "stats": 6, "entry-state": 6, "after-stop": 6}
ASSUMPTIONS = ["the components behave as functions of what they are given (each is the subject of its own properties)",
               "the loop terminates when the stop criteria say so; termination itself is not claimed"]
BO = BO


def optimizers(ctx):
    out = []
    for u, qs in (("core", ["limbo::bayes_opt::BOptimizer"]), ("exp", ["limbo::bayes_opt::BOptimizer", "limbo::experimental::bayes_opt::CBOptimizer",
                                                                      "limbo::experimental::bayes_opt::Ehvi", "limbo::experimental::bayes_opt::Nsbo"])):
        P = ctx.prog(u)
        for q in qs:
            for c in classes(P, q):
                for k, m in enumerate([m for m in P.methods(c, "optimize", inherited=False) if m.get("body")]):
                    out.append((u, c, k))
    return out


def run(ctx):
    R = ctx.rule
    R("stop-before-eval", "every evaluation of the user's function in the loop is preceded, since the previous one, by a consultation of all stop criteria, all negative")
    R("one-eval-per-iteration", "each completed iteration evaluates the user's function exactly once, on the point the acquisition optimizer returned")
    R("record", "each completed iteration appends exactly that point and that value, in lockstep")
    R("model", "each completed iteration gives the model exactly the new pair (or refits it on the whole record), and tunes hyper-parameters exactly every hp_period iterations")
    R("counters", "each completed iteration advances both iteration counters by one")
    R("stats", "each completed iteration updates every statistic exactly once, after the record, with the number of the iteration")
    R("acquisition", "what the acquisition optimizer is given depends on the current model, within the configured bounds")
    R("entry-state", "resetting empties the record and the counters; not resetting keeps them; initialisation runs exactly when nothing was done before; the model is fitted on the whole record")
    R("after-stop", "nothing is evaluated after a stop criterion answered positively")
    ctx.pmap(one, optimizers(ctx))


def split_dims(b):
    """observations of the driver's constrained function: two objectives, and a constraint in two interpretations out of three"""
    def over(env, t, k):
        nc = 1 if env.seed % 3 else 0
        if t.op == "call" and isinstance(t.args[0], str):
            n = t.args[0].split("::")[-1]
            if n == "nb_constraints":
                return nc
            if n == "Obj":
                return rvec(env.rnd("obj", show(t, 20)), 2 + nc)
        if (t.op == "init" and t.args[0] == b.loc.get("observations")) or (t.op == "call" and t.args[0] == "init:observations"):
            n = env.seed % 3 if t.op == "init" else (env.seed // 3) % 3
            r = env.rnd("rec", show(t, 20))
            return (list(env.ev(t.args[1])) if t.op == "call" else []) + [rvec(r, 2 + nc) for _ in range(n)]
        return None
    return over


def one(ctx, item):
    u, c, k = item
    P = ctx.prog(u)
    m = [m for m in P.methods(c, "optimize", inherited=False) if m.get("body")][k]
    cn = P.classes[c]["q"].split("::")[-1]
    wh = "%s %s::optimize %s" % (P.where(m), cn, short_ta(P, c))
    box = {}

    def build():
        b = BO(P, c)
        b.runfn(m, [Ref((("arg", i),)) for i in range(len(m["p"]))])
        ls = main_loop(b)
        evs = [(e, p) for e, p in ls if any(x.k == "ext" or x.k == "call" for x, _ in walk_ev(e.sub))]
        if not evs:
            raise Unsupported("no evaluation loop found")
        box["b"], box["l"] = b, evs
    attempt(ctx, "stop-before-eval", wh, build)
    if not box:
        return
    b, ls = box["b"], box["l"]
    ctx.analysed |= b.analysed
    e = ls[0][0]
    mk_ = b.env()
    H = lambda t: b.at_head(e, t)
    log1 = H(e.d["nv"][LOG])
    facts = [H(f) for f in e.d["endfacts"] if f not in e.d["loopbase"]]
    stops, stats = set(b.stops()), b.stats()
    L = b.loc
    tr = 40 if ctx.tier == "quick" else 200
    lwh = "%s:%s %s iteration %s" % (P.rel(e.fn) if hasattr(P, "rel") else "", e.line(), cn, short_ta(P, c))

    def after(n):
        l = L[n]
        v = e.d["nv"].get(l)
        return H(v) if v is not None else mk("init", l)

    def before(n):
        return mk("init", L[n])

    def valid(env):
        return all(env.truth(env.ev(f)) for f in facts)

    def trace(env):
        return env.ev(log1)

    def nm(x):
        return x[1]

    def r_stop(env):
        if not valid(env):
            return None
        seen, neg = set(), True
        for x in trace(env):
            if nm(x) == "stop":
                seen.add(x[2])
                neg = neg and not env.truth(x[3])
            if nm(x) == "eval":
                if not seen >= stops:
                    return False, "the user's function is evaluated without consulting %s since the last evaluation" % sorted(stops - seen)
                if not neg:
                    return False, "the user's function is evaluated although a stop criterion answered positively"
                seen = set()
        return True

    def r_one(env):
        if not valid(env):
            return None
        tr = trace(env)
        ev = [x for x in tr if nm(x) == "eval"]
        if len(ev) != 1:
            return False, "%d evaluations in one iteration" % len(ev)
        op = [x for x in tr if nm(x) == "opt"]
        if op and not any(fp.same(ev[0][2], x[6]) for x in op):
            return False, "the evaluated point is not the one the acquisition optimizer returned"
        return True

    def val(env):
        """(x, y) of the iteration"""
        ev = [x for x in trace(env) if nm(x) == "eval"]
        return ev[-1][2]

    def r_rec(env):
        if not valid(env):
            return None
        s0, o0, s1, o1 = (env.ev(t) for t in (before("samples"), before("observations"), after("samples"), after("observations")))
        n = len([x for x in trace(env) if nm(x) == "eval"])
        if len(s1) != len(s0) + n or len(o1) != len(o0) + n:
            return False, "%d evaluations, %d samples and %d observations recorded" % (n, len(s1) - len(s0), len(o1) - len(o0))
        if not fp.same(s1[:len(s0)], s0) or not fp.same(o1[:len(o0)], o0):
            return False, "earlier records change"
        evs = [x for x in trace(env) if nm(x) == "eval"]
        for i, x in enumerate(evs):
            if not fp.same(s1[len(s0) + i], x[2]):
                return False, "the recorded sample is not the evaluated point"
            if not fp.same(o1[len(o0) + i], x[3]):
                return False, "the recorded observation is not the value of the evaluated point"
        return True

    def r_cnt(env):
        if not valid(env):
            return None
        for n in ("current_iteration", "total_iterations"):
            d = env.ev(after(n)) - env.ev(before(n))
            if d != 1:
                return False, "%s changes by %s" % (n, d)
        return True

    def r_stat(env):
        if not valid(env):
            return None
        t = trace(env)
        names = [x[2] for x in t if nm(x) == "stat"]
        if sorted(names) != sorted(stats):
            return False, "statistics updated in one iteration: %s, configured: %s" % (names, stats)
        s1, o1 = env.ev(after("samples")), env.ev(after("observations"))
        for x in t:
            if nm(x) == "stat":
                if not fp.same(x[4], s1) or not fp.same(x[5], o1):
                    return False, "%s is updated with a record that lacks this iteration's pair" % x[2]
                if x[6] != env.ev(before("current_iteration")):
                    return False, "%s sees iteration number %s in iteration %s" % (x[2], x[6], env.ev(before("current_iteration")))
        return True

    def hk(n):
        return "%s:%s" % (n, cn)
    Rn = [("stop-before-eval", r_stop, "stop criteria"), ("one-eval-per-iteration", r_one, "evaluations"), ("record", r_rec, "record"),
          ("counters", r_cnt, "counters"), ("stats", r_stat, "statistics")]
    for n, f, w in Rn:
        attempt(ctx, n, lwh, lambda: holds(ctx, n, lwh, f, mk_, w, trials=tr, key=hk(n)))

    later = []
    if "model" in L:
        per = [t for t in ("Params::bayes_opt_boptimizer::hp_period", "Params::bayes_opt_cboptimizer::hp_period")]
        per = mk("cfg", per[1] if cn == "CBOptimizer" else per[0])

        def r_model(env):
            if not valid(env):
                return None
            t = [x for x in trace(env) if nm(x) == "model"]
            me = env.ev(mk("addr", L["model"], ()))
            mine = [x for x in t if fp.same(x[3], me)]
            ups = [x for x in mine if x[2] in ("add_sample", "compute", "recompute")]
            x = val(env)
            y = env.ev(after("observations"))[-1]
            if not ups:
                return False, "the model is not updated with the new observation"
            if len([u for u in ups if u[2] == "add_sample"]) > 1:
                return False, "the new pair is added to the model more than once"
            u = ups[-1]
            if u[2] == "add_sample":
                if not fp.same(u[4], x):
                    return False, "the model is given another sample than the evaluated one"
                y5, want_y = np.asarray(u[5]).ravel(), np.asarray(y).ravel()
                if cn == "CBOptimizer":   # objectives first, constraints after them
                    want_y = want_y[:len(y5)]
                if not fp.same(y5.reshape(-1, 1), want_y.reshape(-1, 1)):
                    return False, "the model is given another observation than the one made"
            elif u[2] == "compute" and not fp.same(u[4], env.ev(after("samples"))):
                return False, "the model is refitted on another record"
            p, cur = env.ev(per), env.ev(before("current_iteration"))
            want = p > 0 and (cur + 1) % p == 0
            hp = [x for x in mine if x[2] == "optimize_hyperparams"]
            if len(hp) != (1 if want else 0):
                return False, "hp_period=%s, iteration %s: hyper-parameters optimised %d times" % (p, cur, len(hp))
            if hp and mine.index(hp[0]) < mine.index(ups[-1]):
                return False, "hyper-parameters are optimised before the model has the new observation"
            return True
        attempt(ctx, "model", lwh, lambda: holds(ctx, "model", lwh, r_model, mk_, "model update", trials=tr, key=hk("model")))

        if cn == "CBOptimizer":
            split = b.env(over=split_dims(b))

            def both(env, ents, what):
                """the objectives' model and the constraints' one: [(entries, part of the observations)]"""
                me = env.ev(mk("addr", L["model"], ()))
                nc = 1 if env.seed % 3 else 0
                return [("objectives", [x for x in ents if fp.same(x[3], me)], slice(0, 2))] + ([("constraints", [x for x in ents if not fp.same(x[3], me)], slice(2, 3))] if nc else [])

            def r_con(env):
                if not valid(env):
                    return None
                x, y = val(env), np.asarray(env.ev(after("observations"))[-1]).ravel()
                p, cur = env.ev(per), env.ev(before("current_iteration"))
                for w, mine, part in both(env, [x for x in trace(env) if nm(x) == "model"], "iteration"):
                    ups = [u for u in mine if u[2] in ("add_sample", "compute")]
                    if not ups:
                        return False, "the model of the %s is not updated with the new observation" % w
                    u = ups[-1]
                    if u[2] == "add_sample" and (len(ups) > 1 or not fp.same(u[4], x) or not fp.same(np.asarray(u[5]).ravel(), y[part])):
                        return False, "the model of the %s is not given the evaluated point with its %s" % (w, w)
                    hp = [z for z in mine if z[2] == "optimize_hyperparams"]
                    if len(hp) != (1 if p > 0 and (cur + 1) % p == 0 else 0):
                        return False, "hp_period=%s, iteration %s: hyper-parameters of the model of the %s optimised %d times" % (p, cur, w, len(hp))
                return True
            attempt(ctx, "model", lwh, lambda: holds(ctx, "model", lwh, r_con, split, "models of objectives and constraints", trials=2 * tr, key=hk("model-constraints")))

            def r_con0(env):
                s_, o_ = env.ev(v0["samples"]), env.ev(v0["observations"])
                if not len(s_):
                    return None
                for w, mine, part in both(env, [x for x in env.ev(log0) if nm(x) == "model"], "entry"):
                    if not mine or mine[-1][2] != "compute" or not fp.same(mine[-1][4], s_) or not fp.same([np.asarray(q).ravel() for q in mine[-1][5]], [np.asarray(q).ravel()[part] for q in o_]):
                        return False, "the model of the %s is not fitted on the whole record before the first iteration" % w
                return True
            later.append(lambda: attempt(ctx, "entry-state", wh, lambda: holds(ctx, "entry-state", wh, r_con0, split, "models at the first iteration", trials=2 * tr, key=hk("entry-models"))))

        def r_acq(env):
            if not valid(env):
                return None
            op = [x for x in trace(env) if nm(x) == "opt"]
            ev = [x for x in trace(env) if nm(x) == "eval"]
            used = [x for x in op if fp.same(ev[0][2], x[6])]
            if not used or used[0][3] == "?":
                return None
            if used[0][3] != "current":
                return False, "the function given to the acquisition optimizer does not depend on the current model"
            want = env.ev(mk("cfg", "Params::bayes_opt_cboptimizer::bounded" if cn == "CBOptimizer" else "Params::bayes_opt_bobase::bounded"))
            if env.truth(used[0][5]) != env.truth(want):
                return False, "the acquisition is optimised with bounded=%s where the configuration says %s" % (used[0][5], want)
            return True
        attempt(ctx, "acquisition", lwh, lambda: holds(ctx, "acquisition", lwh, r_acq, mk_, "acquisition", trials=tr, key=hk("acquisition")))

    if "models" in L:
        def r_models(env):
            if not valid(env):
                return None
            s, o = env.ev(before("samples")), env.ev(before("observations"))
            if not len(s):
                return None
            t = trace(env)
            fits = [x for x in t if nm(x) == "model" and x[2] in ("compute", "add_sample")]
            k = [i for i, x in enumerate(t) if nm(x) == "eval"]
            if k and any(i > k[0] for i, x in enumerate(t) if nm(x) == "model" and x[2] in ("compute", "add_sample")):
                return None   # updated after the evaluation: another scheme
            if len(fits) != len(np.asarray(o[0]).ravel()):
                return False, "%d model fits for %d objectives" % (len(fits), len(np.asarray(o[0]).ravel()))
            for j, f in enumerate(fits):
                if not fp.same(f[4], s):
                    return False, "the model of objective %d is fitted on other samples than the record" % j
                if not fp.same([np.asarray(v).ravel()[0] for v in f[5]], [np.asarray(v).ravel()[j] for v in o]):
                    return False, "the model of objective %d is not fitted on that objective" % j
            return True
        attempt(ctx, "model", lwh, lambda: holds(ctx, "model", lwh, r_models, mk_, "one model per objective, fitted on the whole record", trials=tr, key=hk("model")))

    # ---- loop entry
    v0 = {n: (e.d["v0"].get(L[n]) if L[n] in e.d["v0"] else b.I.asT(Ref(L[n]), b.st)) for n in L if n in ("samples", "observations", "current_iteration", "total_iterations", "model")}
    reset = mk("init", (("arg", len(m["p"]) - 1),))
    log0 = e.d["v0"][LOG]
    for g in later:
        g()

    sf = "Obj"
    dims = [mk("call", sf + "::dim_in"), mk("call", sf + "::dim_out"), mk("call", sf + "::nb_constraints")] if u == "core" else [const(2), const(2), mk("call", sf + "::nb_constraints")]
    path = {}
    for l in [L["model"]] if "model" in L else []:
        mc = b.cls_of(Ref(l))
        for n in ("dim_in", "dim_out"):
            try:
                v = Session(P, mc, "m").get(n)
                path[n] = v.args[0][1:] if v.op == "init" else None
            except (LookupError, Unsupported):
                path[n] = None

    def empty_model(env, mo, what, want):
        """without any data the model is a fresh one, of the dimensions of the user's function"""
        mo = [x for x in mo if x[2] in ("operator=", "compute", "recompute", "add_sample")]
        if not mo:
            return False, "no data at the first iteration: the %s is not created anew" % what
        v = mo[-1][4]
        if mo[-1][2] != "operator=" or not isinstance(v, dict):
            return True
        for n, w in zip(("dim_in", "dim_out"), want):
            d = v
            for q in path[n] or ():
                d = d.get(q) if isinstance(d, dict) else None
            if path[n] and isinstance(d, (int, float)) and d != w:
                return False, "no data at the first iteration: the %s is created with %s = %s where the user's function has %s" % (what, n, d, w)
        return True

    def r_entry(env):
        rs = env.truth(env.ev(reset))
        t0 = env.ev(before("total_iterations"))
        tot = 0 if rs else t0
        if env.ev(v0["current_iteration"]) != 0:
            return False, "the iteration counter starts at %s" % env.ev(v0["current_iteration"])
        if env.ev(v0["total_iterations"]) != tot:
            return False, "reset=%s: total iterations start at %s" % (rs, env.ev(v0["total_iterations"]))
        t = env.ev(log0)
        ini = [x for x in t if nm(x) == "init"]
        if len(ini) != (1 if tot == 0 else 0):
            return False, "reset=%s, %s iterations done before: initialisation runs %d times" % (rs, t0, len(ini))
        s0, o0 = env.ev(before("samples")), env.ev(before("observations"))
        if ini:
            if not fp.same(ini[0][3], [] if rs else s0) or not fp.same(ini[0][4], [] if rs else o0):
                return False, "reset=%s: initialisation starts from a record with %d samples" % (rs, len(ini[0][3]))
        else:
            if not fp.same(env.ev(v0["samples"]), s0) or not fp.same(env.ev(v0["observations"]), o0):
                return False, "the record is not kept although reset is off"
        if any(nm(x) == "eval" for x in t):
            return False, "the user's function is evaluated before the first stop check"
        if "model" in L and cn == "BOptimizer":
            mo = [x for x in t if nm(x) == "model"]
            s = env.ev(v0["samples"])
            if len(s):
                if not mo or mo[-1][2] != "compute" or not fp.same(mo[-1][4], s) or not fp.same(mo[-1][5], env.ev(v0["observations"])) or not env.truth(mo[-1][6]):
                    return False, "the model is not fitted on the whole record before the first iteration"
        if "model" in L and cn in ("BOptimizer", "CBOptimizer") and not len(env.ev(v0["samples"])):
            me = env.ev(mk("addr", L["model"], ()))
            mo = [x for x in t if nm(x) == "model" and (cn == "BOptimizer" or fp.same(x[3], me))]
            r = empty_model(env, mo, "model", [env.ev(d) for d in dims[:2]])
            if r is not True:
                return r
            nc = env.ev(dims[2]) if cn == "CBOptimizer" else 0
            if nc > 0:
                r = empty_model(env, [x for x in t if nm(x) == "model" and not fp.same(x[3], me)], "model of the constraints", [env.ev(dims[0]), nc])
                if r is not True:
                    return r
        return True
    attempt(ctx, "entry-state", wh, lambda: holds(ctx, "entry-state", wh, r_entry, mk_, "state at the first iteration", trials=tr, key=hk("entry-state")))

    # ---- after the loop
    def tail():
        t = b.st.store[LOG]
        post = []
        while t.op == "push":
            post.append(t.args[1])
            t = t.args[0]
        if t.op not in ("fixend", "fix", "ite"):
            return ctx.undecided("after-stop", wh, "the trace after the loop has an unexpected form: %s" % t.op)
        bad = [x for x in post if x.op == "entry" and x.args[0] == "eval"]
        ctx.check(False if bad else True, "after-stop", wh, "the user's function is evaluated after the loop" if bad else "no evaluation after the loop", hk("after-stop"))
    attempt(ctx, "after-stop", wh, tail)
