"""Disabled statistics leave no trace; statistics never steer the optimisation."""
from statbase import *
from ir import walk as irwalk

EXPLANATION = """Directory creation, file opening and stream output are recorded in the value graph of every statistic's operator() and of every
optimizer's constructor, and interpreted with stats_enabled false over arbitrary optimizer states: the trace must be empty. The rest of
the repository is covered by reachability: a call site that creates or writes a file must lie in a function that is itself shown to be
guarded, in a statistic, or in an archive. What a statistic stores into the optimizer is read off its final state."""
EXPECT = {"statistic-silent": 60, "constructor-silent": 8, "only-statistics": 2, "observer": 60}
ASSUMPTIONS = ["stats_enabled is a constant of the parameters"]
WRITERS = re.compile(r"^(std::basic_(o|)fstream::(basic_o?fstream|open)|boost::filesystem::(create_director|remove|rename|copy|resize_file|create_.*link).*|std::filesystem::(create_director|remove|rename|copy|resize_file|create_.*link).*|mkdir|mkdirat|creat|remove|rename|unlink|rmdir|(std::)?(fopen|freopen|remove|rename|system|tmpfile)|popen|std::(fopen|system))$")
PARTS = ("::bayes_opt::", "::model::", "::opt::", "::init::", "::acqui::", "::kernel::", "::mean::", "::stop::", "::tools::")


def run(ctx):
    R = ctx.rule
    R("statistic-silent", "with stats_enabled false, a statistic opens no file, creates no directory and prints nothing")
    R("constructor-silent", "with stats_enabled false, constructing an optimizer creates no directory and opens no file")
    R("only-statistics", "no public operation outside the statistics and the archives reaches a call that writes to the file system, unless it is guarded by stats_enabled")
    R("observer", "a statistic does not change the record, the model, the counters or any other state the optimisation depends on")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        items += [("stat", u, c, m) for c, m in stat_methods(P)]
        items += [("ctor", u, c, None) for c, k in enumerate(P.classes) if is_bo(P, c)]
        items += [("sites", u, None, None)]
    ctx.pmap(one, items)


def is_bo(P, c):
    q = P.classes[c]["q"]
    return "::bayes_opt::" in q and "BoBase" in {P.classes[b]["q"].split("::")[-1] for b in bases(P, c)} and any(m.get("ctor") and m.get("body") and not m["p"] for m in P.fns if m.get("cls") == c)


def bases(P, c):
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += P.classes[x].get("bases", [])
    return out


def one(ctx, item):
    kind, u, c, fid = item
    P = ctx.prog(u)
    if kind == "stat":
        f = P.fns[fid]
        n = P.classes[c]["q"].split("::")[-1]
        wh = "%s %s on %s, %s" % (P.where(f), n, short_ta(P, P.typ(f["p"][0]["t"]).get("rid")), P.typ(f["p"][1]["t"])["s"].replace("const ", "").replace(" &", ""))
        attempt(ctx, "statistic-silent", wh, lambda: stat(ctx, P, c, fid, n, wh))
    elif kind == "ctor":
        wh = "%s %s" % (P.classes[c]["q"].replace("limbo::", ""), short_ta(P, c))
        attempt(ctx, "constructor-silent", wh, lambda: ctor(ctx, P, c, wh))
    else:
        sites(ctx, P, u)


def silent(s, log):
    def test(e):
        for x in e.ev(log):
            if isinstance(x, fp.Opq):
                raise fp.Undef("opaque effect")
            what = {"open": "opens", "mkdir": "creates the directory", "out": "writes to"}[x[1]]
            return False, "%s %s although statistics are disabled" % (what, fp.brief(x[2]))
        return True, ""
    return test


def stat(ctx, P, c, fid, n, wh):
    tr = 16 if ctx.tier == "quick" else 60
    for fresh in (True, False):
        s = Stat(P, c, fid, fresh=fresh)
        ctx.analysed |= s.analysed
        for empty in (False, True):
            what = "%s, %s record" % ("first call" if fresh else "later call", "empty" if empty else "non-empty")
            attempt(ctx, "statistic-silent", wh, lambda: holds(ctx, "statistic-silent", wh, silent(s, s.log), s.mkenv(enabled=False, empty=empty, fresh=fresh), what, trials=tr, need=6, key="statistic-silent:" + n))
    if n == "ParetoBenchmark":
        return   # documented to refresh the optimizer's Pareto sets
    changed = sorted({l for l in s.st.store if any(l[:len(x)] == x for x in s.loc.values()) and not (isinstance(s.st.store[l], T) and s.st.store[l].op == "init" and s.st.store[l].args[0] == l)})
    t0 = State()
    if not changed:
        ctx.ok("observer", wh, "stores nothing into the optimizer")
        return
    for l in changed:
        a, b = s.I.asT(Ref(l), s.st), mk("init", l)
        attempt(ctx, "observer", wh, lambda: eq(ctx, "observer", wh, a, b, s.mkenv(fresh=False), "/".join(map(str, l)), key="observer:%s:%s" % (n, "/".join(map(str, l)))))


def ctor(ctx, P, c, wh):
    s = IO(P, c, "bo")
    s.runfn(next(m for m in P.fns if m.get("cls") == c and m.get("ctor") and m.get("body") and not m["p"]))
    ctx.analysed |= s.analysed
    log = s.st.store[LOG]
    for en in (False, True):
        def shape(env, t, k, en=en):
            if t.op == "cfg" and t.args[0].split("::")[-1] == "stats_enabled":
                return en

        def mkenv(seed):
            e = fp.Env(seed, P, None, kinds={**s.kinds, **s.I.kinds}, roots={"bo": c}, shape=shape)
            e.assign[mk("sym", "log")] = []
            return e
        if not en:
            attempt(ctx, "constructor-silent", wh, lambda: holds(ctx, "constructor-silent", wh, silent(s, log), mkenv, "trace", trials=8, need=4, key="constructor-silent"))


def sites(ctx, P, u):
    """backward reachability from file system writes to public operations"""
    callers, bad = {}, []
    allowed = lambda f: "::stat::" in f["q"] or "::serialize::" in f["q"] or "randutils" in f["q"]
    n = 0
    for f in P.fns:
        if not (f.get("repo") and f.get("body")):
            continue
        for x in irwalk(f["body"]):
            g = x.get("fn") if isinstance(x, dict) else None
            if isinstance(g, int):
                callers.setdefault(g, set()).add(f["id"])
                if WRITERS.match(P.fns[g]["q"]) and not P.fns[g].get("copy"):
                    n += 1
                    if not allowed(f):
                        bad.append(f["id"])
    ctx.count("file_system_write_sites", n)
    guarded = {}

    def isguarded(fid):
        """a member function that, with statistics disabled, does nothing to the file system"""
        if fid in guarded:
            return guarded[fid]
        guarded[fid] = False
        f = P.fns[fid]
        try:
            if "cls" not in f or not f.get("body"):
                return False
            s = IO(P, f["cls"], "bo")
            s.runfn(f, [Ref((("arg", i),)) for i in range(len(f["p"]))])
            log = s.st.store[LOG]

            def mkenv(seed):
                e = fp.Env(seed, P, None, kinds={**s.kinds, **s.I.kinds}, roots={"bo": f["cls"]}, shape=lambda env, t, k: False if t.op == "cfg" and t.args[0].split("::")[-1] == "stats_enabled" else None)
                e.assign[mk("sym", "log")] = []
                return e
            v = fp.always(silent(s, log), mkenv, trials=8, need=4)
            guarded[fid] = v.holds is True
        except Exception:
            pass
        return guarded[fid]
    seen, todo, hits = set(), list(bad), []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = P.fns[x]
        if allowed(f) or isguarded(x):
            continue
        if (f.get("pub") or "cls" not in f) and any(p in f["q"] for p in PARTS) and "::tools::" not in f["q"]:
            hits.append(f)
            continue
        todo += callers.get(x, ())
    if not hits:
        ctx.ok("only-statistics", u, "%d call sites write to the file system; none is reachable outside statistics and archives with statistics disabled" % n)
    for f in hits:
        ctx.bad("only-statistics", "%s %s" % (P.where(f), f["q"]), "reaches a call that writes to the file system whatever stats_enabled says", key="only-statistics:" + f["q"])
