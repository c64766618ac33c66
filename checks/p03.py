"""Where the results go."""
from statbase import *
from p02 import is_bo

EXPLANATION = """The paths a statistic opens are string terms over the optimizer's result directory and its iteration counters. They are interpreted over
arbitrary states and must be the documented file names inside res_dir(), one per statistic (and per iteration for the ones that
keep a file per iteration), opened once. The directory the constructor makes must be the one res_dir() returns, named after host, date and process."""
EXPECT = {"inside": 60, "name": 60, "once": 30, "distinct": 2, "directory": 8, "unique": 8}
ASSUMPTIONS = ["a file opened by a statistic object stays open (the object keeps the stream)"]


def run(ctx):
    R = ctx.rule
    R("inside", "every file a statistic opens is inside the optimizer's res_dir()")
    R("name", "its name is the documented one")
    R("once", "a statistic that keeps one file for the whole run opens it once, and never again (which would truncate it)")
    R("distinct", "different statistics write different files, and a file per iteration has a different name at every iteration")
    R("directory", "constructing an optimizer with statistics enabled creates exactly the directory res_dir() returns")
    R("unique", "the directory is named after host name, date and process id, so concurrent runs do not share it")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        items += [("stat", u, c, m) for c, m in stat_methods(P)]
        items += [("ctor", u, c, None) for c in range(len(P.classes)) if is_bo(P, c)]
        items += [("distinct", u, None, None)]
    ctx.pmap(one, items)


def one(ctx, item):
    kind, u, c, fid = item
    P = ctx.prog(u)
    if kind == "stat":
        f = P.fns[fid]
        n = P.classes[c]["q"].split("::")[-1]
        wh = "%s %s on %s, %s" % (P.where(f), n, short_ta(P, P.typ(f["p"][0]["t"]).get("rid")), P.typ(f["p"][1]["t"])["s"].replace("const ", "").replace(" &", ""))
        attempt(ctx, "inside", wh, lambda: stat(ctx, P, c, fid, n, wh))
    elif kind == "ctor":
        wh = "%s %s" % (P.classes[c]["q"].replace("limbo::", ""), short_ta(P, c))
        attempt(ctx, "directory", wh, lambda: ctor(ctx, P, c, wh))
    else:
        attempt(ctx, "distinct", u, lambda: distinct(ctx, P, u))


BENCH = ("pareto_model_%d.dat", "pareto_model_real_%d.dat", "pareto_data_%d.dat", "obs_%d.dat")


def expected(n, it, cur):
    f = FILES.get(n)
    if n == "ParetoBenchmark":
        return {x % cur for x in BENCH}
    if f is None:
        return set()
    return {f % (it if n == "GP" else cur)} if "%d" in f else {f}


def stat(ctx, P, c, fid, n, wh):
    tr = 20 if ctx.tier == "quick" else 80
    per = n in ("GP", "ParetoFront", "ParetoBenchmark")
    for fresh in (True, False):
        s = Stat(P, c, fid, fresh=fresh)
        ctx.analysed |= s.analysed
        t0 = State()
        tot, cur = (s.I.asT(Ref(s.loc[x]), t0) for x in ("total_iterations", "current_iteration"))
        st = "first call" if fresh else "later call"

        def paths(e):
            opened, out = outputs(e, s.log)
            if any(not isinstance(x, str) for x in opened):
                raise fp.Undef("path of unknown text")
            return opened

        def inside(e):
            for x in paths(e):
                if not x.startswith(RES + "/"):
                    return False, "opens %s, outside the result directory %s" % (x, RES)
            return True, ""

        def name(e):
            o = paths(e)
            want = expected(n, e.integer(e.ev(tot)), e.integer(e.ev(cur)))
            got = {x[len(RES) + 1:] if x.startswith(RES + "/") else x for x in o}
            if n not in FILES and n != "ParetoBenchmark":
                return True, ""
            if not fresh and not per:
                return got <= want, "opens %s, not %s" % (sorted(got), sorted(want))
            return got == want, "opens %s, not %s" % (sorted(got), sorted(want))

        def once(e):
            o = paths(e)
            if not per and not fresh:
                return not o, "opens %s again: what was written is lost" % ", ".join(o)
            return len(set(o)) == len(o), "opens a file twice in one call: %s" % ", ".join(o)
        for r, t in (("inside", inside), ("name", name), ("once", once)):
            attempt(ctx, r, wh, lambda: holds(ctx, r, wh, t, s.mkenv(fresh=fresh), st, trials=tr, need=6, key="%s:%s" % (r, n)))
        if not fresh and not per:
            # a new optimisation with the same object
            attempt(ctx, "once", wh, lambda: holds(ctx, "once", wh, once, s.mkenv(fresh=False, it=0), "iteration 0 again", trials=tr, need=6, key="once:" + n))


def distinct(ctx, P, u):
    """two statistics of the same optimizer never open the same file; nor does one at two iterations"""
    by = {}
    for c, fid in stat_methods(P):
        by.setdefault(P.typ(P.fns[fid]["p"][0]["t"]).get("rid"), []).append((c, fid))
    seen = set()
    for bo, ms in by.items():
        names = {}
        for c, fid in ms:
            n = P.classes[c]["q"].split("::")[-1]
            if (n, P.fns[fid]["p"][1]["t"]) in seen and len(ms) < 3:
                continue
            seen.add((n, P.fns[fid]["p"][1]["t"]))
            for k in (1, 2, 3):
                s = Stat(P, c, fid, fresh=True)
                try:
                    opened, _ = outputs(s.mkenv(fresh=False, it=k)(k), s.log)
                except fp.Undef:
                    continue
                for x in opened:
                    names.setdefault((k, x), set()).add(n)
                    if "%d" in str(FILES.get(n)):
                        names.setdefault((0, x), set()).add((n, tuple(opened)))
        hits = [(x, v) for (k, x), v in names.items() if k and len(v) > 1]
        if hits:
            ctx.bad("distinct", "%s" % short_ta(P, bo), "%s all write %s" % (sorted(hits[0][1]), hits[0][0]), key="distinct:" + ",".join(sorted(hits[0][1])))
        else:
            ctx.ok("distinct", "%s %s" % (u, short_ta(P, bo)), "%d files of %d statistics" % (len({x for k, x in names}), len(ms)))


class CtorIO(IO):
    def hook(self, I, fn, obj, args, e, st):
        if fn["q"] in ("limbo::tools::hostname", "limbo::tools::date", "limbo::tools::getpid"):
            return mk("call", fn["q"])
        return self.io(I, fn, obj, args, e, st)


def ctor(ctx, P, c, wh):
    s = CtorIO(P, c, "bo")
    s.runfn(next(m for m in P.fns if m.get("cls") == c and m.get("ctor") and m.get("body") and not m["p"]))
    ctx.analysed |= s.analysed
    log = s.st.store[LOG]
    res = s.I.asT(s.call("res_dir"), s.st)

    def shape(env, t, k):
        if t.op == "cfg" and t.args[0].split("::")[-1] == "stats_enabled":
            return True
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("limbo::tools::"):
            return "%s%d" % (t.args[0].split("::")[-1], env.rnd(t.args[0]).randrange(1000))

    def mkenv(seed):
        e = fp.Env(seed, P, None, kinds={**s.kinds, **s.I.kinds}, roots={"bo": c}, shape=shape)
        e.assign[mk("sym", "log")] = []
        return e

    def directory(e):
        made = []
        for x in e.ev(log):
            if isinstance(x, fp.Opq):
                raise fp.Undef("opaque effect")
            if x[1] == "mkdir":
                made.append(x[2])
        r = e.ev(res)
        if any(not isinstance(x, str) for x in made) or not isinstance(r, str):
            raise fp.Undef("path of unknown text")
        return made == [r] and r != "", "creates %s but results go to '%s'" % (made, r)

    def unique(e):
        r = e.ev(res)
        if not isinstance(r, str):
            raise fp.Undef("path of unknown text")
        for n in ("hostname", "date", "getpid"):
            if "%s%d" % (n, e.rnd("limbo::tools::" + n).randrange(1000)) not in r:
                return False, "the directory %s does not contain the %s" % (r, n)
        return True, ""
    attempt(ctx, "directory", wh, lambda: holds(ctx, "directory", wh, directory, mkenv, "directory", trials=8, need=4, key="directory"))
    attempt(ctx, "unique", wh, lambda: holds(ctx, "unique", wh, unique, mkenv, "directory name", trials=8, need=4, key="unique"))
