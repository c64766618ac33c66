"""The parallel helpers compute the sequential result under every schedule."""
from base import *

EXPLANATION = """Each helper of tools/parallel.hpp is analysed, with and without TBB, through driver functions whose bodies, comparators and containers have
a known sequential meaning. What they return (for replicate: the log of the calls) is a term of the value graph; a TBB reduction is a term that is
interpreted under random schedules (random trees of splits, folds and joins as TBB documents them), and every interpretation must give what the
sequential definition of the helper prescribes."""
EXPECT = {"sequential-result": 14}
ASSUMPTIONS = ["TBB runs the body of parallel_for once per index and parallel_reduce as a tree of splits and joins, as documented", "the body's iterations are independent (P13 decides this for the library's own bodies)"]
LOG = (("G", "calls"),)


def run(ctx):
    ctx.rule("sequential-result", "the helper's result is that of the sequential definition: every index once, the extremum of the initial value and all f(i), the sorted range, n calls, the same elements")
    ctx.need("core", "coreT")
    ctx.pmap(one, [(u, n) for u in ("core", "coreT") for n in SPEC])


def v0(e):
    return [float(np.real(x)) for x in e.ev(mk("sym", "v"))]


def loop(e):
    a, b = e.ev(mk("sym", "a")), e.ev(mk("sym", "b"))
    return [2 * x + i + 1 if a <= i < b else x for i, x in enumerate(v0(e))]


def ext(f):
    def g(e):
        return f([e.ev(mk("sym", "init"))] + v0(e)[:e.ev(mk("sym", "n"))])
    return g


SPEC = {"par_loop": loop, "par_for_each": lambda e: [2 * x + 1 for x in v0(e)], "par_max": ext(max), "par_min": ext(min),
        "par_sort": lambda e: sorted(v0(e), reverse=True), "par_sort_part": lambda e: sorted(v0(e)[:e.ev(mk("sym", "k"))]) + v0(e)[e.ev(mk("sym", "k")):],
        "par_replicate": lambda e: ["call"] * e.ev(mk("sym", "n")), "par_convert": v0}


def one(ctx, item):
    u, n = item
    P = ctx.prog(u)
    fs = [f for f in P.fns if f["n"] == n and f.get("body")]
    wh = "src/limbo/tools/parallel.hpp: %s%s" % (n.replace("par_", ""), " (TBB)" if u == "coreT" else "")

    def body():
        I = Interp(P)
        st = State()
        st.store[LOG] = mk("empty")

        def hook(I, fn, obj, args, e, st):
            if fn["q"] == "Times::operator()":
                I.record_write(LOG)
                st.store[LOG] = mk("push", st.store[LOG], mk("str", "call"))
                return mk("opaque", "void")
            return None
        I.hook = hook
        r, st = I.run(fs[0], None, [mk("sym", p["n"]) for p in fs[0]["p"]], st)
        t = st.store[LOG] if n == "par_replicate" else I.asT(r, st)
        ctx.analysed |= I.inlined
        kinds = {mk("sym", p["n"]): "int" if P.typ(p["t"]).get("b") == "int" else "num" for p in fs[0]["p"]}
        kinds[mk("sym", "v")] = ("list", "num")
        kinds.update(I.kinds)

        def mkenv(seed):
            q = rng(seed, "par")
            m = q.randrange(0, 9)
            e = fp.Env(seed, P, None, kinds=kinds)
            a = q.randrange(0, m + 1)
            v = [q.uniform(-3, 3) for _ in range(m)]
            if seed % 3 == 0:
                v = [float(q.randrange(-2, 3)) for _ in range(m)]
            e.assign.update({mk("sym", "v"): v, mk("sym", "a"): a, mk("sym", "b"): q.randrange(a, m + 1), mk("sym", "n"): m,
                             mk("sym", "k"): q.randrange(0, m + 1), mk("sym", "init"): q.uniform(-5, 5)})
            return e

        def pred(e):
            got, want = e.ev(t), SPEC[n](e)
            if isinstance(got, fp.Opq):
                raise fp.Undef("result")
            got = [x if isinstance(x, str) else float(np.real(x)) for x in got] if isinstance(want, list) else float(np.real(got))
            return got == want, "gives %s instead of %s" % (str(got)[:80], str(want)[:80])
        holds(ctx, "sequential-result", wh, pred, mkenv, "result", trials=40 if ctx.tier == "quick" else 400, key="sequential-result:%s:%s" % (n, u))
    attempt(ctx, "sequential-result", wh, body)
