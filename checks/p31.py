"""Parameters mean what their declaration says; the small numeric tools what they document."""
from base import *
from ctx import REPO
from link import check_units, place

EXPLANATION = """drivers/macros.cpp declares parameters with every macro of tools/macros.hpp. The functions the macros expand to are value-graph terms:
an array parameter at a symbolic index must be the declared element, a vector parameter the declared vector, a dynamic parameter the value last
set, whatever other parameters were set. Types, lengths (for every number of values from 1 to 63) and use in constant expressions are static_assert
witnesses decided by the type checker; a required parameter left undefined must be rejected by it. make_vector, signum and is_nan_or_inf are terms
compared with their documentation at ordinary and exceptional numbers."""
EXPECT = {"type-level": 200, "declared-value": 13, "dynamic": 10, "rejected": 1, "numeric-tool": 6}
ASSUMPTIONS = ["clang 18 in C++14 mode stands for every supported compiler"]

HEAD = """#include <limbo/tools/macros.hpp>
#include <type_traits>
constexpr bool same(const char* a, const char* b) { return *a == *b && (*a == 0 || same(a + 1, b + 1)); }
"""


def witnesses():
    """(text, what it says): each on lines of its own"""
    out = []
    for i, (t, v) in enumerate([("double", "0.1"), ("double", "1. / 3."), ("int", "-7"), ("bool", "true"), ("size_t", "5000000000ul"), ("float", "0.5f"), ("char", "'x'"), ("long double", "0.1L")]):
        n = "P%d" % i
        out.append(("struct %s { BO_PARAM(%s, a, %s); };\nstatic_assert(std::is_same<decltype(%s::a()), %s>::value, \"\");" % (n, t, v, n, t), "BO_PARAM(%s, a, %s): a() is a %s" % (t, v, t)))
        out.append(("static_assert(P%d::a() == %s, \"\");" % (i, v), "BO_PARAM(%s, a, %s): a() is %s in a constant expression" % (t, v, v)))
    out.append(("struct S1 { BO_PARAM_STRING(s, \"a;b, c\"); BO_PARAM_STRING(e, \"\"); };\nstatic_assert(same(S1::s(), \"a;b, c\"), \"\");", "BO_PARAM_STRING: the declared string"))
    out.append(("static_assert(same(S1::e(), \"\"), \"\");", "BO_PARAM_STRING: the empty string"))
    for n in range(1, 64):
        vs = ", ".join(str(1000 + 7 * k) for k in range(n))
        out.append(("struct A%d { BO_PARAM_ARRAY(int, a, %s); BO_PARAM_VECTOR(double, v, %s); };\nstatic_assert(A%d::a_size() == %d, \"\");" % (n, vs, vs, n, n), "BO_PARAM_ARRAY of %d values: a_size()" % n))
        out.append(("static_assert(std::is_same<decltype(A%d::a(0)), int>::value && std::is_same<A%d::a_t, int>::value, \"\");" % (n, n), "BO_PARAM_ARRAY of %d values: element type and a_t" % n))
        out.append(("static_assert(std::is_same<std::remove_cv<decltype(A%d::v())>::type, Eigen::Matrix<double, %d, 1>>::value, \"\");" % (n, n), "BO_PARAM_VECTOR of %d values: its type" % n))
    out.append(("struct D1 { BO_DYN_PARAM(int, i); BO_DYN_PARAM(double, x); };\nBO_DECLARE_DYN_PARAM(int, D1, i);\nBO_DECLARE_DYN_PARAM(double, D1, x);\nstatic_assert(std::is_same<decltype(D1::i()), int>::value && std::is_same<decltype(D1::x()), double>::value, \"\");", "BO_DYN_PARAM: the declared types"))
    return out


def run(ctx):
    R = ctx.rule
    R("type-level", "types, lengths and constant expressions of declared parameters")
    R("declared-value", "a parameter is the declared value, element by element")
    R("dynamic", "a dynamic parameter is the value last set, independently of the others")
    R("rejected", "a required parameter that is not defined does not compile")
    R("numeric-tool", "make_vector, signum and is_nan_or_inf are what they document")
    ws = witnesses()
    text, line, at = HEAD, HEAD.count("\n") + 1, {}
    for i, (t, w) in enumerate(ws):
        for k in range(t.count("\n") + 1):
            at[line + k] = i
        line += t.count("\n") + 1
        text += t + "\n"
    text += "int user() { return 0; }\n"
    req = "#include <limbo/tools/macros.hpp>\nstruct R { BO_REQUIRED_PARAM(int, a); };\nint user() { return R::a(); }\n"
    plain = "#include <limbo/tools/macros.hpp>\nint user() { return 0; }\n"
    rep = check_units({"witnesses": (text, []), "required": (req, []), "plain": (plain, [])}, REPO + "/src/limbo/")
    H = REPO + "/src/limbo/tools/macros.hpp"
    failed = {}
    other = []
    for e in rep["witnesses"]["errors"]:
        ls = [x["line"] for x in [e] + e["stack"] if x.get("file", "").endswith("witnesses.cpp")]
        i = next((at[l] for l in ls if l in at), None)
        if i is None:
            other.append(e["msg"])
        else:
            failed.setdefault(i, e["msg"])
    for i, (t, w) in enumerate(ws):
        if i in failed:
            ctx.bad("type-level", H + ": " + w, "%s: %s" % (w, failed[i]), "type-level:" + w)
        elif other:
            ctx.undecided("type-level", H + ": " + w, other[0])
        else:
            ctx.ok("type-level", H + ": " + w, "type-checks")
    if rep["plain"]["errors"]:
        ctx.undecided("rejected", H, "the header does not type-check: " + rep["plain"]["errors"][0]["msg"])
    else:
        ctx.check(bool(rep["required"]["errors"]), "rejected", H, "BO_REQUIRED_PARAM left undefined: " + (rep["required"]["errors"][0]["msg"] if rep["required"]["errors"] else "type-checks"), "rejected:BO_REQUIRED_PARAM")
    values(ctx)


def values(ctx):
    P = ctx.prog("mac")
    fns = {f["q"]: f for f in P.fns if f.get("body") is not None and (f["q"].startswith("Decl::") or f["q"].startswith("use_"))}
    seen = set()

    def term(q, *args, st=None):
        I = Interp(P)
        r, st = I.run(fns[q], args=list(args), st=st)
        seen.update(I.inlined)
        return I.asT(r, st), st
    K, V, W = mk("sym", "index"), mk("sym", "value"), mk("sym", "value2")
    kinds = {K: "int", V: "int", W: "int"}

    def env(assign=None):
        def mkenv(seed):
            r = rng(seed, "p31")
            a = {V: r.randint(-9, 9), W: r.randint(-9, 9)}
            a.update(assign(seed) if assign else {})
            return fp.Env(seed, P, None, kinds=kinds, roots={}, assign=a)
        return mkenv

    def go(rule, q, a, b, w, e=None):
        wh = "%s (%s)" % (P.where(fns[q]) if q in fns else "src/limbo/tools", q)
        attempt(ctx, rule, wh, lambda: eq(ctx, rule, wh, a, b, e or env(), w, trials=16, key=rule + ":" + w))
    for q, v in (("one::a", 0.1), ("one::b", -7), ("one::t", 1), ("one::n", 5000000000)):
        attempt(ctx, "declared-value", q, lambda: go("declared-value", "Decl::" + q, term("Decl::" + q)[0], lambda e: v, "Decl::%s() is %s" % (q, v)))
    for n, vs in (("1", [1.5]), ("2", [1.5, -2.25]), ("6", [11, 12, 13, 14, 15, 16])):
        q = "Decl::arrays::a" + n
        e = env(lambda seed: {K: seed % len(vs)})
        attempt(ctx, "declared-value", q, lambda: go("declared-value", q, term(q, K)[0], lambda e: vs[e.integer(e.ev(K))], "element of an array of " + n, e))
        attempt(ctx, "declared-value", q, lambda: go("declared-value", q + "_size", term(q + "_size")[0], lambda e: len(vs), "size of an array of " + n))
        q2 = "Decl::arrays::v" + n
        attempt(ctx, "declared-value", q2, lambda: go("declared-value", q2, term(q2)[0], lambda e: np.array(vs, dtype=float).reshape(-1, 1), "vector of " + n))

    def dyn():
        D = ("one::i", "one::j", "one::x", "two::i")
        names = lambda d: "Decl::" + d
        sets = lambda d: "Decl::" + d.replace("::", "::set_", 1)
        for d in D:
            for o in D:
                I = Interp(P)
                st = State()
                r, st = I.run(fns[sets(o)], args=[W], st=st)
                r, st = I.run(fns[sets(d)], args=[V], st=st)
                if o != d:
                    r, st = I.run(fns[sets(o)], args=[W], st=st)
                r, st = I.run(fns[names(d)], args=[], st=st)
                seen.update(I.inlined)
                go("dynamic", names(d), I.asT(r, st), V, "%s after set to v, %s set %s" % (d, o, "before" if o == d else "before and after"))
    attempt(ctx, "dynamic", "BO_DYN_PARAM", dyn)
    X = mk("sym", "number")
    LV = mk("sym", "numbers")
    SPECIAL = (float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1e-300, -3.5, 2.25, 1e300)

    def num(vals, kind):
        kinds[X] = kind
        return env(lambda seed: {X: vals[seed % len(vals)]})
    go2 = lambda q, spec, w, e: attempt(ctx, "numeric-tool", q, lambda: go("numeric-tool", q, term(q, X)[0], spec, w, e))
    sgn = lambda e: int(np.sign(e.ev(X)))
    go2("use_signum", sgn, "signum of a double", num((0.0, -3.5, 2.25, 1e-300, -1e-300, 1e300), "scalar"))
    go2("use_signum_i", sgn, "signum of an int", num((0, -3, 5, 1, -1), "int"))
    go2("use_signum_u", sgn, "signum of an unsigned", num((0, 3, 1), "int"))
    ni = lambda e: bool(not np.isfinite(e.ev(X)))
    go2("use_nan_inf", ni, "is_nan_or_inf of a number", num(SPECIAL, "scalar"))

    def vec(seed):
        r = rng(seed, "vec")
        n = seed % 4
        x = np.array([[r.uniform(-2, 2)] for _ in range(n)]).reshape(n, 1)
        if n and seed % 8 > 3:
            x[r.randrange(n), 0] = SPECIAL[r.randrange(3)]
        return {LV: x}
    kinds[LV] = "vec"
    attempt(ctx, "numeric-tool", "use_nan_inf_v", lambda: go("numeric-tool", "use_nan_inf_v", term("use_nan_inf_v", LV)[0], lambda e: bool(not np.isfinite(e.ev(LV)).all()), "is_nan_or_inf of a vector", env(vec)))
    go2("use_make_vector", lambda e: np.array([[e.ev(X)]]), "make_vector", num((0.5, -1.25, 3.0), "scalar"))
    ctx.analysed |= seen
