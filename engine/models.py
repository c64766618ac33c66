"""Transfer functions for the library code the repository calls (standard library, Eigen,
boost, TBB, nlopt).  Anything not listed is treated as opaque: its result is an
uninterpreted function of its arguments and every object it could modify is havocked."""
import re
from fractions import Fraction
from terms import *
import interp as IM
from interp import Ref, Closure, FnV, State, size, rows, cols, at, get, itadd, default_value

_strip = re.compile(r"<.*")


def short(q):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", q)))


def cname(q):
    return q


PURE_FREE = {
    "sqrt": "sqrt", "std::sqrt": "sqrt", "log": "log", "std::log": "log", "exp": "exp", "std::exp": "exp", "erfc": "erfc", "std::erfc": "erfc",
    "fabs": "abs", "std::abs": "abs", "std::fabs": "abs", "abs": "abs", "floor": "floor", "std::floor": "floor", "ceil": "ceil", "std::ceil": "ceil",
    "cos": "cos", "sin": "sin", "std::cos": "cos", "std::sin": "sin", "std::isnan": "isnan", "std::isinf": "isinf", "isnan": "isnan", "isinf": "isinf",
    "std::isfinite": "isfinite", "isfinite": "isfinite", "std::round": "round", "round": "round", "std::erf": "erf", "erf": "erf", "tgamma": "tgamma", "std::tgamma": "tgamma",
    "log2": "log2", "std::log2": "log2", "std::log10": "log10", "log10": "log10", "std::log1p": "log1p", "std::exp2": "exp2", "fmod": "fmod", "std::fmod": "fmod",
    "tan": "tan", "std::tan": "tan", "std::tanh": "tanh", "tanh": "tanh", "atan2": "atan2", "std::atan2": "atan2", "std::hypot": "hypot", "std::cbrt": "cbrt", "std::trunc": "ftrunc",
}


def f_sqrt(x):
    if is_num(x) and x.args[0] >= 0:
        n, d = x.args[0].numerator, x.args[0].denominator
        from math import isqrt
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return const(Fraction(isqrt(n), isqrt(d)))
    return mk("sqrt", x)


def f_pow(a, b):
    if is_num(b) and b.args[0].denominator == 1 and abs(b.args[0]) <= 8:
        n = int(b.args[0])
        r = ONE
        for _ in range(abs(n)):
            r = mul(r, a)
        return r if n >= 0 else inv(r)
    if is_num(b) and b.args[0] == Fraction(1, 2):
        return f_sqrt(a)
    return mk("pow", a, b)


def f_max(a, b):
    if is_num(a) and is_num(b):
        return a if a.args[0] >= b.args[0] else b
    if a is b:
        return a
    return mk("max", *sorted((a, b), key=lambda t: t.id))


def f_min(a, b):
    if is_num(a) and is_num(b):
        return a if a.args[0] <= b.args[0] else b
    if a is b:
        return a
    return mk("min", *sorted((a, b), key=lambda t: t.id))


def f_isnan(x):
    if is_num(x):
        return FALSE
    return mk("isnan", x)


def f_isinf(x):
    if is_num(x):
        return FALSE
    return mk("isinf", x)


def f_isfinite(x):
    return AND(NOT(f_isnan(x)), NOT(f_isinf(x)))


REBUILD["sqrt"] = f_sqrt
REBUILD["pow"] = f_pow
REBUILD["max"] = f_max
REBUILD["min"] = f_min
REBUILD["isnan"] = f_isnan
REBUILD["isinf"] = f_isinf


def emat(n, m, v):
    """constant matrix"""
    return mk("mconst", n, m, v)


def madd(a, b):
    if a.op == "mconst" and a.args[2] is ZERO:
        return b
    if b.op == "mconst" and b.args[2] is ZERO:
        return a
    return add(a, b)


def is_eigen(t):
    r = t.get("rec", "")
    return r.startswith("Eigen::") and not t.get("ptr")


def is_scalar(t):
    return t.get("b") in ("int", "float", "bool", "enum") and not t.get("ptr")


def is_array_type(t):
    return bool(re.match(r"Eigen::(Array|ArrayWrapper|CwiseNullaryOp)", t.get("rec", "")))


# -------------------------------------------------------------------------------- helpers
def world(I, st, node):
    loc = (("G", "world"),)
    v = I.readloc(st, loc)
    v = v if isinstance(v, T) else mk("init", loc)
    I.record_write(loc)
    st.store[loc] = mk("tick", v)
    return v


def havoc_arg(I, st, a, tag, node):
    """an argument the callee may modify"""
    if isinstance(a, Ref):
        old = I.asT(a, st)
        I.write(st, a, mk("modby", tag, old), node, "ext")


READONLY_ALGOS = {"find", "find_if", "find_if_not", "count", "count_if", "min_element", "max_element", "minmax_element", "equal", "accumulate", "inner_product",
                  "any_of", "all_of", "none_of", "is_sorted", "lower_bound", "upper_bound", "binary_search", "distance", "advance", "next", "prev", "begin", "end",
                  "mismatch", "search", "adjacent_find", "includes", "lexicographical_compare", "reduce", "cbegin", "cend", "is_permutation"}


def n_(fn):
    return fn["n"]


def havoc_closure(I, st, c, tag, node):
    """a closure the callee may call any number of times: whatever it writes is unknown afterwards"""
    s2 = st.copy()
    I.silent += 1
    ex, I.exits = I.exits, []
    try:
        f = c.fn
        callv(I, c, [mk("opaque", "elem%d" % i) for i in range(len(f.get("p", ())))], node, s2)
        locs = [l for l in s2.store if s2.store[l] is not st.store.get(l) and (l in st.store or not (isinstance(l[0], tuple) and l[0][0] in ("L", "tmp", "ret", "arg")))]
    except Exception:
        locs = [l for l in st.store if not isinstance(st.store[l], Closure)]
    finally:
        I.silent -= 1
        I.exits = ex
    for l in locs:
        old = st.store.get(l)
        if old is None or isinstance(old, T):
            I.record_write(l)
            st.store[l] = mk("modby", tag, old if old is not None else mk("init", l))


def container(a, I, st):
    """container term & reference for an object operand"""
    return a


def mkiter(obj, I, st, pos):
    if isinstance(obj, Ref):
        obj = I.deref_chain(st, obj)
        return mk("iter", mk("addr", obj.loc, obj.sels), pos)
    return mk("iter", I.asT(obj, st), pos)


def iter_cont(it, I, st):
    c = it.args[0]
    if c.op == "addr":
        return I.asT(Ref(c.args[0], c.args[1]), st)
    return c


def iter_elem(I, st, it):
    return I.iter_deref(it, st)


def callv(I, f, args, node, st, hint=None):
    """apply a callable argument to values"""
    if isinstance(f, Ref):
        v = I.read(st, f)
        if isinstance(v, (Closure, FnV)):
            f = v
    if isinstance(f, (Closure, FnV)):
        if isinstance(f, Closure) and f.fn.get("body") is None or isinstance(f, Closure) and f.fn.get("generic"):
            return I.invoke_callable(f, args, node, st)
        return I.invoke_callable(f, args, node, st)
    if isinstance(f, Ref) and hint is not None:
        return I.invoke(hint, f, args, node, st)
    return I.invoke_callable(f, args, node, st)


def functor_fn(I, tinfo, nargs, argtype=None):
    """operator() of a functor class"""
    if tinfo.get("b") != "rec":
        return None
    c = I.p.classes[tinfo["rid"]]
    ms = [m for m in I.p.methods(tinfo["rid"]) if m["n"] == "operator()" and len(m["p"]) == nargs]
    bodies = [m for m in ms if m.get("body")]
    if len(bodies) == 1:
        return bodies[0]
    if argtype is not None:
        for m in bodies:
            if any(I.T(p["t"]).get("rec") == argtype.get("rec") and I.T(p["t"])["s"].replace("const ", "").replace(" &", "") == argtype["s"].replace("const ", "").replace(" &", "") for p in m["p"]):
                return m
    return bodies[0] if bodies else (ms[0] if ms else None)


def seq_loop(I, node, st, n, body, tag=0, par=False, lo=None):
    """run body(i, state) for lo <= i < n as a counting loop"""
    il = (("L", I.fr.id, ("ml", id(node), tag)),)
    st.store[il] = lo if lo is not None else ZERO
    I.nodes_keep.append(node)

    def cond(x):
        return lt(I.readloc(x, il), n, True)

    def bd(x):
        if par and I.on_access:
            r = IM.Region(node, I.fr.fn)
            r.idx = I.readloc(x, il)
            I.par.append(r)
            try:
                body(r.idx, x)
            finally:
                I.par.pop()
            return
        body(I.readloc(x, il), x)

    def inc(x):
        I.record_write(il)
        x.store[il] = add(I.readloc(x, il), ONE)
    import loops
    k0 = len(I.events)
    pseudo = I.pseudo(node, tag)
    loops.run_loop(I, pseudo, st, cond, bd, inc)
    if par and not I.silent:
        for e in I.events[k0:]:
            if e.k == "loop" and e.node is pseudo:
                e.d["par"] = True
    st.store.pop(il, None)


# -------------------------------------------------------------------------------- constructors
def construct(I, fn, t, args, e, st):
    q = short(fn["q"])
    rec = t.get("rec", "")
    A = args

    def tv(i):
        return I.asT(A[i], st)
    if rec.startswith("std::vector") or rec.startswith("std::deque") or rec.startswith("std::list") or "concurrent_vector" in rec:
        A2 = [a for a in A]
        if not A2:
            return mk("empty")
        p0 = I.T(fn["p"][0]["t"]) if fn["p"] else {}
        if p0.get("rec", "").startswith("std::initializer_list"):
            x = tv(0)
            return x if x.op == "list" and x.args else (mk("empty") if x.op == "list" else mk("fromlist", x))
        if e.get("copy") or e.get("move") or p0.get("rec", "") == rec:
            return tv(0)
        if is_scalar(p0):
            el = I.p.typ(t.get("el")) if t.get("el") is not None else {}
            if len(A2) >= 2 and len(fn["p"]) >= 2 and "allocator" not in I.T(fn["p"][1]["t"])["s"]:
                return mk("vecn", tv(0), tv(1))
            return mk("vecn", tv(0), default_elem(t["s"]))
        if len(A2) >= 2:
            a, b = data_iter(tv(0), True), data_iter(tv(1), True)
            if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
                c = iter_cont(a, I, st)
                if a.args[1] is ZERO and b.args[1] is size(c):
                    return c
                return mk("slice", c, a.args[1], b.args[1])
        if "allocator" in p0.get("s", ""):
            return mk("empty")
        return mk("ctor", q, *[I.asT(a, st) for a in A])
    if rec.startswith("Eigen::"):
        if not A:
            return mk("emat")
        if rec.startswith("Eigen::Map") and len(A) > 1:   # the elements of another matrix, in storage order
            ta = (I.p.classes[fn["cls"]].get("ta") or []) if "cls" in fn else []
            ns = [tv(i) for i in range(1, len(A)) if is_scalar(I.T(fn["p"][i]["t"]))]
            lay = re.match(r"(const )?Eigen::(?:Matrix|Array)<double, -1, (-1|1)(?:, (\d+)[^>]*)?>$", ta[0] if ta else "")
            d = tv(0)
            fix = re.match(r"const Eigen::Matrix<\w[\w ]*, (\d+), 1>$", ta[0] if ta else "")
            if fix and d.op == "list" and not ns and int(fix.group(1)) <= len(d.args) and ta[2:] == ["Eigen::Stride<0, 0>"]:
                return mk("comma", *d.args[:int(fix.group(1))])
            if lay and d.op == "data" and ta[2:] == ["Eigen::Stride<0, 0>"]:
                b = d.args[0]
                if lay.group(2) == "1" and len(ns) == 1:
                    if b.op == "addr":
                        I.emit("map", e, ref=Ref(b.args[0], b.args[1]), n=ns[0])
                        return Ref(b.args[0], b.args[1] + (("view", "map"),))
                    return b
                b = I.asT(Ref(b.args[0], b.args[1]), st) if b.op == "addr" else b
                if lay.group(2) == "-1" and len(ns) == 2:
                    if int(lay.group(3) or 0) & 1:
                        return transpose(mk("reshaped", b, ns[1], ns[0]))
                    return mk("reshaped", b, ns[0], ns[1])
        p0 = I.T(fn["p"][0]["t"]) if fn["p"] else {}
        if len(A) == 1:
            at0 = I.T(e["a"][0].get("t", -1)) if e.get("a") else {}
            if is_scalar(at0):
                if rec.startswith("Eigen::Matrix") or rec.startswith("Eigen::Array") or rec.startswith("Eigen::PermutationMatrix"):
                    return mk("resized", mk("emat"), tv(0), mk("uninitm"))
                return mk("ctor", q, tv(0))
            if re.match(r"Eigen::(LLT|PartialPivLU|FullPivLU|SelfAdjoint|ColPiv|LDLT)", rec):
                return mk("decomp", q.split("::")[1], tv(0))
            return as_column(I, fn, tv(0))
        if len(A) == 2 and (rec.startswith("Eigen::Matrix") or rec.startswith("Eigen::Array")):
            return mk("resized2", mk("emat"), tv(0), tv(1), mk("uninitm"))
        return mk("ctor", q, *[I.asT(a, st) for a in A])
    if rec.startswith("std::pair") or rec.startswith("std::tuple"):
        if (e.get("copy") or e.get("move")) and len(A) == 1:
            return tv(0)
        if len(A) == 1 and re.match(r"std::(pair|tuple)", I.T(e["a"][0].get("t", -1)).get("rec", "")):
            return tv(0)
        if not A:
            return mk("tuple", ZERO, ZERO) if rec.startswith("std::pair") else mk("obj", rec)
        return mk("tuple", *[I.asT(a, st) for a in A])
    if rec.startswith("std::basic_string"):
        if not A:
            return mk("str", "")
        return tv(0)
    if rec.startswith("__gnu_cxx::__normal_iterator") or rec.startswith("std::move_iterator"):
        return tv(0) if A else mk("opaque", "iter")
    if rec.startswith("boost::optional"):
        if not A:
            return mk("none")
        p0 = I.T(fn["p"][0]["t"]) if fn["p"] else {}
        if e.get("copy") or e.get("move") or "none_t" in p0.get("s", ""):
            return mk("none") if "none_t" in p0.get("s", "") else tv(0)
        return mk("some", tv(0))
    if rec.startswith("std::function"):
        return A[0] if A and not isinstance(A[0], Ref) else (I.read(st, A[0]) if A else mk("opaque", "fn"))
    if "shared_ptr" in rec or "unique_ptr" in rec:
        if not A:
            return mk("null")
        return tv(0)
    if "blocked_range" in rec:
        if e.get("copy") or len(A) == 1:
            return tv(0)
        return mk("range", *[I.asT(a, st) for a in A[:2]])
    if e.get("copy") or e.get("move"):
        if A:
            v = I.rv(A[0], st)
            return v
    if rec.startswith("boost::fusion::vector") or rec.startswith("std::allocator") or rec.startswith("std::less"):
        return mk("obj", rec)
    if rec.startswith("std::initializer_list"):
        return tv(0) if A else mk("empty")
    ts = tuple(I.asT(a, st) for a in A)
    if I.hook and re.match(r"std::basic_o?fstream", rec):
        r = I.hook(I, fn, None, A, e, st)
        if r is not None:
            return r
    r = mk("ctor", rec.split("<")[0], *ts)
    if re.match(r"std::(lock_guard|unique_lock|scoped_lock)", rec) and A and isinstance(A[0], Ref):
        I.locks.append(I.deref_chain(st, A[0]).loc)
        return r
    if rec.startswith("std::basic_ofstream") or rec.startswith("std::basic_ifstream") or "random_device" in rec or "system_clock" in rec or "nlopt" in rec or "mutex" in rec or "lock_guard" in rec or "unique_lock" in rec or "filesystem" in rec:
        I.emit("ext", e, callee=fn, q=q, obj=None, args=ts, argv=A, result=r, ctor=True)
    if "random_device" in rec:
        r = mk("ctor", rec, world(I, st, e))
    # arguments taken by non-const reference
    for a, p in zip(A, fn["p"]):
        pt = I.T(p["t"])
        if pt.get("ref") and not pt.get("const") and isinstance(a, Ref) and not pt["s"].endswith("&&"):
            havoc_arg(I, st, a, q, e)
    return r


# -------------------------------------------------------------------------------- calls
def call(I, fn, obj, args, e, st):
    q = short(fn["q"])
    n = fn["n"]
    if n in META and obj is not None and I.on_access:
        I.quiet += 1
        try:
            return call_(I, fn, q, n, obj, args, e, st)
        finally:
            I.quiet -= 1
    if q.startswith("std::mutex::") and isinstance(obj, Ref):
        o = I.deref_chain(st, obj).loc
        if n == "lock":
            I.locks.append(o)
        elif n == "unlock" and o in I.locks:
            I.locks.remove(o)
        if n in ("lock", "unlock"):
            return mk("opaque", "void")
    if q.startswith("std::unique_lock::") and isinstance(obj, Ref) and n == "unlock" and I.locks:
        I.locks.pop()
        return mk("opaque", "void")
    return call_(I, fn, q, n, obj, args, e, st)


META = {"size", "rows", "cols", "empty", "begin", "end", "cbegin", "cend", "data", "capacity", "length"}


def call_(I, fn, q, n, obj, args, e, st):
    m = HANDLERS.get(q)
    if m is not None and q.startswith("std::") and "cls" not in fn:
        args = [functor_arg(I, e, i, data_iter(a) if isinstance(a, T) else a, st) if isinstance(a, (T, Ref)) else a for i, a in enumerate(args)]
    if m is None:
        c = q.rsplit("::", 1)[0]
        for pre, h in PREFIX:
            if q.startswith(pre):
                r = h(I, fn, n, obj, args, e, st)
                if r is not None:
                    return r
        return default_call(I, fn, q, obj, args, e, st)
    r = m(I, fn, n, obj, args, e, st)
    if r is None:
        return default_call(I, fn, q, obj, args, e, st)
    return r


IMPURE = {"rand", "std::rand", "time", "std::time", "srand", "std::srand", "clock", "std::chrono::system_clock::now", "getpid", "std::random_device::operator()", "Obj::operator()", "std::this_thread::get_id",
          "__builtin_readcyclecounter", "__rdtsc"}


def default_elem(s):
    """value of the elements of a container built with a size only, from the container's type"""
    m = re.search(r"(?:vector|deque|list)<\s*(.*)", s)
    el = m.group(1) if m else ""
    if re.match(r"(const )?std::(vector|deque|list)<", el):
        return mk("empty")
    if re.match(r"(const )?(Eigen::|VectorX|MatrixX)", el):
        return mk("emat")
    if re.match(r"(const )?(std::(__cxx11::)?basic_string|std::string)", el):
        return mk("str", "")
    if re.match(r"(const )?(double|float|int|unsigned|size_t|long|bool|std::size_t)", el):
        return ZERO
    m = re.match(r"(?:const )?std::(?:tuple|pair)(<.*)", el)
    if m:
        import fp
        d, k = 0, 0
        for k, ch in enumerate(m.group(1)):
            d += (ch == "<") - (ch == ">")
            if d == 0:
                break
        a = [default_elem("vector<" + x.strip() + ">") for x in fp.split_targs(m.group(1)[1:k])]
        if all(x.op != "dflt" for x in a):
            return mk("tuple", *a)
    return mk("dflt")


def default_call(I, fn, q, obj, args, e, st):
    ts = [I.asT(a, st) for a in args]
    o = I.asT(obj, st) if obj is not None else None
    pre = ([o] if o is not None else [])
    if q in IMPURE:
        r = mk("call", q, *(pre + ts + [world(I, st, e)]))
        import fp
        I.kinds[r] = fp.kind_of(I.p, fn["rt"])
        I.emit("ext", e, callee=fn, q=q, obj=o, args=tuple(ts), argv=args, objv=obj, result=r)
        return r
    r = mk("call", q, *(pre + ts))
    if r not in I.kinds:
        import fp
        I.kinds[r] = fp.kind_of(I.p, fn["rt"])
    ev = I.emit("ext", e, callee=fn, q=q, obj=o, args=tuple(ts), argv=args, objv=obj, result=r)
    # effects
    k = 0
    for a, p in zip(args, fn["p"]):
        pt = I.T(p["t"])
        if isinstance(a, Ref) and pt.get("ref") and not pt.get("const") and not pt["s"].endswith("&&"):
            havoc_arg(I, st, a, mk("m:" + q, ZERO if k == 0 else const(k), *(pre + ts)), e)
        elif pt.get("ptr") and isinstance(a, T) and a.op == "addr" and not re.match(r"const ", pt["s"]):
            havoc_arg(I, st, Ref(a.args[0], a.args[1]), mk("m:" + q, const(k), *(pre + ts)), e)
        elif isinstance(a, T) and n_(fn) not in READONLY_ALGOS and not re.search(r"\bconst\b", pt["s"].split(",")[0]):
            it = data_iter(a)
            if it.op == "iter" and it.args[0].op == "addr":   # the callee may write through the iterator or pointer
                havoc_arg(I, st, Ref(it.args[0].args[0], it.args[0].args[1]), mk("m:" + q, const(k), *(pre + ts)), e)
        c = a
        if isinstance(c, Ref) and not c.sels:
            c = st.store.get(c.loc)
        if isinstance(c, Closure):
            havoc_closure(I, st, c, mk("m:" + q, const(k), *(pre + ts)), e)
        k += 1
    if obj is not None and fn.get("cls") is not None and not fn.get("const") and not fn.get("sm") and isinstance(obj, Ref):
        rt = I.T(fn["rt"])
        havoc_arg(I, st, obj, mk("o:" + q, *ts), e)
    rt = I.T(fn["rt"])
    if rt.get("b") == "void" and not rt.get("ptr"):
        return mk("opaque", "void")
    if rt.get("ref") and isinstance(obj, Ref) and fn["n"].startswith("operator") and fn["n"] not in ("operator()", "operator[]", "operator*", "operator->"):
        return obj
    return r


# ---- vectors ------------------------------------------------------------------------
def h_vector(I, fn, n, obj, args, e, st):
    isr = isinstance(obj, Ref)

    def cur():
        return I.asT(obj, st)

    def tv(i):
        return I.asT(args[i], st)

    def elem(i):
        if isr:
            return I.deref_chain(st, Ref(obj.loc, obj.sels + (("at", i),)))
        return at(cur(), i)
    if n in ("operator[]", "at"):
        i = tv(0)
        if I.on_index and not I.silent:
            I.on_index(obj, i, st, e, I)
        return elem(i)
    if n == "size":
        return size(cur())
    if n == "empty":
        s = size(cur())
        return eqz(s)
    if n in ("begin", "cbegin"):
        return mkiter(obj, I, st, ZERO)
    if n in ("end", "cend"):
        return mkiter(obj, I, st, size(cur()))
    if n == "back":
        return elem(sub(size(cur()), ONE))
    if n == "front":
        return elem(ZERO)
    if n in ("push_back", "emplace_back"):
        v = I.asT(args[0], st) if args else mk("dflt")
        if len(args) > 1:
            v = mk("tuple", *[I.asT(a, st) for a in args])
        if isr:
            I.write(st, obj, mk("push", cur(), v), e, "push")
        return mk("opaque", "void")
    if n == "pop_back":
        c = cur()
        I.write(st, obj, c.args[0] if c.op == "push" else mk("popped", c), e, "pop")
        return mk("opaque", "void")
    if n == "clear":
        if isr:
            I.write(st, obj, mk("empty"), e, "clear")
        return mk("opaque", "void")
    if n in ("reserve", "shrink_to_fit"):
        return mk("opaque", "void")
    if n == "data":
        if isr:
            o = I.deref_chain(st, obj)
            return mk("data", mk("addr", o.loc, o.sels))
        return mk("data", cur())
    if n == "resize":
        if isr:
            I.write(st, obj, mk("resized", cur(), tv(0), tv(1) if len(args) > 1 else default_elem("vector<" + ((I.p.classes[fn["cls"]].get("ta") or [""])[0] if "cls" in fn else ""))), e, "resize")
        return mk("opaque", "void")
    if n == "erase":
        it = tv(0)
        if isr and it.op == "iter":
            if len(args) == 1:
                I.write(st, obj, mk("erased", cur(), it.args[1]), e, "erase")
            else:
                j = tv(1)
                I.write(st, obj, mk("erasedr", cur(), it.args[1], j.args[1] if j.op == "iter" else j), e, "erase")
            return it
        return None
    if n == "insert":
        it = tv(0)
        if isr and it.op == "iter":
            vs = [I.asT(a, st) for a in args[1:]]
            if len(vs) == 1 and it.args[1] is size(cur()):
                I.write(st, obj, mk("push", cur(), vs[0]), e, "push")
            elif len(vs) == 2 and all(v.op == "iter" for v in vs) and it.args[1] is size(cur()):
                c = iter_cont(vs[0], I, st)
                if vs[0].args[1] is ZERO and vs[1].args[1] is size(c):
                    I.write(st, obj, mk("concat", cur(), c), e, "insert")
                else:
                    I.write(st, obj, mk("inserted", cur(), it, *vs), e, "insert")
            else:
                I.write(st, obj, mk("inserted", cur(), it.args[1], *vs), e, "insert")
            return it
        return None
    if n == "operator=":
        I.write(st, obj, tv(0), e, "=")
        return obj
    if n == "assign":
        if len(args) == 2:
            a, b = data_iter(tv(0), True), data_iter(tv(1), True)
            if a.op == "iter" and b.op == "iter":
                c = iter_cont(a, I, st)
                I.write(st, obj, c if a.args[1] is ZERO and b.args[1] is size(c) else mk("slice", c, a.args[1], b.args[1]), e, "=")
            else:
                I.write(st, obj, mk("vecn", a, b), e, "=")
            return mk("opaque", "void")
    if n == "swap":
        o = args[0]
        if isr and isinstance(o, Ref):
            a, b = cur(), I.asT(o, st)
            I.write(st, obj, b, e, "=")
            I.write(st, o, a, e, "=")
            return mk("opaque", "void")
    if n == "capacity" or n == "max_size":
        return mk("call", "capacity", cur())
    return None


def eqz(s):
    if is_num(s):
        return const(s.args[0] == 0)
    c, d = as_lin(s)
    if c > 0 and all(v > 0 for v in d.values()):
        return FALSE
    return NOT(mk("ipos", s))


# ---- algorithms ----------------------------------------------------------------------
def h_max_element(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op != "iter" or b.op != "iter":
        return None
    c = iter_cont(a, I, st)
    kind = "argmax" if "max" in n else "argmin"
    key = mk("nokey")
    if len(args) > 2:
        # comparator: evaluated once over two symbolic elements
        x, y = mk("sym", "cmp#a"), mk("sym", "cmp#b")
        key = eval_pure(I, args[2], [x, y], e, st)
    return mk("iter", a.args[0], mk(kind, c, a.args[1], b.args[1], key))


def eval_pure(I, f, xs, e, st):
    """value of a callable on symbolic arguments, effects discarded"""
    s2 = st.copy()
    ex = I.exits
    I.exits = []
    I.silent += 1
    try:
        v = callv(I, f, list(xs), e, s2)
        return I.asT(v, s2)
    finally:
        I.silent -= 1
        I.exits = ex


def h_distance(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    return IM.iter_op("-", b, a)


def out_iter_write(I, st, it, off, v, node):
    if it.op == "iter" and it.args[0].op == "addr":
        c = it.args[0]
        I.write(st, Ref(c.args[0], c.args[1] + (("at", add(it.args[1], off)),)), v, node, "algo")
        return True
    if it.op == "backins":
        r = Ref(it.args[0].args[0], it.args[0].args[1])
        I.write(st, r, mk("push", I.asT(r, st), v), node, "push")
        return True
    return False


def h_transform(I, fn, n, obj, args, e, st):
    ts = [I.asT(a, st) if not isinstance(a, (Closure, FnV)) else a for a in args]
    a, b = ts[0], ts[1]
    if a.op != "iter" or b.op != "iter":
        return None
    binary = len(args) == 5
    out = ts[3] if binary else ts[2]
    f = args[4] if binary else args[3]
    if out.op not in ("iter", "backins"):
        return None
    cnt = sub(b.args[1], a.args[1])
    hint = None

    def body(i, x):
        el = iter_elem(I, x, itadd(a, i))
        xs = [el]
        if binary:
            xs.append(iter_elem(I, x, itadd(ts[2], i)))
        v = I.asT(callv(I, f, xs, e, x), x)
        out_iter_write(I, x, out, i, v, e)
    seq_loop(I, e, st, cnt, body)
    return itadd(out, cnt) if out.op == "iter" else out


def h_for_each(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op != "iter" or b.op != "iter":
        return None

    def body(i, x):
        callv(I, args[2], [iter_elem(I, x, itadd(a, i))], e, x)
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), body, par="parallel" in n)
    return mk("opaque", "void")


def h_fill(I, fn, n, obj, args, e, st):
    a, b, v = [I.asT(x, st) for x in args[:3]]
    if a.op != "iter" or b.op != "iter":
        return None
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), lambda i, x: out_iter_write(I, x, a, i, v, e))
    return mk("opaque", "void")


def h_generate(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op not in ("iter", "backins") or n == "generate" and b.op != "iter":
        return None
    cnt = sub(b.args[1], a.args[1]) if n == "generate" else b
    seq_loop(I, e, st, cnt, lambda i, x: out_iter_write(I, x, a, i, I.asT(callv(I, args[2], [], e, x), x), e))
    return mk("opaque", "void") if n == "generate" else itadd(a, cnt)


def h_iota(I, fn, n, obj, args, e, st):
    a, b, v = [I.asT(x, st) for x in args[:3]]
    if a.op != "iter" or b.op != "iter":
        return None
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), lambda i, x: out_iter_write(I, x, a, i, add(v, i), e))
    return mk("opaque", "void")


def h_fill_n(I, fn, n, obj, args, e, st):
    a, c, v = [I.asT(x, st) for x in args[:3]]
    if a.op not in ("iter", "backins"):
        return None
    seq_loop(I, e, st, c, lambda i, x: out_iter_write(I, x, a, i, v, e))
    return itadd(a, c) if a.op == "iter" else a


def h_count(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op != "iter" or b.op != "iter":
        return None
    acc = (("L", I.fr.id, ("cnt", id(e))),)
    st.store[acc] = ZERO

    def body(i, x):
        el = iter_elem(I, x, itadd(a, i))
        c = eq(I.asT(el, x), I.asT(args[2], x)) if n == "count" else IM.tobool(I.asT(callv(I, args[2], [el], e, x), x))

        def hit(y):
            I.record_write(acc)
            y.store[acc] = add(I.readloc(y, acc), ONE)
        I.branch(e, c, x, hit, lambda y: None)
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), body)
    return st.store.pop(acc)


def h_inner_product(I, fn, n, obj, args, e, st):
    a, b, c = [I.asT(x, st) for x in args[:3]]
    if a.op != "iter" or b.op != "iter" or c.op != "iter" or len(args) > 4:
        return None
    acc = (("L", I.fr.id, ("ip", id(e))),)
    st.store[acc] = I.asT(args[3], st)

    def body(i, x):
        v = add(I.readloc(x, acc), mul(I.asT(iter_elem(I, x, itadd(a, i)), x), I.asT(iter_elem(I, x, itadd(c, i)), x)))
        I.record_write(acc)
        x.store[acc] = v
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), body)
    return st.store.pop(acc)


def h_copy(I, fn, n, obj, args, e, st):
    a, b, o = [I.asT(x, st) for x in args[:3]]
    if a.op != "iter" or b.op != "iter" or o.op not in ("iter", "backins"):
        return None
    cnt = sub(b.args[1], a.args[1])
    seq_loop(I, e, st, cnt, lambda i, x: out_iter_write(I, x, o, i, I.asT(iter_elem(I, x, itadd(a, i)), x), e))
    return itadd(o, cnt) if o.op == "iter" else o


def h_accumulate(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op != "iter" or b.op != "iter":
        return None
    acc = (("L", I.fr.id, ("acc", id(e))),)
    st.store[acc] = I.asT(args[2], st)

    def body(i, x):
        el = iter_elem(I, x, itadd(a, i))
        cur = I.readloc(x, acc)
        if len(args) > 3:
            v = I.asT(callv(I, args[3], [cur, el], e, x), x)
        else:
            v = add(cur, I.asT(el, x))
        I.record_write(acc)
        x.store[acc] = v
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), body)
    return st.store.pop(acc)


def h_anyof(I, fn, n, obj, args, e, st):
    a, b = I.asT(args[0], st), I.asT(args[1], st)
    if a.op != "iter" or b.op != "iter":
        return None
    loc = (("L", I.fr.id, ("any", id(e))),)
    end = mk("iter", b.args[0], b.args[1])
    st.store[loc] = {"any_of": FALSE, "all_of": TRUE, "none_of": TRUE}.get(n, end)

    def body(i, x):
        el = iter_elem(I, x, itadd(a, i))
        if n == "find":
            c = eq(I.asT(el, x), I.asT(args[2], x))
        else:
            c = IM.tobool(I.asT(callv(I, args[2], [el], e, x), x))
        if n == "all_of" or n == "find_if_not":
            c = NOT(c)

        def hit(y):
            I.record_write(loc)
            y.store[loc] = {"any_of": TRUE, "all_of": FALSE, "none_of": FALSE}.get(n, itadd(a, i))
            I.exits.append(("break", y.copy(), e))
            y.dead = True
        I.branch(e, c, x, hit, lambda y: None)
    seq_loop(I, e, st, sub(b.args[1], a.args[1]), body)
    return st.store.pop(loc, mk("opaque", n))


def functor_arg(I, e, i, a, st):
    """a function object handed over by value: keep the class that says what calling it does"""
    xs = e.get("a") or []
    if isinstance(a, Ref) and (a.sels or len(a.loc) != 1 or isinstance(st.store.get(a.loc), (Closure, FnV, Ref)) or I.loc_class(a) is not None):
        return a
    if i >= len(xs) or not xs[i] or isinstance(a, T) and a.op in ("iter", "addr", "c", "lin", "init"):
        return a
    rid = I.T(xs[i].get("t", -1)).get("rid")
    if rid is None or not any(m.get("body") for m in I.p.methods(rid, "operator()")):
        return a
    if isinstance(a, Ref):
        I.rootcls[a.loc[0]] = rid
        return a
    loc = (("fct", I.fr.id, id(e), i),)
    I.record_write(loc)
    st.store[loc] = a
    I.rootcls[loc[0]] = rid
    return Ref(loc)


def as_column(I, fn, v):
    """a row of column reductions stored as a column vector"""
    if v.op.startswith("E.vw.") and v.args[0].op == "vw" and v.args[0].args[0] == "colwise" and "cls" in fn:
        ta = I.p.classes[fn["cls"]].get("ta") or []
        if any(ta[k:k + 3] == ["double", "-1", "1"] for k in range(len(ta))):
            return transpose(v)
    return v


def data_iter(t, values=False):
    """a pointer into the storage of a container (with values, also of one known only by its value), as an iterator"""
    if t.op == "data" and (values or t.args[0].op == "addr"):
        return mk("iter", t.args[0], ZERO)
    if t.op == "lin":
        ds = [(x, c) for x, c in t.args[1] if x.op == "data" and (values or x.args[0].op == "addr")]
        if len(ds) == 1 and ds[0][1] == 1:
            return mk("iter", ds[0][0].args[0], sub(t, ds[0][0]))
    return t


def h_sort(I, fn, n, obj, args, e, st):
    a, b = data_iter(I.asT(args[0], st)), data_iter(I.asT(args[1], st))
    if a.op != "iter" or b.op != "iter" or a.args[0].op != "addr":
        return None
    r = Ref(a.args[0].args[0], a.args[0].args[1])
    old = I.asT(r, st)
    full = a.args[1] is ZERO and b.args[1] in (size(old), esize(old))
    if "shuffle" in n:
        v = mk("permuted", old, world(I, st, e), a.args[1], b.args[1])
    else:
        key = mk("nokey")
        k = 3 if n == "partial_sort" else 2
        if len(args) > k:
            key = eval_pure(I, args[k], [mk("sym", "cmp#a"), mk("sym", "cmp#b")], e, st)
        elif n == "partial_sort":
            pass
        v = mk("sorted", old, key) if full and n != "partial_sort" else mk("sorted", old, key, a.args[1], b.args[1], *([I.asT(args[2], st)] if n == "partial_sort" else []))
    I.emit("ext", e, callee=fn, q="std::" + n, obj=None, args=tuple(I.asT(x, st) for x in args[:2]), argv=args, result=v)
    I.write(st, r, v, e, "sort")
    return mk("opaque", "void")


def h_minmax(I, fn, n, obj, args, e, st):
    a = [I.asT(x, st) for x in args]
    if len(a) == 2:
        return f_max(a[0], a[1]) if n == "max" else f_min(a[0], a[1])
    return None


def h_tie(I, fn, n, obj, args, e, st):
    return mk("tie", *[mk("addr", I.deref_chain(st, a).loc, I.deref_chain(st, a).sels) if isinstance(a, Ref) else I.asT(a, st) for a in args])


def h_tuple_assign(I, fn, n, obj, args, e, st):
    v = I.asT(args[0], st)
    o = I.asT(obj, st)
    if o.op == "tie":
        for k, x in enumerate(o.args):
            if x.op == "addr":
                I.write(st, Ref(x.args[0], x.args[1]), get(v, k), e, "=")
        return obj
    if isinstance(obj, Ref):
        I.write(st, obj, v, e, "=")
        return obj
    return None


def h_pair_assign(I, fn, n, obj, args, e, st):
    if isinstance(obj, Ref):
        I.write(st, obj, I.asT(args[0], st), e, "=")
        return obj
    return None


def h_make_tuple(I, fn, n, obj, args, e, st):
    return mk("tuple", *[I.asT(a, st) for a in args])


def h_get(I, fn, n, obj, args, e, st):
    ta = fn.get("ta") or []
    k = None
    for x in ta:
        m = re.match(r"^(\d+)[uUlL]*$", str(x))
        if m:
            k = int(m.group(1))
            break
    if k is None:
        return None
    a = args[0]
    if isinstance(a, Ref):
        v = I.asT(a, st)
        if v.op == "tie":
            return Ref(v.args[k].args[0], v.args[k].args[1])
        return I.deref_chain(st, Ref(a.loc, a.sels + (("get", k),)))
    return get(I.asT(a, st), k)


def h_ident(I, fn, n, obj, args, e, st):
    return args[0]


def h_swap(I, fn, n, obj, args, e, st):
    a, b = args[0], args[1]
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = I.asT(a, st), I.asT(b, st)
        I.write(st, a, y, e, "=")
        I.write(st, b, x, e, "=")
        return mk("opaque", "void")
    return None


def h_math(I, fn, n, obj, args, e, st):
    nm = PURE_FREE[short(fn["q"])]
    ts = [I.asT(a, st) for a in args]
    if nm == "sqrt":
        return f_sqrt(ts[0])
    if nm == "isnan":
        return f_isnan(ts[0])
    if nm == "isinf":
        return f_isinf(ts[0])
    if nm == "isfinite":
        return f_isfinite(ts[0])
    if nm == "exp" and ts[0] is ZERO:
        return ONE
    if nm in ("round", "floor", "ceil") and IM.isinttype(ts[0]):
        return ts[0]
    return mk(nm, *ts)


def h_pow(I, fn, n, obj, args, e, st):
    return f_pow(I.asT(args[0], st), I.asT(args[1], st))


def h_limits(I, fn, n, obj, args, e, st):
    c = I.p.classes[fn["cls"]] if "cls" in fn else {}
    ta = (c.get("ta") or ["?"])[0]
    return mk("limit", n, str(ta))


# ---- optional / pointers ---------------------------------------------------------------
def h_optional(I, fn, n, obj, args, e, st):
    if n in ("is_initialized", "operator bool", "has_value", "operator!"):
        v = I.asT(obj, st)
        r = optinit(v)
        return NOT(r) if n == "operator!" else r
    if n in ("get", "operator*", "value"):
        if isinstance(obj, Ref):
            return I.deref_chain(st, Ref(obj.loc, obj.sels + (("opt",),)))
        return optget(I.asT(obj, st))
    if n == "operator->":
        if isinstance(obj, Ref):
            r = I.deref_chain(st, Ref(obj.loc, obj.sels + (("opt",),)))
            return mk("addr", r.loc, r.sels)
    if n == "operator=":
        p = I.T(fn["p"][0]["t"])
        v = I.asT(args[0], st)
        if not p.get("rec", "").startswith("boost::optional"):
            v = mk("some", v) if "none" not in p["s"] else mk("none")
        I.write(st, obj, v, e, "=")
        return obj
    return None


def optinit(v):
    if v.op == "none":
        return FALSE
    if v.op == "some":
        return TRUE
    if v.op == "ite":
        return ite(v.args[0], optinit(v.args[1]), optinit(v.args[2]))
    return mk("isset", v)


def optget(v):
    if v.op == "some":
        return v.args[0]
    if v.op == "ite":
        return ite(v.args[0], optget(v.args[1]), optget(v.args[2]))
    return mk("optget", v)


REBUILD["isset"] = optinit

REBUILD["optget"] = optget


def h_ptr(I, fn, n, obj, args, e, st):
    if n in ("operator*", "operator->", "get"):
        v = I.asT(obj, st)
        if v.op == "addr":
            r = Ref(v.args[0], v.args[1])
        else:
            r = Ref((("P", v),))
        if n == "operator*":
            return r
        return mk("addr", r.loc, r.sels)
    if n == "operator bool":
        v = I.asT(obj, st)
        return NOT(eq(v, mk("null"))) if v.op != "addr" else TRUE
    if n in ("operator=", "reset"):
        if isinstance(obj, Ref):
            I.write(st, obj, I.asT(args[0], st) if args else mk("null"), e, "=")
            return obj
    return None


def h_make_shared(I, fn, n, obj, args, e, st):
    ts = [I.asT(a, st) for a in args]
    w = world(I, st, e)
    r = mk("newobj", q_of(I, fn), w, *ts)
    I.emit("ext", e, callee=fn, q="std::make_shared", obj=None, args=tuple(ts), argv=args, result=r)
    return r


def q_of(I, fn):
    ta = fn.get("ta") or ["?"]
    return str(ta[0])


# ---- iterators --------------------------------------------------------------------------
def h_iterator(I, fn, n, obj, args, e, st):
    if n in ("operator*",):
        v = I.asT(obj, st)
        if v.op == "iter":
            return I.iter_deref(v, st)
        return I.deref(v, st)
    if n == "operator->":
        v = I.asT(obj, st)
        if v.op == "iter":
            r = I.iter_deref(v, st)
            return mk("addr", r.loc, r.sels) if isinstance(r, Ref) else mk("addrof", r)
        return v
    if n in ("operator++", "operator--"):
        if isinstance(obj, Ref):
            old = I.asT(obj, st)
            I.write(st, obj, itadd(old, ONE if n == "operator++" else const(-1)), e, n)
            return old if args else obj
    if n in ("operator+", "operator-", "operator==", "operator!=", "operator<"):
        xs = ([obj] if obj is not None else []) + list(args)
        a, b = [I.asT(x, st) for x in xs[:2]]
        return IM.iter_op(n[8:], a, b)
    if n in ("operator+=", "operator-="):
        old = I.asT(obj, st)
        d = I.asT(args[0], st)
        I.write(st, obj, itadd(old, d if n == "operator+=" else neg(d)), e, n)
        return obj
    if n == "operator[]":
        v = I.asT(obj, st)
        if v.op == "iter":
            return I.iter_deref(itadd(v, I.asT(args[0], st)), st)
    if n == "base":
        return obj
    return None


# ---- Eigen -----------------------------------------------------------------------------
def etype(I, e):
    return I.T(e.get("t", -1)) if e else {}


def opnds(e):
    xs = []
    if e.get("obj"):
        xs.append(e["obj"])
    return xs + list(e.get("a", ()))


def ewise(op, a, b):
    return mk("ew" + op, a, b)


def escalar_or(I, e, k):
    os = opnds(e)
    if k < len(os):
        return is_scalar(I.T(os[k].get("t", -1)))
    return False


def mmul(a, b):
    # pull numeric scalars out
    s = Fraction(1)
    for t in (a, b):
        pass
    return mk("mm", a, b)


def is_perm(I, e, k):
    os = opnds(e)
    return k < len(os) and I.T(os[k].get("t", -1)).get("rec", "").startswith("Eigen::Permutation")


def perm_mul(I, e, ts):
    p, q = is_perm(I, e, 0), is_perm(I, e, 1)
    return mk("E.perm.compose" if p and q else "permrows" if p else "permcols", *ts)


def h_eigen(I, fn, n, obj, args, e, st):
    q = short(fn["q"])
    cls = q.split("::")[1] if q.count("::") >= 2 else ""
    isr = isinstance(obj, Ref)

    def cur():
        return I.asT(obj, st)

    def tv(i):
        return I.asT(args[i], st)

    def view(s):
        if isr:
            return I.deref_chain(st, Ref(obj.loc, obj.sels + (s,)))
        return I.sel(cur(), s)
    if q.startswith("Eigen::Map::operator") and q.endswith("=") and not isr:
        raise Unsupported("a write through a map over a matrix")
    # --- static factories
    if fn.get("sm"):
        ts = [I.asT(a, st) for a in args]
        if n in ("Zero", "Ones"):
            v = ZERO if n == "Zero" else ONE
            return mk("mconst", ts[0] if ts else mk("ctsize", etype(I, e).get("s", "")), ts[1] if len(ts) > 1 else ONE, v)
        if n == "Constant":
            return mk("mconst", ts[0], ts[1] if len(ts) > 2 else ONE, ts[-1])
        if n == "Identity":
            return mk("identity", ts[0] if ts else mk("ctsize", etype(I, e).get("s", "")))
        if n == "Map":
            p = ts[0]
            if p.op == "addr" and p.args[1] and p.args[1][-1][0] == "at":
                if len(p.args[1][-1]) == 2 and p.args[1][-1][1] is ZERO:   # &v[0]
                    p = mk("data", mk("addr", p.args[0], p.args[1][:-1]))
                else:
                    r = Ref(p.args[0], p.args[1][:-1])
                    I.write(st, r, mk("modby", "map", I.asT(r, st)), e, "map")
            if p.op == "data":
                b = p.args[0]
                if len(ts) == 3 and is_scalar(I.T(fn["p"][2]["t"])):   # a matrix over the elements, in storage order
                    ta = (I.p.classes[fn["cls"]].get("ta") or []) if "cls" in fn else []
                    lay = re.match(r"Eigen::(?:Matrix|Array)<double, -1, -1(?:, (\d+)[^>]*)?>$", ta[0] if ta else "")
                    if not lay:
                        return mk("emap", *ts)
                    b = I.asT(Ref(b.args[0], b.args[1]), st) if b.op == "addr" else b
                    return transpose(mk("reshaped", b, ts[2], ts[1])) if int(lay.group(1) or 0) & 1 else mk("reshaped", b, ts[1], ts[2])
                if b.op == "addr":
                    r = Ref(b.args[0], b.args[1])
                    if args and len(ts) > 1:
                        I.emit("map", e, ref=r, n=ts[1])
                    return Ref(r.loc, r.sels + (("view", "map"),))
                return b
            return mk("emap", *ts)
        if n == "LinSpaced":
            return mk("linspaced", *ts)
        if n == "Random":
            return mk("call", "Eigen::Random", *(ts + [world(I, st, e)]))
        return mk("E." + n, *ts)
    if fn.get("cls") is None:
        # free operators
        if n == "operator<<":
            return h_ostream(I, fn, n, obj, args, e, st)
        ts = [I.asT(a, st) for a in args]
        if n == "operator*" and any(is_perm(I, e, k) for k in (0, 1)):
            return perm_mul(I, e, ts)
        if n == "operator*":
            return mul(ts[0], ts[1]) if (escalar_or(I, e, 0) or escalar_or(I, e, 1)) else mmul(*ts)
        if n == "operator+":
            a, b = ts
            if escalar_or(I, e, 0):
                a = mk("bcast", a)
            if escalar_or(I, e, 1):
                b = mk("bcast", b)
            return madd(a, b)
        if n == "operator-":
            a, b = ts
            if escalar_or(I, e, 0):
                a = mk("bcast", a)
            if escalar_or(I, e, 1):
                b = mk("bcast", b)
            return madd(a, neg(b))
        if n == "operator/":
            return ewise("/", mk("bcast", ts[0]) if escalar_or(I, e, 0) else ts[0], ts[1])
        return mk("E." + n, *ts)
    if cls in ("PermutationBase", "PermutationMatrix"):   # a permutation is the vector of its indices
        if n == "setIdentity" and isr:
            ts = [I.asT(a, st) for a in args]
            k = ts[0] if ts else esize(cur())
            I.write(st, obj, mk("linspaced", k, ZERO, sub(k, ONE)), e, n)
            return mk("opaque", "void")
        if n == "indices":
            return obj if isr else cur()
        if n in ("size", "rows", "cols"):
            return esize(cur())
        if n == "operator*":
            return perm_mul(I, e, [cur()] + [I.asT(a, st) for a in args])
        if n in ("inverse", "transpose"):
            return mk("perminv", cur())
        if n != "operator=":
            return mk("E.perm." + n, cur(), *[I.asT(a, st) for a in args])
    # --- element access and views
    if n in ("operator()", "operator[]", "coeff", "coeffRef", "x", "y", "z") and cls in ("DenseCoeffsBase", "PlainObjectBase", "Map", "MapBase", "Matrix", "Block", "MatrixBase", "DenseBase"):
        ix = tuple(I.asT(a, st) for a in args)
        if n in ("x", "y", "z"):
            ix = (const("xyz".index(n)),)
        if I.on_index and not I.silent:
            I.on_index(obj, ix, st, e, I)
        return view(("at",) + ix)
    if n == "size":
        return esize(cur())
    if n == "rows":
        return rows(cur())
    if n == "cols":
        return cols(cur())
    if n in ("row", "col"):
        return view((n, tv(0)))
    if n in ("head", "tail", "topRows", "bottomRows", "leftCols", "rightCols", "topLeftCorner", "bottomRightCorner", "topRightCorner", "bottomLeftCorner", "segment", "block", "middleCols", "middleRows"):
        ts = tuple(I.asT(a, st) for a in args)
        if not ts:
            ts = (mk("ctsize", etype(I, e).get("s", "")),)
        return view((n,) + ts)
    if n == "diagonal":
        return view(("diagonal",))
    if n in ("array", "matrix", "noalias", "eval", "derived", "const_cast_derived"):
        if isr:
            return obj
        return cur()
    if n in ("triangularView", "selfadjointView"):
        m = re.search(r", (\d+)(U|u)?>$", etype(I, e).get("s", "").replace("const ", ""))
        md = m.group(1) if m else "?"
        if isr:
            return Ref(obj.loc, obj.sels + (("tri" if n[0] == "t" else "sym", md),))
        return mk("sel", cur(), ("tri" if n[0] == "t" else "sym", md))
    if n in ("transpose", "adjoint"):
        return transpose(cur())
    if n in ("colwise", "rowwise"):
        return mk("vw", n, cur()) if not isr else Ref(obj.loc, obj.sels + (("view2", n),))
    if n == "llt":
        return mk("decomp", "LLT", cur())
    if n in ("lu", "partialPivLu", "fullPivLu", "ldlt", "colPivHouseholderQr", "fullPivHouseholderQr"):
        return mk("decomp", n, cur())
    if n == "matrixL":
        v = cur()
        return mk("chol", v.args[1]) if v.op == "decomp" and v.args[0] in ("LLT",) else mk("E.matrixL", v)
    if n == "matrixLLT":
        return mk("E.matrixLLT", cur())
    if n == "data":
        if isr:
            o = I.deref_chain(st, obj)
            return mk("data", mk("addr", o.loc, o.sels))
        return mk("data", cur())
    # --- assignment
    if n == "operator=":
        v = as_column(I, fn, tv(0))
        if isr:
            I.write(st, obj, v, e, "=")
            return obj
        return None
    if n in ("operator+=", "operator-=", "operator*=", "operator/="):
        if not isr:
            return None
        a, b = cur(), tv(0)
        if a.op == "vw" or (obj.sels and obj.sels[-1][0] == "view2"):
            return None
        sc = escalar_or(I, e, 1)
        if n[8] == "+":
            v = madd(a, mk("bcast", b) if sc else b)
        elif n[8] == "-":
            v = madd(a, neg(mk("bcast", b) if sc else b))
        elif n[8] == "*":
            v = mul(a, b) if sc else (ewise("*", a, b) if cls == "ArrayBase" else mmul(a, b))
        else:
            v = div(a, b) if sc else ewise("/", a, b)
        I.write(st, obj, v, e, n[8:])
        return obj
    if n in ("resize", "conservativeResize"):
        ts = [I.asT(a, st) for a in args]
        if isr:
            c = cur()
            kind = "keep" if n[0] == "c" else "lost"
            base = c if kind == "keep" else mk("emat")
            if len(ts) == 1:
                I.write(st, obj, mk("resized", base, ts[0], mk("uninitm")), e, n)
            elif kind == "lost" and c.op in ("sel", "transp"):
                I.write(st, obj, mk("reshaped", c, ts[0], ts[1]), e, n)   # as many coefficients: kept, in storage order
            else:
                I.write(st, obj, mk("resized2", base, ts[0], ts[1], mk("uninitm")), e, n)
        return mk("opaque", "void")
    if n == "conservativeResizeLike":
        v = tv(0)
        if isr:
            if v.op == "mconst":
                I.write(st, obj, mk("resized2", cur(), v.args[0], v.args[1], v.args[2]), e, n)
            else:
                I.write(st, obj, mk("resizedlike", cur(), v), e, n)
        return mk("opaque", "void")
    if n in ("normalize", "transposeInPlace", "reverseInPlace") and isr and not args:
        c = cur()
        I.write(st, obj, transpose(c) if n[0] == "t" else mk("E.normalized" if n[0] == "n" else "E.reverse", c), e, n)
        return mk("opaque", "void")
    if n in ("setZero", "setOnes", "setConstant", "fill", "setIdentity", "setRandom", "setLinSpaced"):
        if isr:
            ts = [I.asT(a, st) for a in args]
            c = cur()
            if n == "setIdentity":
                v = mk("identity", rows(c)) if not ts else mk("identity", ts[0])
            elif n == "setRandom":
                v = mk("call", "Eigen::Random", world(I, st, e))
            elif n == "setLinSpaced":
                v = mk("linspaced", *ts)
            else:
                sv = ZERO if n == "setZero" else ONE if n == "setOnes" else ts[-1]
                dims = ts[:-1] if n in ("setConstant", "fill") else ts
                v = mk("mconst", dims[0] if dims else rows(c), dims[1] if len(dims) > 1 else (ONE if dims else cols(c)), sv)
            I.write(st, obj, v, e, n)
            return obj
        return None
    if n == "operator<<":
        if isr:
            I.write(st, obj, mk("comma", tv(0)), e, "<<")
            st.store[(("L", I.fr.id, "comma"),)] = Ref(obj.loc, obj.sels)
            return mk("commainit", mk("addr", I.deref_chain(st, obj).loc, I.deref_chain(st, obj).sels))
        return None
    if n == "operator,":
        o = cur()
        while isinstance(o, T) and o.op == "modby":
            o = o.args[1]
        if o.op == "commainit":
            a = o.args[0]
            r = Ref(a.args[0], a.args[1])
            c = I.asT(r, st)
            I.write(st, r, mk("comma", *(c.args + (tv(0),))), e, "<<")
            return o
        return None
    if n == "solveInPlace":
        a = args[0]
        if isinstance(a, Ref):
            I.write(st, a, trisolve(cur(), I.asT(a, st)), e, n)
        return mk("opaque", "void")
    if n == "solve":
        return trisolve(cur(), tv(0))
    # --- arithmetic
    ts = None
    if fn.get("const") or True:
        ts = [I.asT(a, st) for a in args]
        c = cur()
        if cls == "VectorwiseOp":
            if isr and obj.sels and obj.sels[-1][0] == "view2":
                c = mk("vw", obj.sels[-1][1], I.asT(Ref(obj.loc, obj.sels[:-1]), st))
            return mk("E.vw." + n, c, *ts)
        if n == "operator-" and not ts:
            return neg(c)
        if n == "operator+":
            return madd(c, mk("bcast", ts[0]) if escalar_or(I, e, 1) else ts[0])
        if n == "operator-":
            return madd(c, neg(mk("bcast", ts[0]) if escalar_or(I, e, 1) else ts[0]))
        if n == "operator*":
            if escalar_or(I, e, 1) or escalar_or(I, e, 0):
                return mul(c, ts[0])
            if cls == "ArrayBase":
                return ewise("*", c, ts[0])
            return mmul(c, ts[0])
        if n == "operator/":
            if escalar_or(I, e, 1):
                return div(c, ts[0])
            return ewise("/", c, ts[0])
        if n == "cwiseProduct":
            return ewise("*", c, ts[0])
        if n == "cwiseQuotient":
            return ewise("/", c, ts[0])
        if n in ("inverse", "cwiseInverse") and (cls == "ArrayBase" or n == "cwiseInverse"):
            return ewise("/", mk("bcast", ONE), c)
        if n == "inverse":
            return mk("minv", c)
        if n in ("square", "cwiseAbs2", "abs2"):
            return ewise("*", c, c)
        if n in ("exp", "log", "sqrt", "abs", "cwiseAbs", "cwiseSqrt", "tanh", "sin", "cos"):
            return mk("ewf", n.replace("cwise", "").lower(), c)
        if n == "pow":
            if len(ts) == 1 and is_num(ts[0]) and ts[0].args[0] == 2:
                return ewise("*", c, c)
            if len(ts) == 1 and is_num(ts[0]) and ts[0].args[0] == 3:
                return ewise("*", c, ewise("*", c, c))
            return mk("ewpow", c, *ts)
        if n == "norm":
            return f_sqrt(mk("msum", ewise("*", c, c)))
        if n == "squaredNorm":
            return mk("msum", ewise("*", c, c))
        if n == "dot":
            return mk("msum", ewise("*", *sorted((c, ts[0]), key=lambda t: t.id)))
        if n == "sum":
            return mk("msum", c)
        if n == "mean":
            return div(mk("msum", c), esize(c))
        if n == "prod":
            return mk("mprod", c)
        if n in ("maxCoeff", "minCoeff"):
            if args and isinstance(args[0], T) and args[0].op == "addr":
                for k, a in enumerate(args):
                    if isinstance(a, T) and a.op == "addr":
                        I.write(st, Ref(a.args[0], a.args[1]), mk("margmax" if n[1] == "a" else "margmin", c, const(k)), e, n)
            return mk("m" + n, c)
        if n == "trace":
            return mk("trace", c)
        if n in ("operator==", "operator!=") and "Matrix" in fn["q"].rsplit("::", 2)[-2]:
            return mk("E.same", c, *ts) if n == "operator==" else NOT(mk("E.same", c, *ts))
        if n in ("replicate", "format", "cast", "all", "any", "isZero", "hasNaN", "allFinite", "determinant", "reverse", "normalized", "isApprox", "count", "norm", "indices", "operator()", "operator<", "operator>", "operator==", "operator!=", "operator<=", "operator>=", "operator[]", "real", "value", "stableNorm", "cwiseMax", "cwiseMin", "lpNorm"):
            return mk("E." + n, c, *ts)
        if n.startswith("operator") and "double" in n or n == "operator const double":
            return mk("at", c, ZERO) if c.op != "mm" else mk("scal", c)
        if fn.get("const"):
            return mk("E." + n, c, *ts)
    return None


def transpose(a):
    if a.op == "transp":
        return a.args[0]
    if a.op == "lin" and a.args[0] == 0:
        r = ZERO
        for x, c in a.args[1]:
            r = add(r, scale(transpose(x), c))
        return r
    return mk("transp", a)


def trisolve(a, b):
    return mk("trisolve", a, b)


def esize(t):
    o = t.op
    if o == "mu" and t in IM.SHAPE:
        return esize(IM.SHAPE[t])
    if o == "mconst":
        if t.args[1] is ONE:
            return t.args[0]
        return mul(t.args[0], t.args[1])
    if o in ("upd", "mapupd"):
        return esize(t.args[0])
    if o == "resized":
        return t.args[1]
    if o == "comma":
        return const(len(t.args)) if True else mk("size", t)
    if o == "ite":
        return ite(t.args[0], esize(t.args[1]), esize(t.args[2]))
    if o == "lin":
        for x, _ in t.args[1]:
            if x.op not in ("bcast",):
                return esize(x)
    if o == "linspaced":
        return t.args[0]
    if o in ("ew*", "ew/", "ewf", "ewpow"):
        for x in t.args:
            if isinstance(x, T) and x.op != "bcast":
                return esize(x)
    if o == "sel" and t.args[1][0] in ("head", "tail") and len(t.args[1]) == 2:
        return t.args[1][1]
    if o == "sel" and t.args[1][0] == "segment" and len(t.args[1]) == 3:
        return t.args[1][2]
    return size(t)


# ---- streams / strings ---------------------------------------------------------------
def h_ostream(I, fn, n, obj, args, e, st):
    o = obj if obj is not None else args[0]
    v = args[-1] if (obj is not None or len(args) > 1) else None
    vt = I.asT(v, st) if v is not None else mk("opaque", "none")
    I.emit("ext", e, callee=fn, q="stream" + n[8:], obj=I.asT(o, st), args=(vt,), argv=[v], objv=o, result=None)
    if n == "operator>>" and isinstance(v, Ref):
        I.write(st, v, mk("extracted", I.asT(o, st)), e, "ext")
    if isinstance(o, Ref):
        I.write(st, o, mk("written", I.asT(o, st), vt), e, "stream")
    return o


def h_std_op(I, fn, n, obj, args, e, st):
    """free std::operatorX"""
    if n in ("operator<<", "operator>>"):
        return h_ostream(I, fn, n, obj, args, e, st)
    ts = [I.asT(a, st) for a in args]
    if n == "operator+":
        if any(I.T(p["t"]).get("rec", "").startswith("std::basic_string") or "char" in I.T(p["t"])["s"] for p in fn["p"]):
            return strcat(*ts)
        return IM.iter_op("+", *ts) if any(t.op == "iter" for t in ts) else None
    if n in ("operator==", "operator!="):
        r = eq(ts[0], ts[1]) if not (ts[0].op == "iter" or ts[1].op == "iter") else IM.iter_op("==", ts[0], ts[1])
        return r if n == "operator==" else NOT(r)
    if n == "operator-" and any(t.op == "iter" for t in ts):
        return IM.iter_op("-", *ts)
    if n in ("operator<", "operator>", "operator<=", "operator>="):
        return IM.iter_op(n[8:], *ts) if any(t.op == "iter" for t in ts) else mk("cmp" + n[8:], *ts)
    if n == "operator|":
        if len(ts) == 2 and all(t.op == "c" for t in ts):
            return const(int(ts[0].args[0]) | int(ts[1].args[0]))
        return mk("bin|", *ts)
    return None


def strcat(*ts):
    parts = []
    for t in ts:
        for x in (t.args if t.op == "strcat" else (t,)):
            if x.op == "str" and parts and parts[-1].op == "str":
                parts[-1] = mk("str", parts[-1].args[0] + x.args[0])
            elif x.op == "str" and x.args[0] == "":
                continue
            else:
                parts.append(x)
    if not parts:
        return mk("str", "")
    if len(parts) == 1:
        return parts[0]
    return mk("strcat", *parts)


REBUILD["strcat"] = strcat


def h_string(I, fn, n, obj, args, e, st):
    if n in ("c_str", "str", "data"):
        return I.asT(obj, st)
    if n in ("operator=", "assign"):
        if isinstance(obj, Ref):
            I.write(st, obj, I.asT(args[0], st), e, "=")
            return obj
    if n in ("operator+=", "append"):
        if isinstance(obj, Ref):
            I.write(st, obj, strcat(I.asT(obj, st), I.asT(args[0], st)), e, "+=")
            return obj
    if n in ("size", "length"):
        return mk("size", I.asT(obj, st))
    if n == "empty":
        v = I.asT(obj, st)
        return eq(v, mk("str", "")) if v.op != "str" else const(v.args[0] == "")
    if n in ("substr", "find", "rfind", "find_first_of", "find_last_of", "compare") and not any(isinstance(a, Ref) and I.asT(a, st) is None for a in args):
        return mk("strq", n, I.asT(obj, st), *[I.asT(a, st) for a in args])
    return None


def h_to_string(I, fn, n, obj, args, e, st):
    return mk("tostr", I.asT(args[0], st))


# ---- boost::fusion -------------------------------------------------------------------
def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def fusion_elems(I, t):
    """static element types of a boost::fusion::vector"""
    c = I.p.classes[t["rid"]]
    out = []
    for x in (c.get("ta") or []):
        if x.startswith("<") and x.endswith(">"):
            out += split_targs(x[1:-1])
        elif x and not x.startswith("boost::fusion::void_"):
            out.append(x)
    return out


def fusion_apply(I, f, ft, seq, seqt, e, st, acc=None):
    elems = fusion_elems(I, seqt)
    cid = ft.get("rid")
    cands = []
    if isinstance(f, Closure):
        cands = [x for x in I.p.fns if x.get("lam") and x.get("body") is not None and x.get("f") == f.fn.get("f") and x.get("l") == f.fn.get("l") and x["n"] == "operator()"]
    elif cid is not None:
        cands = [m for m in I.p.methods(cid) if m["n"] == "operator()" and m.get("body")]
    for k, el in enumerate(elems):
        item = Ref(seq.loc, seq.sels + (("fel", k),)) if isinstance(seq, Ref) and seq.sels else (Ref(seq.loc + ("#%d" % k,)) if isinstance(seq, Ref) else I.sel(seq, ("fel", k)))
        fn = None
        for m in cands:
            for p in m["p"]:
                pt = I.T(p["t"])
                s = pt["s"].replace("const ", "").replace(" &", "").strip()
                if s == el.replace("const ", "").strip():
                    fn = m
        if fn is None:
            # types are written with different sugar: match by record name
            for m in cands:
                for p in m["p"]:
                    if I.T(p["t"]).get("rec", "?") == el.split("<")[0] and (m.get("ta") is None or True):
                        fn = fn or m
        if fn is None:
            I.notes.add("fusion element %s not resolved" % el)
            I.emit("ext", e, callee=None, q="fusion-elem", obj=None, args=(), argv=[item], result=None)
            if acc is not None:
                acc = mk("call", "fusion-elem", mk("str", el), acc)
            continue
        if acc is None:
            if isinstance(f, Closure):
                I.invoke_callable(f, [item], e, st, fn)
            else:
                I.invoke(fn, f, [item], e, st)
        else:
            a = [acc, item]
            # parameter order decides which is the state
            if isinstance(f, Closure):
                acc = I.asT(I.invoke_callable(f, a, e, st, fn), st)
            else:
                acc = I.asT(I.invoke(fn, f, a, e, st), st)
    return acc


def h_fusion_each(I, fn, n, obj, args, e, st):
    seqt = I.T(fn["p"][0]["t"])
    ft = I.T(fn["p"][1]["t"])
    f = args[1]
    seq = args[0]
    if isinstance(seq, Ref):
        seq = I.deref_chain(st, seq)
    fusion_apply(I, f, ft, seq, seqt, I.pseudo(e, "fusion"), st)
    return mk("opaque", "void")


def h_fusion_acc(I, fn, n, obj, args, e, st):
    seqt = I.T(fn["p"][0]["t"])
    ft = I.T(fn["p"][2]["t"])
    seq = args[0]
    if isinstance(seq, Ref):
        seq = I.deref_chain(st, seq)
    return fusion_apply(I, args[2], ft, seq, seqt, I.pseudo(e, "fusion"), st, acc=I.asT(args[1], st))


# ---- tbb ---------------------------------------------------------------------------------
def h_tbb(I, fn, n, obj, args, e, st):
    q = short(fn["q"])
    if n == "parallel_for":
        ts = [I.asT(a, st) if not isinstance(a, (Closure, FnV)) else a for a in args]
        body_i = len(args) - 1
        bodies = [i for i, a in enumerate(args) if isinstance(a, Closure) or (isinstance(a, Ref) and isinstance(I.read(st, a), Closure)) or (isinstance(a, Ref) and I.T(fn["p"][i]["t"]).get("b") == "rec")]
        if bodies:
            body_i = bodies[0]
        f = args[body_i]
        ft = I.T(fn["p"][body_i]["t"])
        if isinstance(ts[0], T) and ts[0].op == "range":
            r = ts[0]
            I.emit("parbegin", e)

            def b2(i, x):
                callv(I, f, [mk("range", i, add(i, ONE))], e, x, functor_fn(I, ft, 1))
            seq_loop(I, e, st, r.args[1], b2, tag="par", par=True, lo=r.args[0])
            return mk("opaque", "void")
        lo, hi = (ts[0], ts[1])

        step = ts[2] if len(ts) > 3 and isinstance(ts[2], T) else ONE
        if step is not ONE:
            last = mk("idiv", add(sub(hi, lo), sub(step, ONE)), step)
            seq_loop(I, e, st, last, lambda k, x: callv(I, f, [add(lo, mul(k, step))], e, x, functor_fn(I, ft, 1)), tag="par", par=True)
            return mk("opaque", "void")

        def body(i, x):
            callv(I, f, [i], e, x, functor_fn(I, ft, 1))
        seq_loop(I, e, st, hi, body, tag="par", par=True, lo=lo)
        return mk("opaque", "void")
    if n == "parallel_reduce":
        r = I.asT(args[0], st)
        init = I.asT(args[1], st)
        f, red = args[2], args[3]
        se = I.events
        sub_ev = []
        lo = mk("sym", "pr#lo")
        hi = mk("sym", "pr#hi")
        cur = mk("sym", "pr#cur")
        if not I.silent:
            I.events = sub_ev
        bst = st.copy()
        ex = I.exits
        I.exits = []
        if I.on_access:
            reg = IM.Region(e, I.fr.fn)
            reg.idx = (lo, hi)
            I.par.append(reg)
        try:
            bv = I.asT(callv(I, f, [mk("range", lo, hi), cur], e, bst), bst)
        finally:
            if I.on_access:
                I.par.pop()
        rst = st.copy()
        a, b = mk("sym", "pr#a"), mk("sym", "pr#b")
        rv = I.asT(callv(I, red, [a, b], e, rst), rst)
        I.exits = ex
        I.events = se
        res = mk("preduce", r, init, bv, rv)
        I.emit("loop", e, sub=sub_ev, par=True, reduce=True, idx=None, cond=TRUE, mod=[], range=r, init=init, body=bv, red=rv, result=res)
        return res
    if n == "parallel_for_each":
        return h_for_each(I, fn, n, obj, args, e, st)
    if n == "parallel_sort":
        return h_sort(I, fn, "sort", obj, args, e, st)
    if n in ("begin", "end") and "blocked_range" in q:
        v = I.asT(obj, st)
        if v.op == "range":
            return v.args[0] if n == "begin" else v.args[1]
        return None
    if "vector_iterator" in q or n.startswith("operator") and any("vector_iterator" in I.T(p["t"]).get("rec", "") for p in fn["p"]):
        return h_iterator(I, fn, n, obj, args, e, st)
    if "concurrent_vector" in q:
        if n in ("push_back", "emplace_back", "grow_by"):   # safe against itself
            I.quiet += 1
            try:
                return h_vector(I, fn, n, obj, args, e, st)
            finally:
                I.quiet -= 1
        return h_vector(I, fn, n, obj, args, e, st)
    return None


def h_hash(I, fn, n, obj, args, e, st):
    return mk("hash", *[I.asT(a, st) for a in args])


def h_assert(I, fn, n, obj, args, e, st):
    st.dead = True
    return mk("opaque", "noreturn")


def h_bitref(I, fn, n, obj, args, e, st):
    if n == "operator=":
        if isinstance(obj, Ref):
            I.write(st, obj, IM.tobool(I.asT(args[0], st)), e, "=")
            return obj
    if n == "operator bool":
        return IM.tobool(I.asT(obj, st))
    return None


def h_array(I, fn, n, obj, args, e, st):
    return h_vector(I, fn, n, obj, args, e, st)


def h_back_inserter(I, fn, n, obj, args, e, st):
    a = args[0]
    if isinstance(a, Ref):
        a = I.deref_chain(st, a)
        return mk("backins", mk("addr", a.loc, a.sels))
    return None


def h_exc_what(I, fn, n, obj, args, e, st):
    return mk("what", I.asT(obj, st))


def h_beginend(I, fn, n, obj, args, e, st):
    a = args[0]
    if n in ("begin", "cbegin"):
        return mkiter(a, I, st, ZERO)
    if n in ("end", "cend"):
        return mkiter(a, I, st, size(I.asT(a, st)))
    return None


HANDLERS = {
    "std::generate": h_generate, "std::generate_n": h_generate, "std::iota": h_iota, "std::fill_n": h_fill_n, "std::count": h_count, "std::count_if": h_count,
    "std::inner_product": h_inner_product,
    "std::max_element": h_max_element, "std::min_element": h_max_element, "std::distance": h_distance, "std::transform": h_transform,
    "std::for_each": h_for_each, "std::fill": h_fill, "std::copy": h_copy, "std::accumulate": h_accumulate,
    "std::any_of": h_anyof, "std::all_of": h_anyof, "std::none_of": h_anyof, "std::find_if": h_anyof, "std::find": h_anyof, "std::find_if_not": h_anyof,
    "std::sort": h_sort, "std::stable_sort": h_sort, "std::shuffle": h_sort, "std::random_shuffle": h_sort, "std::partial_sort": h_sort, "std::reverse": h_sort,
    "std::max": h_minmax, "std::min": h_minmax, "std::tie": h_tie, "std::tuple::operator=": h_tuple_assign, "std::pair::operator=": h_pair_assign,
    "std::make_tuple": h_make_tuple, "std::make_pair": h_make_tuple, "std::get": h_get, "std::forward": h_ident, "std::move": h_ident, "std::ref": h_ident, "std::cref": h_ident, "std::swap": h_swap,
    "std::iter_swap": None, "pow": h_pow, "std::pow": h_pow,
    "boost::fusion::for_each": h_fusion_each, "boost::fusion::accumulate": h_fusion_acc,
    "std::to_string": h_to_string, "std::make_shared": h_make_shared, "__assert_fail": h_assert, "abort": h_assert, "std::abort": h_assert, "exit": h_assert, "std::back_inserter": h_back_inserter,
    "std::begin": h_beginend, "std::end": h_beginend, "std::cbegin": h_beginend, "std::cend": h_beginend,
}
HANDLERS = {k: v for k, v in HANDLERS.items() if v}
for _k in PURE_FREE:
    HANDLERS[_k] = h_math

PREFIX = [
    ("std::vector::", h_vector), ("std::deque::", h_vector), ("std::list::", h_vector), ("std::array::", h_array), ("std::initializer_list::", h_vector),
    ("std::numeric_limits::", h_limits),
    ("boost::optional", h_optional),
    ("std::__shared_ptr_access", h_ptr), ("std::__shared_ptr::", h_ptr), ("std::shared_ptr::", h_ptr), ("std::unique_ptr::", h_ptr),
    ("__gnu_cxx::__normal_iterator", h_iterator), ("__gnu_cxx::operator", h_iterator), ("__gnu_cxx::", h_iterator),
    ("Eigen::", h_eigen),
    ("tbb::", h_tbb),
    ("std::basic_ostream::operator<<", h_ostream), ("std::basic_istream::operator>>", h_ostream),
    ("std::operator", h_std_op),
    ("std::basic_string::", h_string), ("std::__cxx11::basic_string::", h_string),
    ("std::_Bit_reference", h_bitref),
    ("std::hash::", h_hash),
]
