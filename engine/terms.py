"""Hash-consed value numbers (terms).  Two expressions with the same term have the same
value; the constructors apply a few algebraic normalisations so that equivalent spellings
meet on one node."""
from fractions import Fraction

_table = {}


class T:
    __slots__ = ("op", "args", "id", "_fv")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        t._fv = None
        _table[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth == 0:
        return "..."
    if t.op == "c":
        return str(t.args[0])
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "lin":
        s = []
        if t.args[0] != 0:
            s.append(str(t.args[0]))
        for (x, c) in t.args[1]:
            s.append((("" if c == 1 else str(c) + "*")) + show(x, depth - 1))
        return "(" + " + ".join(s) + ")"
    return t.op + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"


def const(v):
    if isinstance(v, bool):
        return mk("c", v, "bool")
    if isinstance(v, (int, Fraction)):
        v = Fraction(v)
        return mk("c", v)
    return mk("c", v)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def sym(n):
    return mk("sym", n)


def is_num(t):
    return t.op == "c" and isinstance(t.args[0], Fraction)


def cval(t):
    return t.args[0] if t.op == "c" else None


# ---- linear arithmetic ---------------------------------------------------------
def as_lin(t):
    if is_num(t):
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def from_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    for k, v in db.items():
        da[k] = da.get(k, Fraction(0)) + v
    return from_lin(ca + cb, da)


def scale(a, s):
    if s == 0:
        return ZERO
    c, d = as_lin(a)
    return from_lin(c * s, {k: v * s for k, v in d.items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_num(a):
        return scale(b, a.args[0])
    if is_num(b):
        return scale(a, b.args[0])
    fs = {}
    coef = Fraction(1)
    for t in (a, b):
        if t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1:
            (x, c), = t.args[1]
            coef *= c
            t = x
        if t.op == "mul":
            for x, e in t.args[0]:
                fs[x] = fs.get(x, 0) + e
        else:
            fs[t] = fs.get(t, 0) + 1
    fs = {k: v for k, v in fs.items() if v != 0}
    if not fs:
        return const(coef)
    if len(fs) == 1 and list(fs.values())[0] == 1:
        r = list(fs)[0]
    else:
        r = mk("mul", tuple(sorted(fs.items(), key=lambda kv: kv[0].id)))
    return scale(r, coef)


def inv(a):
    if is_num(a) and a.args[0] != 0:
        return const(1 / a.args[0])
    coef = Fraction(1)
    if a.op == "lin" and a.args[0] == 0 and len(a.args[1]) == 1:
        (x, c), = a.args[1]
        coef = c
        a = x
    if a.op == "mul":
        fs = {k: -v for k, v in a.args[0]}
    else:
        fs = {a: -1}
    if len(fs) == 1 and list(fs.values())[0] == 1:
        r = list(fs)[0]
    else:
        r = mk("mul", tuple(sorted(fs.items(), key=lambda kv: kv[0].id)))
    return scale(r, 1 / coef)


def div(a, b):
    if is_num(b) and b.args[0] == 0:
        return mk("fdiv0", a)
    return mul(a, inv(b))


# ---- booleans --------------------------------------------------------------------
def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def AND(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            out.append(y)
    for y in out:
        if NOT(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.id))


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in xs]))


def lt(a, b, isint=False):
    if is_num(a) and is_num(b):
        return const(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    if isint:
        # canonical: lti(0, b - a) with unit gcd left alone
        d = sub(b, a)
        if is_num(d):
            return const(d.args[0] > 0)
        return mk("ipos", d)  # d > 0
    return mk("lt", a, b)


def le(a, b, isint=False):
    if is_num(a) and is_num(b):
        return const(a.args[0] <= b.args[0])
    if isint:
        # b - a >= 0  <=>  b - a + 1 > 0
        return lt(a, add(b, ONE), True)
    if a is b:
        return mk("notnan", a)
    return mk("le", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return const(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    # booleans: x == true / x == false
    for x, y in ((a, b), (b, a)):
        if y is TRUE:
            return x
        if y is FALSE:
            return NOT(x)
    return mk("eq", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# ---- traversal ------------------------------------------------------------------
def children(t):
    """all sub-terms, flattening tuples"""
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for a in t.args:
        rec(a)
    return out


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def mentions(t, x):
    for y in subterms(t):
        if y is x:
            return True
    return False


REBUILD = {}


def rebuild(op, args):
    """re-run the smart constructor after a substitution"""
    if op == "lin":
        r = const(args[0])
        for x, c in args[1]:
            r = add(r, scale(x, c))
        return r
    if op == "mul":
        r = ONE
        for x, e in args[0]:
            for _ in range(abs(e)):
                r = mul(r, x) if e > 0 else mul(r, inv(x))
        return r
    if op == "and":
        return AND(*args)
    if op == "not":
        return NOT(args[0])
    if op == "ipos":
        if is_num(args[0]):
            return const(args[0].args[0] > 0)
        return mk("ipos", args[0])
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "ite":
        return ite(*args)
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def subst(t, m, memo=None):
    """m: dict T -> T"""
    if memo is None:
        memo = {}

    def rec(x):
        if isinstance(x, T):
            r = m.get(x)
            if r is not None:
                return r
            r = memo.get(x)
            if r is not None:
                return r
            if not x.args or x.op in ("c", "sym"):
                memo[x] = x
                return x
            na = tuple(rec(a) for a in x.args)
            if na == x.args:
                r = x
            else:
                r = rebuild(x.op, na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    return rec(t)


def transform(t, fn, memo=None):
    """bottom-up rewrite: fn(node) after children are rebuilt"""
    if memo is None:
        memo = {}

    def rec(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None:
                return r
            if not x.args or x.op in ("c", "sym"):
                y = x
            else:
                na = tuple(rec(a) for a in x.args)
                y = x if na == x.args else rebuild(x.op, na)
            r = fn(y)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    return rec(t)
